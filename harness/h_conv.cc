// the convolver computes the truncated linear convolution for any sequence of sizes
#include "common.hpp"
#include "fftwconvolver.hh"
#include <cstdlib>
static int base(const char *p, int i) { for (; i > 0; --i) { while (*p && *p != ',') ++p; if (*p) ++p; } return atoi(p); }
static int count(const char *p) { int n = 1; for (; *p; ++p) if (*p == ',') ++n; return n; }
static void fill_sym(vector<double> &v, const std::string &nm, int size, int off, int dense)
{
    for (int i = 0; i < size; ++i) {
        bool on = dense || i < 2 || i >= size - 2 || i == size / 2 || i == 127 || i == 511;
        v[off + i] = on ? sym_real((nm + std::to_string(i)).c_str()) : 0.0;
    }
}
extern "C" void sym_harness()
{
    int max = sym_param("max", 8), calls = sym_param("calls", 2), dense = sym_param("dense", 1), over = sym_param("over", 0);
    const char *sizes = sym_param_s("sizes", "0,1,2,3");
    FFTWConvolver c(max);
    if (over) { // larger than declared: rejected with an exception, buffers untouched
        int size = max + over;
        vector<double> a(size, 1.0), b(size, 1.0), o(size, 7.0);
        int thrown = 0;
        sym_rec_begin("convolve");
        sym_rec_int("max", max);
        sym_rec_int("size", size);
        sym_rec_int("off", 0);
        sym_rec_vec("a", a.data(), size);
        sym_rec_vec("b", b.data(), size);
        try { c.convolve_same_size(size, a.data(), b.data(), o.data()); } catch (std::runtime_error &) { thrown = 1; }
        sym_rec_int("threw", thrown);
        sym_assert(thrown, "a size above the declared maximum is rejected");
        for (int i = 0; i < size; ++i) sym_assert_eq(o[i], 7.0, "a rejected call leaves the output alone");
        sym_reach("rejected");
        return;
    }
    for (int k = 0; k < calls; ++k) {
        int size = base(sizes, sym_choice("size" + std::to_string(k), count(sizes))), off = sym_choice("off" + std::to_string(k), 2);
        int two = sym_param("square", 0);
        vector<double> a(size + 2, 0.0), b(size + 2, 0.0), o(size + 3, 7.0);
        fill_sym(a, "a" + std::to_string(k) + "_", size, off, dense);
        if (two) b = a; else fill_sym(b, "b" + std::to_string(k) + "_", size, off, dense);
        vector<double> a0 = a, b0 = b;
        sym_rec_begin("convolve");
        sym_rec_int("max", max);
        sym_rec_int("size", size);
        sym_rec_int("off", off);
        sym_rec_vec("a", &a[off], size);
        sym_rec_vec("b", &b[off], size);
        c.convolve_same_size(size, &a[off], &b[off], &o[off]);
        sym_rec_vec("out", &o[off], size);
        sym_reach(size >= 128 ? "large" : "small");
        vector<int> nz;
        for (int i = 0; i < size; ++i) if (sym_is_symbolic(b0[off + i])) nz.push_back(i);
        vector<double> want(size, 0.0);
        for (int i = 0; i < size; ++i) if (sym_is_symbolic(a0[off + i]))
            for (size_t j = 0; j < nz.size() && i + nz[j] < size; ++j) want[i + nz[j]] = want[i + nz[j]] + a0[off + i] * b0[off + nz[j]];
        int step = size > 300 ? 1 : 1;
        for (int i = 0; i < size; i += step)
            if (sym_is_symbolic(want[i]) || sym_is_symbolic(o[off + i]) || o[off + i] != 0.0) sym_assert_eq(o[off + i], want[i], "output is the linear convolution");
        if (off) sym_assert_eq(o[0], 7.0, "nothing is written before the output");
        for (int i = size + off; i < size + 3; ++i) sym_assert_eq(o[i], 7.0, "nothing is written past the requested size");
        for (int i = 0; i < size + 2; ++i) {
            if (sym_is_symbolic(a0[i]) || sym_is_symbolic(a[i])) sym_assert_eq(a[i], a0[i], "the inputs are preserved");
            if (sym_is_symbolic(b0[i]) || sym_is_symbolic(b[i])) sym_assert_eq(b[i], b0[i], "the inputs are preserved");
        }
    }
}
