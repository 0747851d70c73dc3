// repeating a call does not accumulate memory or transform plans, whether it returns or throws
#include "algos.hpp"
#include "cliutil.hpp"
#include "fftwconvolver.hh"
#include "poisson_pmf.hh"
#include "read_boundaries_file.hh"
#include "string_utils.hh"
#include <fcntl.h>
enum { CONVOLVER = OP_COUNT, GENERATOR, FILES, LINE };
struct Call {
    int op, max, size;
    vector<double> b, B;
    std::string text;
    bool run() const
    {
        try {
            if (op == OP_KS || op == OP_FFT) ecdf2(b, B, op == OP_FFT);
            else if (op == OP_NEW_b) ecdf1_new_b(b);
            else if (op == OP_NEW_B) ecdf1_new_B(B);
            else if (op == OP_MNS_b) ecdf1_mns2016_b(b);
            else if (op == OP_MNS_B) ecdf1_mns2016_B(B);
            else if (op == CONVOLVER) {
                FFTWConvolver c(max);
                vector<double> x(size, 1.0), y(size, 1.0), o(size, 0.0);
                for (int i = 0; i < 2; ++i) c.convolve_same_size(size, x.data(), y.data(), o.data());
            } else if (op == GENERATOR) {
                PoissonPMFGenerator g(max);
                g.compute_array(size, b[0]);
            } else if (op == FILES) {
                read_and_check_boundaries_file(text);
            } else read_comma_delimited_doubles(text);
        } catch (std::exception &) { return true; }
        return false;
    }
};
static int files()
{
    int n = 0;
    for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) >= 0;
    return n;
}
static const int SIZES[] = {0, 1, 5, 127, 128, 130, 1024, 1025, 2049};
static const char *LINES[] = {"", "0.5", "0.1,0.2", "0.1, x", "x", "0.1,,0.2", "1e999"};
extern "C" void sym_harness()
{
    Call c;
    int n = sym_param("n", 2), m = sym_param("m", n), any = sym_param("any", 0), K = sym_param("levels", 0);
    c.op = sym_param("op", 0);
    c.max = c.size = 0;
    bool two = c.op == OP_KS || c.op == OP_FFT;
    if (c.op < OP_COUNT) {
        if (K) {
            Levels L = sym_levels(K);
            vector<int> lb, ub;
            level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub, two || op_lower(c.op), two || !op_lower(c.op));
            c.b = at_levels(L, lb);
            c.B = at_levels(L, ub);
        } else if (any) {
            for (int i = 0; i < n; ++i) c.b.push_back(sym_real(("b" + std::to_string(i)).c_str()));
            for (int i = 0; i < (two ? m : n); ++i) if (two) c.B.push_back(sym_real(("B" + std::to_string(i)).c_str()));
            if (!two) c.B = c.b;
        } else {
            c.b = sym_bounds("b", n);
            c.B = two ? sym_bounds("B", n) : c.b;
        }
        if (!two) { if (op_lower(c.op)) c.B.clear(); else c.b.clear(); }
    } else if (c.op == CONVOLVER) {
        c.max = SIZES[1 + sym_choice("max", 8)];
        c.size = SIZES[sym_choice("size", 9)];
        if (c.size > c.max && c.size > 130) c.size = c.max + 1;
    } else if (c.op == GENERATOR) {
        c.max = SIZES[1 + sym_choice("max", 8)];
        c.size = c.max / (1 + sym_choice("part", 3));
        c.b.push_back(sym_real_at("lambda", 1, 2));
    } else if (c.op == FILES) {
        int bad = sym_choice("shape", 9);
        c.text = scratch_file();
        if (bad < 8) { vector<double> x(3, 0.25), y(2, 0.5); write_file(c.text, file_text(x, y, 0, bad)); } else c.text += ".does-not-exist";
        c.size = bad;
    } else c.text = LINES[sym_choice("line", sizeof LINES / sizeof *LINES)];
    sym_rec_begin("repeat");
    sym_rec_int("op", c.op);
    sym_rec_int("max", c.max);
    sym_rec_int("size", c.size);
    sym_rec_vec("b", c.b.data(), c.b.size());
    sym_rec_vec("B", c.B.data(), c.B.size());
    sym_rec_str("text", c.op == LINE ? c.text.c_str() : "");
    bool threw = c.run();
    c.run();
    int before = sym_live(), open = c.op == FILES ? files() : 0;
    long bytes = sym_live_bytes();
    c.run();
    int after = sym_live();
    if (c.op == FILES) open = files() - open;
    long more = sym_live_bytes() - bytes;
    if (c.op == FILES && c.size < 8) unlink(c.text.c_str());
    sym_reach(threw ? "refused" : "result");
    sym_rec_int("left", after - before);
    sym_rec_int("bytes", more);
    sym_assert(after <= before && more <= 0 && open <= 0, threw ? "a call that throws leaves nothing behind" : "a call leaves nothing behind");
}
