// sizes of the convolver, bit-precise: every declared maximum and every requested size
#include <cstdlib>
#include <stdexcept>
#include "common.hpp"
#include "fftwconvolver.hh"
extern "C" void sym_harness()
{
    int top = sym_param("top", 3000), calls = sym_param("calls", 1), low = sym_param("low", 0), over = sym_param("over", 0);
    int max = (int)sym_int("max", 32);
    sym_assume(max >= low);
    sym_assume(max <= top);
    FFTWConvolver c(max);
    int prevsize = 0;
    for (int k = 0; k < calls; ++k) {
        int size = (int)sym_int(k ? "size1" : "size0", 32);
        sym_assume(size >= low);
        if (over) { sym_assume(size > max); } else sym_assume(size <= max);
        if (k) sym_assume(size >= prevsize);
        sym_rec_begin("convolve_size");
        sym_rec_int("max", max);
        sym_rec_int("size", size);
        // arrays of exactly the requested size (of no size at all when the request must be refused)
        double *a = (double *)sym_alloc(over ? (size_t)8 : sizeof(double) * (size_t)size);
        double *b = (double *)sym_alloc(over ? (size_t)8 : sizeof(double) * (size_t)size);
        double *o = (double *)sym_alloc(over ? (size_t)8 : sizeof(double) * (size_t)size);
        int before = sym_fftw_count();
        bool threw = false;
        try { c.convolve_same_size(size, a, b, o); } catch (std::exception &) { threw = true; }
        int after = sym_fftw_count();
        sym_reach(over ? "refused" : after > before ? "fft" : "direct");
        sym_reach("result");
        sym_assert(threw == (over != 0), over ? "a request above the maximum is refused" : "a request up to the maximum is served");
        if (over) { sym_assert(after == before, "nothing is transformed for a refused request"); return; }
        for (int i = before; i < after; ++i) {
            int n = sym_fftw_size(i);
            sym_assert_true(n >= 2 * size - 1, "the transform is long enough for a linear convolution");
        }
        prevsize = size;
    }
}
