// two-sided algorithms against the determinant / level oracle
#include "algos.hpp"
extern "C" void sym_harness()
{
    int n = sym_param("n", 2), fft = sym_param("fft", 0), K = sym_param("levels", 0);
    if (K == 0) {
        vector<double> b = sym_bounds("b", n), B = sym_bounds("B", n);
        double r = call_ecdf2(b, B, fft);
        sym_reach("result");
        sym_assert_eq(r, steck(b, B), "two-sided value equals the determinant");
    } else {
        Levels L = sym_levels(K);
        vector<int> lb, ub;
        level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub);
        double r = call_ecdf2(at_levels(L, lb), at_levels(L, ub), fft);
        sym_reach("result");
        sym_assert_eq(r, level_oracle(L, lb, ub), "two-sided value equals the level recursion");
    }
}
