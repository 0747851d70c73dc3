// valid boundaries: no abort, no memory error (built with AddressSanitizer, with and without assertions)
#include "algos.hpp"
extern "C" void sym_harness()
{
    int n = sym_param("n", 2), op = sym_param("op", 0), K = sym_param("levels", 0);
    bool two = op == OP_KS || op == OP_FFT;
    vector<double> b(n, 0.0), B(n, 1.0);
    if (K == 0) {
        if (two || op_lower(op)) b = sym_bounds("b", n);
        if (two || !op_lower(op)) B = sym_bounds("B", n);
    } else {
        Levels L = sym_levels(K);
        vector<int> lb, ub;
        level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub, two || op_lower(op), two || !op_lower(op));
        b = at_levels(L, lb);
        B = at_levels(L, ub);
    }
    double r = call_op(op, b, B);
    sym_reach("result");
    sym_assert(r == r, "a value is returned");
}
