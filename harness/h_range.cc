// probabilities lie in [0,1]; relaxing one bound never decreases them
#include "algos.hpp"
extern "C" void sym_harness()
{
    int n = sym_param("n", 2), op = sym_param("op", 0), mono = sym_param("mono", 0);
    bool two = op == OP_KS || op == OP_FFT;
    vector<double> b(n, 0.0), B(n, 1.0);
    int K = sym_param("levels", 0);
    Levels L;
    vector<int> lb, ub;
    if (K) { // bounds on K symbolic levels, in every order (pat < 0) or in one
        L = sym_levels(K);
        level_choice(n, K, sym_param("pat", -1), 0, lb, ub, two || op_lower(op), two || !op_lower(op));
        if (!two && op_lower(op)) ub.assign(n, K + 1);
        if (!two && !op_lower(op)) lb.assign(n, 0);
        b = at_levels(L, lb);
        B = at_levels(L, ub);
    } else {
        if (two || op_lower(op)) b = sym_bounds("b", n);
        if (two || !op_lower(op)) B = sym_bounds("B", n);
    }
    double r = call_op(op, b, B);
    sym_reach("result");
    if (!mono) {
        sym_assert_le(0.0, r, "probability is not negative");
        sym_assert_le(r, 1.0, "probability is not above one");
        return;
    }
    int i = sym_choice("index", n), side = two ? sym_choice("side", 2) : (op_lower(op) ? 0 : 1);
    vector<double> b2 = b, B2 = B;
    if (K) { // to the neighbouring level, with every bound that has to move along
        if (side == 0) {
            if (lb[i] == 0) return;
            --lb[i];
            for (int j = 0; j < i; ++j) lb[j] = std::min(lb[j], lb[i]);
        } else {
            if (ub[i] == K + 1) return;
            ++ub[i];
            for (int j = i + 1; j < n; ++j) ub[j] = std::max(ub[j], ub[i]);
        }
        b2 = at_levels(L, lb);
        B2 = at_levels(L, ub);
        double r2 = call_op(op, b2, B2);
        sym_assert_le(r, r2, "relaxing a bound does not decrease the probability");
        return;
    }
    double x = sym_real("x");
    if (side == 0) { // lower b_i, keeping monotonicity
        sym_assume_le(i ? b[i-1] : 0.0, x);
        sym_assume_le(x, b[i]);
        b2[i] = x;
    } else {
        sym_assume_le(B[i], x);
        sym_assume_le(x, i + 1 < n ? B[i+1] : 1.0);
        B2[i] = x;
    }
    double r2 = call_op(op, b2, B2);
    sym_assert_le(r, r2, "relaxing a bound does not decrease the probability");
}
