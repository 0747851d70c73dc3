// cross-algorithm agreement, reflection symmetry and degenerate values
#include "algos.hpp"
extern "C" void sym_harness()
{
    int n = sym_param("n", 2), mode = sym_param("mode", 0), K = sym_param("levels", 0);
    vector<double> b, B;
    if (K == 0) {
        b = sym_bounds("b", n);
        if (mode == 2 || mode == 3) B = sym_bounds("B", n);
    } else {
        Levels L = sym_levels(K);
        vector<int> lb, ub;
        level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub);
        b = at_levels(L, lb); B = at_levels(L, ub);
    }
    vector<double> zeros(n, 0.0), ones(n, 1.0);
    if (mode == 0) { // a lower boundary alone: five ways of computing the same number
        double r = call_ecdf2(b, ones, 0);
        sym_assert_eq(call_ecdf2(b, ones, 1), r, "fft variant agrees with cubic variant (lower)");
        sym_assert_eq(call_one(OP_NEW_b, b), r, "new one-sided agrees with two-sided (lower)");
        sym_assert_eq(call_one(OP_MNS_b, b), r, "mns one-sided agrees with two-sided (lower)");
        vector<double> rb = reflect(b);
        sym_assert_eq(call_one(OP_NEW_B, rb), r, "new one-sided is reflection symmetric");
        sym_assert_eq(call_one(OP_MNS_B, rb), r, "mns one-sided is reflection symmetric");
    } else if (mode == 1) { // an upper boundary alone
        vector<double> &U = K ? B : b;
        double r = call_ecdf2(zeros, U, 0);
        sym_assert_eq(call_ecdf2(zeros, U, 1), r, "fft variant agrees with cubic variant (upper)");
        sym_assert_eq(call_one(OP_NEW_B, U), r, "new one-sided agrees with two-sided (upper)");
        sym_assert_eq(call_one(OP_MNS_B, U), r, "mns one-sided agrees with two-sided (upper)");
    } else if (mode == 2) { // reflection X -> 1-X of both boundaries, cubic against fft variant
        double r = call_ecdf2(b, B, 0);
        sym_assert_eq(call_ecdf2(b, B, 1), r, "fft variant agrees with cubic variant");
        sym_assert_eq(call_ecdf2(reflect(B), reflect(b), 0), r, "cubic variant is reflection symmetric");
        sym_assert_eq(call_ecdf2(reflect(B), reflect(b), 1), r, "fft variant is reflection symmetric");
    } else { // trivial and infeasible boundaries
        for (int fft = 0; fft < 2; ++fft) sym_assert_eq(call_ecdf2(zeros, ones, fft), 1.0, "no constraint has probability one");
        for (int op = OP_NEW_b; op <= OP_MNS_B; ++op) sym_assert_eq(call_one(op, op_lower(op) ? zeros : ones), 1.0, "no constraint has probability one (one-sided)");
        bool infeasible = false;
        for (int i = 0; i < n; ++i) if (b[i] > B[i]) infeasible = true;
        if (!infeasible) sym_discard();
        sym_assert_eq(call_ecdf2(b, B, 0), 0.0, "crossed boundaries have probability zero");
        sym_assert_eq(call_ecdf2(b, B, 1), 0.0, "crossed boundaries have probability zero (fft)");
    }
    sym_reach("result");
}
