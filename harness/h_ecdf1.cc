// one-sided algorithms against the determinant / level oracle
#include "algos.hpp"
extern "C" void sym_harness()
{
    int n = sym_param("n", 2), op = sym_param("op", OP_NEW_b), K = sym_param("levels", 0);
    bool lower = op_lower(op);
    if (K == 0) {
        vector<double> v = sym_bounds(lower ? "b" : "B", n);
        double r = call_one(op, v);
        sym_reach("result");
        vector<double> b = lower ? v : vector<double>(n, 0.0), B = lower ? vector<double>(n, 1.0) : v;
        sym_assert_eq(r, steck(b, B), "one-sided value equals the determinant");
    } else {
        Levels L = sym_levels(K);
        vector<int> lb, ub;
        level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub, lower, !lower);
        for (int i = 0; i < n; ++i) { if (lower) ub[i] = K + 1; else lb[i] = 0; }
        double r = call_one(op, at_levels(L, lower ? lb : ub));
        sym_reach("result");
        sym_assert_eq(r, level_oracle(L, lb, ub), "one-sided value equals the level recursion");
    }
}
