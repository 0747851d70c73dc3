// a call after other calls (valid ones, ones that throw) returns what it returns on its own
#include "algos.hpp"
#include <cmath>
static void ramp(int n, int shape, vector<double> &b, vector<double> &B)
{
    b.assign(n, 0.0); B.assign(n, 1.0);
    for (int i = 0; i < n; ++i) {
        b[i] = shape == 0 ? i * 0.5 / n : 0.0;
        B[i] = shape == 0 ? 0.5 + (i + 1) * 0.5 / n : (i < n / 10 + 1 ? 0.75 : 1.0);
    }
}
// kind: 0 valid, 1 decreasing, 2 above one, 3 lengths differ (two-sided) or below zero
static void spoil(int kind, vector<double> &v)
{
    if (v.empty()) { v.push_back(2.0); return; }
    if (kind == 1) { v.insert(v.begin(), 0.75); v.push_back(0.25); }
    else v.back() = 1.5;
}
static void some_call(const std::string &tag, const vector<int> &sizes, int kinds)
{
    int op = sym_choice(tag + "op", OP_COUNT), n = sizes[sym_choice(tag + "size", sizes.size())], kind = sym_choice(tag + "kind", kinds);
    bool two = op == OP_KS || op == OP_FFT;
    vector<double> b, B;
    ramp(n, n > 60, b, B);
    if (kind == 3) { B.push_back(two ? 1.0 : -0.5); if (!two) b.push_back(-0.5); }
    else if (kind) { spoil(kind, B); spoil(kind, b); }
    bool threw = false;
    try { call_op(op, b, B); } catch (std::exception &) { threw = true; }
    sym_assert(threw == (kind != 0), "a call throws exactly for invalid boundaries");
}
static vector<int> list(const char *s)
{
    vector<int> v;
    while (*s) { v.push_back(atoi(s)); while (*s && *s != ',') ++s; if (*s) ++s; }
    return v;
}
extern "C" void sym_harness()
{
    int n = sym_param("n", 2), op = sym_param("op", 0), pre = sym_param("pre", 1), mid = sym_param("mid", 0), K = sym_param("levels", 0), kinds = sym_param("kinds", 4);
    vector<int> sizes = list(sym_param_s("sizes", "1,3,18"));
    bool two = op == OP_KS || op == OP_FFT;
    vector<double> b(n, 0.0), B(n, 1.0);
    double want;
    if (K == 0) {
        if (two || op_lower(op)) b = sym_bounds("b", n);
        if (two || !op_lower(op)) B = sym_bounds("B", n);
        want = steck(b, B);
    } else {
        Levels L = sym_levels(K);
        vector<int> lb, ub;
        level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub, two || op_lower(op), two || !op_lower(op));
        for (int i = 0; i < n; ++i) { if (!two && op_lower(op)) ub[i] = K + 1; if (!two && !op_lower(op)) lb[i] = 0; }
        b = at_levels(L, lb);
        B = at_levels(L, ub);
        want = level_oracle(L, lb, ub);
    }
    for (int i = 0; i < pre; ++i) some_call("p" + std::to_string(i), sizes, kinds);
    double r = call_op(op, b, B);
    sym_reach("result");
    sym_assert_eq(r, want, "the value after other calls is the probability");
    for (int i = 0; i < mid; ++i) some_call("m" + std::to_string(i), sizes, kinds);
    if (mid) sym_assert_eq(call_op(op, b, B), r, "the same call repeated later returns the same value");
}
