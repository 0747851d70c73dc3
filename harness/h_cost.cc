// the work of a call grows with the number of bounds no faster than documented
#include "algos.hpp"
#include "shapes.hpp"
#include <cmath>
static long work(int op, int n, int w, int v, int g, double t, double s)
{
    vector<double> b = shape_lower(n, w, g, t), B = shape_upper(n, v, g, s);
    long before = sym_cost();
    if (op == OP_KS || op == OP_FFT) ecdf2(b, B, op == OP_FFT);
    else if (op == OP_NEW_b) ecdf1_new_b(b);
    else if (op == OP_NEW_B) ecdf1_new_B(B);
    else if (op == OP_MNS_b) ecdf1_mns2016_b(b);
    else ecdf1_mns2016_B(B);
    return sym_cost() - before;
}
extern "C" void sym_harness()
{
    int op = sym_param("op", 0), n = sym_param("n", 256), r = sym_param("r", 8), w = sym_param("w", 2), v = sym_param("v", 2), g = sym_param("g", 1);
    double t = sym_real_at("t", 1, 3), s = sym_real_at("s", 2, 3);
    sym_assume_le(0, t);
    sym_assume_le(t, 1);
    sym_assume_le(0, s);
    sym_assume_le(s, 1);
    sym_rec_begin("growth");
    sym_rec_int("op", op);
    sym_rec_int("w", w);
    sym_rec_int("v", v);
    sym_rec_int("g", g);
    double ts[2] = {t, s};
    sym_rec_vec("shift", ts, 2);
    long limit = sym_param("lim", (long)(op == OP_KS ? r * r * r * 1.5 : op == OP_FFT ? r * r * sqrt((double)r) : r * r * 1.5));
    static const char *WHAT = "the work grows no faster than documented";
    int plans = sym_plan_count();
    long one = work(op, n, w, v, g, t, s);
    plans = sym_plan_count() - plans;
    int kinds = sym_plan_kinds();
    sym_cost_limit(one * limit, WHAT);
    long many = work(op, n * r, w, v, g, t, s);
    sym_rec_int("percent", 100 * many / one);
    sym_reach("result");
    sym_assert(plans <= 3 * kinds + 4, "a transform of one length is not planned again and again");
    sym_assert(many <= one * limit, WHAT);
}
