// boundary validation, bit by bit: every vector of IEEE doubles is accepted exactly if it is a valid boundary
#include "algos.hpp"
#include "common.hh"
#include <stdexcept>
#include <string>
static int valid(const vector<double> &v)
{
    int ok = 1;
    for (size_t i = 0; i < v.size(); ++i) ok &= sym_fp_cmp(3, v[i], i ? v[i-1] : 0.0); // ordered and >=
    if (v.size()) ok &= sym_fp_cmp(5, v.back(), 1.0);                                   // ordered and <=
    return ok;
}
static vector<double> arbitrary(const char *name, int n, int sparse)
{
    vector<double> v;
    int at = sparse ? sym_choice(name, n < sparse ? n : sparse) : -1;
    if (sparse && n > sparse) { int pos[] = {0, 1, 2, n / 2, n - 3, n - 2, n - 1}; at = pos[at % 7]; }
    for (int i = 0; i < n; ++i) v.push_back(!sparse || i == at ? sym_bits_double((name + std::to_string(i)).c_str()) : (double)(i + 1) / 4096.0);
    return v;
}
extern "C" void sym_harness()
{
    int op = sym_param("op", -1), n = sym_param("n", 2), m = sym_param("m", n), sparse = sym_param("sparse", 0);
    vector<double> v = arbitrary("v", n, sparse);
    bool threw = false;
    if (op < 0) {
        int ok = valid(v);
        sym_rec_begin("check");
        sym_rec_int("n", m);
        sym_rec_vec("v", v.data(), v.size());
        try { check_boundary_vector("b", m, v); } catch (std::exception &) { threw = true; }
        sym_reach("result");
        if (n != m) ok = 0;
        if (threw) sym_assert_true(!ok, "a valid vector is accepted"); else { sym_assert_true(ok, "an invalid vector is rejected"); sym_reach("accepted"); }
        return;
    }
    int ok = valid(v);
    bool two = op == OP_KS || op == OP_FFT;
    vector<double> w;
    if (two) { w = arbitrary("w", m, sparse); ok &= valid(w); if (n != m) ok = 0; }
    sym_reach("result");
    sym_require_before_arith(ok, "nothing is computed from invalid boundaries");
    try { if (two) call_ecdf2(v, w, op == OP_FFT); else call_one(op, v); } catch (std::exception &) { threw = true; }
    if (threw) sym_assert_true(!ok, "valid boundaries are accepted"); else { sym_assert_true(ok, "invalid boundaries are rejected"); sym_reach("accepted"); }
}
