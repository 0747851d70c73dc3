// the crossprob program: dispatch, implicit boundaries, exit status
#include "cliutil.hpp"
int crossprob_main(int, char **);
static const char *ALG[] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-mns2016", "ecdf1-new", "ecdf2", "ecdf1-New", ""};
static bool valid(const vector<double> &v)
{
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i] < (i ? v[i-1] : 0.0)) return false;
    }
    return v.empty() || v.back() <= 1.0;
}
extern "C" void sym_harness()
{
    int nb = sym_param("nb", 2), nB = sym_param("nB", 2), any = sym_param("any", 0), K = sym_param("levels", 0), argcmode = sym_param("argc", 3);
    int alg = sym_param("alg", -1);
    if (alg < 0) alg = sym_choice("alg", 7);
    std::string file = scratch_file(), out;
    vector<double> b, B;
    Levels L;
    vector<int> lb, ub;
    int n = nb > nB ? nb : nB;
    if (K) {
        L = sym_levels(K);
        level_choice(n, K, sym_param("pat", 1), sym_param("wide", 0), lb, ub);
        if (nb == 0) lb.assign(n, 0);
        if (nB == 0) ub.assign(n, K + 1);
        if (nb) b = at_levels(L, lb);
        if (nB) B = at_levels(L, ub);
    } else if (any) {
        for (int i = 0; i < nb; ++i) b.push_back(sym_real(("b" + std::to_string(i)).c_str()));
        for (int i = 0; i < nB; ++i) B.push_back(sym_real(("B" + std::to_string(i)).c_str()));
    } else {
        b = sym_bounds("b", nb);
        B = sym_bounds("B", nB);
    }
    int style = sym_param("style", -1), bad = sym_param("bad", 0) ? 1 + sym_choice("shape", 7) : 0;
    if (style < 0) style = bad ? 0 : sym_choice("style", 4);
    std::string text = file_text(b, B, style, bad);
    int missing = sym_param("missing", 0);
    if (!missing) write_file(file, text); else file += ".does-not-exist";
    vector<std::string> args;
    args.push_back("crossprob");
    if (argcmode > 1) args.push_back(ALG[alg]);
    if (argcmode > 2) args.push_back(file);
    for (int i = 3; i < argcmode; ++i) args.push_back("extra");
    sym_rec_begin("crossprob");
    sym_rec_str("alg", ALG[alg]);
    sym_rec_vec("b", b.data(), b.size());
    sym_rec_vec("B", B.data(), B.size());
    sym_rec_int("style", style);
    sym_rec_int("argc", argcmode);
    sym_rec_int("missing", missing);
    sym_rec_int("bad", bad);
    int rc;
    rc = run_main(crossprob_main, args, out);
    sym_rec_int("exit", rc);
    unlink(file.c_str());
    double v = 0.0;
    bool isnum = only_number(out, v);
    sym_rec_int("number", isnum);
    if (isnum) sym_rec_out("result", v);
    if (argcmode != 3) {
        sym_assert(rc != 0, "a wrong number of arguments exits with a nonzero status");
        sym_assert(!some_number(out), "no probability is printed on an error");
        sym_reach("usage");
        return;
    }
    bool two = alg < 2;
    bool shape = alg >= 4 ? false : two ? (nb == nB || nb == 0 || nB == 0) : ((nb == 0) != (nB == 0));
    bool ok = !missing && !bad && shape && (!any || (valid(b) && valid(B)));
    if (!ok) {
        sym_assert(rc != 0, "an error exits with a nonzero status");
        sym_assert(!some_number(out), "no probability is printed on an error");
        sym_reach("rejected");
        return;
    }
    sym_assert(rc == 0, "a valid request exits with status 0");
    sym_assert(isnum, "the output is exactly one number");
    if (nb == 0) b.assign(n, 0.0);
    if (nB == 0) B.assign(n, 1.0);
    sym_reach("result");
    sym_assert_eq(v, K ? level_oracle(L, lb, ub) : steck(b, B), "the printed value is the probability of the boundaries in the file");
}
