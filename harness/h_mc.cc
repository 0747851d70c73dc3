// the crossprob_mc program: the estimate is the fraction of simulated samples that stay within the boundaries
#include "cliutil.hpp"
int crossprob_mc_main(int, char **);
static bool crosses(const vector<double> &x, double scale, const vector<double> &b, const vector<double> &B, bool bgiven)
{
    // x_i / scale against the boundaries, without dividing
    if (x.size() < B.size()) return true;
    if (bgiven && x.size() > b.size()) return true;
    for (size_t i = 0; i < B.size(); ++i) if (x[i] > B[i] * scale) return true;
    if (bgiven) for (size_t i = 0; i < x.size(); ++i) if (x[i] < b[i] * scale) return true;
    return false;
}
// the number of simulations inside the boundaries, -1 if the draws do not fit
static int oracle(const vector<double> &logs, const vector<double> &b, const vector<double> &B, int nb, int nB, int poisson, int sims, bool quiet)
{
    int pos = 0, inside = 0, n = nb > nB ? nb : nB, draws = (int)logs.size();
    if (nb > 0 && nb < n) return 0;
    for (int s = 0; s < sims; ++s) {
        vector<double> x;
        double sum = 0.0, scale;
        if (!poisson) {
            if (pos + n + 1 > draws) { if (!quiet) sym_assert(0, "each simulation uses n+1 exponential spacings"); return -1; }
            for (int i = 0; i < n; ++i) { sum = sum - logs[pos++]; x.push_back(sum); }
            scale = sum - logs[pos++];
        } else {
            scale = (double)n;
            while (true) {
                if (pos >= draws) { if (!quiet) sym_assert(0, "a simulation runs until the end of the interval"); return -1; }
                sum = sum - logs[pos++];
                if (sum > scale) break;
                x.push_back(sum);
                if (nb > 0 && (int)x.size() > nb) break;
            }
        }
        if (!crosses(x, scale, b, B, nb > 0)) ++inside;
    }
    if (pos != draws) { if (!quiet) sym_assert(0, "the simulations use every draw exactly once"); return -1; }
    return inside;
}
extern "C" void sym_harness()
{
    int nb = sym_param("nb", 1), nB = sym_param("nB", 1), poisson = sym_param("poisson", 0), sims = sym_param("sims", 1), limit = sym_param("draws", 8);
    vector<double> b = sym_bounds("b", nb), B = sym_bounds("B", nB);
    int n = nb > nB ? nb : nB;
    TokenFile t;
    t.line(b, 0);
    t.line(B, 0);
    std::string file = scratch_file(), out;
    write_file(file, t.text);
    sym_rng_limit(limit);
    vector<std::string> args;
    args.push_back("crossprob_mc");
    args.push_back(poisson ? "poisson" : "ecdf");
    args.push_back(file);
    args.push_back(std::to_string(sims));
    int rc = run_main(crossprob_mc_main, args, out);
    unlink(file.c_str());
    int draws = sym_rng_count();
    vector<double> logs;
    for (int i = 0; i < draws; ++i) logs.push_back(sym_rng_log(i));
    double v = 0.0;
    bool isnum = only_number(out, v);
    sym_rec_begin("crossprob_mc");
    sym_rec_str("mode", poisson ? "poisson" : "ecdf");
    sym_rec_vec("b", b.data(), b.size());
    sym_rec_vec("B", B.data(), B.size());
    sym_rec_int("sims", sims);
    sym_rec_vec("logs", logs.data(), logs.size());
    sym_rec_int("exit", rc);
    if (isnum) sym_rec_out("result", v);
    sym_assert(sym_rng_repeated() == 0, "no number of the generator is used twice");
    sym_assert(sym_rng_unset() == 0, "the generator is initialised before it is used");
    sym_assert(rc == 0, "a valid request exits with status 0");
    sym_assert(isnum, "the output is exactly one number");
    sym_reach("result");
    // a draw of 0 (only generators whose range includes 0 give one) has no logarithm: it is drawn again, or its spacing is taken as 0
    bool zeros = false;
    for (int i = 0; i < draws; ++i) if (sym_rng_zero(i)) zeros = true;
    bool right = false;
    for (int convention = 0; convention < (zeros ? 2 : 1) && !right; ++convention) {
        vector<double> l;
        for (int i = 0; i < draws; ++i) if (!sym_rng_zero(i)) l.push_back(logs[i]); else if (convention) l.push_back(0.0);
        int inside = oracle(l, b, B, nb, nB, poisson, sims, zeros);
        if (inside < 0) continue;
        double want = (double)inside / (double)sims;
        right = v - want < 2e-6 && want - v < 2e-6;
    }
    sym_assert(right, "the estimate is the fraction of simulations inside the boundaries");
}
