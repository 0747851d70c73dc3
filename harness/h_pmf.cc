// Poisson probabilities for a symbolic intensity
#include "common.hpp"
#include "poisson_pmf.hh"
#include <cmath>
static double expect(double lambda, int k)
{
    if (lambda == 0.0) return k == 0 ? 1.0 : 0.0;
    double p = std::exp(-lambda);
    for (int i = 0; i < k; ++i) p = p * lambda;
    return p / sym_fact(k);
}
extern "C" void sym_harness()
{
    int K = sym_param("k", 3), neg = sym_param("neg", 0), calls = sym_param("calls", 2);
    PoissonPMFGenerator g(K), other(K + 2);
    if (neg) {
        double l = sym_real_at("lambda", -1, 1);
        sym_assume_lt(l, 0.0);
        int thrown = 0;
        sym_rec_begin("pmf_array");
        sym_rec_int("max_k", K);
        sym_rec_int("k", K);
        sym_rec_vec("lambda", &l, 1);
        try { g.compute_array(K, l); } catch (std::runtime_error &) { thrown = 1; }
        sym_rec_int("threw", thrown);
        sym_assert(thrown, "a negative intensity is rejected");
        sym_reach("rejected");
        return;
    }
    double last[2] = {0, 0};
    int filled[2] = {-1, -1};
    for (int c = 0; c < calls; ++c) {
        // the second call: a new intensity or the same one again, on the same generator or another one
        double l = c && sym_choice("same" + std::to_string(c), 2) ? last[filled[0] >= 0 ? 0 : 1] : sym_real_at(("lambda" + std::to_string(c)).c_str(), K < 100 ? 1 : K, K < 100 ? 3 : 1);
        sym_assume_le(0.0, l);
        int which = c == 0 ? 0 : sym_choice("generator" + std::to_string(c), 2), max_k = which ? K + 2 : K;
        int k = c == 0 ? K : sym_choice("k" + std::to_string(c), max_k + 1);
        PoissonPMFGenerator &gen = which ? other : g;
        sym_rec_begin("pmf_array");
        sym_rec_int("max_k", max_k);
        sym_rec_int("k", k);
        sym_rec_vec("lambda", &l, 1);
        gen.compute_array(k, l);
        last[which] = l;
        filled[which] = k;
        sym_rec_vec("array", gen.get_array(), k + 1);
        for (int i = 0; i <= k; ++i) sym_assert_eq(gen.get_array()[i], expect(l, i), "array entry is the Poisson probability");
        if (which && filled[0] >= 0) {
            sym_rec_begin("pmf_held");
            sym_rec_int("max_k", K);
            sym_rec_int("k", filled[0]);
            sym_rec_vec("lambda", &last[0], 1);
            sym_rec_vec("array", g.get_array(), filled[0] + 1);
            for (int i = 0; i <= filled[0]; ++i) sym_assert_eq(g.get_array()[i], expect(last[0], i), "another generator's array is left as it was");
        }
        vector<int> js;
        if (K > 3) js = {0, K / 2, K};
        else js = {sym_choice("j" + std::to_string(c), K + 1)};
        for (int j : js) {
            sym_rec_begin("pmf_single");
            sym_rec_int("max_k", max_k);
            sym_rec_int("k", j);
            sym_rec_vec("lambda", &l, 1);
            double r = poisson_pmf(l, j), e = gen.evaluate_pmf(l, j);
            sym_rec_out("free", r);
            sym_rec_out("member", e);
            sym_assert_eq(r, expect(l, j), "single probability is the Poisson probability");
            sym_assert_eq(e, expect(l, j), "generator's single probability is the Poisson probability");
        }
    }
    sym_reach("result");
}
