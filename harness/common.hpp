// shared oracle code; compiled and symbolically executed together with the code under test
#pragma once
#include <vector>
#include <string>
#include <algorithm>
#include <stdexcept>
#include "symrt.h"
using std::vector;

// Symbolic boundary vector in the documented domain: 0 <= v_1 <= ... <= v_n <= 1
static inline vector<double> sym_bounds(const char *nm, int n)
{
    vector<double> v(n);
    for (int i = 0; i < n; ++i) {
        std::string s = nm + std::to_string(i);
        v[i] = sym_real(s.c_str());
        sym_assume_le(i ? v[i-1] : 0.0, v[i]);
    }
    if (n) sym_assume_le(v[n-1], 1.0);
    return v;
}

// Pr[b_i <= X_(i) <= B_i for all i] by Steck's determinant  n! * det[ (B_i - b_j)_+^(j-i+1) / (j-i+1)! ],
// expanded along its Hessenberg structure.  Valid for monotone b and B with b_i <= B_i; zero otherwise.
static inline double steck(const vector<double> &b, const vector<double> &B)
{
    int n = b.size();
    for (int i = 0; i < n; ++i) if (b[i] > B[i]) return 0.0;
    vector<vector<double> > a(n, vector<double>(n, 0.0));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            int k = j - i + 1;
            if (k < 0) continue;
            if (k == 0) { a[i][j] = 1.0; continue; }
            double d = B[i] - b[j];
            if (!(d > 0.0)) continue;
            double t = 1.0;
            for (int e = 0; e < k; ++e) t = t * d;
            a[i][j] = t / sym_fact(k);
        }
    // lower Hessenberg (a[i][j] for j >= i-1): D_0 = 1, D_k = sum_{i=1..k} (-1)^(k-i) a[i][k] D_{i-1}
    vector<double> D(n + 1, 0.0);
    D[0] = 1.0;
    for (int k = 1; k <= n; ++k) {
        double s = 0.0;
        for (int i = 1; i <= k; ++i) {
            double t = a[i-1][k-1] * D[i-1];
            if ((k - i) & 1) s = s - t; else s = s + t;
        }
        D[k] = s;
    }
    return sym_fact(n) * D[n];
}

// ---- larger n: boundary values drawn from K symbolic levels 0 <= t_1 <= ... <= t_K <= 1 (and the constants 0, 1).
// The gaps between consecutive levels are the symbolic variables.  `pat` selects which bound sits on which level.
struct Levels {
    vector<double> t;          // t[0] = 0, t[1..K], t[K+1] = 1
    vector<double> gap;        // gap[k] = t[k] - t[k-1], k = 1..K+1
};
static inline Levels sym_levels(int K)
{
    Levels L;
    L.t.push_back(0.0);
    L.gap.push_back(0.0);
    double rest = 1.0;
    for (int k = 1; k <= K; ++k) {
        double g;
        if (sym_param("fix", 0) >> (k - 1) & 1) g = 1.0 / 8 * (k & 1 ? 1 : 2); // this gap is a constant
        else g = sym_real_at(("g" + std::to_string(k)).c_str(), k, (long)K * (K + 1) / 2 + 2);
        sym_assume_le(0.0, g);
        sym_assume_le(g, rest);
        rest = rest - g;
        L.gap.push_back(g);
        L.t.push_back(L.t[k-1] + g);
    }
    L.t.push_back(1.0);
    L.gap.push_back(rest);
    return L;
}
static inline unsigned lcg(unsigned long &s) { s = s * 6364136223846793005ul + 1442695040888963407ul; return (unsigned)(s >> 33); }
// a monotone sequence of n level indices in [lo, hi]
static inline vector<int> level_pattern(int n, int lo, int hi, unsigned long &seed)
{
    vector<int> v(n);
    for (int i = 0; i < n; ++i) v[i] = lo + (int)(lcg(seed) % (unsigned)(hi - lo + 1));
    std::sort(v.begin(), v.end());
    return v;
}
static inline int sym_choice(const std::string &name, int k);
// every assignment of bounds to levels: the number of bounds on or below each level is chosen by the solver
static inline vector<int> level_pattern_any(const char *nm, int n, int lo, int hi)
{
    vector<int> v;
    for (int k = lo; k < hi; ++k) {
        int c = sym_choice(nm + std::to_string(k), n - (int)v.size() + 1);
        v.insert(v.end(), c, k);
    }
    v.insert(v.end(), n - v.size(), hi);
    return v;
}
static inline void level_choice(int n, int K, long pat, int wide, vector<int> &lb, vector<int> &ub, int lower = 1, int upper = 1)
{
    if (pat < 0) {
        lb = lower ? level_pattern_any("kb", n, 0, K) : vector<int>(n, 0);
        ub = upper ? level_pattern_any("kB", n, 1, K + 1) : vector<int>(n, K + 1);
        return;
    }
    unsigned long seed = (unsigned long)pat * 77777ul + n;
    lcg(seed);
    lb = level_pattern(n, 0, K, seed);
    ub = level_pattern(n, 1, K + 1, seed);
    if (wide) { // large windows: only about one in twelve bounds binds
        int few = wide > 1 ? wide - 2 : n / 12;
        for (int i = 0; i < n; ++i) {
            if (i < n - few - 1) lb[i] = 0;
            if (i > few) ub[i] = K + 1;
        }
    }
    // keep b_i <= B_i so that the value is not trivially zero (one pattern in eight is left as drawn)
    if (pat % 8 != 7)
        for (int i = 0; i < n; ++i) if (ub[i] <= lb[i]) ub[i] = lb[i] + 1;
}
// Multinomial dynamic programme over the levels: q[m] = Pr-density weight of m points up to the level.
// lb[i], ub[i]: level index of b_i and B_i.
static inline double level_oracle(const Levels &L, const vector<int> &lb, const vector<int> &ub)
{
    int n = lb.size(), K = (int)L.t.size() - 1;
    vector<double> q(n + 1, 0.0);
    q[0] = 1.0;
    for (int k = 0; k <= K; ++k) {
        int lo = 0, hi = 0;
        // levels may coincide; the window at level k is what the bounds on exactly this index demand
        for (int i = 0; i < n; ++i) if (ub[i] <= k) ++lo;
        for (int i = 0; i < n; ++i) if (lb[i] < k) ++hi;
        bool here = false;
        for (int i = 0; i < n; ++i) if (lb[i] == k) here = true;
        if (!here) { hi = 0; for (int i = 0; i < n; ++i) if (lb[i] <= k) ++hi; if (k == K) hi = n; }
        if (k == K && lo < n) lo = n; // only q[n] counts now
        vector<double> r(n + 1, 0.0);
        if (k > 0) {
            vector<double> w(n + 1, 0.0);
            double p = 1.0;
            for (int m = 0; m <= n; ++m) { w[m] = p / sym_fact(m); p = p * L.gap[k]; }
            for (int m = lo; m <= n && m <= hi; ++m)
                for (int j = 0; j <= m; ++j) r[m] = r[m] + q[j] * w[m - j];
        } else {
            for (int m = lo; m <= n && m <= hi; ++m) r[m] = q[m];
        }
        q = r;
    }
    return sym_fact(n) * q[n];
}
static inline vector<double> at_levels(const Levels &L, const vector<int> &ix)
{
    vector<double> v(ix.size());
    for (size_t i = 0; i < ix.size(); ++i) v[i] = L.t[ix[i]];
    return v;
}
// fork on one of k alternatives
static inline int sym_choice(const std::string &name, int k)
{
    if (k <= 1) return 0;
    double r = sym_real(name.c_str());
    sym_assume_le(0.0, r);
    sym_assume_le(r, (double)(k - 1));
    for (int i = 0; i + 1 < k; ++i)
        if (r <= (double)i) return i;
    return k - 1;
}
static inline vector<double> reflect(const vector<double> &v)
{
    vector<double> r;
    for (size_t i = v.size(); i > 0; --i) r.push_back(1.0 - v[i-1]);
    return r;
}
