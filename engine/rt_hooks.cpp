// environment models: memory, text<->number, random draws, FFTW contract
#include "rt.h"
#include "symrt.h"
#include <cerrno>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <set>
using namespace std;

double int_strtod(const char *s, char **end); // rt_int
void int_need(const void *p, size_t bytes, const char *what);
bool int_has_shadow_str(const char *s);
long int_strtol(const char *s, char **end, int base);
extern "C" void __sym_concretize(uint64_t v, uint32_t h, uint32_t bits, uint32_t);
void live_add(void *p);
void live_remove(void *p);
void live_plan(int d);
static void fill_poison(void *p, size_t n, uint32_t h = 0) {
  live_add(p);
  uint64_t *u = (uint64_t *)p;
  for (size_t i = 0; i < n / 8; ++i) u[i] = POISON;
  memset((char *)p + n / 8 * 8, 0xFC, n % 8);
  if (g_intmode) int_on_alloc(p, n, h);
}
extern "C" {
int __sym_h_posix_memalign(void **p, size_t a, size_t n) {
  if (g_intmode) int_clear(p, 8);
  int r = posix_memalign(p, a, n);
  if (!r) fill_poison(*p, n, __sym_arg[2]);
  return r;
}
void *__sym_h_aligned_alloc(size_t a, size_t n) { void *p = nullptr; if (posix_memalign(&p, a < 8 ? 8 : a, n)) return nullptr; fill_poison(p, n, __sym_arg[1]); return p; }
void *__sym_h_malloc(size_t n) { void *p = malloc(n); if (p) fill_poison(p, n, __sym_arg[0]); return p; }
void *__sym_h__Znwm(size_t n) { void *p = operator new(n); fill_poison(p, n, __sym_arg[0]); return p; }
void *__sym_h__Znam(size_t n) { void *p = operator new[](n); fill_poison(p, n, __sym_arg[0]); return p; }
long __sym_h_time(long *p) { if (p) *p = 1700000000; return 1700000000; }
long __sym_h_clock() { return 12345; }
void *__sym_h_fftw_malloc(size_t n) { void *p = nullptr; if (posix_memalign(&p, 16, n)) return nullptr; fill_poison(p, n, __sym_arg[0]); return p; }
void __sym_h_fftw_free(void *p) { live_remove(p); free(p); }
double *__sym_h_fftw_alloc_real(size_t n) { return (double *)__sym_h_fftw_malloc(8 * n); }
void *__sym_h_fftw_alloc_complex(size_t n) { return __sym_h_fftw_malloc(16 * n); }

// ---------------------------------------------------------------- tokens
static vector<pair<string, double>> g_tok;
void sym_register_token(const char *t, double v) { g_tok.push_back({t, v}); }
double sym_token_value(const char *t, int *ok) {
  *ok = 0;
  while (*t == ' ' || *t == '\n') ++t;
  if (t[0] == '@' && t[1] == 'S') {
    char *e;
    unsigned long i = strtoul(t + 2, &e, 10);
    if (*e == '@' && i < g_nodes.size()) { *ok = (e[1] == 0 || e[1] == '\n') ? 1 : 2; return bitsd(0xFFFC000000000000ull | i); }
    return 0;
  }
  char *e;
  double d = strtod(t, &e);
  if (e != t) *ok = (*e == 0 || *e == '\n') ? 1 : 2;
  return d;
}
double __sym_h_strtod(const char *s, char **end) {
  if (g_intmode && int_has_shadow_str(s)) return int_strtod(s, end);
  char *e;
  double d = strtod(s, &e);
  if (end) { *end = e; if (g_intmode) int_clear(end, 8); }
  const char *b = s;
  while (*b == ' ' || *b == '\t' || *b == '\r' || *b == '\n') ++b;
  for (auto &t : g_tok) if (t.first.size() == (size_t)(e - b) && !strncmp(b, t.first.c_str(), e - b)) return t.second;
  return d;
}
long double __sym_h_strtold(const char *s, char **end) { extern long double __sym_cvt_dx(double); return __sym_cvt_dx(__sym_h_strtod(s, end)); }
double __sym_h_atof(const char *s) { return __sym_h_strtod(s, nullptr); }
long __sym_h_strtol(const char *s, char **end, int base) {
  __sym_ret = 0;
  if (g_intmode && int_has_shadow_str(s)) return int_strtol(s, end, base);
  char *e;
  long r = strtol(s, &e, base);
  if (end) { *end = e; if (g_intmode) int_clear(end, 8); }
  return r;
}
long long __sym_h_strtoll(const char *s, char **end, int base) { return __sym_h_strtol(s, end, base); }
int __sym_h_atoi(const char *s) { return (int)__sym_h_strtol(s, nullptr, 10); }
long __sym_h_atol(const char *s) { return __sym_h_strtol(s, nullptr, 10); }

// ---------------------------------------------------------------- random draws
static int g_rngn = 0, g_rnglim = 1 << 30;
static vector<double> g_rnglog;
static int g_rngzero = 0;
void sym_rng_limit(int n) { g_rnglim = n; }
int sym_rng_count() { return g_rngn; }
double sym_rng_log(int i) { return g_rnglog[i]; }
int sym_rng_zero(int i) { __sym_ret = 0; return std::isinf(g_rnglog[i]); }
// Each number of the stream may be used once: the state is a position in the stream, advanced by every draw.  Copies and repeated
// initialisations of a generator show as a position that was already used.
static int g_rngrepeated = 0, g_rngunset = 0;
static std::set<std::pair<uint64_t, uint64_t>> g_rngseen;
int sym_rng_repeated() { __sym_ret = 0; return g_rngrepeated; }
int sym_rng_unset() { __sym_ret = 0; return g_rngunset; }
static double draw(void *state, bool zero, bool one) {
  if (!g_intmode && state) {
    uint64_t *st = (uint64_t *)state;
    if (st[0] == 0xaaaaaaaaaaaaaaaaULL && st[1] == 0xaaaaaaaaaaaaaaaaULL) g_rngunset++;
    if (!g_rngseen.insert({st[0], st[1]}).second) g_rngrepeated++;
    st[1] += 0x9e3779b97f4a7c15ULL;
  }
  if (g_rngn >= g_rnglim) path_end(4, "draw limit");
  int k = g_rngn++;
  if (g_intmode) { g_rnglog.push_back(-0.69314718055994531); return 0.5; } // bit-precise runs only count the draws
  char nm[32];
  if (zero) { // the generator's contract includes 0
    snprintf(nm, sizeof nm, "z%d", k);
    double z = sym_real(nm);
    Val v; to_val(z, v);
    if (vsign(v, 4)) { g_rnglog.push_back(-INFINITY); return 0.0; }
  }
  snprintf(nm, sizeof nm, "L%d", k);
  double L = sym_real(nm);
  if (one) sym_assume_le(L, 0.0); else sym_assume_lt(L, 0.0);
  g_rnglog.push_back(L);
  Val x, r; to_val(L, x);
  Val e; e.t.push_back({key_intern(x.poly()), Poly(Q(1))});
  return box_val(e);
}
double __sym_rng_CO(void *s) { return draw(s, true, false); }
double __sym_rng_OC(void *s) { return draw(s, false, true); }
double __sym_rng_OO(void *s) { return draw(s, false, false); }
double __sym_rng_12(void *s) { extern double __sym_bin_d(int, double, double); return __sym_bin_d(0, draw(s, true, false), 1.0); }

// ---------------------------------------------------------------- FFTW by contract
extern "C" {
uint64_t __sym_cost = 0;
long sym_cost() { return (long)__sym_cost; }
// the library itself, for runs that follow the order of the boundaries only (param "concretize")
void *fftw_plan_dft_r2c_1d(int, double *, double *, unsigned);
void *fftw_plan_dft_c2r_1d(int, double *, double *, unsigned);
void fftw_execute_dft_r2c(void *, double *, double *);
void fftw_execute_dft_c2r(void *, double *, double *);
void *fftw_malloc(size_t);
double __sym_native_d(double);
}
static bool conc_mode() { static bool c = sym_param("concretize", 0); return c; }
struct RealPlan { void *plan = nullptr; double *in = nullptr, *out = nullptr; };
static void native_transform(int kind, int n, const double *in, double *out) {
  static map<pair<int, int>, RealPlan> plans;
  RealPlan &r = plans[{kind, n}];
  if (!r.plan) {
    r.in = (double *)fftw_malloc(8 * (n + 2));
    r.out = (double *)fftw_malloc(8 * (n + 2));
    r.plan = kind == 0 ? fftw_plan_dft_r2c_1d(n, r.in, r.out, 1u << 6) : fftw_plan_dft_c2r_1d(n, r.in, r.out, 1u << 6);
  }
  int a = kind == 0 ? n : 2 * (n / 2 + 1), b = kind == 0 ? 2 * (n / 2 + 1) : n;
  for (int i = 0; i < a; ++i) r.in[i] = __sym_native_d(in[i]);
  if (kind == 0) fftw_execute_dft_r2c(r.plan, r.in, r.out); else fftw_execute_dft_c2r(r.plan, r.in, r.out);
  memcpy(out, r.out, 8 * b);
}
struct Plan { int kind; int n; double *in; double *out; unsigned flags; bool dead; };
struct Spectrum { vector<double> x; }; // time-domain samples (possibly boxed)
static vector<Spectrum> g_spec;
static vector<int> g_fftsizes;
static map<pair<uint64_t, uint64_t>, uint32_t> g_specatom;
static const unsigned F_ESTIMATE = 1u << 6, F_DESTROY = 1u << 0, F_PRESERVE = 1u << 4, F_UNALIGNED = 1u << 1, F_WISDOM = 1u << 21;
static void poison(double *p, size_t n) { for (size_t i = 0; i < n; ++i) p[i] = bitsd(POISON); if (g_intmode) int_clear(p, 8 * n); }
static void need(const void *p, size_t bytes, const char *what) { int_need(p, bytes, what); }
extern "C" void __asan_loadN(const void *, size_t) __attribute__((weak));
extern "C" void __asan_storeN(void *, size_t) __attribute__((weak));
static void touch(double *p, size_t n, bool st) {
  need(p, 8 * n, st ? "a transform's output fits its array" : "a transform's input fits its array");
  if (st ? !!__asan_storeN : !!__asan_loadN) { if (st) __asan_storeN(p, 8 * n); else __asan_loadN(p, 8 * n); }
}
static int g_nplans = 0;
static set<pair<int, int>> g_plansizes;
extern "C" int sym_plan_count() { return g_nplans; }
extern "C" int sym_plan_kinds() { return (int)g_plansizes.size(); }
static void *mkplan(int kind, int n, double *in, double *out, unsigned flags) {
  if (n <= 0) return nullptr;
  live_plan(1);
  ++g_nplans;
  g_plansizes.insert({kind, n});
  __sym_cost += 5000 + 10 * (uint64_t)n;
  Plan *p = new Plan{kind, n, in, out, flags, false};
  if (!(flags & F_ESTIMATE) && !(flags & F_WISDOM)) { // planning with measurement overwrites the arrays
    if (kind == 0) { poison(in, n); poison(out, 2 * (n / 2 + 1)); } else { poison(in, 2 * (n / 2 + 1)); poison(out, n); }
  }
  return p;
}
static void conc_n(int n) { if (g_intmode) { __sym_concretize((uint32_t)n, __sym_arg[0], 32, 6); __sym_arg[0] = 0; } }
void *__sym_h_fftw_plan_dft_r2c_1d(int n, double *in, double *out, unsigned f) { conc_n(n); return mkplan(0, n, in, out, f); }
void *__sym_h_fftw_plan_dft_c2r_1d(int n, double *in, double *out, unsigned f) { conc_n(n); return mkplan(1, n, in, out, f); }
void *__sym_h_fftw_plan_dft_1d(int, double *, double *, int, unsigned) { path_end(9, "complex transform not modelled"); }
static bool natzero(double d) { return !isbox(d) && d == 0; }
double __sym_bin_d(int, double, double);
static double spec_atom(int sp, int bin, int im, int) {
  Atom a; a.kind = A_SPEC; a.exact = true; a.q = Q((sp * 7919 + bin * 31 + im * 17) % 1009 + 1, 257);
  a.spec = sp; a.bin = bin; a.im = im;
  a.name = "F" + to_string(sp) + (im ? ".im" : ".re") + to_string(bin);
  return box_val(Val(pvar(new_atom(a))));
}
static bool shape_only(Plan *p, double *out, size_t n) { // sizes only: the contents are not followed
  static int on = sym_param("fftshape", 0);
  g_fftsizes.push_back(p->n);
  __sym_cost += (uint64_t)(3.0 * p->n * log2(p->n + 1.0));
  if (!on) return false;
  memset(out, 0, 8 * n);
  if (g_intmode) int_clear(out, 8 * n);
  return true;
}
int sym_fftw_count() { if (g_intmode) __sym_arg[0] = 0; return g_fftsizes.size(); }
int sym_fftw_size(int i) { return g_fftsizes[i]; }
static void run_r2c(Plan *p, double *in, double *out) {
  int n = p->n;
  touch(in, n, false);
  touch(out, 2 * (n / 2 + 1), true);
  if (shape_only(p, out, 2 * (n / 2 + 1))) return;
  if (conc_mode()) { native_transform(0, n, in, out); return; }
  Spectrum s;
  s.x.assign(in, in + n);
  for (auto &x : s.x) if (dbits(x) == POISON) { double g = box_val(Val(pvar(atom_garbage("uninit")))); x = g; }
  if (p->flags & F_DESTROY && in != out) poison(in, n);
  // identical signals share one formal spectrum
  int id = -1;
  for (size_t k = 0; k < g_spec.size() && id < 0; ++k) if (g_spec[k].x.size() == s.x.size() && !memcmp(g_spec[k].x.data(), s.x.data(), 8 * s.x.size())) id = k;
  if (id < 0) { g_spec.push_back(s); id = g_spec.size() - 1; }
  static map<int, vector<double>> memo;
  auto &v = memo[id];
  if (v.empty()) for (int k = 0; k <= n / 2; ++k) { v.push_back(spec_atom(id, k, 0, n)); v.push_back(k == 0 || 2 * k == n ? 0.0 : spec_atom(id, k, 1, n)); }
  memcpy(out, v.data(), 16 * (n / 2 + 1));
  if (g_intmode) int_clear(out, 16 * (n / 2 + 1));
}
static void run_c2r(Plan *p, double *in, double *out) {
  int n = p->n, h = n / 2;
  touch(in, 2 * (h + 1), false);
  touch(out, n, true);
  if (shape_only(p, out, n)) return;
  if (conc_mode()) { native_transform(1, n, in, out); return; }
  // every bin must be the same combination  sum c_ab A_k B_k  +  sum c_a A_k  of formal spectra
  bool ok = true;
  map<pair<int, int>, Q> comb; // (a,b) a<=b, or (a,-1)
  for (int k = 0; k <= h && ok; ++k) {
    double re = in[2 * k], im = in[2 * k + 1];
    bool edge = k == 0 || 2 * k == n;
    Val vr, vi;
    if (!to_val(re, vr) || !to_val(im, vi) || !vr.pure() || !vi.pure()) { ok = false; break; }
    map<pair<int, int>, Q> cr;
    // extract the coefficients from the product of real parts, then verify the full bin
    Poly want_re, want_im;
    for (auto &x : vr.poly().t) {
      auto &m = mono_get(x.first);
      int sp[2], cnt = 0; bool allre = true, good = true;
      for (auto &f : m) for (unsigned e = 0; e < f.second; ++e) { Atom &a = g_atoms[f.first]; if (a.kind != A_SPEC || a.bin != k || cnt >= 2) { good = false; break; } if (a.im) allre = false; sp[cnt++] = a.spec; }
      if (!good || cnt == 0) { ok = false; break; }
      if (!allre) continue;
      if (cnt == 1) cr[{sp[0], -1}] += x.second; else cr[{min(sp[0], sp[1]), max(sp[0], sp[1])}] += x.second;
    }
    if (!ok) break;
    auto at = [&](int s, int i) -> Poly { if (i && edge) return Poly(); static map<pair<pair<int, int>, int>, uint32_t> idx; auto key = make_pair(make_pair(s, k), i); auto it = idx.find(key); if (it == idx.end()) { for (uint32_t a = 0; a < g_atoms.size(); ++a) if (g_atoms[a].kind == A_SPEC) idx[{{g_atoms[a].spec, g_atoms[a].bin}, g_atoms[a].im}] = a; it = idx.find(key); } return it == idx.end() ? Poly() : pvar(it->second); };
    for (auto &c : cr) {
      int a = c.first.first, b = c.first.second;
      if (b < 0) { want_re = padd(want_re, pscale(at(a, 0), c.second)); want_im = padd(want_im, pscale(at(a, 1), c.second)); }
      else {
        want_re = padd(want_re, pscale(psub(pmul(at(a, 0), at(b, 0)), pmul(at(a, 1), at(b, 1))), c.second));
        want_im = padd(want_im, pscale(padd(pmul(at(a, 0), at(b, 1)), pmul(at(a, 1), at(b, 0))), c.second));
      }
    }
    if (!(vr.poly() == want_re)) ok = false;
    if (!edge && !(vi.poly() == want_im)) ok = false;
    if (k == 0) comb = cr; else if (comb != cr) ok = false;
  }
  for (auto &c : comb) if ((int)g_spec[c.first.first].x.size() != n || (c.first.second >= 0 && (int)g_spec[c.first.second].x.size() != n)) ok = false;
  if (getenv("SYM_DEBUG")) fprintf(stderr, "c2r n=%d ok=%d\n", n, ok);
  vector<double> res(n, 0.0);
  if (!ok) { for (auto &x : res) x = box_val(Val(pvar(atom_garbage("fft")))); }
  else for (auto &c : comb) {
    Q scale = c.second * n;
    double cs = box_val(Val(Poly(scale)));
    const vector<double> &A = g_spec[c.first.first].x;
    if (c.first.second < 0) { for (int j = 0; j < n; ++j) if (!natzero(A[j])) res[j] = __sym_bin_d(0, res[j], __sym_bin_d(2, cs, A[j])); continue; }
    const vector<double> &B = g_spec[c.first.second].x;
    vector<int> nb;
    for (int j = 0; j < n; ++j) if (!natzero(B[j])) nb.push_back(j);
    vector<double> r(n, 0.0);
    for (int i = 0; i < n; ++i) {
      if (natzero(A[i])) continue;
      for (int j : nb) { int k = (i + j) % n; r[k] = __sym_bin_d(0, r[k], __sym_bin_d(2, A[i], B[j])); }
    }
    for (int j = 0; j < n; ++j) if (!natzero(r[j])) res[j] = __sym_bin_d(0, res[j], __sym_bin_d(2, cs, r[j]));
  }
  if (!(p->flags & F_PRESERVE)) poison(in, 2 * (h + 1));
  memcpy(out, res.data(), 8 * n);
  if (g_intmode) int_clear(out, 8 * n);
}
static void exec(Plan *p, double *in, double *out, bool na) {
  if (!p) { violation_concrete("transform executed with a null plan"); return; }
  if (p->dead) { violation_concrete("transform executed with a destroyed plan"); return; }
  if (na && !(p->flags & F_UNALIGNED)) {
    if ((((uintptr_t)in ^ (uintptr_t)p->in) & 15) || (((uintptr_t)out ^ (uintptr_t)p->out) & 15)) violation_concrete("new-array execution with a different alignment");
    if ((in == out) != (p->in == p->out)) violation_concrete("new-array execution with different in-placeness");
  }
  if (p->kind == 0) run_r2c(p, in, out); else run_c2r(p, in, out);
}
void __sym_h_fftw_execute(Plan *p) { exec(p, p ? p->in : 0, p ? p->out : 0, false); }
void __sym_h_fftw_execute_dft_r2c(Plan *p, double *in, double *out) { if (p && p->kind != 0) violation_concrete("plan kind mismatch"); exec(p, in, out, true); }
void __sym_h_fftw_execute_dft_c2r(Plan *p, double *in, double *out) { if (p && p->kind != 1) violation_concrete("plan kind mismatch"); exec(p, in, out, true); }
void __sym_h_fftw_destroy_plan(Plan *p) { if (p) { if (p->dead) violation_concrete("plan destroyed twice"); p->dead = true; live_plan(-1); } }
void __sym_h_fftw_cleanup() {}
}
