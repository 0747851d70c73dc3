// floating point hooks: exact reals (boxed symbolic values) and bit-precise IEEE values
#include "rt.h"
#include <cerrno>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <ostream>
#include <set>
using namespace std;

vector<Node> g_nodes;

uint32_t atom_garbage(const char *why) {
  static int n = 0;
  Atom a;
  a.kind = A_GARBAGE; a.exact = true; a.q = Q(7919 + 13 * n, 1009);
  a.name = string(why) + "#" + to_string(n++);
  return new_atom(a);
}

// ---------------------------------------------------------------- boxes per type
double box_new(const Node &n) { g_nodes.push_back(n); return bitsd(0xFFFC000000000000ull | (g_nodes.size() - 1)); }
static bool q_is_double(const Q &q, double &d) {
  if (mpz_sizeinbase(q.get_num_mpz_t(), 2) > 1000 || mpz_sizeinbase(q.get_den_mpz_t(), 2) > 1000) {
    if (mpz_sizeinbase(q.get_den_mpz_t(), 2) > 1074) return false;
    if (mpz_popcount(q.get_den_mpz_t()) != 1) return false;
  }
  d = q.get_d();
  return std::isfinite(d) && Q(d) == q;
}
double box_val(const Val &v) {
  if (v.isConst()) { double d; if (q_is_double(v.poly().constVal(), d)) return d; }
  Node n; n.kind = 0; n.v = v;
  return box_new(n);
}
double box_fp(const z3::expr &e, double cv) { Node n; n.kind = 1; n.cv = cv; n.fe = make_shared<z3::expr>(e); return box_new(n); }

template <class T> struct TR;
static inline unsigned __int128 xbits(long double x) { unsigned __int128 u = 0; memcpy(&u, &x, 10); return u; }
template <> struct TR<double> {
  static bool poison(double d) { return dbits(d) == POISON || dbits(d) == ~0ull; }
  static bool box(double d) { return ::isbox(d) && dbits(d) != POISON; }
  static uint64_t idx(double d) { return boxidx(d); }
  static double mk(uint64_t i) { return bitsd(0xFFFC000000000000ull | i); }
};
template <> struct TR<long double> {
  static bool poison(long double d) { uint64_t s = (uint64_t)xbits(d); uint16_t e = (uint16_t)(xbits(d) >> 64); return (s == POISON && (e & 0x7FFF) == 0x7FFF) || (s == ~0ull && e == 0xFFFF); }
  static bool box(long double d) { uint64_t s = (uint64_t)xbits(d); uint16_t e = (uint16_t)(xbits(d) >> 64); return (e & 0x7FFF) == 0x7FFF && (s >> 48) == 0xE5A5; }
  static uint64_t idx(long double d) { return (uint64_t)xbits(d) & 0xFFFFFFFFFFFFull; }
  static long double mk(uint64_t i) { unsigned __int128 u = ((unsigned __int128)0x7FFF << 64) | (0xE5A5000000000000ull | i); long double x; memset(&x, 0, sizeof x); memcpy(&x, &u, 10); return x; }
};
template <> struct TR<float> {
  static uint32_t b(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
  static bool poison(float f) { return b(f) == ~0u || b(f) == 0xFFFFFFFCu; }
  static bool box(float f) { return (b(f) >> 20) == 0xFFE; }
  static uint64_t idx(float f) { return b(f) & 0xFFFFF; }
  static float mk(uint64_t i) { if (i > 0xFFFFF) path_end(9, "float box overflow"); uint32_t u = 0xFFE00000u | (uint32_t)i; float f; memcpy(&f, &u, 4); return f; }
};
static Q ld2q(long double x) {
  int e;
  long double m = frexpl(x, &e);
  double hi = (double)m, lo = (double)(m - (long double)hi);
  Q q = Q(hi) + Q(lo);
  if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e); else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e);
  return q;
}
static inline Q toq(double d) { return Q(d); }
static inline Q toq(float d) { return Q((double)d); }
static inline Q toq(long double d) { return ld2q(d); }
// 0: symbolic or finite (v filled); 1: native non finite; 2: bit-precise node
template <class T> static int get(T x, Val &v) {
  if (TR<T>::poison(x)) { v = Val(pvar(atom_garbage("uninit"))); return 0; }
  if (TR<T>::box(x)) {
    Node &n = g_nodes[TR<T>::idx(x)];
    if (n.kind == 1) return 2;
    v = n.v;
    return 0;
  }
  if (!std::isfinite(x)) return 1;
  v = Val(Poly(toq(x)));
  return 0;
}
template <class T> static bool symb(T x) { return TR<T>::poison(x) || TR<T>::box(x); }
bool to_val(double d, Val &v) { int r = get(d, v); if (r == 2) path_end(9, "bit-precise value used in the real domain"); return r == 0; }
template <class T> static bool isfp(T x) { return TR<T>::box(x) && g_nodes[TR<T>::idx(x)].kind == 1; }

static uint32_t new_delta() {
  static int n = 0;
  Atom a; a.kind = A_DELTA; a.exact = true; a.q = Q(1, 1 << 25); a.name = "delta" + to_string(n++);
  return new_atom(a);
}
template <class T> static T put(const Val &v);
template <> double put<double>(const Val &v) { return box_val(v); }
template <> long double put<long double>(const Val &v) {
  if (v.isConst()) {
    Q q = v.poly().constVal();
    double d;
    if (q_is_double(q, d)) return d;
    if (mpz_popcount(q.get_den_mpz_t()) == 1 && mpz_sizeinbase(q.get_num_mpz_t(), 2) - mpz_scan1(q.get_num_mpz_t(), 0) <= 64 && mpz_sizeinbase(q.get_num_mpz_t(), 2) < 16000 && mpz_sizeinbase(q.get_den_mpz_t(), 2) < 16000) {
      long tz = mpz_scan1(q.get_num_mpz_t(), 0), dz = mpz_sizeinbase(q.get_den_mpz_t(), 2) - 1;
      mpz_class m = q.get_num() >> tz;
      bool neg = m < 0;
      if (neg) m = -m;
      uint64_t u = 0;
      mpz_export(&u, nullptr, -1, 8, 0, 0, m.get_mpz_t());
      long double r = ldexpl((long double)u, (int)(tz - dz));
      if (neg) r = -r;
      if (std::isfinite(r) && ld2q(r) == q) return r;
    }
  }
  Node n; n.kind = 0; n.v = v;
  g_nodes.push_back(n);
  return TR<long double>::mk(g_nodes.size() - 1);
}
template <> float put<float>(const Val &v) {
  if (v.isConst()) { float f = (float)v.poly().constVal().get_d(); if (std::isfinite(f) && Q((double)f) == v.poly().constVal()) return f; }
  Val r = vadd(v, vmul(v, Val(pvar(new_delta()))));
  Node n; n.kind = 0; n.v = r;
  g_nodes.push_back(n);
  return TR<float>::mk(g_nodes.size() - 1);
}
static double approx(double x) { if (TR<double>::poison(x)) return 0.5; if (TR<double>::box(x)) { Node &n = g_nodes[TR<double>::idx(x)]; return n.kind == 1 ? n.cv : veval(n.v).d(); } return x; }
static long double approx(long double x) { if (TR<long double>::poison(x)) return 0.5; if (TR<long double>::box(x)) { Node &n = g_nodes[TR<long double>::idx(x)]; return n.kind == 1 ? n.cv : (long double)veval(n.v).bf(); } return x; }
static float approx(float x) { if (TR<float>::poison(x)) return 0.5; if (TR<float>::box(x)) return (float)veval(g_nodes[TR<float>::idx(x)].v).d(); return x; }

// ---------------------------------------------------------------- arithmetic
static bool exact_add(double a, double b, double &r) { r = a + b; if (!std::isfinite(r)) return false; double bb = r - a, e = (a - (r - bb)) + (b - bb); return e == 0; }
static bool exact_mul(double a, double b, double &r) { r = a * b; if (!std::isfinite(r) || (r != 0 && fabs(r) < 1e-280)) return false; if (r == 0 && a != 0 && b != 0) return false; return fma(a, b, -r) == 0; }
static bool exact_div(double a, double b, double &r) { if (b == 0) return false; r = a / b; if (!std::isfinite(r) || (r != 0 && fabs(r) < 1e-280) || (a != 0 && fabs(a) < 1e-280)) return false; if (r == 0 && a != 0) return false; return fma(r, b, -a) == 0; }
static bool exact_add(long double a, long double b, long double &r) { r = a + b; if (!std::isfinite(r)) return false; long double bb = r - a, e = (a - (r - bb)) + (b - bb); return e == 0; }
static bool exact_mul(long double a, long double b, long double &r) { r = a * b; if (!std::isfinite(r) || (r != 0 && fabsl(r) < 1e-4900L)) return false; if (r == 0 && a != 0 && b != 0) return false; return fmal(a, b, -r) == 0; }
static bool exact_div(long double a, long double b, long double &r) { if (b == 0) return false; r = a / b; if (!std::isfinite(r) || (r != 0 && fabsl(r) < 1e-4900L)) return false; if (r == 0 && a != 0) return false; return fmal(r, b, -a) == 0; }
static bool exact_add(float a, float b, float &r) { double d = (double)a + b; r = (float)d; return std::isfinite(r) && (double)r == d && exact_add((double)a, (double)b, d); }
static bool exact_mul(float a, float b, float &r) { double d = (double)a * b; r = (float)d; return std::isfinite(r) && (double)r == d; }
static bool exact_div(float a, float b, float &r) { r = a / b; if (!std::isfinite(r) || b == 0) return false; return fma((double)r, (double)b, -(double)a) == 0; }

static bool monodiv(const Poly &a, const Poly &m, Poly &out) {
  if (m.t.size() != 1) return false;
  const MonoV &d = mono_get(m.t[0].first);
  Poly r;
  for (auto &x : a.t) {
    MonoV n = mono_get(x.first);
    for (auto &v : d) {
      bool ok = false;
      for (auto &w : n) if (w.first == v.first && w.second >= v.second) { w.second -= v.second; ok = true; }
      if (!ok) return false;
    }
    MonoV c;
    for (auto &w : n) if (w.second) c.push_back(w);
    Poly one; one.t.push_back({mono_intern(c), x.second / m.t[0].second});
    r = padd(r, one);
  }
  out = r;
  return true;
}
static uint32_t opaque(const string &nm, const BF &val) {
  static map<string, uint32_t> memo;
  auto it = memo.find(nm);
  if (it != memo.end()) return it->second;
  Atom a; a.kind = A_OPAQUE; a.exact = false; a.bf = val; a.name = nm;
  return memo[nm] = new_atom(a);
}
// returns false if division by zero (x/0)
static bool vdiv(const Val &x, const Val &y0, Val &r) {
  Val y = y0;
  if (y.t.size() > 1) { // try to merge keys under the path equalities
    Val z;
    for (auto &t : y.t) { Val s; Poly p = psubst(t.second); if (p.zero()) continue; s.t.push_back({key_intern(psubst(key_get(t.first))), p}); z = vadd(z, s); }
    y = z;
  }
  if (y.zero()) return false;
  if (y.t.size() == 1) {
    const Poly &p = y.t[0].second;
    Val ek; ek.t.push_back({key_intern(pscale(key_get(y.t[0].first), Q(-1))), Poly(Q(1))});
    if (p.isConst()) { r = vscale(vmul(x, ek), 1 / p.constVal()); return true; }
    if (psign(p, 2)) return false;
    if (x.t.size() == 1) { Poly q; if (monodiv(x.t[0].second, p, q)) { Val xx; xx.t.push_back({x.t[0].first, q}); r = vmul(xx, ek); return true; } }
    Q lead = p.t.back().second;
    Poly n = pscale(p, 1 / lead);
    r = vscale(vmul(vmul(x, ek), Val(pvar(atom_inv(n)))), 1 / lead);
    return true;
  }
  BF v = veval(y).bf();
  r = vmul(x, Val(pvar(opaque("1/(" + vstr(y) + ")", v == 0 ? BF(0) : BF(1) / v))));
  return true;
}

static z3::expr fpe(double x) {
  if (TR<double>::box(x)) { Node &n = g_nodes[TR<double>::idx(x)]; if (n.kind == 1) return *n.fe; }
  if (symb(x)) path_end(9, "real-domain value used in the bit-precise domain");
  return zc().fpa_val(x);
}
void int_arith_guard();
static double fpc(double x) { if (TR<double>::box(x)) return g_nodes[TR<double>::idx(x)].cv; return x; }

template <class T> static T fpbin(int, T, T) { path_end(9, "bit-precise operation on this type"); }
template <> double fpbin<double>(int op, double a, double b) {
  if (op > 1 || (isfp(a) && isfp(b))) int_arith_guard(); // a bound may be reflected (1 - x) before it is judged
  z3::expr x = fpe(a), y = fpe(b);
  double ca = fpc(a), cb = fpc(b);
  switch (op) {
  case 0: return box_fp(x + y, ca + cb);
  case 1: return box_fp(x - y, ca - cb);
  case 2: return box_fp(x * y, ca * cb);
  case 3: return box_fp(x / y, ca / cb);
  }
  path_end(9, "bit-precise fmod");
}
// Runs that count work follow the boundaries through sums, differences and comparisons; a product goes on with its
// value at the path's sample.
extern "C" long sym_param(const char *name, long dflt);
static bool conc_mode() { static bool c = sym_param("concretize", 0); return c; }
template <class T> static bool small_int(T a) { return !symb(a) && fabsl((long double)a) <= 1 << 20 && a == (T)(long)a; }
extern "C" double __sym_native_d(double x) { return approx(x); }
template <class T> static T bin(int op, T a, T b) {
  bool s = symb(a) || symb(b);
  if (conc_mode() && !isfp(a) && !isfp(b)) {
    if (!s) goto native;
    if (op >= 2 && !(op == 3 && small_int(b))) { a = approx(a); b = approx(b); goto native; }
  }
  if (!s) {
    if (!std::isfinite(a) || !std::isfinite(b)) goto native;
    T r;
    switch (op) {
    case 0: if (exact_add(a, b, r)) return r; break;
    case 1: if (exact_add(a, (T)-b, r)) return r; break;
    case 2: if (exact_mul(a, b, r)) return r; break;
    case 3: if (b == 0) goto native; if (exact_div(a, b, r)) return r; break;
    case 4: return (T)fmodl(a, b);
    }
  } else if (isfp(a) || isfp(b)) return fpbin<T>(op, a, b);
  {
    Val x, y, r;
    int ka = get(a, x), kb = get(b, y);
    if (ka || kb) { a = approx(a); b = approx(b); goto native; }
    switch (op) {
    case 0: return put<T>(vadd(x, y));
    case 1: return put<T>(vadd(x, vneg(y)));
    case 2: return put<T>(vmul(x, y));
    case 3:
      if (vdiv(x, y, r)) return put<T>(r);
      a = approx(a); b = 0;
      goto native;
    default: path_end(9, "fmod of a symbolic value");
    }
  }
native:
  switch (op) {
  case 0: return a + b;
  case 1: return a - b;
  case 2: return a * b;
  case 3: return a / b;
  default: return (T)fmodl(a, b);
  }
}
// LLVM fcmp predicates: bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
static int cmpnative(int pred, long double a, long double b) {
  int m = (std::isnan(a) || std::isnan(b)) ? 8 : a == b ? 1 : a > b ? 2 : 4;
  return (pred & m) != 0;
}
z3::expr fp_cmp_expr(int pred, const z3::expr &x, const z3::expr &y) {
  z3::context &c = zc();
  z3::expr r = c.bool_val(false);
  if (pred & 1) r = r || z3::expr(c, Z3_mk_fpa_eq(c, x, y));
  if (pred & 2) r = r || z3::expr(c, Z3_mk_fpa_gt(c, x, y));
  if (pred & 4) r = r || z3::expr(c, Z3_mk_fpa_lt(c, x, y));
  if (pred & 8) r = r || z3::expr(c, Z3_mk_fpa_is_nan(c, x)) || z3::expr(c, Z3_mk_fpa_is_nan(c, y));
  return r;
}
z3::expr fp_expr_of(double x) { return fpe(x); }
double fp_conc_of(double x) { return fpc(x); }
bool fp_is_sym(double x) { return isfp(x); }
template <class T> static int fpcmp(int, T, T, int) { path_end(9, "bit-precise compare on this type"); }
template <> int fpcmp<double>(int pred, double a, double b, int flags) {
  z3::expr x = fpe(a), y = fpe(b);
  double ca = fpc(a), cb = fpc(b);
  z3::expr e = fp_cmp_expr(pred, x, y);
  int r = cmpnative(pred, ca, cb);
  if (flags & 1) {
    // compiled under -ffinite-math-only: the outcome on a NaN operand is not determined by the source
    static int nd = 0;
    string nm = "nan_cmp" + to_string(nd++);
    uint64_t v = int_input_value(nm, 1);
    z3::expr nb = zc().bv_const(("i_" + nm).c_str(), 1) == zc().bv_val(1, 1);
    z3::expr isn = z3::expr(zc(), Z3_mk_fpa_is_nan(zc(), x)) || z3::expr(zc(), Z3_mk_fpa_is_nan(zc(), y));
    e = z3::ite(isn, nb, e);
    if (std::isnan(ca) || std::isnan(cb)) r = (int)v;
  }
  e = e.simplify();
  if (e.is_true() || e.is_false()) return e.is_true();
  z3_decide(e, r);
  return r;
}
template <class T> static int cmp(int pred, T a, T b, int flags) {
  if (!symb(a) && !symb(b)) return cmpnative(pred, a, b);
  if (pred == 0) return 0;
  if (pred == 15) return 1;
  if (isfp(a) || isfp(b)) return fpcmp<T>(pred, a, b, flags);
  Val x, y;
  int ka = get(a, x), kb = get(b, y);
  if (ka || kb) { // finite symbolic against native inf / NaN
    return cmpnative(pred, ka ? (long double)a : 0.0L, kb ? (long double)b : 0.0L);
  }
  int want = ((pred & 4) ? 1 : 0) | ((pred & 1) ? 2 : 0) | ((pred & 2) ? 4 : 0);
  if (want == 0) return 0;
  if (want == 7) return 1;
  return vsign(vadd(x, vneg(y)), want);
}
template <class T> static T neg(T a) {
  if (!symb(a)) return -a;
  if (isfp(a)) { if constexpr (is_same<T, double>::value) return box_fp(-fpe(a), -fpc(a)); else path_end(9, "neg"); }
  Val x; get(a, x);
  return put<T>(vneg(x));
}
template <class T> static int fpclass_fp(T, int) { path_end(9, "fpclass"); }
template <> int fpclass_fp<double>(double a, int mask) { // nan 3, -inf 4, -normal 8, -subnormal 16, -0 32, +0 64, +subnormal 128, +normal 256, +inf 512
  z3::context &c = zc();
  z3::expr x = fpe(a), neg(c, Z3_mk_fpa_is_negative(c, x)), r = c.bool_val(false);
  double v = fpc(a);
  int k = std::isnan(v) ? 3 : std::isinf(v) ? (v < 0 ? 4 : 512) : v == 0 ? (std::signbit(v) ? 32 : 64) : std::fpclassify(v) == FP_SUBNORMAL ? (v < 0 ? 16 : 128) : (v < 0 ? 8 : 256);
  if (mask & 3) r = r || z3::expr(c, Z3_mk_fpa_is_nan(c, x));
  auto add = [&](int m, z3::expr cls) { if (mask & m) r = r || (cls && neg); };
  auto addp = [&](int m, z3::expr cls) { if (mask & m) r = r || (cls && !neg); };
  z3::expr inf(c, Z3_mk_fpa_is_infinite(c, x)), nor(c, Z3_mk_fpa_is_normal(c, x)), sub(c, Z3_mk_fpa_is_subnormal(c, x)), zer(c, Z3_mk_fpa_is_zero(c, x));
  add(4, inf); add(8, nor); add(16, sub); add(32, zer);
  addp(64, zer); addp(128, sub); addp(256, nor); addp(512, inf);
  r = r.simplify();
  int res = (mask & k) != 0;
  if (r.is_true() || r.is_false()) return r.is_true();
  z3_decide(r, res);
  return res;
}
template <class A, class B> static B cvt(A a) {
  if (!symb(a)) {
    if (!std::isfinite(a) || (A)(B)a == a) return (B)a;
  } else if (isfp(a)) { int_arith_guard(); path_end(9, "conversion of a bit-precise value"); }
  Val x; get(a, x);
  return put<B>(x);
}
double int_to_fp(uint32_t sh, int bits, int sgn, int64_t v); // rt_int.cpp
bool int_live(uint32_t sh, int64_t v, int bits);
template <class T> static T i2(int64_t v, int bits, int sgn, uint32_t sh) {
  if (sh && int_live(sh, v, bits)) {
    if constexpr (is_same<T, double>::value) return int_to_fp(sh, bits, sgn, v);
    path_end(9, "symbolic integer to this type");
  }
  T r = sgn ? (T)v : (T)(uint64_t)v;
  Q q = sgn ? Q((long)v) : Q((unsigned long)v);
  if (toq(r) == q) return r;
  return put<T>(Val(Poly(q)));
}
extern "C" uint32_t __sym_ret;
static Q qfloor(const Q &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(r); }
static Q bfloor(const BF &f) { BF g = boost::multiprecision::floor(f); return Q(mpz_class(g.str(0, ios_base::fixed).substr(0, g.str(0, ios_base::fixed).find('.')))); }
// concretise floor(v) on this path
static Q vfloor(const Val &v) {
  Num n = veval(v);
  Q f = n.exact ? qfloor(n.q) : bfloor(n.f);
  if (!v.isConst()) {
    vsign(vadd(v, Val(Poly(-f))), 6);
    vsign(vadd(v, Val(Poly(-f - 1))), 1);
  }
  return f;
}
static Q vtrunc(const Val &v) {
  if (v.isConst()) { Q q = v.poly().constVal(); return q >= 0 ? qfloor(q) : Q(-qfloor(-q)); }
  if (vsign(v, 6)) return vfloor(v);
  return -vfloor(vneg(v));
}
template <class T> static int64_t toint(T a, int bits, int sgn) {
  __sym_ret = 0;
  if (!symb(a)) {
    if (!std::isfinite(a)) return sgn ? INT64_MIN : 0;
    long double t = a;
    if (!sgn && t >= 9223372036854775808.0L) return (int64_t)(uint64_t)t;
    return (int64_t)t;
  }
  if (isfp(a)) { int_arith_guard(); path_end(9, "bit-precise double to integer"); }
  Val x; get(a, x);
  Q q = vtrunc(x);
  return (int64_t)q.get_d();
}

// ---------------------------------------------------------------- libm
static Q qfact(long n) { Q r; mpz_fac_ui(r.get_num_mpz_t(), n); return r; }
static Val vexp(const Val &v, bool &ok) {
  ok = true;
  if (!v.pure()) { ok = false; return Val(); }
  Poly key, mul(Q(1));
  const Poly p = v.poly();
  for (auto &x : p.t) {
    const MonoV &m = mono_get(x.first);
    if (m.size() == 1 && m[0].second == 1 && g_atoms[m[0].first].kind == A_LOG && x.second.get_den() == 1 && abs(x.second.get_num()) < (g_atoms[m[0].first].p.isConst() ? 200000 : 5000)) {
      const Poly q = g_atoms[m[0].first].p;
      long c = x.second.get_num().get_si();
      if (q.isConst()) {
        Q b = q.constVal(), r;
        if (c < 0) b = 1 / b;
        mpz_pow_ui(r.get_num_mpz_t(), b.get_num_mpz_t(), labs(c));
        mpz_pow_ui(r.get_den_mpz_t(), b.get_den_mpz_t(), labs(c));
        mul = pscale(mul, r);
      } else if (c >= 0) mul = pmul(mul, ppow(q, c));
      else { Q lead = q.t.back().second; Poly n = pscale(q, 1 / lead); for (long i = 0; i < -c; ++i) mul = pscale(pmul(mul, pvar(atom_inv(n))), 1 / lead); }
    } else { Poly t; t.t.push_back(x); key = padd(key, t); }
  }
  Val r;
  if (!mul.zero()) r.t.push_back({key_intern(key), mul});
  return r;
}
// 0 ok, 1 zero, 2 negative
static int vlog(const Val &v, Val &r) {
  if (v.zero()) return 1;
  if (v.t.size() == 1) {
    const Poly p = v.t[0].second;
    if (p.isConst()) { Q q = p.constVal(); if (q < 0) return 2; }
    else {
      bool fork = pdeg(p) <= 3 && p.t.size() <= 60;
      if (fork) { if (!psign(p, 4)) return psign(p, 2) ? 1 : 2; }
      else { int s = peval(p).sign(); ++st_unforked; if (s == 0) { if (psign(p, 2)) return 1; } else if (s < 0) return 2; }
    }
    Poly lg = key_get(v.t[0].first);
    if (!(p.isConst() && p.constVal() == 1)) lg = padd(lg, pvar(atom_log(p)));
    r = Val(lg);
    return 0;
  }
  Num n = veval(v);
  if (n.sign() <= 0) return n.sign() == 0 ? 1 : 2;
  r = Val(pvar(opaque("log(" + vstr(v) + ")", boost::multiprecision::log(n.bf()))));
  return 0;
}
template <class T> static T opq(const char *nm, T a, BF val) {
  Val x; get(a, x);
  return put<T>(Val(pvar(opaque(string(nm) + "(" + vstr(x) + ")", val))));
}
template <class T> static T m_exp(T a) {
  if (conc_mode()) return std::exp(approx(a));
  if (!symb(a)) { if (!std::isfinite(a)) return std::exp(a); if (a == 0) return 1; }
  if (isfp(a)) { int_arith_guard(); path_end(9, "exp of a bit-precise value"); }
  Val x; get(a, x);
  bool ok;
  Val r = vexp(x, ok);
  if (ok) return put<T>(r);
  return opq("exp", a, boost::multiprecision::exp(veval(x).bf()));
}
template <class T> static T m_log(T a) {
  if (conc_mode()) return std::log(approx(a));
  if (!symb(a)) { if (!std::isfinite(a) || a <= 0) return std::log(a); if (a == 1) return 0; }
  if (isfp(a)) { int_arith_guard(); path_end(9, "log of a bit-precise value"); }
  Val x, r; get(a, x);
  int k = vlog(x, r);
  if (k == 0) return put<T>(r);
  return k == 1 ? -numeric_limits<T>::infinity() : numeric_limits<T>::quiet_NaN();
}
template <class T> static T m_sqrt(T a) {
  if (conc_mode()) return std::sqrt(approx(a));
  if (!symb(a)) return std::sqrt(a);
  if (isfp(a)) { int_arith_guard(); path_end(9, "sqrt of a bit-precise value"); }
  Val x; get(a, x);
  if (x.isConst()) {
    Q q = x.poly().constVal();
    if (q < 0) return numeric_limits<T>::quiet_NaN();
    if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) { Q r; mpz_sqrt(r.get_num_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(r.get_den_mpz_t(), q.get_den_mpz_t()); return put<T>(Val(Poly(r))); }
    return (T)boost::multiprecision::sqrt(veval(x).bf());
  }
  if (x.pure()) { if (psign(x.poly(), 1)) return numeric_limits<T>::quiet_NaN(); return put<T>(Val(pvar(atom_sqrt(x.poly())))); }
  return opq("sqrt", a, boost::multiprecision::sqrt(boost::multiprecision::abs(veval(x).bf())));
}
template <class T> static T powint(T a, long k) {
  Val x; get(a, x);
  if (k >= 0) {
    Val r(Poly(Q(1)));
    if (x.pure()) r = Val(ppow(x.poly(), k));
    else if (x.t.size() == 1) { r = Val(); r.t.push_back({key_intern(pscale(key_get(x.t[0].first), Q(k))), ppow(x.t[0].second, k)}); }
    else for (long i = 0; i < k; ++i) r = vmul(r, x);
    return put<T>(r);
  }
  return bin<T>(3, (T)1, powint<T>(a, -k));
}
template <class T> static T m_pow(T a, T b) {
  if (conc_mode()) return std::pow(approx(a), approx(b));
  if (isfp(a) || isfp(b)) { int_arith_guard(); path_end(9, "pow of a bit-precise value"); }
  if (!symb(b)) {
    if (!std::isfinite(b)) return std::pow(approx(a), b);
    if (b == (long)b && fabsl((long double)b) < 100000) {
      if (!symb(a) && !std::isfinite(a)) return std::pow(a, b);
      if (b == 0) return 1;
      if (!symb(a) && a == 0) return std::pow(a, b);
      return powint<T>(a, (long)b);
    }
    if (b == 0.5) return m_sqrt<T>(a);
  }
  if (!symb(a) && (!std::isfinite(a) || a <= 0)) return std::pow(a, approx(b));
  if (!symb(a) && a == 1) return 1;
  return m_exp<T>(bin<T>(2, b, m_log<T>(a)));
}
template <class T> static T m_fabs(T a) {
  if (!symb(a)) return std::fabs(a);
  if (isfp(a)) { if constexpr (is_same<T, double>::value) return box_fp(z3::expr(zc(), Z3_mk_fpa_abs(zc(), fpe(a))), std::fabs(fpc(a))); }
  Val x; get(a, x);
  return vsign(x, 1) ? put<T>(vneg(x)) : a;
}
template <class T> static T m_lgamma(T a) {
  if (conc_mode()) return (T)lgammal(approx(a));
  if (symb(a)) {
    Val x; get(a, x);
    return opq("lgamma", a, BF(lgamma(veval(x).d())));
  }
  if (std::isfinite(a) && a >= 1 && a == std::floor(a) && a < 100000) {
    if (a <= 2) return 0;
    return put<T>(Val(pvar(atom_log(Poly(qfact((long)a - 1))))));
  }
  return (T)lgammal(a);
}
template <class T> static T m_tgamma(T a) {
  if (conc_mode()) return (T)tgammal(approx(a));
  if (!symb(a)) { if (a >= 1 && a == std::floor(a) && a < 100000) return put<T>(Val(Poly(qfact((long)a - 1)))); return (T)tgammal(a); }
  return opq("tgamma", a, BF(tgamma(approx((double)approx(a)))));
}
template <class T> static T m_floor(T a) { if (!symb(a)) return std::floor(a); Val x; get(a, x); return put<T>(Val(Poly(vfloor(x)))); }
template <class T> static T m_ceil(T a) { if (!symb(a)) return std::ceil(a); Val x; get(a, x); return put<T>(Val(Poly(-vfloor(vneg(x))))); }
template <class T> static T m_trunc(T a) { if (!symb(a)) return std::trunc(a); Val x; get(a, x); return put<T>(Val(Poly(vtrunc(x)))); }
template <class T> static T m_round(T a) { if (!symb(a)) return std::round(a); Val x; get(a, x); return put<T>(Val(Poly(vfloor(vadd(x, Val(Poly(Q(1, 2)))))))); }
template <class T> static T m_fmax(T a, T b) { if (!symb(a) && !symb(b)) return std::fmax(a, b); return cmp<T>(4, a, b, 0) ? b : a; }
template <class T> static T m_fmin(T a, T b) { if (!symb(a) && !symb(b)) return std::fmin(a, b); return cmp<T>(2, a, b, 0) ? b : a; }
template <class T> static T m_copysign(T a, T b) {
  if (!symb(a) && !symb(b)) return std::copysign(a, b);
  T m = m_fabs<T>(a);
  bool ng = symb(b) ? cmp<T>(4, b, (T)0, 0) : std::signbit(b);
  return ng ? neg<T>(m) : m;
}
template <class T> static T m_ldexp(T a, int k) {
  if (!symb(a)) { T r = std::ldexp(a, k); if (!std::isfinite(a) || a == 0 || (std::isfinite(r) && r != 0 && std::ldexp(r, -k) == a)) return r; }
  Val x; get(a, x);
  Q q(1);
  if (k >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), k); else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -k);
  return put<T>(vscale(x, q));
}
template <class T> static T m_frexp(T a, int *e) {
  if (g_intmode) int_clear(e, 4);
  if (!symb(a)) return std::frexp(a, e);
  Val x; get(a, x);
  if (vsign(x, 2)) { *e = 0; return 0; }
  bool ng = vsign(x, 1);
  if (ng) x = vneg(x);
  Num n = veval(x);
  int ex;
  boost::multiprecision::frexp(n.bf(), &ex);
  *e = ex;
  if (!x.isConst()) {
    size_t k0 = g_path.size();
    Q lo(1), hi(1);
    if (ex - 1 >= 0) lo <<= (ex - 1); else lo >>= (1 - ex);
    if (ex >= 0) hi <<= ex; else hi >>= -ex;
    vsign(vadd(x, Val(Poly(-lo))), 6);
    vsign(vadd(x, Val(Poly(-hi))), 1);
    if (ex < -40) for (size_t k = k0; k < g_path.size(); ++k) g_path[k].noexpand = true;
  }
  T r = m_ldexp<T>(a, -ex);
  return r;
}
template <class T> static T m_modf(T a, T *ip) {
  if (g_intmode) int_clear(ip, sizeof(T));
  if (!symb(a)) return std::modf(a, ip);
  T t = m_trunc<T>(a);
  *ip = t;
  return bin<T>(1, a, t);
}
template <class T> static T m_exp2(T a) { return m_pow<T>((T)2, a); }
template <class T> static T m_exp10(T a) { return m_pow<T>((T)10, a); }
template <class T> static T m_expm1(T a) { return bin<T>(1, m_exp<T>(a), (T)1); }
template <class T> static T m_log1p(T a) { return m_log<T>(bin<T>(0, (T)1, a)); }
#define OPQ1(nm) \
  template <class T> static T m_##nm(T a) { \
    if (!symb(a)) return std::nm(a); \
    Val x; get(a, x); \
    if (x.isConst()) return (T)std::nm((long double)veval(x).bf()); \
    return opq(#nm, a, BF(std::nm((long double)veval(x).bf()))); \
  }
OPQ1(log2) OPQ1(log10) OPQ1(cbrt) OPQ1(sin) OPQ1(cos) OPQ1(tan) OPQ1(erf) OPQ1(erfc) OPQ1(sinh) OPQ1(cosh) OPQ1(tanh)
#define OPQ2(nm) template <class T> static T m_##nm(T a, T b) { if (symb(a) || symb(b)) path_end(9, #nm " of a symbolic value"); return std::nm(a, b); }
OPQ2(fmod) OPQ2(hypot) OPQ2(fdim) OPQ2(atan2)
template <class T> static T m_rint(T a) { return m_round<T>(a); }
template <class T> static T m_nearbyint(T a) { return m_round<T>(a); }
template <class T> static T m_gamma(T a) { return m_lgamma<T>(a); }

extern "C" {
#define DEF(sf, T) \
  T __sym_bin_##sf(int op, T a, T b) { return bin<T>(op, a, b); } \
  T __sym_neg_##sf(T a) { return neg<T>(a); } \
  int __sym_cmp_##sf(int p, T a, T b, int fl) { return cmp<T>(p, a, b, fl); } \
  T __sym_i2##sf(int64_t v, int bits, int sg, uint32_t sh) { return i2<T>(v, bits, sg, sh); } \
  int64_t __sym_##sf##2i(T a, int bits, int sg) { return toint<T>(a, bits, sg); } \
  T __sym_powi_##sf(T a, int k) { if (!symb(a) && (!std::isfinite(a) || (a == 0 && k < 0))) return std::pow(a, (T)k); return powint<T>(a, k); } \
  int __sym_fpclass_##sf(T a, int mask) { \
    if (symb(a)) { if (isfp(a)) return fpclass_fp(a, mask); return (mask & 0x1f8) == 0x1f8; } \
    int c = std::isnan(a) ? 3 : std::isinf(a) ? (a < 0 ? 4 : 512) : a == 0 ? (std::signbit(a) ? 32 : 64) : (a < 0 ? 8 : 256); \
    return (mask & c) != 0; }
DEF(f, float) DEF(d, double) DEF(x, long double)
#define CV(a, A, b, B) B __sym_cvt_##a##b(A x) { return cvt<A, B>(x); }
CV(f, float, d, double) CV(f, float, x, long double) CV(d, double, f, float) CV(d, double, x, long double) CV(x, long double, f, float) CV(x, long double, d, double)
#define M1(nm) double __sym_m_##nm##_d(double a) { return m_##nm<double>(a); } long double __sym_m_##nm##_x(long double a) { return m_##nm<long double>(a); } \
  float __sym_m_##nm##_f(float a) { return cvt<double, float>(m_##nm<double>(cvt<float, double>(a))); }
M1(exp) M1(exp2) M1(expm1) M1(log) M1(log2) M1(log10) M1(log1p) M1(sqrt) M1(cbrt) M1(fabs) M1(floor) M1(ceil) M1(trunc) M1(round) M1(rint) M1(nearbyint) M1(lgamma) M1(tgamma) M1(sin) M1(cos) M1(tan) M1(erf) M1(erfc) M1(sinh) M1(cosh) M1(tanh) M1(exp10) M1(gamma)
#define M2(nm) double __sym_m_##nm##_d(double a, double b) { return m_##nm<double>(a, b); } long double __sym_m_##nm##_x(long double a, long double b) { return m_##nm<long double>(a, b); } \
  float __sym_m_##nm##_f(float a, float b) { return cvt<double, float>(m_##nm<double>(cvt<float, double>(a), cvt<float, double>(b))); }
M2(pow) M2(fmod) M2(fmax) M2(fmin) M2(hypot) M2(copysign) M2(fdim) M2(atan2)
double __sym_lgamma_r(double a, int *s) { if (g_intmode) int_clear(s, 4); *s = 1; return m_lgamma<double>(a); }
double __sym_ldexp_d(double a, int k) { return m_ldexp<double>(a, k); }
long double __sym_ldexp_x(long double a, int k) { return m_ldexp<long double>(a, k); }
float __sym_ldexp_f(float a, int k) { return cvt<double, float>(m_ldexp<double>(cvt<float, double>(a), k)); }
double __sym_scalbn_d(double a, int k) { return m_ldexp<double>(a, k); }
long double __sym_scalbn_x(long double a, int k) { return m_ldexp<long double>(a, k); }
double __sym_scalbln_d(double a, long k) { return m_ldexp<double>(a, k); }
long double __sym_scalbln_x(long double a, long k) { return m_ldexp<long double>(a, k); }
double __sym_frexp_d(double a, int *e) { return m_frexp<double>(a, e); }
long double __sym_frexp_x(long double a, int *e) { return m_frexp<long double>(a, e); }
double __sym_modf_d(double a, double *e) { return m_modf<double>(a, e); }
long double __sym_modf_x(long double a, long double *e) { return m_modf<long double>(a, e); }
int __sym_ilogb_d(double a) { int e; m_frexp<double>(a, &e); return e - 1; }
int __sym_ilogb_x(long double a) { int e; m_frexp<long double>(a, &e); return e - 1; }
double __sym_logb_d(double a) { int e; m_frexp<double>(a, &e); return e - 1; }
long double __sym_logb_x(long double a) { int e; m_frexp<long double>(a, &e); return e - 1; }
complex<double> __sym_muldc3(double a, double b, double c, double d) {
  return {bin<double>(1, bin<double>(2, a, c), bin<double>(2, b, d)), bin<double>(0, bin<double>(2, a, d), bin<double>(2, b, c))};
}
ostream &__sym_os_d(ostream &o, double x) {
  if (symb(x)) { if (TR<double>::poison(x)) { Val v; get(x, v); x = box_val(v); } return o << "@S" << boxidx(x) << "@"; }
  return o << x;
}
ostream &__sym_os_x(ostream &o, long double x) { if (symb(x)) return __sym_os_d(o, cvt<long double, double>(x)); return o << x; }
ostream &__sym_os_f(ostream &o, float x) { if (symb(x)) return __sym_os_d(o, cvt<float, double>(x)); return o << x; }
}
