// exact symbolic algebra of the real domain
#include "rt.h"
#include <algorithm>
using namespace std;

struct MonoHash { size_t operator()(const MonoV &m) const { size_t h = 1469598103934665603ull; for (auto &p : m) { h ^= p.first * 1000003ull + p.second; h *= 1099511628211ull; } return h; } };
static vector<MonoV> g_monos{MonoV()};
static unordered_map<MonoV, uint32_t, MonoHash> g_monoidx{{MonoV(), 0}};
static unordered_map<uint64_t, uint32_t> g_monomul;
uint32_t mono_intern(const MonoV &m) {
  auto it = g_monoidx.find(m);
  if (it != g_monoidx.end()) return it->second;
  uint32_t id = g_monos.size();
  g_monos.push_back(m);
  g_monoidx[m] = id;
  return id;
}
const MonoV &mono_get(uint32_t id) { return g_monos[id]; }
uint32_t mono_mul(uint32_t a, uint32_t b) {
  if (!a) return b;
  if (!b) return a;
  if (a > b) swap(a, b);
  uint64_t k = (uint64_t)a << 32 | b;
  auto it = g_monomul.find(k);
  if (it != g_monomul.end()) return it->second;
  const MonoV &x = g_monos[a], &y = g_monos[b];
  MonoV r;
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; }
  }
  uint32_t id = mono_intern(r);
  g_monomul[k] = id;
  return id;
}
Poly padd(const Poly &a, const Poly &b) {
  Poly r;
  r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) r.t.push_back(b.t[j++]);
    else { Q s = a.t[i].second + b.t[j].second; if (s != 0) r.t.push_back({a.t[i].first, s}); ++i; ++j; }
  }
  return r;
}
Poly pscale(const Poly &a, const Q &q) {
  if (q == 0) return Poly();
  Poly r = a;
  for (auto &x : r.t) x.second *= q;
  return r;
}
Poly psub(const Poly &a, const Poly &b) { return padd(a, pscale(b, Q(-1))); }
static void sortp(Poly &r) { sort(r.t.begin(), r.t.end(), [](const pair<uint32_t, Q> &x, const pair<uint32_t, Q> &y) { return x.first < y.first; }); }
Poly pmul(const Poly &a, const Poly &b) {
  if (a.zero() || b.zero()) return Poly();
  if (a.isConst()) return pscale(b, a.constVal());
  if (b.isConst()) return pscale(a, b.constVal());
  if (a.t.size() == 1 || b.t.size() == 1) {
    const Poly &s = a.t.size() == 1 ? a : b, &l = a.t.size() == 1 ? b : a;
    Poly r;
    r.t.reserve(l.t.size());
    for (auto &x : l.t) r.t.push_back({mono_mul(x.first, s.t[0].first), x.second * s.t[0].second});
    sortp(r);
    return r;
  }
  unordered_map<uint32_t, Q> acc;
  acc.reserve(a.t.size() * b.t.size());
  Q tmp;
  for (auto &x : a.t)
    for (auto &y : b.t) { tmp = x.second * y.second; acc[mono_mul(x.first, y.first)] += tmp; }
  Poly r;
  r.t.reserve(acc.size());
  for (auto &x : acc) if (x.second != 0) r.t.push_back({x.first, x.second});
  sortp(r);
  return r;
}
Poly ppow(const Poly &a, unsigned k) {
  Poly r(Q(1)), b = a;
  while (k) { if (k & 1) r = pmul(r, b); k >>= 1; if (k) b = pmul(b, b); }
  return r;
}
Poly pvar(uint32_t v) { Poly p; p.t.push_back({mono_intern(MonoV{{v, 1}}), Q(1)}); return p; }
unsigned pdeg(const Poly &p) {
  unsigned d = 0;
  for (auto &x : p.t) { unsigned s = 0; for (auto &m : mono_get(x.first)) s += m.second; d = max(d, s); }
  return d;
}
string pstr(const Poly &p) {
  if (p.zero()) return "0";
  string s;
  size_t n = 0;
  for (auto &x : p.t) {
    if (++n > 12) { s += " + ..."; break; }
    if (!s.empty()) s += " + ";
    s += x.second.get_str();
    for (auto &m : mono_get(x.first)) { s += "*" + g_atoms[m.first].name; if (m.second > 1) s += "^" + to_string(m.second); }
  }
  return s;
}

// ---------------------------------------------------------------- keys and values
struct PolyHash { size_t operator()(const Poly &p) const { size_t h = 7; for (auto &x : p.t) { h = h * 1000003 + x.first; h = h * 31 + mpz_get_ui(x.second.get_num_mpz_t()) * 7 + mpz_sgn(x.second.get_num_mpz_t()); h = h * 31 + mpz_get_ui(x.second.get_den_mpz_t()); } return h; } };
static vector<Poly> g_keys{Poly()};
static unordered_map<Poly, uint32_t, PolyHash> g_keyidx{{Poly(), 0}};
static unordered_map<uint64_t, uint32_t> g_keyadd;
uint32_t key_intern(const Poly &p) {
  auto it = g_keyidx.find(p);
  if (it != g_keyidx.end()) return it->second;
  uint32_t id = g_keys.size();
  g_keys.push_back(p);
  g_keyidx[p] = id;
  return id;
}
const Poly &key_get(uint32_t k) { return g_keys[k]; }
static uint32_t key_add(uint32_t a, uint32_t b) {
  if (!a) return b;
  if (!b) return a;
  if (a > b) swap(a, b);
  uint64_t k = (uint64_t)a << 32 | b;
  auto it = g_keyadd.find(k);
  if (it != g_keyadd.end()) return it->second;
  return g_keyadd[k] = key_intern(padd(g_keys[a], g_keys[b]));
}
Val vadd(const Val &a, const Val &b) {
  Val r;
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
    else if (i == a.t.size() || b.t[j].first < a.t[i].first) r.t.push_back(b.t[j++]);
    else { Poly s = padd(a.t[i].second, b.t[j].second); if (!s.zero()) r.t.push_back({a.t[i].first, s}); ++i; ++j; }
  }
  return r;
}
Val vscale(const Val &a, const Q &q) {
  if (q == 0) return Val();
  Val r = a;
  for (auto &x : r.t) x.second = pscale(x.second, q);
  return r;
}
Val vneg(const Val &a) { return vscale(a, Q(-1)); }
Val vmul(const Val &a, const Val &b) {
  if (a.t.size() == 1 && b.t.size() == 1) {
    Val r;
    r.t.push_back({key_add(a.t[0].first, b.t[0].first), pmul(a.t[0].second, b.t[0].second)});
    return r;
  }
  Val r;
  for (auto &x : a.t)
    for (auto &y : b.t) { Val s; s.t.push_back({key_add(x.first, y.first), pmul(x.second, y.second)}); r = vadd(r, s); }
  return r;
}
string vstr(const Val &v) {
  if (v.zero()) return "0";
  string s;
  for (auto &x : v.t) { if (!s.empty()) s += " + "; if (x.first) s += "exp(" + pstr(g_keys[x.first]) + ")*"; s += "(" + pstr(x.second) + ")"; if (s.size() > 600) { s += "..."; break; } }
  return s;
}

// ---------------------------------------------------------------- atoms and evaluation
vector<Atom> g_atoms;
static map<string, uint32_t> g_atomdef; // LOG/INV/SQRT memo by polynomial text
uint32_t new_atom(const Atom &a) { g_atoms.push_back(a); return g_atoms.size() - 1; }

static BF q2bf(const Q &q) {
  if (mpz_fits_slong_p(q.get_num_mpz_t()) && mpz_fits_slong_p(q.get_den_mpz_t())) return BF(q.get_num().get_si()) / BF(q.get_den().get_si());
  // scale to ~ 300 bits
  long sh = 300 - (long)mpz_sizeinbase(q.get_num_mpz_t(), 2) + (long)mpz_sizeinbase(q.get_den_mpz_t(), 2);
  mpz_class n = q.get_num(), d = q.get_den();
  if (sh > 0) n <<= sh; else d <<= -sh;
  mpz_class r = n / d;
  BF x = 0;
  // convert r (about 300 bits)
  bool neg = r < 0;
  if (neg) r = -r;
  size_t cnt = 0;
  unsigned char buf[64];
  mpz_export(buf, &cnt, 1, 1, 1, 0, r.get_mpz_t());
  for (size_t i = 0; i < cnt; ++i) x = x * 256 + buf[i];
  x = boost::multiprecision::ldexp(x, (int)-sh);
  return neg ? BF(-x) : x;
}
BF Num::bf() const { return exact ? q2bf(q) : f; }
double Num::d() const { return exact ? (mpz_sizeinbase(q.get_num_mpz_t(), 2) < 900 && mpz_sizeinbase(q.get_den_mpz_t(), 2) < 900 ? q.get_d() : (double)q2bf(q)) : (double)f; }
int Num::sign() const {
  if (exact) return sgn(q);
  BF a = boost::multiprecision::abs(f);
  if (a < BF("1e-60")) return 0;
  return f < 0 ? -1 : 1;
}
static const Q qpow(const Q &b, unsigned e) {
  Q r;
  mpz_pow_ui(r.get_num_mpz_t(), b.get_num_mpz_t(), e);
  mpz_pow_ui(r.get_den_mpz_t(), b.get_den_mpz_t(), e);
  return r;
}
static Num atomval(uint32_t v, const Assign *m) {
  Atom &a = g_atoms[v];
  if (m) {
    auto it = m->find(v);
    if (it != m->end()) return Num{true, it->second, 0};
  }
  if (a.kind == A_LOG || a.kind == A_SQRT || a.kind == A_INV) {
    Num n = peval(a.p, m);
    if (a.kind == A_INV) { if (n.exact && n.q != 0) return Num{true, 1 / n.q, 0}; return Num{false, Q(0), n.sign() ? BF(1) / n.bf() : BF(0)}; }
    BF x = n.bf();
    if (a.kind == A_LOG) return Num{false, Q(0), x > 0 ? BF(boost::multiprecision::log(x)) : BF(-1e9)};
    return Num{false, Q(0), x > 0 ? BF(boost::multiprecision::sqrt(x)) : BF(0)};
  }
  if (a.exact) return Num{true, a.q, 0};
  return Num{false, Q(0), a.bf};
}
Num peval(const Poly &p, const Assign *m) {
  Num r{true, Q(0), BF(0)};
  map<uint32_t, Num> cache;
  for (auto &x : p.t) {
    Q q = x.second;
    BF f = 1;
    bool ex = true;
    for (auto &v : mono_get(x.first)) {
      auto it = cache.find(v.first);
      if (it == cache.end()) it = cache.emplace(v.first, atomval(v.first, m)).first;
      if (it->second.exact) q *= qpow(it->second.q, v.second);
      else { ex = false; f *= boost::multiprecision::pow(it->second.f, (int)v.second); }
    }
    if (ex && r.exact) r.q += q;
    else {
      if (r.exact) { r.f = q2bf(r.q); r.exact = false; }
      r.f += ex ? q2bf(q) : BF(q2bf(q) * f);
    }
  }
  return r;
}
Num veval(const Val &v, const Assign *m) {
  if (v.pure()) return peval(v.poly(), m);
  BF s = 0;
  for (auto &x : v.t) {
    BF e = 1;
    if (x.first) e = boost::multiprecision::exp(peval(key_get(x.first), m).bf());
    s += e * peval(x.second, m).bf();
  }
  return Num{false, Q(0), s};
}
static uint32_t derived(AtomKind k, const char *nm, const Poly &p) {
  string key = string(nm);
  for (auto &x : p.t) key += "|" + to_string(x.first) + ":" + x.second.get_str();
  auto it = g_atomdef.find(key);
  if (it != g_atomdef.end()) return it->second;
  Atom a;
  a.kind = k; a.p = p; a.exact = false;
  a.name = string(nm) + "(" + pstr(p) + ")";
  return g_atomdef[key] = new_atom(a);
}
uint32_t atom_log(const Poly &p) { return derived(A_LOG, "log", p); }
uint32_t atom_inv(const Poly &p) { return derived(A_INV, "inv", p); }
uint32_t atom_sqrt(const Poly &p) { return derived(A_SQRT, "sqrt", p); }
