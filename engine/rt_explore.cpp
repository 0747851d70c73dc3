#include <execinfo.h>
// path exploration: concolic execution in forked children, branch alternatives and assertions decided by z3
#include "rt.h"
#include "symrt.h"
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
using namespace std;
typedef chrono::steady_clock Clk;
static double now() { return chrono::duration<double>(Clk::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- globals
vector<Dec> g_path;
vector<IntInput> g_ints;
bool g_intmode = false;
extern "C" { uint32_t __sym_arg[32]; uint32_t __sym_ret; }
uint64_t st_unforked = 0, st_queries = 0, st_sat = 0, st_unsat = 0, st_unknown = 0;
static double st_solver = 0;
static map<string, string> g_params;
static map<string, Q> g_realinit;          // values of the real inputs of this run
static map<string, uint64_t> g_intinit;
static vector<uint32_t> g_realinputs;
static size_t g_bound = 0;
static uint64_t g_expecthash = 0, g_hash = 1469598103934665603ull, g_hashAtBound = 0;
static FILE *g_out = nullptr;
static sigjmp_buf g_jmp;
static int g_endstatus = 0;
static string g_endmsg;
static bool g_inRun = false;
static bool g_crashok = false;
static set<string> g_reach;
struct AStat { uint64_t proved = 0, violated = 0, unknown = 0, trivial = 0; };
static map<string, AStat> g_asserts;
static unsigned g_rlimit = 20000000, g_nlrlimit = 60000000;
static string jesc(const string &s) {
  string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

// ---------------------------------------------------------------- z3
static z3::context *g_zc = nullptr;
z3::context &zc() { if (!g_zc) g_zc = new z3::context(); return *g_zc; }
static vector<shared_ptr<z3::expr>> g_atomz;
static vector<z3::expr> *g_axioms = nullptr;
static set<uint32_t> g_axdone;
z3::expr z3_atom(uint32_t a) {
  if (g_atomz.size() <= a) g_atomz.resize(a + 64);
  if (!g_atomz[a]) g_atomz[a] = make_shared<z3::expr>(zc().real_const(("a" + to_string(a)).c_str()));
  return *g_atomz[a];
}
static z3::expr z3_q(const Q &q) { return zc().real_val(q.get_str().c_str()); }
z3::expr z3_poly(const Poly &p) {
  if (p.zero()) return zc().real_val(0);
  z3::expr_vector sum(zc());
  for (auto &x : p.t) {
    z3::expr_vector f(zc());
    if (x.second != 1 || x.first == 0) f.push_back(z3_q(x.second));
    for (auto &m : mono_get(x.first)) {
      z3::expr a = z3_atom(m.first);
      for (unsigned i = 0; i < m.second; ++i) f.push_back(a);
    }
    if (f.size() == 1) sum.push_back(f[0]);
    else { vector<Z3_ast> v; for (unsigned i = 0; i < f.size(); ++i) v.push_back(f[i]); sum.push_back(z3::expr(zc(), Z3_mk_mul(zc(), v.size(), v.data()))); }
  }
  if (sum.size() == 1) return sum[0];
  return z3::sum(sum);
}
static void atoms_of(const Poly &p, set<uint32_t> &s) { for (auto &x : p.t) for (auto &m : mono_get(x.first)) s.insert(m.first); }
static bool linear(const Poly &p) {
  for (auto &x : p.t) { auto &m = mono_get(x.first); if (m.size() > 1 || (m.size() == 1 && m[0].second > 1)) return false; }
  return true;
}
// axioms of derived atoms occurring in p; returns false if an atom without complete theory occurs
static bool axioms(const Poly &p, vector<z3::expr> &ax, set<uint32_t> &done, bool &nonlin) {
  bool complete = true;
  set<uint32_t> s;
  atoms_of(p, s);
  for (uint32_t a : s) {
    if (!done.insert(a).second) { if (g_atoms[a].kind == A_LOG || g_atoms[a].kind == A_OPAQUE) complete = false; continue; }
    Atom at = g_atoms[a];
    switch (at.kind) {
    case A_INV: ax.push_back(z3_atom(a) * z3_poly(at.p) == 1); nonlin = true; if (!axioms(at.p, ax, done, nonlin)) complete = false; break;
    case A_SQRT: ax.push_back(z3_atom(a) * z3_atom(a) == z3_poly(at.p)); ax.push_back(z3_atom(a) >= 0); nonlin = true; if (!axioms(at.p, ax, done, nonlin)) complete = false; break;
    case A_DELTA: ax.push_back(z3_atom(a) <= z3_q(Q(1, 1 << 24))); ax.push_back(z3_atom(a) >= z3_q(Q(-1, 1 << 24))); break;
    case A_LOG: case A_OPAQUE: complete = false; break;
    default: break;
    }
  }
  return complete;
}
static z3::expr mask_expr(const Poly &p, int mask) {
  z3::expr e = z3_poly(p), z = zc().real_val(0);
  switch (mask) {
  case 1: return e < z;
  case 2: return e == z;
  case 4: return e > z;
  case 3: return e <= z;
  case 6: return e >= z;
  case 5: return e != z;
  case 7: return zc().bool_val(true);
  }
  return zc().bool_val(false);
}
static z3::expr dec_expr(const Dec &d) {
  if (d.k == Dec::SIGN) return mask_expr(d.p, d.taken);
  return d.tk ? *d.c : !*d.c;
}
static z3::expr alt_expr(const Dec &d) {
  if (d.k == Dec::SIGN) return mask_expr(d.p, d.before & ~d.taken);
  if (d.alt) return *d.alt;
  return d.tk ? !*d.c : *d.c;
}

// alternatives whose condition is a high-degree polynomial in several variables are not explored (counted)
static bool toohard(const Poly &p) {
  static unsigned md = sym_param("maxdeg", 5);
  if (pdeg(p) <= md) return false;
  set<uint32_t> s;
  atoms_of(p, s);
  return s.size() > 1;
}
// incremental context over the prefix of the path
struct PathSolver {
  z3::solver lin, all; // lin: simple incremental; all: collects everything for non-linear queries
  bool nonlin = false, complete = true, bv = false;
  set<uint32_t> axd;
  vector<z3::expr> cs;
  size_t upto = 0;
  PathSolver() : lin(zc(), z3::solver::simple()), all(zc()) {}
  bool nohard = false; // answer "unknown" rather than reason about hard constraints
  vector<z3::expr> hard; // constraints over high-degree multivariate polynomials: used only when the rest does not decide
  void add(const z3::expr &e) { lin.add(e); cs.push_back(e); }
  void addPoly(const Poly &p) {
    vector<z3::expr> ax;
    if (!axioms(p, ax, axd, nonlin)) complete = false;
    if (!linear(p)) nonlin = true;
    for (auto &e : ax) add(e);
  }
  void addDec(const Dec &d) {
    if (d.k == Dec::SIGN && toohard(d.p)) {
      bool nl = false;
      vector<z3::expr> ax;
      if (!axioms(d.p, ax, axd, nl)) complete = false;
      for (auto &e : ax) add(e);
      hard.push_back(dec_expr(d));
      return;
    }
    if (d.k == Dec::SIGN) addPoly(d.p); else bv = true;
    add(dec_expr(d));
  }
  void extend(size_t n) { for (; upto < n; ++upto) addDec(g_path[upto]); }
  // res: 0 unsat 1 sat 2 unknown
  int check(const vector<z3::expr> &extra, bool extraNonlin, z3::model *&m) {
    int r = check1(extra, extraNonlin, m);
    if (hard.empty() || r == 0) return r;
    if (r == 1) {
      bool ok = true;
      for (auto &e : hard) { z3::expr v = m->eval(e, true); if (!v.is_true()) ok = false; }
      if (ok) return r;
    }
    m = nullptr;
    if (nohard) { ++st_unknown; return 2; }
    vector<z3::expr> all = extra;
    for (auto &e : hard) all.push_back(e);
    return check1(all, true, m);
  }
  int check1(const vector<z3::expr> &extra, bool extraNonlin, z3::model *&m) {
    double t0 = now();
    ++st_queries;
    m = nullptr;
    z3::check_result r = z3::unknown;
    try {
      if ((nonlin || extraNonlin) && !bv) {
        z3::solver s = z3::tactic(zc(), "qfnra-nlsat").mk_solver();
        // nlsat preprocess: simplify, solve-eqs
        s = (z3::tactic(zc(), "simplify") & z3::tactic(zc(), "propagate-values") & z3::tactic(zc(), "solve-eqs") & z3::tactic(zc(), "purify-arith") & z3::tactic(zc(), "qfnra-nlsat")).mk_solver();
        z3::params p(zc());
        p.set("rlimit", g_nlrlimit);
        s.set(p);
        for (auto &e : cs) s.add(e);
        for (auto &e : extra) s.add(e);
        r = s.check();
        if (r == z3::sat) m = new z3::model(s.get_model());
      } else {
        z3::params p(zc());
        p.set("rlimit", g_rlimit);
        lin.push();
        lin.set(p);
        for (auto &e : extra) lin.add(e);
        r = lin.check();
        if (r == z3::sat) m = new z3::model(lin.get_model());
        lin.pop();
        if (r == z3::unknown && bv && !nonlin) {
          z3::solver s(zc());
          p.set("rlimit", g_nlrlimit);
          s.set(p);
          for (auto &e : cs) s.add(e);
          for (auto &e : extra) s.add(e);
          r = s.check();
          if (r == z3::sat) m = new z3::model(s.get_model());
        }
      }
    } catch (z3::exception &e) { if (getenv("SYM_DEBUG")) fprintf(stderr, "z3: %s\n", e.msg()); r = z3::unknown; }
    st_solver += now() - t0;
    if (getenv("SYM_DEBUGQ") && now() - t0 > 1) { fprintf(stderr, "slow query %.1fs %d\n", now() - t0, (int)r); for (auto &e : extra) fprintf(stderr, "  Q %.400s\n", e.to_string().c_str()); for (auto &e : cs) fprintf(stderr, "  C %.200s\n", e.to_string().c_str()); }
    if (r == z3::sat) { ++st_sat; return 1; }
    if (r == z3::unsat) { ++st_unsat; return 0; }
    ++st_unknown;
    return 2;
  }
};
static PathSolver *g_ps = nullptr; // used during the run, over the full current path

static bool model_q(const z3::expr &v, Q &q, bool &exactv) {
  string s;
  exactv = true;
  if (v.is_numeral()) {
    z3::expr num = v.numerator(), den = v.denominator();
    q = Q(mpz_class(num.get_decimal_string(0)), mpz_class(den.get_decimal_string(0)));
    q.canonicalize();
    return true;
  }
  if (v.is_algebraic()) {
    exactv = false;
    z3::expr lo(zc(), Z3_get_algebraic_number_lower(zc(), v, 40));
    z3::expr num = lo.numerator(), den = lo.denominator();
    q = Q(mpz_class(num.get_decimal_string(0)), mpz_class(den.get_decimal_string(0)));
    q.canonicalize();
    return true;
  }
  return false;
}
static void get_model(z3::model &m, Assign &a, map<string, uint64_t> &im, bool &exactv) {
  exactv = true;
  for (uint32_t i = 0; i < g_atoms.size(); ++i) {
    Atom &at = g_atoms[i];
    if (at.kind != A_INPUT && at.kind != A_GARBAGE && at.kind != A_DELTA && at.kind != A_SPEC) continue;
    if (i >= g_atomz.size() || !g_atomz[i]) { a[i] = at.q; continue; }
    z3::expr v = m.eval(*g_atomz[i], false);
    Q q; bool ex;
    if (v.is_const() && !v.is_numeral() && !v.is_algebraic()) { a[i] = at.q; continue; }
    if (model_q(v, q, ex)) { a[i] = q; exactv &= ex; } else a[i] = at.q;
  }
  for (auto &in : g_ints) {
    z3::expr c = zc().bv_const(("i_" + in.name).c_str(), in.bits);
    z3::expr v = m.eval(c, false);
    if (v.is_numeral()) { uint64_t u = 0; Z3_get_numeral_uint64(zc(), v, &u); im[in.name] = u; }
    else im[in.name] = in.val;
  }
}

// ---------------------------------------------------------------- sign decisions
static map<uint32_t, Poly> g_subst;
struct PolyLess { bool operator()(const Poly &a, const Poly &b) const { return a.t < b.t; } };
static map<Poly, int, PolyLess> g_memo;
static void hashmix(uint64_t v) { g_hash ^= v; g_hash *= 1099511628211ull; }
static void record(const Dec &d) {
  if (g_path.size() == g_bound) g_hashAtBound = g_hash;
  g_path.push_back(d);
  hashmix(d.k * 16 + (d.k == Dec::SIGN ? (d.taken + 8 * d.before) : d.tk));
  if (g_path.size() > 200000) path_end(9, "too many decisions on one path");
}
Poly psubst(const Poly &p) {
  if (g_subst.empty()) return p;
  bool hit = false;
  for (auto &x : p.t) { for (auto &m : mono_get(x.first)) if (g_subst.count(m.first)) { hit = true; break; } if (hit) break; }
  if (!hit) return p;
  Poly r, keep;
  map<pair<uint32_t, uint32_t>, Poly> pc;
  for (auto &x : p.t) {
    const MonoV mv = mono_get(x.first);
    MonoV rest;
    bool h = false;
    for (auto &m : mv) if (g_subst.count(m.first)) h = true;
    if (!h) { keep.t.push_back(x); continue; }
    Poly t(x.second);
    for (auto &m : mv) {
      auto it = g_subst.find(m.first);
      if (it == g_subst.end()) { rest.push_back(m); continue; }
      auto key = make_pair(m.first, m.second);
      auto pit = pc.find(key);
      if (pit == pc.end()) pit = pc.emplace(key, ppow(it->second, m.second)).first;
      t = pmul(t, pit->second);
    }
    Poly rm; rm.t.push_back({mono_intern(rest), Q(1)});
    r = padd(r, pmul(t, rm));
  }
  return padd(r, keep);
}
static void add_equality(const Poly &p) {
  if (!linear(p)) return;
  for (auto &x : p.t) {
    auto &m = mono_get(x.first);
    if (m.size() != 1) continue;
    AtomKind k = g_atoms[m[0].first].kind;
    if (k != A_INPUT && k != A_GARBAGE) continue;
    uint32_t v = m[0].first;
    Poly q = pscale(p, Q(-1) / x.second), self = pvar(v);
    q = padd(q, self);
    for (auto &s : g_subst) {
      bool has = false;
      set<uint32_t> as; atoms_of(s.second, as);
      has = as.count(v);
      if (has) { map<uint32_t, Poly> one{{v, q}}; swap(one, g_subst); Poly n = psubst(s.second); swap(one, g_subst); s.second = n; }
    }
    g_subst[v] = q;
    return;
  }
}
static Poly clear_inv(Poly p, int &flip, bool &any);
int psign(const Poly &p0, int want) {
  Poly p = psubst(p0);
  int flip = 1;
  bool any = false;
  p = clear_inv(p, flip, any);
  if (any) p = psubst(p);
  if (p.isConst()) { int s = sgn(p.constVal()) * flip; return (want & (s < 0 ? 1 : s == 0 ? 2 : 4)) != 0; }
  // c*log(q) + 0
  if (p.t.size() == 1) {
    auto &m = mono_get(p.t[0].first);
    if (m.size() == 1 && g_atoms[m[0].first].kind == A_LOG && (m[0].second & 1)) {
      int s = sgn(p.t[0].second) * flip;
      int w = s > 0 ? want : ((want & 2) | ((want & 1) << 2) | ((want & 4) >> 2));
      return psign(psub(g_atoms[m[0].first].p, Poly(Q(1))), w);
    }
  }
  Q lead = p.t.back().second;
  if (lead < 0) flip = -flip;
  p = pscale(p, 1 / lead);
  int w = flip > 0 ? want : ((want & 2) | ((want & 1) << 2) | ((want & 4) >> 2));
  int m = 7;
  auto it = g_memo.find(p);
  if (it != g_memo.end()) m = it->second;
  if (!(m & ~w)) return 1;
  if (!(m & w)) return 0;
  int s = peval(p).sign(), sb = s < 0 ? 1 : s == 0 ? 2 : 4;
  if (!(m & sb)) { if (getenv("SYM_DEBUG")) fprintf(stderr, "sign memo inconsistency on %s mask %d sign %d\n", pstr(p).c_str(), m, s); path_end(8, "inexact sample point"); }
  Dec d;
  d.k = Dec::SIGN; d.p = p; d.before = m; d.taken = (sb & w) ? (m & w) : (m & ~w);
  if (toohard(p)) d.taken = sb; // decide the sign itself: the zero set then needs no real-arithmetic reasoning
  record(d);
  g_memo[p] = d.taken;
  if (d.taken == 2) add_equality(p);
  return (sb & w) != 0;
}
static Poly clear_inv(Poly p, int &flip, bool &any) {
  for (int guard = 0; guard < 16; ++guard) {
    set<uint32_t> s;
    atoms_of(p, s);
    uint32_t inv = ~0u;
    for (uint32_t a : s) if (g_atoms[a].kind == A_INV) inv = a;
    if (inv == ~0u) return p;
    any = true;
    Poly q = g_atoms[inv].p;
    unsigned mx = 0;
    for (auto &x : p.t) for (auto &m : mono_get(x.first)) if (m.first == inv) mx = max(mx, m.second);
    Poly r;
    for (auto &x : p.t) {
      MonoV rest; unsigned e = 0;
      for (auto &m : mono_get(x.first)) if (m.first == inv) e = m.second; else rest.push_back(m);
      Poly t; t.t.push_back({mono_intern(rest), x.second});
      r = padd(r, pmul(t, ppow(q, mx - e)));
    }
    p = r;
    if (mx & 1) { if (psign(q, 1)) flip = -flip; } // q != 0 on this path
  }
  return p;
}
static Val vnorm(const Val &v) {
  if (v.pure() && g_subst.empty()) return v;
  Val r;
  for (auto &x : v.t) {
    Val s;
    Poly p = psubst(x.second);
    if (p.zero()) continue;
    s.t.push_back({x.first ? key_intern(psubst(key_get(x.first))) : 0, p});
    r = vadd(r, s);
  }
  return r;
}
int vsign(const Val &v0, int want) {
  Val v = v0.t.size() > 1 ? vnorm(v0) : v0;
  if (v.zero()) return (want & 2) != 0;
  if (v.t.size() == 1) return psign(v.t[0].second, want);
  ++st_unforked; // sum of distinct exponentials: follow the sample only
  int s = veval(v).sign();
  return (want & (s < 0 ? 1 : s == 0 ? 2 : 4)) != 0;
}
bool z3_decide(const z3::expr &c, bool taken, bool assume) {
  if (getenv("SYM_TRACE")) {
    void *b[16];
    int n = backtrace(b, 16);
    fprintf(stderr, "decide %s\n", c.to_string().substr(0, 100).c_str());
    backtrace_symbols_fd(b + 1, n - 1, 2);
  }
  Dec d;
  d.k = Dec::Z3; d.c = make_shared<z3::expr>(c); d.tk = taken; d.assume = assume;
  record(d);
  return taken;
}

// ---------------------------------------------------------------- records and outcomes
struct RecVal { int kind; string name; vector<double> d; long i; string s; }; // 0 vec 1 int 2 str 3 out 4 outs
struct Rec { string fn; vector<RecVal> v; };
static vector<Rec> g_rec;
void sym_rec_eval_str(string &s, const char *p, size_t n, const map<string, uint64_t> *im); // rt_int
static map<string, vector<pair<uint32_t, unsigned char>>> g_strsh;
struct StrShadow { vector<uint32_t> h; };
static vector<StrShadow> g_strshadow;
vector<uint32_t> int_byte_handles(const void *p, size_t n);                                  // rt_int
bool int_eval_handle(uint32_t h, const map<string, uint64_t> *im, uint64_t &out);            // rt_int
bool fp_eval_bits(const z3::expr &e, const map<string, uint64_t> *im, uint64_t &bits);       // rt_int
static string num_json(double x, const Assign *m, const map<string, uint64_t> *im) {
  char b[64];
  double r;
  if (isbox(x) && dbits(x) != POISON) {
    Node &n = g_nodes[boxidx(x)];
    if (n.kind == 1) { uint64_t u; if (fp_eval_bits(*n.fe, im, u)) r = bitsd(u); else r = n.cv; }
    else {
      Num v = veval(n.v, m);
      if (v.exact && mpz_sizeinbase(v.q.get_num_mpz_t(), 2) < 200 && mpz_sizeinbase(v.q.get_den_mpz_t(), 2) < 200) return "\"" + v.q.get_str() + "\"";
      r = v.d();
    }
  } else r = dbits(x) == POISON ? 0.0 : x;
  if (std::isnan(r)) { snprintf(b, sizeof b, "\"bits:%016llx\"", (unsigned long long)dbits(r)); return b; }
  if (std::isinf(r)) return r > 0 ? "\"inf\"" : "\"-inf\"";
  snprintf(b, sizeof b, "\"%a\"", r);
  return b;
}
static string recs_json(const Assign *m, const map<string, uint64_t> *im) {
  string s = "[";
  for (auto &r : g_rec) {
    if (s.size() > 1) s += ",";
    s += "{\"fn\":\"" + r.fn + "\"";
    for (auto &v : r.v) {
      s += ",\"" + v.name + "\":";
      if (v.kind == 0) { s += "["; for (size_t i = 0; i < v.d.size(); ++i) { if (i) s += ","; s += num_json(v.d[i], m, im); } s += "]"; }
      else if (v.kind == 1) { uint64_t u; if (v.s.size() && int_eval_handle((uint32_t)stoul(v.s), im, u)) s += to_string((long)(int64_t)u); else s += to_string(v.i); }
      else if (v.kind == 2) {
        string t = v.s;
        if (v.i >= 0) { auto &h = g_strshadow[v.i].h; for (size_t i = 0; i < h.size(); ++i) { uint64_t u; if (h[i] && int_eval_handle(h[i], im, u)) t[i] = (char)u; } }
        s += "\"" + jesc(t) + "\"";
      } else if (v.kind == 4) s += "\"" + jesc(v.s) + "\"";
      else s += num_json(v.d[0], m, im);
    }
    s += "}";
  }
  return s + "]";
}
static string inputs_json(const Assign *m, const map<string, uint64_t> *im) {
  string s = "{";
  for (uint32_t a : g_realinputs) {
    if (s.size() > 1) s += ",";
    Q q = g_atoms[a].q;
    if (m) { auto it = m->find(a); if (it != m->end()) q = it->second; }
    s += "\"" + g_atoms[a].name + "\":\"" + q.get_str() + "\"";
  }
  for (auto &in : g_ints) {
    if (s.size() > 1) s += ",";
    uint64_t v = in.val;
    if (im) { auto it = im->find(in.name); if (it != im->end()) v = it->second; }
    s += "\"" + jesc(in.name) + "\":" + to_string(v);
  }
  return s + "}";
}
static set<string> g_violseen;
static void emit_violation(const string &what, const Assign *m, const map<string, uint64_t> *im) {
  if (!g_violseen.insert(what).second) return;
  fprintf(g_out, "V {\"what\":\"%s\",\"inputs\":%s,\"calls\":%s}\n", jesc(what).c_str(), inputs_json(m, im).c_str(), recs_json(m, im).c_str());
  fflush(g_out);
}
void violation_concrete(const char *what) { g_asserts[what].violated++; emit_violation(what, nullptr, nullptr); }

[[noreturn]] void path_end(int status, const char *msg) {
  g_endstatus = status;
  g_endmsg = msg ? msg : "";
  if (getenv("SYM_DEBUG")) fprintf(stderr, "path_end %d %s\n", status, msg ? msg : "");
  siglongjmp(g_jmp, 1);
}
static void emit_item(size_t bound, uint64_t hash, const Assign &a, const map<string, uint64_t> &im) {
  fprintf(g_out, "I %zu %llu", bound, (unsigned long long)hash);
  for (auto &p : a) if (g_atoms[p.first].kind == A_INPUT) fprintf(g_out, " r %s %s", g_atoms[p.first].name.c_str(), p.second.get_str().c_str());
  for (auto &p : im) fprintf(g_out, " i %s %llu", p.first.c_str(), (unsigned long long)p.second);
  fprintf(g_out, "\n");
}
static void ps_sync() { if (!g_ps) g_ps = new PathSolver(); g_ps->extend(g_path.size()); }

// requeue this run at a point satisfying the (violated) assumption
static void requeue(const vector<z3::expr> &extra, bool nonlin) {
  ps_sync();
  z3::model *m;
  int r = g_ps->check(extra, nonlin, m);
  if (r == 1) {
    Assign a; map<string, uint64_t> im; bool ex;
    get_model(*m, a, im, ex);
    // an assumption belongs to every alternative, so the bound of this run is kept
    fprintf(g_out, "R ");
    emit_item(g_bound, g_expecthash, a, im);
    path_end(5, "requeued");
  }
  path_end(r == 0 ? 6 : 7, r == 0 ? "assumption infeasible" : "assumption unknown");
}

// ---------------------------------------------------------------- harness API
static void chk_val(double x, Val &v) { if (!to_val(x, v)) path_end(9, "non-finite value in an assumption"); }
static void assume_sign(double a, double b, int want, const char *) {
  Val x, y;
  chk_val(a, x); chk_val(b, y);
  Val d = vadd(x, vneg(y));
  if (!d.pure()) path_end(9, "transcendental assumption");
  Poly p = psubst(d.poly());
  if (p.isConst()) { int s = sgn(p.constVal()); if (!(want & (s < 0 ? 1 : s == 0 ? 2 : 4))) path_end(6, "assumption infeasible"); return; }
  Q lead = p.t.back().second;
  int w = lead > 0 ? want : ((want & 2) | ((want & 1) << 2) | ((want & 4) >> 2));
  p = pscale(p, 1 / lead);
  int m = 7;
  auto it = g_memo.find(p);
  if (it != g_memo.end()) m = it->second;
  if (!(m & ~w)) return;
  int s = peval(p).sign(), sb = s < 0 ? 1 : s == 0 ? 2 : 4;
  if (!(sb & w)) { ps_sync(); vector<z3::expr> ax; bool nl = !linear(p); g_ps->addPoly(p); ax.push_back(mask_expr(p, m & w)); requeue(ax, nl); }
  Dec d2; d2.k = Dec::SIGN; d2.p = p; d2.before = m; d2.taken = m & w; d2.assume = true;
  record(d2);
  g_memo[p] = d2.taken;
  if (d2.taken == 2) add_equality(p);
}
extern "C" {
long sym_param(const char *n, long d) { auto it = g_params.find(n); return it == g_params.end() ? d : atol(it->second.c_str()); }
const char *sym_param_s(const char *n, const char *d) { auto it = g_params.find(n); return it == g_params.end() ? d : it->second.c_str(); }
double sym_real(const char *name) { return sym_real_at(name, 0, 1); }
double sym_real_at(const char *name, long num, long den) {
  Atom a;
  a.kind = A_INPUT; a.exact = true; a.name = name;
  auto it = g_realinit.find(name);
  a.q = it == g_realinit.end() ? Q(num, den) : it->second;
  a.q.canonicalize();
  uint32_t id = new_atom(a);
  g_realinputs.push_back(id);
  return box_val(Val(pvar(id)));
}
void sym_assume_le(double a, double b) { assume_sign(a, b, 3, "le"); }
void sym_assume_lt(double a, double b) { assume_sign(a, b, 1, "lt"); }
void sym_assume_ne(double a, double b) { assume_sign(a, b, 5, "ne"); }
double sym_fact(int n) { Q r; mpz_fac_ui(r.get_num_mpz_t(), n); return box_val(Val(Poly(r))); }
double sym_rat(long p, long q) { Q r(p, q); r.canonicalize(); return box_val(Val(Poly(r))); }
int sym_is_symbolic(double x) { return isbox(x); }
void sym_assert(int cond, const char *what) {
  if (cond) { g_asserts[what].trivial++; return; }
  violation_concrete(what);
}
void sym_reach(const char *l) { g_reach.insert(l); }
void sym_discard() { path_end(4, "discarded"); }
void sym_expect_no_crash(int on) { g_crashok = !on; }
// A point well inside the region of this path (strict linear decisions hold with a margin): a violation is easier to see there.
// Only a choice of witness; the verdict does not depend on it.
static bool interior(Assign &a, map<string, uint64_t> &im, const Q &eps) {
  z3::solver s(zc(), z3::solver::simple());
  z3::params pr(zc());
  pr.set("rlimit", 2000000u);
  s.set(pr);
  for (auto &d : g_path) {
    if (d.k != Dec::SIGN) return false;
    if (!linear(d.p)) continue;
    z3::expr e = z3_poly(d.p);
    if (d.taken == 1) s.add(e <= z3_q(-eps)); else if (d.taken == 4) s.add(e >= z3_q(eps)); else s.add(mask_expr(d.p, d.taken));
  }
  try {
    if (s.check() != z3::sat) return false;
    z3::model m = s.get_model();
    bool ex;
    get_model(m, a, im, ex);
    for (auto &d : g_path) { int g = peval(d.p, &a).sign(), gb = g < 0 ? 1 : g == 0 ? 2 : 4; if (!(gb & d.taken)) return false; }
  } catch (z3::exception &) { return false; }
  return true;
}
static void emit_clearest(const char *what, const Val &d, int bad, const Assign *m0, const map<string, uint64_t> *im0) {
  if (g_violseen.count(what)) return;
  Assign best; map<string, uint64_t> bim; bool have = false;
  double bm = fabs(veval(d, m0).d());
  if (!(bm > 1e-3)) {
    static const int den[] = {8, 20, 50, 200, 1000, 10000};
    for (int k : den) {
      Assign a; map<string, uint64_t> im;
      if (!interior(a, im, Q(1, k))) continue;
      Num n = veval(d, &a);
      int g = n.sign(), gb = g < 0 ? 1 : g == 0 ? 2 : 4;
      if (!(gb & bad) || !(fabs(n.d()) > bm)) continue;
      bm = fabs(n.d()); best = a; bim = im; have = true;
      if (bm > 1e-3) break;
    }
  }
  if (have) emit_violation(what, &best, &bim); else emit_violation(what, m0, im0);
}
// the claim follows from the sign decisions of the path about the same polynomials alone
static bool decided_by_path(const vector<Poly> &ps, int bad) {
  z3::solver s(zc(), z3::solver::simple());
  z3::expr f = zc().bool_val(false);
  for (auto &p : ps) {
    if (p.zero()) continue;
    if (p.isConst() || p.t.size() > 4000) return false;
    Q lead = p.t.back().second;
    int b = lead < 0 ? (bad & 2) | ((bad & 1) << 2) | ((bad & 4) >> 2) : bad;
    Poly n = pscale(p, 1 / lead);
    auto it = g_memo.find(n);
    if (it == g_memo.end() || (it->second & b)) return false;
    s.add(mask_expr(n, it->second));
    f = f || mask_expr(n, b);
  }
  s.add(f);
  z3::params pr(zc());
  pr.set("rlimit", 5000000u);
  s.set(pr);
  double t0 = now();
  ++st_queries;
  bool r = s.check() == z3::unsat;
  st_solver += now() - t0;
  if (r) ++st_unsat; else ++st_unknown;
  return r;
}
static void assert_masked(const char *what, const Val &lhs, const Val &rhs, int bad) { // sign(lhs-rhs) in bad violates
  Val d0 = vadd(lhs, vneg(rhs));
  Val d = vnorm(d0);
  int flip = 1; bool any = false;
  if (d.zero()) {
    // both sides have the same normal form; still put the claim to the solver
    if (bad & 2) { violation_concrete(what); return; }
    ps_sync();
    z3::expr f0 = zc().bool_val(false);
    size_t nt = 0;
    for (auto &x : lhs.t) nt += x.second.t.size();
    if (nt <= 3000) {
      Val l = vnorm(lhs), r = vnorm(rhs);
      for (size_t i = 0; i < l.t.size() && i < r.t.size(); ++i) f0 = f0 || z3_poly(l.t[i].second) != z3_poly(r.t[i].second);
    }
    z3::model *m0;
    vector<z3::expr> ex0{f0};
    if (g_ps->check(ex0, false, m0) == 0) g_asserts[what].proved++; else g_asserts[what].unknown++;
    return;
  }
  vector<Poly> ps;
  for (auto &x : d.t) { Poly p = clear_inv(x.second, flip, any); ps.push_back(psubst(p)); }
  if (d.t.size() > 1 && bad != 5) {
    Num n = veval(d);
    int s = n.sign(), sb = s < 0 ? 1 : s == 0 ? 2 : 4;
    if (sb & bad) violation_concrete(what); else { g_asserts[what].unknown++; ++st_unknown; }
    return;
  }
  if (flip < 0) bad = (bad & 2) | ((bad & 1) << 2) | ((bad & 4) >> 2);
  if (decided_by_path(ps, bad)) { g_asserts[what].proved++; return; }
  ps_sync();
  // work on a scratch copy of the axioms state: axioms stay valid for the rest of the path
  z3::expr f = zc().bool_val(false);
  bool nl = false;
  bool sizeok = true;
  for (auto &p : ps) {
    if (p.zero()) continue;
    if (p.isConst()) { int s = sgn(p.constVal()); if (bad & (s < 0 ? 1 : s == 0 ? 2 : 4)) f = zc().bool_val(true); continue; }
    if (p.t.size() > 4000) sizeok = false;
    else { bool pn = !linear(p); nl |= pn; g_ps->addPoly(p); f = f || mask_expr(p, bad); }
  }
  // the current sample may already refute it
  for (auto &p : ps) {
    int s = peval(p).sign(), sb = s < 0 ? 1 : s == 0 ? 2 : 4;
    if (sb & bad) { ++st_queries; ++st_sat; g_asserts[what].violated++; emit_clearest(what, d, flip < 0 ? (bad & 2) | ((bad & 1) << 2) | ((bad & 4) >> 2) : bad, nullptr, nullptr); return; }
  }
  if (!sizeok) { g_asserts[what].unknown++; ++st_unknown; return; }
  z3::model *m;
  vector<z3::expr> ex{f};
  int r = g_ps->check(ex, nl, m);
  if (r == 0) g_asserts[what].proved++;
  else if (r == 2) g_asserts[what].unknown++;
  else {
    g_asserts[what].violated++;
    Assign a; map<string, uint64_t> im; bool exv;
    get_model(*m, a, im, exv);
    emit_clearest(what, d, flip < 0 ? (bad & 2) | ((bad & 1) << 2) | ((bad & 4) >> 2) : bad, &a, &im);
  }
}
static bool nonfinite_pair(double a, double b, const char *what, int mode) {
  Val x, y;
  bool fa = to_val(a, x), fb = to_val(b, y);
  if (fa && fb) return false;
  bool ok = mode == 0 ? (!fa && !fb && a == b) : (!fa && !fb ? a <= b : !fa ? a == -INFINITY : b == INFINITY);
  if (ok) g_asserts[what].trivial++; else violation_concrete(what);
  return true;
}
void sym_assert_eq(double a, double b, const char *what) {
  if (nonfinite_pair(a, b, what, 0)) return;
  Val x, y;
  to_val(a, x); to_val(b, y);
  Val d = vadd(x, vneg(y));
  if (getenv("SYM_DEBUG") && !d.zero()) fprintf(stderr, "assert_eq %s: %s  vs  %s\n", what, vstr(vnorm(x)).c_str(), vstr(vnorm(y)).c_str());
  assert_masked(what, x, y, 5);
}
void sym_assert_le(double a, double b, const char *what) {
  if (nonfinite_pair(a, b, what, 1)) return;
  Val x, y;
  to_val(a, x); to_val(b, y);
  assert_masked(what, x, y, 4);
}
void sym_rec_begin(const char *fn) { g_rec.push_back(Rec{fn, {}}); }
void sym_rec_vec(const char *n, const double *p, size_t k) { RecVal v{0, n, vector<double>(p, p + k), 0, ""}; g_rec.back().v.push_back(v); }
void sym_rec_out(const char *n, double x) { g_rec.back().v.push_back(RecVal{3, n, {x}, 0, ""}); }
void sym_rec_outs(const char *n, const char *s) { g_rec.back().v.push_back(RecVal{4, n, {}, 0, s}); }
void sym_rec_int(const char *n, long i) { string s; if (g_intmode && __sym_arg[1]) s = to_string(__sym_arg[1]); g_rec.back().v.push_back(RecVal{1, n, {}, i, s}); }
void sym_rec_strn(const char *n, const char *s, size_t k) {
  long idx = -1;
  if (g_intmode) { g_strshadow.push_back({int_byte_handles(s, k)}); idx = g_strshadow.size() - 1; }
  g_rec.back().v.push_back(RecVal{2, n, {}, idx, string(s, k)});
}
void sym_rec_str(const char *n, const char *s) { sym_rec_strn(n, s, strlen(s)); }
}
// used by the int layer
int check_path(const z3::expr &f, Assign *a, map<string, uint64_t> *im) {
  ps_sync();
  g_ps->bv = true;
  z3::model *m;
  vector<z3::expr> ex{f};
  int r = g_ps->check(ex, false, m);
  if (r == 1 && a) { bool e; get_model(*m, *a, *im, e); }
  return r;
}
void assert_result(const char *what, int r, const Assign &a, const map<string, uint64_t> &im) {
  if (r == 0) g_asserts[what].proved++;
  else if (r == 2) g_asserts[what].unknown++;
  else { g_asserts[what].violated++; emit_violation(what, &a, &im); }
}
void requeue_bv(const z3::expr &e) { vector<z3::expr> v{e}; ps_sync(); g_ps->bv = true; requeue(v, false); }
uint64_t int_init(const string &n, uint64_t d) { auto it = g_intinit.find(n); return it == g_intinit.end() ? d : it->second; }

// ---------------------------------------------------------------- coverage of repository functions
struct Shared { unsigned char hit[8192]; const char *names[8192]; };
static Shared *g_sh = nullptr;
extern "C" void __sym_enter(int id, const char *name) { if (g_sh && id < 8192) { g_sh->hit[id] = 1; g_sh->names[id] = name; } }

// ---------------------------------------------------------------- crash handling
// a path that has done more work than allowed is ended early (looked at every few seconds)
extern "C" uint64_t __sym_cost;
static uint64_t g_costlimit = 0;
static string g_costwhat;
static int g_costticks = 0;
extern "C" void sym_cost_limit(long extra, const char *what) { g_costlimit = __sym_cost + extra; g_costwhat = what; alarm(3); }
static void on_signal(int sig) {
  if (!g_inRun) _exit(99);
  if (sig == SIGALRM && g_costlimit) {
    if (__sym_cost > g_costlimit) { g_endstatus = 7; g_endmsg = "more work than allowed"; siglongjmp(g_jmp, 1); }
    if (++g_costticks * 3 < sym_param("pathtime", 60)) { alarm(3); return; }
  }
  const char *n = sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic trap" : sig == SIGBUS ? "bus error" : sig == SIGALRM ? "timeout" : "signal";
  g_endstatus = sig == SIGALRM ? 7 : 3;
  if (g_endmsg.empty() || sig != SIGABRT) g_endmsg = n;
  siglongjmp(g_jmp, 1);
}
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  const char *b = strrchr(f, '/');
  g_endmsg = string("assertion failed: ") + e + " at " + (b ? b + 1 : f);
  (void)l; (void)fn;
  if (!g_inRun) { fprintf(stderr, "%s\n", g_endmsg.c_str()); _exit(98); }
  g_endstatus = 3;
  siglongjmp(g_jmp, 1);
}
extern "C" const char *__asan_default_options() { return "abort_on_error=1:handle_abort=0:handle_segv=0:allow_user_segv_handler=1:detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=1:quarantine_size_mb=16:print_legend=0:verbosity=0"; }
static char g_altstack[1 << 16];
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void asan_cb(const char *msg) {
  const char *p = strstr(msg, "AddressSanitizer: ");
  string s = p ? string(p + 18, strcspn(p + 18, " \n")) : "memory error";
  // first repository frame
  const char *f = strstr(msg, "/src/");
  if (f) { s += " at "; s += string(f + 5, strcspn(f + 5, " \n:")); }
  g_endmsg = "memory error: " + s;
  if (getenv("SYM_DEBUG")) fprintf(stderr, "%s\n", msg);
}

// ---------------------------------------------------------------- one run
// points with extreme coordinates are tried before the solver is asked about a polynomial of degree > 3
static bool corner(size_t i, const Poly &p, int allowed, Assign &a) {
  bool hard = pdeg(p) > 3;
  for (size_t j = 0; j < i && !hard; ++j) hard = g_path[j].k == Dec::SIGN && toohard(g_path[j].p);
  if (!hard) return false;
  vector<uint32_t> in;
  for (uint32_t k = 0; k < g_atoms.size(); ++k) if (g_atoms[k].kind == A_INPUT) in.push_back(k);
  auto ok = [&](const Assign &c) {
    for (size_t j = 0; j <= i; ++j) {
      if (g_path[j].k != Dec::SIGN) return false;
      int s = peval(g_path[j].p, &c).sign(), sb = s < 0 ? 1 : s == 0 ? 2 : 4;
      if (!(sb & (j < i ? g_path[j].taken : allowed))) return false;
    }
    return true;
  };
  Assign base;
  for (uint32_t k = 0; k < g_atoms.size(); ++k) base[k] = g_atoms[k].q;
  for (int v = 0; v < 2; ++v)
    for (size_t from = 0; from < in.size(); ++from) {
      Assign c = base, e = base;
      for (size_t k = from; k < in.size(); ++k) c[in[k]] = v;
      for (size_t k = 0; k <= from; ++k) e[in[k]] = v;
      if (ok(c)) { a = c; return true; }
      if (ok(e)) { a = e; return true; }
    }
  return false;
}
static void expand() {
  PathSolver ps;
  ps.nohard = true;
  size_t n = g_path.size();
  uint64_t h = 1469598103934665603ull;
  auto mix = [&](const Dec &d, int taken) { h ^= d.k * 16 + (d.k == Dec::SIGN ? (taken + 8 * d.before) : (int)d.tk); h *= 1099511628211ull; };
  for (size_t i = 0; i < n; ++i) {
    Dec &d = g_path[i];
    bool want = i >= g_bound && !d.assume && !d.noexpand && !(d.k == Dec::SIGN && !(d.before & ~d.taken));
    if (want && d.k == Dec::SIGN) {
      Assign a;
      if (corner(i, d.p, d.before & ~d.taken, a)) { emit_item(i + 1, h, a, map<string, uint64_t>()); want = false; }
    }
    if (want && d.k == Dec::SIGN && toohard(d.p)) { want = false; fprintf(g_out, "X skipped\n"); }
    if (want) {
      ps.extend(i);
      bool nl = false;
      if (d.k == Dec::SIGN) { ps.addPoly(d.p); nl = !linear(d.p); } else ps.bv = true;
      z3::model *m;
      vector<z3::expr> ex{alt_expr(d)};
      int r = ps.check(ex, nl, m);
      if (r == 2 && !ps.hard.empty()) fprintf(g_out, "X skipped\n");
      if (r == 1) {
        Assign a; map<string, uint64_t> im; bool exv;
        get_model(*m, a, im, exv);
        bool ok = true;
        if (!exv) { // irrational witness: re-check the rounded point
          for (size_t j = 0; j <= i && ok; ++j) if (g_path[j].k == Dec::SIGN) {
            int s = peval(g_path[j].p, &a).sign(), sb = s < 0 ? 1 : s == 0 ? 2 : 4;
            int allowed = j < i ? g_path[j].taken : (d.before & ~d.taken);
            if (!(sb & allowed)) ok = false;
          }
        }
        if (ok) {
          // hash after taking the alternative is not known exactly for 3-way signs: prefix hash up to i is compared
          emit_item(i + 1, h, a, im);
        } else fprintf(g_out, "X irrational\n");
      }
    }
    mix(d, d.taken);
  }
  g_bound = n; // avoid double expansion
}
static void child_main(int fd) {
  g_out = fdopen(fd, "w");
  stack_t ss{};
  ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM, SIGILL}) sigaction(s, &sa, nullptr);
  if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_cb);
  double t0 = now();
  alarm((unsigned)sym_param("pathtime", 60));
  int status = 0;
  if (sigsetjmp(g_jmp, 1) == 0) {
    g_inRun = true;
    try { sym_harness(); status = 0; }
    catch (std::exception &e) { status = 2; g_endmsg = string("uncaught exception: ") + e.what(); }
    catch (...) { status = 2; g_endmsg = "uncaught exception"; }
  } else status = g_endstatus;
  g_inRun = false;
  alarm(0);
  string m0 = g_endmsg;
  double t1 = now();
  // status: 0 ok 2 exception 3 crash 4 discarded 5 requeued 6 infeasible 7 unknown/timeout 8 inexact 9 unsupported
  bool diverged = g_expecthash && g_path.size() >= g_bound && (g_bound > 0) && false;
  (void)diverged;
  if ((status == 2 || status == 3) && !g_crashok) { g_asserts[string("no crash")].violated++; emit_violation((status == 3 ? "crash: " : "") + m0, nullptr, nullptr); }
  if (status == 7 && m0 == "more work than allowed") { g_asserts[g_costwhat].violated++; emit_violation(g_costwhat.c_str(), nullptr, nullptr); }
  else if (status == 7 && g_costlimit) g_asserts[g_costwhat].unknown++;
  else if (status == 7 && m0 == "timeout" && !g_rec.empty()) { g_asserts["the call ends"].unknown++; emit_violation("the call does not end", nullptr, nullptr); } // slow engine or endless loop: the replay tells
  bool overwork = m0 == "more work than allowed";
  g_costlimit = 0;
  if (status != 5 && !overwork) {
    if (sigsetjmp(g_jmp, 1) == 0) {
      g_inRun = true;
      alarm((unsigned)sym_param("exptime", 120));
      expand();
    } else { fprintf(g_out, "X expansion %s\n", g_endmsg.c_str()); }
    g_inRun = false;
    alarm(0);
  }
  if (status == 0 && !g_rec.empty()) fprintf(g_out, "S {\"inputs\":%s,\"calls\":%s}\n", inputs_json(nullptr, nullptr).c_str(), recs_json(nullptr, nullptr).c_str());
  for (auto &r : g_reach) fprintf(g_out, "C %s\n", r.c_str());
  for (auto &a : g_asserts) fprintf(g_out, "A %llu %llu %llu %llu %s\n", (unsigned long long)a.second.proved, (unsigned long long)a.second.violated, (unsigned long long)a.second.unknown, (unsigned long long)a.second.trivial, a.first.c_str());
  fprintf(g_out, "P %d %zu %llu %llu %llu %llu %llu %.6f %.6f %s\n", status, g_path.size(), (unsigned long long)st_queries, (unsigned long long)st_sat, (unsigned long long)st_unsat, (unsigned long long)st_unknown,
          (unsigned long long)st_unforked, st_solver, t1 - t0, m0.c_str());
  fflush(g_out);
  _exit(0);
}

struct Item { size_t bound; uint64_t hash; map<string, Q> r; map<string, uint64_t> i; int requeues = 0; };
static bool parse_item(const string &line, Item &it) {
  istringstream is(line);
  string w;
  is >> w >> it.bound >> it.hash;
  while (is >> w) {
    string n, v;
    is >> n >> v;
    if (w == "r") it.r[n] = Q(v); else it.i[n] = stoull(v);
  }
  return true;
}
int main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) { string s = argv[i]; size_t e = s.find('='); if (e != string::npos) g_params[s.substr(0, e)] = s.substr(e + 1); }
  g_intmode = sym_param("intmode", 0);
  g_rlimit = sym_param("rlimit", 20000000);
  g_nlrlimit = sym_param("nlrlimit", 60000000);
  int jobs = sym_param("jobs", 8);
  double cap = sym_param("time", 120);
  size_t maxpaths = sym_param("maxpaths", 100000000);
  size_t maxsamples = sym_param("samples", 40);
  string outf = sym_param_s("out", "/dev/stdout");
  bool lifo = sym_param("lifo", 0);
  signal(SIGPIPE, SIG_IGN);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rlimit rl{(rlim_t)0, (rlim_t)0};
  setrlimit(RLIMIT_CORE, &rl);
  zc();
  deque<Item> work;
  work.push_back(Item{0, 0, {}, {}});
  struct Kid { pid_t pid; int fd; string buf; Item it; double t0; };
  vector<Kid> kids;
  double t0 = now();
  uint64_t paths = 0, byst[16] = {0}, q = 0, qs = 0, qu = 0, qn = 0, unf = 0, lost = 0, irr = 0, maxdec = 0, sumdec = 0, requeued = 0, skipped = 0;
  double solver = 0, exec = 0;
  map<string, AStat> as;
  map<string, uint64_t> reach, msgs;
  vector<string> viols, samples;
  map<string, int> violn;
  size_t violbytes = 0;
  bool capped = false;
  uint64_t seed = sym_param("seed", 1), nsample = 0;
  while (!work.empty() || !kids.empty()) {
    if (now() - t0 > cap || paths + kids.size() >= maxpaths) { if (!work.empty()) capped = true; if (kids.empty() || now() - t0 > cap + 5) break; }
    else while (!work.empty() && (int)kids.size() < jobs && paths + kids.size() < maxpaths) {
      Item it = lifo ? work.back() : work.front();
      if (lifo) work.pop_back(); else work.pop_front();
      int fd[2];
      if (pipe(fd)) { perror("pipe"); return 2; }
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        close(fd[0]);
        for (auto &k : kids) close(k.fd);
        g_realinit = it.r; g_intinit = it.i; g_bound = it.bound; g_expecthash = it.hash;
        child_main(fd[1]);
      }
      if (p < 0) { perror("fork"); close(fd[0]); close(fd[1]); work.push_front(it); usleep(100000); break; }
      close(fd[1]);
      kids.push_back({p, fd[0], "", it, now()});
    }
    if (kids.empty()) continue;
    vector<pollfd> pf;
    for (auto &k : kids) pf.push_back({k.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = 0; i < kids.size();) {
      bool done = false;
      for (auto &f : pf) if (f.fd == kids[i].fd && (f.revents & (POLLIN | POLLHUP))) {
        char b[65536];
        ssize_t n = read(f.fd, b, sizeof b);
        if (n > 0) kids[i].buf.append(b, n); else done = true;
      }
      if (!done) { ++i; continue; }
      close(kids[i].fd);
      int st;
      waitpid(kids[i].pid, &st, 0);
      istringstream is(kids[i].buf);
      string line;
      bool sawP = false;
      while (getline(is, line)) {
        if (line.size() < 2) continue;
        char c = line[0];
        if (c == 'I') { Item n; parse_item(line, n); work.push_back(n); }
        else if (c == 'R') { Item n; parse_item(line.substr(2), n); n.requeues = kids[i].it.requeues + 1; ++requeued; if (n.requeues < 60) { if (lifo) work.push_back(n); else work.push_front(n); } else { ++lost; } }
        else if (c == 'V') { string w = line.substr(2, line.find("\",\"inputs\"") - 2); if (violn[w]++ < (violbytes < (8u << 20) ? 60 : violbytes < (32u << 20) ? 2 : 0)) { viols.push_back(line.substr(2)); violbytes += line.size(); } if (violn[w] == 1) cap = min(cap, now() - t0 + 60); if (violn[w] == 60) cap = min(cap, now() - t0 + 5); }
        else if (c == 'X') { if (line.compare(0, 9, "X skipped") == 0) ++skipped; else ++irr; }
        else if (c == 'S') {
          ++nsample;
          if (samples.size() < maxsamples) samples.push_back(line.substr(2));
          else { seed = seed * 6364136223846793005ull + 1442695040888963407ull; uint64_t k = (seed >> 20) % nsample; if (k < maxsamples) samples[k] = line.substr(2); }
        } else if (c == 'C') reach[line.substr(2)]++;
        else if (c == 'A') {
          unsigned long long a, b, d, e; int off;
          if (sscanf(line.c_str(), "A %llu %llu %llu %llu %n", &a, &b, &d, &e, &off) == 4) { AStat &x = as[line.substr(off)]; x.proved += a; x.violated += b; x.unknown += d; x.trivial += e; }
        } else if (c == 'P') {
          int s, off = 0; size_t nd; unsigned long long a, b, d, e, u; double ts, te;
          if (sscanf(line.c_str(), "P %d %zu %llu %llu %llu %llu %llu %lf %lf%n", &s, &nd, &a, &b, &d, &e, &u, &ts, &te, &off) == 9) {
            sawP = true; byst[s & 15]++; if (s != 5) ++paths; q += a; qs += b; qu += d; qn += e; unf += u; solver += ts; exec += te;
            maxdec = max<uint64_t>(maxdec, nd); sumdec += nd;
            string m = (size_t)off < line.size() ? line.substr(off + 1) : "";
            if (!m.empty() && s != 5) msgs[to_string(s) + ": " + m]++;
          }
        }
      }
      if (!sawP) { ++lost; if (getenv("SYM_DEBUG")) fprintf(stderr, "lost child status %x\n", st); }
      kids.erase(kids.begin() + i);
    }
  }
  for (auto &k : kids) { kill(k.pid, SIGKILL); close(k.fd); int st; waitpid(k.pid, &st, 0); ++lost; }
  ostringstream o;
  o << "{\"paths\":" << paths << ",\"ok\":" << byst[0] << ",\"exception\":" << byst[2] << ",\"crash\":" << byst[3] << ",\"discarded\":" << byst[4] << ",\"requeued\":" << requeued << ",\"infeasible\":" << byst[6]
    << ",\"unknown_paths\":" << byst[7] + byst[8] << ",\"unsupported\":" << byst[9] << ",\"lost\":" << lost << ",\"irrational\":" << irr << ",\"skipped\":" << skipped << ",\"pending\":" << work.size() << ",\"capped\":" << (capped ? "true" : "false")
    << ",\"queries\":" << q << ",\"sat\":" << qs << ",\"unsat\":" << qu << ",\"unknown\":" << qn << ",\"unforked\":" << unf << ",\"solver_s\":" << solver << ",\"exec_s\":" << exec << ",\"wall_s\":" << now() - t0
    << ",\"max_decisions\":" << maxdec << ",\"sum_decisions\":" << sumdec;
  o << ",\"asserts\":{";
  bool first = true;
  for (auto &a : as) { o << (first ? "" : ",") << "\"" << jesc(a.first) << "\":{\"proved\":" << a.second.proved << ",\"violated\":" << a.second.violated << ",\"unknown\":" << a.second.unknown << ",\"trivial\":" << a.second.trivial << "}"; first = false; }
  o << "},\"reach\":{";
  first = true;
  for (auto &a : reach) { o << (first ? "" : ",") << "\"" << jesc(a.first) << "\":" << a.second; first = false; }
  o << "},\"messages\":{";
  first = true;
  for (auto &a : msgs) { o << (first ? "" : ",") << "\"" << jesc(a.first) << "\":" << a.second; first = false; }
  o << "},\"functions\":[";
  first = true;
  set<string> fns;
  for (int i = 0; i < 8192; ++i) if (g_sh->hit[i]) fns.insert(g_sh->names[i]);
  for (auto &f : fns) { o << (first ? "" : ",") << "\"" << jesc(f) << "\""; first = false; }
  o << "],\"violations\":[";
  for (size_t i = 0; i < viols.size(); ++i) o << (i ? "," : "") << viols[i];
  o << "],\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << samples[i];
  o << "]}\n";
  ofstream f(outf);
  f << o.str();
  return 0;
}
