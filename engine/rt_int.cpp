#include <set>
// bit-precise layer: symbolic integers, bytes, pointers and IEEE doubles (only with SYM_INT=1)
//
// Values run concretely; a 32-bit handle next to each integer or pointer names its bit-vector expression (0: none).
// Shadow memory holds, per byte, the handle and the byte of it stored there.  A handle whose concrete value differs from the
// value at hand is stale (memory or registers written by uninstrumented code) and is dropped.
#include "rt.h"
#include "symrt.h"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <malloc.h>
#include <map>
#include <unordered_map>
using namespace std;
int check_path(const z3::expr &f, Assign *a, map<string, uint64_t> *im);
void assert_result(const char *what, int r, const Assign &a, const map<string, uint64_t> &im);
void requeue_bv(const z3::expr &e);
uint64_t int_init(const string &n, uint64_t d);
z3::expr fp_cmp_expr(int pred, const z3::expr &x, const z3::expr &y);
z3::expr fp_expr_of(double x);
double fp_conc_of(double x);
bool fp_is_sym(double x);
extern "C" uint64_t __sym_unbox(uint64_t u);

struct IE { z3::expr e; uint64_t cv; int bits; };
static vector<IE> g_ie;
static inline uint64_t msk(int bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
static uint32_t mk(const z3::expr &e0, uint64_t cv, int bits) {
  z3::expr e = e0.simplify();
  if (e.is_numeral()) return 0;
  if (g_ie.empty()) g_ie.push_back(IE{zc().bv_val(0, 1), 0, 1});
  g_ie.push_back(IE{e, cv & msk(bits), bits});
  return g_ie.size() - 1;
}
static bool live(uint32_t h, uint64_t v, int bits) { return h && h < g_ie.size() && g_ie[h].bits == bits && g_ie[h].cv == (v & msk(bits)); }
static z3::expr ex(uint32_t h, uint64_t v, int bits) { return live(h, v, bits) ? g_ie[h].e : zc().bv_val((uint64_t)(v & msk(bits)), (unsigned)bits); }
static z3::expr b1(const z3::expr &c) { return z3::ite(c, zc().bv_val(1, 1), zc().bv_val(0, 1)); }
static bool decide(const z3::expr &c0, bool taken) {
  z3::expr c = c0.simplify();
  if (c.is_true() || c.is_false()) return c.is_true();
  return z3_decide(c, taken);
}
static int64_t sx(uint64_t v, int bits) { return bits >= 64 ? (int64_t)v : (int64_t)(v << (64 - bits)) >> (64 - bits); }

// ---------------------------------------------------------------- shadow memory
struct SB { uint32_t h; uint8_t k; };
static unordered_map<uintptr_t, SB> g_sm;
struct Obj { size_t n; uint32_t h; }; // h: symbolic size of the object
static map<uintptr_t, Obj> g_obj;
static void smclear(uintptr_t p, size_t n) {
  if (g_sm.empty()) return;
  if (n > g_sm.size() * 4) { for (auto it = g_sm.begin(); it != g_sm.end();) if (it->first - p < n) it = g_sm.erase(it); else ++it; return; }
  for (size_t i = 0; i < n; ++i) g_sm.erase(p + i);
}
static bool live(uint32_t h, uint64_t v, int bits);
void int_on_alloc(void *p, size_t n, uint32_t h) {
  smclear((uintptr_t)p, n);
  g_obj.erase(g_obj.lower_bound((uintptr_t)p), g_obj.lower_bound((uintptr_t)p + n));
  g_obj[(uintptr_t)p] = {n, live(h, n, 64) ? h : 0};
}
void int_clear(const void *p, size_t n) { if (p) smclear((uintptr_t)p, n); }
extern "C" size_t int_obj_room(const void *p) {
  if (!g_intmode) return (size_t)-1;
  auto it = g_obj.upper_bound((uintptr_t)p);
  if (it == g_obj.begin()) return (size_t)-1;
  --it;
  uintptr_t o = (uintptr_t)p - it->first;
  return o <= it->second.n ? it->second.n - o : (size_t)-1;
}
static uint8_t byte_of(const SB &s) { return (uint8_t)(g_ie[s.h].cv >> (8 * s.k)); }
static const SB *sbyte(uintptr_t p) { // the live shadow of one byte
  auto it = g_sm.find(p);
  if (it == g_sm.end()) return nullptr;
  if (byte_of(it->second) != *(uint8_t *)p) { g_sm.erase(it); return nullptr; }
  return &it->second;
}
static uint32_t load(uintptr_t p, size_t n) {
  if (g_sm.empty() || n > 8) return 0;
  SB s[8];
  bool any = false, same = true;
  for (size_t i = 0; i < n; ++i) {
    const SB *x = sbyte(p + i);
    s[i] = x ? *x : SB{0, 0};
    any |= !!x;
    if (s[i].h != s[0].h || s[i].k != i) same = false;
  }
  if (!any) return 0;
  if (same && g_ie[s[0].h].bits == (int)n * 8) return s[0].h;
  uint64_t cv = 0;
  memcpy(&cv, (void *)p, n);
  z3::expr e(zc());
  for (size_t i = 0; i < n; ++i) {
    z3::expr b = s[i].h ? g_ie[s[i].h].e.extract(8 * s[i].k + 7, 8 * s[i].k) : zc().bv_val((unsigned)((cv >> (8 * i)) & 255), 8);
    e = i ? z3::concat(b, e) : b;
  }
  return mk(e, cv, (int)n * 8);
}
static void store(uintptr_t p, size_t n, uint32_t h) {
  if (!h) { smclear(p, n); return; }
  uint64_t cv = 0;
  memcpy(&cv, (void *)p, n > 8 ? 8 : n);
  if (n > 8 || !live(h, cv, (int)n * 8)) { smclear(p, n); return; }
  for (size_t i = 0; i < n; ++i) g_sm[p + i] = SB{h, (uint8_t)i};
}
vector<uint32_t> int_byte_handles(const void *p, size_t n) {
  vector<uint32_t> r(n, 0);
  for (size_t i = 0; i < n; ++i) r[i] = load((uintptr_t)p + i, 1);
  return r;
}

// ---------------------------------------------------------------- evaluation under a model
static bool bv_eval(const z3::expr &e, const map<string, uint64_t> *im, uint64_t &out) {
  z3::expr_vector from(zc()), to(zc());
  for (auto &in : g_ints) {
    uint64_t v = in.val;
    if (im) { auto it = im->find(in.name); if (it != im->end()) v = it->second; }
    from.push_back(zc().bv_const(("i_" + in.name).c_str(), in.bits));
    to.push_back(zc().bv_val((uint64_t)(v & msk(in.bits)), (unsigned)in.bits));
  }
  z3::expr r = z3::expr(e).substitute(from, to).simplify();
  return r.is_numeral() && Z3_get_numeral_uint64(zc(), r, &out);
}
bool int_eval_handle(uint32_t h, const map<string, uint64_t> *im, uint64_t &out) {
  if (!h || h >= g_ie.size()) return false;
  if (!im) { out = g_ie[h].cv; return true; }
  return bv_eval(g_ie[h].e, im, out);
}
static z3::expr fp_bits(const z3::expr &f) {
  if (f.is_app() && f.decl().decl_kind() == Z3_OP_FPA_TO_FP && f.num_args() == 1 && f.arg(0).is_bv()) return f.arg(0);
  return z3::expr(zc(), Z3_mk_fpa_to_ieee_bv(zc(), f));
}
static z3::expr bits_fp(const z3::expr &b) { return z3::expr(zc(), Z3_mk_fpa_to_fp_bv(zc(), b, zc().fpa_sort<64>())); }
bool fp_eval_bits(const z3::expr &e, const map<string, uint64_t> *im, uint64_t &bits) { return bv_eval(fp_bits(e), im, bits); }

// ---------------------------------------------------------------- inputs
uint64_t int_input_value(const string &n, int bits) {
  uint64_t v = int_init(n, 0) & msk(bits);
  for (auto &x : g_ints) if (x.name == n) return x.val;
  g_ints.push_back(IntInput{n, bits, v});
  return v;
}
static uint32_t input(const string &n, int bits) {
  uint64_t v = int_input_value(n, bits);
  return mk(zc().bv_const(("i_" + n).c_str(), bits), v, bits);
}
// an integer becomes a bit-precise double
double int_to_fp(uint32_t h, int bits, int sgn, int64_t v) {
  z3::expr e = ex(h, (uint64_t)v, bits);
  double cv = sgn ? (double)sx((uint64_t)v, bits) : (double)((uint64_t)v & msk(bits));
  z3::expr rm(zc(), Z3_mk_fpa_rne(zc()));
  Z3_ast r = sgn ? Z3_mk_fpa_to_fp_signed(zc(), rm, e, zc().fpa_sort<64>()) : Z3_mk_fpa_to_fp_unsigned(zc(), rm, e, zc().fpa_sort<64>());
  return box_fp(z3::expr(zc(), r), cv);
}
bool int_live(uint32_t h, int64_t v, int bits) { return live(h, (uint64_t)v, bits); }

// every value the bits can take is explored: the bits are decided one after the other
static void concretize(const z3::expr &e0, uint64_t v, int bits) {
  z3::expr e = e0.simplify();
  if (e.is_numeral()) return;
  for (int k = bits - 1; k >= 0; --k) {
    z3::expr b = e.extract(k, k) == zc().bv_val((unsigned)((v >> k) & 1), 1);
    z3::expr s = b.simplify();
    if (s.is_true()) continue;
    // skip bits that the path fixes
    if (check_path(!s, nullptr, nullptr) == 0) continue;
    z3_decide(s, true);
  }
}

static const int P_EQ = 32, P_NE = 33, P_UGT = 34, P_UGE = 35, P_ULT = 36, P_ULE = 37, P_SGT = 38, P_SGE = 39, P_SLT = 40, P_SLE = 41;
extern "C" {
uint32_t __sym_ibin(uint32_t op, uint32_t bits, uint64_t a, uint32_t sa, uint64_t b, uint32_t sb) {
  a &= msk(bits); b &= msk(bits);
  bool la = live(sa, a, bits), lb = live(sb, b, bits);
  if (!la && !lb) return 0;
  z3::expr x = ex(sa, a, bits), y = ex(sb, b, bits);
  int64_t as = sx(a, bits), bs = sx(b, bits);
  switch (op) {
  case 13: return mk(x + y, a + b, bits);
  case 15: return mk(x - y, a - b, bits);
  case 17: return mk(x * y, a * b, bits);
  case 19: case 20: case 22: case 23:
    if (lb) decide(y != zc().bv_val(0, bits), b != 0);
    if (!b) return 0; // the operation itself traps
    if (op == 19) return mk(z3::udiv(x, y), a / b, bits);
    if (op == 22) return mk(z3::urem(x, y), a % b, bits);
    if (bs == -1) return op == 20 ? mk(x / y, (uint64_t)0 - a, bits) : mk(z3::srem(x, y), 0, bits);
    return op == 20 ? mk(x / y, (uint64_t)(as / bs), bits) : mk(z3::srem(x, y), (uint64_t)(as % bs), bits);
  case 25: return mk(z3::shl(x, y), b < bits ? a << b : 0, bits);
  case 26: return mk(z3::lshr(x, y), b < bits ? a >> b : 0, bits);
  case 27: return mk(z3::ashr(x, y), (uint64_t)(as >> (b < bits ? b : bits - 1)), bits);
  case 28: return mk(x & y, a & b, bits);
  case 29: return mk(x | y, a | b, bits);
  case 30: return mk(x ^ y, a ^ b, bits);
  }
  path_end(9, "integer operation");
}
uint32_t __sym_icmp(uint32_t p, uint32_t bits, uint64_t a, uint32_t sa, uint64_t b, uint32_t sb) {
  a &= msk(bits); b &= msk(bits);
  if (!live(sa, a, bits) && !live(sb, b, bits)) return 0;
  z3::expr x = ex(sa, a, bits), y = ex(sb, b, bits);
  int64_t as = sx(a, bits), bs = sx(b, bits);
  switch (p) {
  case P_EQ: return mk(b1(x == y), a == b, 1);
  case P_NE: return mk(b1(x != y), a != b, 1);
  case P_UGT: return mk(b1(z3::ugt(x, y)), a > b, 1);
  case P_UGE: return mk(b1(z3::uge(x, y)), a >= b, 1);
  case P_ULT: return mk(b1(z3::ult(x, y)), a < b, 1);
  case P_ULE: return mk(b1(z3::ule(x, y)), a <= b, 1);
  case P_SGT: return mk(b1(x > y), as > bs, 1);
  case P_SGE: return mk(b1(x >= y), as >= bs, 1);
  case P_SLT: return mk(b1(x < y), as < bs, 1);
  case P_SLE: return mk(b1(x <= y), as <= bs, 1);
  }
  path_end(9, "integer comparison");
}
uint32_t __sym_icast(uint32_t sext, uint32_t from, uint32_t to, uint32_t h) {
  if (!h || h >= g_ie.size() || g_ie[h].bits != (int)from) return 0;
  z3::expr e = g_ie[h].e;
  uint64_t v = g_ie[h].cv;
  if (to < from) return mk(e.extract(to - 1, 0), v, to);
  if (to == from) return h;
  return sext ? mk(z3::sext(e, to - from), (uint64_t)sx(v, from), to) : mk(z3::zext(e, to - from), v, to);
}
void __sym_branch(uint32_t h, uint32_t c) {
  if (live(h, c, 1)) decide(g_ie[h].e == zc().bv_val(1, 1), c);
}
void __sym_switch(uint32_t h, uint64_t v, uint32_t bits, uint32_t n, const uint64_t *vals) {
  if (!live(h, v, bits)) return;
  z3::expr e = g_ie[h].e;
  v &= msk(bits);
  for (uint32_t i = 0; i < n; ++i)
    if (decide(e == zc().bv_val((uint64_t)(vals[i] & msk(bits)), bits), v == (vals[i] & msk(bits)))) return;
}
uint32_t __sym_gep(uint64_t cur, uint32_t h, uint64_t idx, uint32_t shi, uint32_t ib, uint64_t scale) {
  bool li = live(shi, idx, ib);
  if (!li && !live(h, cur, 64)) return 0;
  z3::expr i = li ? (ib < 64 ? z3::sext(g_ie[shi].e, 64 - ib) : g_ie[shi].e) : zc().bv_val(idx, 64);
  return mk(ex(h, cur, 64) + i * zc().bv_val(scale, 64), cur + idx * scale, 64);
}
uint32_t __sym_load(void *p, uint32_t n) { return load((uintptr_t)p, n); }
uint64_t __sym_load64(void *p, uint64_t v) {
  (void)p;
  __sym_ret = load((uintptr_t)p, 8);
  if (!__sym_ret && (v >> 48) == 0xFFFC) { uint64_t r = __sym_unbox(v); return r; }
  return v;
}
double __sym_loadd(void *p, double v) {
  uint32_t h = load((uintptr_t)p, 8);
  return h ? box_fp(bits_fp(g_ie[h].e), bitsd(g_ie[h].cv)) : v;
}
void __sym_store(void *p, uint32_t n, uint32_t h) { if (h || !g_sm.empty()) store((uintptr_t)p, n, h); }
void __sym_concretize(uint64_t v, uint32_t h, uint32_t bits, uint32_t) {
  if (!live(h, v, bits)) return;
  concretize(g_ie[h].e, v, bits);
  g_ie[h].e = zc().bv_val((uint64_t)(v & msk(bits)), (unsigned)bits); // from here on the path fixes it
}
void __sym_extcall(const char *, uint32_t h, uint64_t v, uint32_t bits) { __sym_concretize(v, h, bits, 4); }
double __sym_frombits(double raw, uint32_t h) { return live(h, dbits(raw), 64) ? box_fp(bits_fp(g_ie[h].e), raw) : raw; }
uint64_t __sym_unbox(uint64_t u) {
  __sym_ret = 0;
  if ((u >> 48) == 0xFFFC && u != POISON && (u & 0xFFFFFFFFFFFFull) < g_nodes.size()) {
    Node &n = g_nodes[u & 0xFFFFFFFFFFFFull];
    if (!n.kind) return dbits(veval(n.v).d());
    uint64_t b = dbits(n.cv);
    if (g_intmode) __sym_ret = mk(fp_bits(*n.fe), b, 64);
    return b;
  }
  return u;
}

// ---------------------------------------------------------------- library functions on shadowed bytes
static void conc_arg(int k, uint64_t v) { uint32_t h = __sym_arg[k]; __sym_arg[k] = 0; __sym_concretize(v, h, 64, 5); }
// long lengths: checked against the objects for every value on the path, then run with the concrete one (lazylen=1)
static void within(const void *p, uint32_t hp, uint64_t n, uint32_t hn, const char *what) {
  auto it = g_obj.upper_bound((uintptr_t)p);
  if (it == g_obj.begin()) return;
  --it;
  if ((uintptr_t)p - it->first > it->second.n) return;
  if (!hp && !hn && !it->second.h) {
    if ((uintptr_t)p - it->first + n > it->second.n) violation_concrete(what);
    return;
  }
  z3::expr off = ex(hp, (uint64_t)p, 64) - zc().bv_val((uint64_t)it->first, 64), len = ex(hn, n, 64), size = ex(it->second.h, it->second.n, 64);
  z3::expr c = (z3::ule(off, size) && z3::ule(len, size - off)).simplify();
  Assign a; map<string, uint64_t> im;
  if (c.is_true()) { assert_result(what, 0, a, im); return; }
  assert_result(what, check_path(!c, &a, &im), a, im);
}
static bool lazy_len(void *d, const void *s, uint64_t n) {
  static int lz = sym_param("lazylen", 0);
  if (!lz) return false;
  uint32_t hd = live(__sym_arg[0], (uint64_t)d, 64) ? __sym_arg[0] : 0, hs = s && live(__sym_arg[1], (uint64_t)s, 64) ? __sym_arg[1] : 0, hn = live(__sym_arg[2], n, 64) ? __sym_arg[2] : 0;
  if (!hd && !hs && !hn) return false;
  within(d, hd, n, hn, "memory operations stay inside their buffers");
  if (s) within(s, hs, n, hn, "memory operations stay inside their buffers");
  __sym_arg[0] = __sym_arg[1] = __sym_arg[2] = 0;
  return true;
}
void *__sym_h_memmove(void *d, const void *s, uint64_t n) {
  if (!lazy_len(d, s, n)) conc_arg(2, n);
  conc_arg(0, (uint64_t)d); conc_arg(1, (uint64_t)s);
  __sym_ret = 0;
  if (!g_sm.empty()) {
    vector<pair<uintptr_t, SB>> mv;
    if (n <= g_sm.size() * 4) { for (uint64_t i = 0; i < n; ++i) if (const SB *x = sbyte((uintptr_t)s + i)) mv.push_back({(uintptr_t)d + i, *x}); }
    else for (auto &x : g_sm) if (x.first - (uintptr_t)s < n && byte_of(x.second) == *(uint8_t *)x.first) mv.push_back({x.first - (uintptr_t)s + (uintptr_t)d, x.second});
    smclear((uintptr_t)d, n);
    for (auto &x : mv) g_sm[x.first] = x.second;
  }
  return memmove(d, s, n);
}
void *__sym_h_memcpy(void *d, const void *s, uint64_t n) { return __sym_h_memmove(d, s, n); }
void *__sym_h_memset(void *d, int v, uint64_t n) {
  uint32_t hv = __sym_arg[1];
  __sym_arg[1] = 0;
  if (!lazy_len(d, nullptr, n)) conc_arg(2, n);
  conc_arg(0, (uint64_t)d);
  __sym_ret = 0;
  memset(d, v, n);
  if (hv && hv < g_ie.size() && g_ie[hv].bits > 8) hv = __sym_icast(0, g_ie[hv].bits, 8, hv);
  for (uint64_t i = 0; i < n && hv; ++i) store((uintptr_t)d + i, 1, hv);
  if (!hv) smclear((uintptr_t)d, n);
  return d;
}
static z3::expr bexpr(const void *p) { const SB *s = sbyte((uintptr_t)p); return s ? g_ie[s->h].e.extract(8 * s->k + 7, 8 * s->k).simplify() : zc().bv_val((unsigned)*(uint8_t *)p, 8); }
static bool bsym(const void *p) { return !g_sm.empty() && sbyte((uintptr_t)p); }
static bool is_byte(const void *p, uint8_t c) { // decides *p == c
  bool r = *(uint8_t *)p == c;
  return bsym(p) ? decide(bexpr(p) == zc().bv_val((unsigned)c, 8), r) : r;
}
int __sym_h_memcmp(const void *a, const void *b, uint64_t n) {
  conc_arg(2, n);
  __sym_ret = 0;
  const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b;
  for (uint64_t i = 0; i < n; ++i) {
    if (!bsym(x + i) && !bsym(y + i)) { if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; continue; }
    if (decide(bexpr(x + i) == bexpr(y + i), x[i] == y[i])) continue;
    return decide(z3::ult(bexpr(x + i), bexpr(y + i)), x[i] < y[i]) ? -1 : 1;
  }
  return 0;
}
int __sym_h_bcmp(const void *a, const void *b, uint64_t n) { return __sym_h_memcmp(a, b, n); }
size_t __sym_h_strlen(const char *s) {
  __sym_ret = 0;
  size_t i = 0;
  while (!is_byte(s + i, 0)) ++i;
  return i;
}
void *__sym_h_memchr(const void *s, int c, uint64_t n) {
  conc_arg(1, (uint64_t)(uint32_t)c); conc_arg(2, n);
  __sym_ret = 0;
  for (uint64_t i = 0; i < n; ++i) if (is_byte((const char *)s + i, (uint8_t)c)) return (char *)s + i;
  return nullptr;
}
char *__sym_h_strchr(const char *s, int c) {
  conc_arg(1, (uint64_t)(uint32_t)c);
  __sym_ret = 0;
  for (;; ++s) { if (is_byte(s, (uint8_t)c)) return (char *)s; if (is_byte(s, 0)) return nullptr; }
}
int __sym_h_strcmp(const char *a, const char *b) {
  __sym_ret = 0;
  for (;; ++a, ++b) {
    bool s = bsym(a) || bsym(b);
    if (!(s ? decide(bexpr(a) == bexpr(b), *a == *b) : *a == *b)) return (s ? decide(z3::ult(bexpr(a), bexpr(b)), (uint8_t)*a < (uint8_t)*b) : (uint8_t)*a < (uint8_t)*b) ? -1 : 1;
    if (is_byte(a, 0)) return 0;
  }
}
int *__sym_h___errno_location() { __sym_ret = 0; return &errno; }
static int char_class(int c, uint32_t h, bool digit) {
  bool r = digit ? c >= '0' && c <= '9' : c == ' ' || (c >= 9 && c <= 13);
  __sym_ret = 0;
  if (!live(h, (uint32_t)c, 32)) return r;
  z3::expr e = g_ie[h].e;
  auto rg = [&](unsigned a, unsigned b) { return z3::uge(e, zc().bv_val(a, 32)) && z3::ule(e, zc().bv_val(b, 32)); };
  return decide(digit ? rg('0', '9') : e == zc().bv_val(32, 32) || rg(9, 13), r);
}
int __sym_h_isdigit(int c) { uint32_t h = __sym_arg[0]; __sym_arg[0] = 0; return char_class(c, h, true); }
int __sym_h_isspace(int c) { uint32_t h = __sym_arg[0]; __sym_arg[0] = 0; return char_class(c, h, false); }
}

// ---------------------------------------------------------------- text to number (C locale), on symbolic text
bool int_has_shadow_str(const char *s) {
  if (g_sm.empty()) return false;
  for (;; ++s) { if (sbyte((uintptr_t)s)) return true; if (!*s) return false; }
}
static bool in_set(const char *p, const char *set, bool digit = false) { // decides whether *p belongs to a set of characters
  uint8_t c = (uint8_t)*p;
  bool r = digit && c >= '0' && c <= '9';
  for (const char *q = set; *q; ++q) r |= c == (uint8_t)*q;
  if (!bsym(p)) return r;
  z3::expr e = bexpr(p), f = zc().bool_val(false);
  if (digit) f = f || (z3::uge(e, zc().bv_val('0', 8)) && z3::ule(e, zc().bv_val('9', 8)));
  for (const char *q = set; *q; ++q) f = f || e == zc().bv_val((unsigned)(uint8_t)*q, 8);
  return decide(f, r);
}
static const char *SPACE = " \t\n\v\f\r";
static void fix_bytes(const char *a, const char *b) { for (; a < b; ++a) if (bsym(a)) concretize(bexpr(a), (uint8_t)*a, 8); }
static map<vector<unsigned>, pair<z3::expr, double>> g_textnum; // number denoted by a text with symbolic digits
static bool word(const char *p, const char *w) { for (; *w; ++w, ++p) { char s[3] = {*w, (char)(*w - 32), 0}; if (!in_set(p, s)) return false; } return true; }
// exponent digits [a,b) of a number with mantissa characters [m,me): 0 the number is in range whatever its digits are,
// 1 it depends on the digits, 2 out of range whatever they are
static int exponent_range(const char *m, const char *me, const char *a, const char *b, bool hex, unsigned lo, unsigned hi) {
  if (b - a <= 2) return 0;
  z3::expr v = zc().bv_val(0, 32);
  uint64_t cv = 0;
  if (b - a > 8) return 1;
  bool sym = false;
  for (const char *q = a; q < b; ++q) { sym |= bsym(q); v = v * zc().bv_val(10, 32) + z3::zext(bexpr(q), 24) - zc().bv_val('0', 32); cv = cv * 10 + (*q - '0'); }
  if (sym ? decide(z3::ule(v, zc().bv_val(lo, 32)), cv <= lo) : cv <= lo) return 0;
  bool zero = true;
  for (const char *q = m; q < me && zero; ++q) if (*q != '.' || bsym(q)) if (in_set(q, "123456789") || (hex && in_set(q, "abcdefABCDEF"))) zero = false;
  if (zero) return 0;
  return (sym ? decide(z3::uge(v, zc().bv_val(hi, 32)), cv >= hi) : cv >= hi) ? 2 : 1;
}
double int_strtod(const char *s, char **end) {
  __sym_ret = 0;
  const char *p = s;
  while (in_set(p, SPACE)) ++p;
  const char *start = p;
  if (in_set(p, "+-")) { fix_bytes(p, p + 1); ++p; }
  const char *fin = nullptr;
  bool exact = false, fixedval = false; // exact: the text must be made concrete (its number may be out of range)
  if (in_set(p, "iI")) { if (word(p + 1, "nf")) { fixedval = true; fin = p + 3; if (word(p + 3, "inity")) fin = p + 8; } }
  else if (in_set(p, "nN")) {
    if (word(p + 1, "an")) {
      fin = p + 3;
      fixedval = true;
      if (in_set(fin, "(")) { const char *q = fin + 1; while (in_set(q, "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", true)) ++q; if (in_set(q, ")")) fin = q + 1; }
    }
  } else {
    if (in_set(p, "0") && in_set(p + 1, "xX")) {
      const char *q = p + 2;
      int nd = 0;
      bool dot = false;
      for (;; ++q) {
        if (in_set(q, "abcdefABCDEF", true)) ++nd;
        else if (!dot && in_set(q, ".")) dot = true;
        else break;
      }
      if (nd) {
        fin = q;
        if (in_set(q, "pP")) { const char *r = q + 1; if (in_set(r, "+-")) ++r; if (in_set(r, "", true)) { const char *d0 = r; while (in_set(r, "", true)) ++r; fin = r; int g = exponent_range(p + 2, q, d0, r, true, 500, 2000); exact = g == 1; fixedval = g == 2; } }
      }
    }
    if (!fin) {
      const char *q = p;
      int nd = 0;
      bool dot = false;
      for (;; ++q) {
        if (in_set(q, "", true)) ++nd;
        else if (!dot && in_set(q, ".")) dot = true;
        else break;
      }
      if (nd) {
        fin = q;
        if (in_set(q, "eE")) { const char *r = q + 1; if (in_set(r, "+-")) ++r; if (in_set(r, "", true)) { const char *d0 = r; while (in_set(r, "", true)) ++r; fin = r; int g = exponent_range(p, q, d0, r, false, 200, 500); exact = g == 1; fixedval = g == 2; } }
        exact |= nd > 200;
      }
    }
  }
  if (!fin) { if (end) { *end = (char *)s; int_clear(end, 8); } return 0.0; }
  if (end) { *end = (char *)fin; int_clear(end, 8); }
  string t(start, fin);
  int err = errno;
  errno = 0;
  char *e2;
  double cv = strtod(t.c_str(), &e2);
  if (errno) { err = errno; if (!fixedval) exact = true; }
  errno = err;
  if (e2 != t.c_str() + t.size()) path_end(9, "number scanner");
  bool sym = false;
  for (const char *q = start; q < fin; ++q) sym |= bsym(q);
  if (exact) { fix_bytes(start, fin); return cv; }
  if (!sym || fixedval) return cv;
  // plain decimal with symbolic digits: the same text denotes the same number
  vector<unsigned> key;
  z3::expr_vector bs(zc());
  for (const char *q = start; q < fin; ++q) { z3::expr b = bexpr(q); bs.push_back(b); key.push_back(Z3_get_ast_id(zc(), b)); }
  auto it = g_textnum.find(key);
  if (it == g_textnum.end()) {
    string nm = "textnum" + to_string(g_textnum.size());
    z3::expr v = z3::expr(zc(), Z3_mk_const(zc(), zc().str_symbol(nm.c_str()), zc().fpa_sort<64>()));
    static vector<z3::expr> keep;
    for (unsigned i = 0; i < bs.size(); ++i) keep.push_back(bs[i]);
    it = g_textnum.emplace(key, make_pair(v, cv)).first;
  }
  return box_fp(it->second.first, it->second.second);
}
long int_strtol(const char *s, char **end, int base) {
  __sym_ret = 0;
  if (base != 10) { size_t i = 0; while (!is_byte(s + i, 0)) ++i; fix_bytes(s, s + i); char *e; long r = strtol(s, &e, base); if (end) { *end = e; int_clear(end, 8); } return r; }
  const char *p = s;
  while (in_set(p, SPACE)) ++p;
  bool neg = false;
  if (in_set(p, "+-")) { neg = is_byte(p, '-'); ++p; }
  if (!in_set(p, "", true)) { if (end) { *end = (char *)s; int_clear(end, 8); } return 0; }
  z3::expr v = zc().bv_val(0, 128);
  __int128 cv = 0;
  bool over = false, sym = false;
  for (; in_set(p, "", true); ++p) {
    if (over) continue;
    sym |= bsym(p);
    v = (v * zc().bv_val(10, 128) + z3::zext(bexpr(p), 120) - zc().bv_val('0', 128)).simplify();
    cv = cv * 10 + (*p - '0');
    z3::expr lim = z3::concat(zc().bv_val(0, 64), zc().bv_val((uint64_t)LONG_MAX + (neg ? 1 : 0), 64));
    bool o = cv > (__int128)LONG_MAX + (neg ? 1 : 0);
    over = sym ? decide(z3::ugt(v, lim), o) : o;
  }
  if (end) { *end = (char *)p; int_clear(end, 8); }
  if (over) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  long r = neg ? (long)-cv : (long)cv;
  if (sym) { z3::expr e = v.extract(63, 0); __sym_ret = mk(neg ? -e : e, (uint64_t)r, 64); }
  return r;
}

// ---------------------------------------------------------------- harness API
extern "C" {
uint64_t sym_int(const char *name, int bits) {
  uint32_t h = input(name, bits);
  uint64_t v = int_input_value(name, bits);
  __sym_ret = bits < 64 ? __sym_icast(0, bits, 64, h) : h;
  return v;
}
void sym_bytes(void *p, size_t n, const char *name) {
  for (size_t i = 0; i < n; ++i) {
    string nm = string(name) + to_string(i);
    uint32_t h = input(nm, 8);
    ((uint8_t *)p)[i] = (uint8_t)int_input_value(nm, 8);
    g_sm[(uintptr_t)p + i] = SB{h, 0};
  }
  __sym_ret = 0;
}
double sym_bits_double(const char *name) {
  uint32_t h = input(name, 64);
  return box_fp(bits_fp(g_ie[h].e), bitsd(g_ie[h].cv));
}
static bool g_guard = false;
static int g_guardc;
static uint32_t g_guardh;
static const char *g_guardwhat;
void sym_assert_true(int, const char *);
static uint32_t argcond(int c, int k) { uint32_t h = __sym_arg[k]; __sym_arg[k] = 0; return live(h, (uint32_t)c, 32) ? h : 0; }
void sym_assume(int c) {
  uint32_t h = argcond(c, 0);
  if (!h) { if (!c) path_end(4, "assumption"); return; }
  z3::expr e = (g_ie[h].e != zc().bv_val(0, 32)).simplify();
  if (e.is_true()) return;
  if (e.is_false()) path_end(4, "assumption");
  if (!c) requeue_bv(e);
  z3_decide(e, true, true);
}
void sym_assert_true(int c, const char *what) {
  uint32_t h = argcond(c, 0);
  Assign a; map<string, uint64_t> im;
  if (!c) { assert_result(what, 1, a, im); return; }
  if (!h) { assert_result(what, 0, a, im); return; }
  z3::expr e = (g_ie[h].e == zc().bv_val(0, 32)).simplify();
  if (e.is_false()) { assert_result(what, 0, a, im); return; }
  assert_result(what, check_path(e, &a, &im), a, im);
}
uint64_t sym_dbits(double x) {
  __sym_ret = 0;
  if (isbox(x)) return __sym_unbox(dbits(x));
  return dbits(x);
}
int sym_fp_same(double a, double b) {
  __sym_ret = 0;
  if (!fp_is_sym(a) && !fp_is_sym(b)) return dbits(a) == dbits(b);
  int c = dbits(fp_conc_of(a)) == dbits(fp_conc_of(b));
  __sym_ret = mk(z3::zext(b1(fp_expr_of(a) == fp_expr_of(b)), 31), c, 32);
  return c;
}
int sym_fp_cmp(int p, double a, double b) {
  double x = fp_conc_of(a), y = fp_conc_of(b);
  int m = (std::isnan(x) || std::isnan(y)) ? 8 : x == y ? 1 : x > y ? 2 : 4, c = (p & m) != 0;
  __sym_ret = 0;
  if (!fp_is_sym(a) && !fp_is_sym(b)) return c;
  __sym_ret = mk(z3::zext(b1(fp_cmp_expr(p, fp_expr_of(a), fp_expr_of(b))), 31), c, 32);
  return c;
}
void sym_require_before_arith(int c, const char *what) {
  uint32_t h = argcond(c, 0);
  g_guard = true; g_guardc = c; g_guardh = h; g_guardwhat = what;
  __sym_ret = 0;
}
void *sym_alloc(size_t n) { uint32_t h = __sym_arg[0]; __sym_ret = 0; void *p = calloc(n + 1, 1); int_on_alloc(p, n, h); __sym_arg[0] = 0; return p; }
size_t sym_obj_size(const void *p) { __sym_ret = 0; return int_obj_room(p); }
}
// arithmetic on a bit-precise value: the harness may have asked for a condition that must hold by then
void int_arith_guard() {
  if (!g_guard) return;
  g_guard = false;
  __sym_arg[0] = g_guardh;
  sym_assert_true(g_guardc, g_guardwhat);
  sym_reach("accepted");
  path_end(0, "computation started");
}
// an access of a modelled library function
void int_need(const void *p, size_t bytes, const char *what) { if (g_intmode) within(p, 0, bytes, 0, what); }

// ---------------------------------------------------------------- allocation (also outside int mode, where only the list of live blocks is kept)
static std::map<void *, size_t> g_live;
static int g_liveplans = 0;
static long g_livebytes = 0;
void live_remove(void *p) {
  auto i = g_live.find(p);
  if (i != g_live.end()) { g_livebytes -= i->second; g_live.erase(i); }
}
void live_add(void *p) { if (p) { live_remove(p); g_livebytes += g_live[p] = malloc_usable_size(p); } }
void live_plan(int d) { g_liveplans += d; }
extern "C" {
int sym_live() { __sym_ret = 0; return (int)g_live.size() + g_liveplans; }
long sym_live_bytes() { __sym_ret = 0; return g_livebytes; }
void *__sym_h_malloc(size_t);
void *__sym_h_calloc(size_t a, size_t b) { __sym_ret = 0; void *p = calloc(a, b); if (p && g_intmode) int_on_alloc(p, a * b, 0); live_add(p); return p; }
void *__sym_h_realloc(void *p, size_t n) {
  __sym_ret = 0;
  if (!p) return __sym_h_malloc(n);
  if (!g_intmode) { live_remove(p); p = realloc(p, n); live_add(p); return p; }
  auto it = g_obj.find((uintptr_t)p);
  size_t old = it == g_obj.end() ? 0 : it->second.n;
  void *q = __sym_h_malloc(n);
  memset(__sym_arg, 0, 12);
  __sym_h_memmove(q, p, old < n ? old : n);
  live_remove(p);
  free(p);
  return q;
}
void __sym_h_free(void *p) { __sym_ret = 0; if (g_intmode) g_obj.erase((uintptr_t)p); live_remove(p); free(p); }
void __sym_h__ZdlPv(void *p) { live_remove(p); operator delete(p); }
void __sym_h__ZdlPvm(void *p, size_t n) { live_remove(p); operator delete(p, n); }
void __sym_h__ZdaPv(void *p) { live_remove(p); operator delete[](p); }
void __sym_h__ZdaPvm(void *p, size_t n) { live_remove(p); operator delete[](p, n); }
}
