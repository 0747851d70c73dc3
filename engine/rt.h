#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <gmpxx.h>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include "z3++.h"
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<80>, boost::multiprecision::et_off> BF;
typedef mpq_class Q;

// ---------------------------------------------------------------- monomials / polynomials
typedef std::vector<std::pair<uint32_t, uint32_t>> MonoV; // (var, exponent), sorted by var
uint32_t mono_intern(const MonoV &m);
const MonoV &mono_get(uint32_t id);
uint32_t mono_mul(uint32_t a, uint32_t b);

struct Poly {
  std::vector<std::pair<uint32_t, Q>> t; // sorted by monomial id, no zero coefficients
  Poly() {}
  explicit Poly(const Q &q) { if (q != 0) t.push_back({0, q}); }
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  Q constVal() const { return t.empty() ? Q(0) : t[0].second; }
  bool operator==(const Poly &o) const { return t == o.t; }
};
Poly padd(const Poly &a, const Poly &b);
Poly psub(const Poly &a, const Poly &b);
Poly pscale(const Poly &a, const Q &q);
Poly pmul(const Poly &a, const Poly &b);
Poly ppow(const Poly &a, unsigned k);
Poly pvar(uint32_t v);
unsigned pdeg(const Poly &p);
std::string pstr(const Poly &p);

// sum over keys k of exp(key_k) * poly_k
struct Val {
  std::vector<std::pair<uint32_t, Poly>> t;
  Val() {}
  explicit Val(const Poly &p) { if (!p.zero()) t.push_back({0, p}); }
  bool zero() const { return t.empty(); }
  bool pure() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  Poly poly() const { return t.empty() ? Poly() : t[0].second; }
  bool isConst() const { return pure() && poly().isConst(); }
};
uint32_t key_intern(const Poly &p);
const Poly &key_get(uint32_t k);
Val vadd(const Val &a, const Val &b);
Val vneg(const Val &a);
Val vmul(const Val &a, const Val &b);
Val vscale(const Val &a, const Q &q);
std::string vstr(const Val &v);

enum AtomKind { A_INPUT, A_LOG, A_INV, A_SQRT, A_OPAQUE, A_SPEC, A_GARBAGE, A_DELTA };
struct Atom {
  AtomKind kind;
  std::string name;
  Poly p;          // LOG/INV/SQRT argument
  Q q;             // concrete value (exact kinds)
  BF bf;           // concrete value (approximate kinds)
  bool exact;
  int spec = -1, bin = -1, im = 0; // SPEC
  bool bounded = false;
};
extern std::vector<Atom> g_atoms;
uint32_t new_atom(const Atom &a);
uint32_t atom_log(const Poly &p);
uint32_t atom_inv(const Poly &p);
uint32_t atom_sqrt(const Poly &p);
uint32_t atom_garbage(const char *why);

struct Num { bool exact; Q q; BF f; BF bf() const; double d() const; int sign() const; };
typedef std::map<uint32_t, Q> Assign; // overrides for atoms (a solver model)
Num peval(const Poly &p, const Assign *m = nullptr);
Num veval(const Val &v, const Assign *m = nullptr);

// ---------------------------------------------------------------- boxed nodes
struct Node {
  int kind; // 0 real, 1 bit-precise floating point
  Val v;
  double cv = 0;              // kind 1: concrete value
  std::shared_ptr<z3::expr> fe; // kind 1: FP(11,53) expression
};
extern std::vector<Node> g_nodes;
static const uint64_t POISON = 0xFFFCFFFFFFFFFFFFull;
static inline uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline double bitsd(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline bool isbox(double d) { return (dbits(d) >> 48) == 0xFFFC; }
static inline uint64_t boxidx(double d) { return dbits(d) & 0xFFFFFFFFFFFFull; }
double box_new(const Node &n);
double box_val(const Val &v);     // native if exactly representable
bool to_val(double d, Val &v);    // false: native inf/NaN
double box_fp(const z3::expr &e, double cv);

// ---------------------------------------------------------------- decisions
struct Dec {
  enum K { SIGN, Z3 } k;
  Poly p; uint8_t before = 7, taken = 7; // SIGN
  std::shared_ptr<z3::expr> c; bool tk = false; // Z3
  bool assume = false, noexpand = false;
  std::shared_ptr<z3::expr> alt; // explicit alternative (overrides !c)
};
extern std::vector<Dec> g_path;
Poly psubst(const Poly &p);
int psign(const Poly &p, int want);  // decides sign(p) in want (bits: 1 neg, 2 zero, 4 pos)
int vsign(const Val &v, int want);
bool z3_decide(const z3::expr &c, bool taken, bool assume = false);
z3::context &zc();
z3::expr z3_atom(uint32_t a);
z3::expr z3_poly(const Poly &p);
void need_axioms(const Poly &p);
extern uint64_t st_unforked, st_queries, st_sat, st_unsat, st_unknown;

[[noreturn]] void path_end(int status, const char *msg);
void violation_concrete(const char *what);
int check_formula(const z3::expr &f, Assign *model, std::map<std::string, std::string> *imodel, bool nonlin); // path /\ f
void report_violation(const char *what, const Assign &m, bool haveModel);
void assert_note(const char *what, int res); // 0 proved 1 violated 2 unknown

// int layer (rt_int.cpp)
struct IntInput { std::string name; int bits; uint64_t val; };
extern std::vector<IntInput> g_ints;
extern bool g_intmode;
void int_on_alloc(void *p, size_t n, uint32_t h);
void int_clear(const void *p, size_t n);
uint64_t int_input_value(const std::string &name, int bits);
extern "C" { extern uint32_t __sym_ret; extern uint32_t __sym_arg[32]; }
