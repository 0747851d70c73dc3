// TinyMT64: transition, tempering, initialisation and real-valued outputs, bit precise, for every state / seed / key / parameters
#include <cstdio>
#include "symrt.h"
extern "C" {
#include "tinymt64.h"
}
static const uint64_t MASK = 0x7fffffffffffffffull;
// published definition (Saito & Matsumoto): the state is a 127-bit vector (s0 without its top bit, s1)
static void spec_next(uint64_t s0, uint64_t s1, uint64_t m1, uint64_t m2, uint64_t &n0, uint64_t &n1)
{
    uint64_t y = (s0 & MASK) ^ s1;
    y ^= y << 12;
    y ^= y >> 32;
    y ^= y << 32;
    y ^= y << 11;
    uint64_t odd = (uint64_t)0 - (y & 1);
    n0 = s1 ^ (odd & m1);
    n1 = y ^ (odd & (m2 << 32));
}
static uint64_t spec_temper(uint64_t s0, uint64_t s1, uint64_t tmat)
{
    uint64_t t = (s0 + s1) ^ (s0 >> 8);
    return t ^ (((uint64_t)0 - (t & 1)) & tmat);
}
static uint64_t i1(uint64_t x) { return (x ^ (x >> 59)) * 2173292883993ull; }
static uint64_t i2(uint64_t x) { return (x ^ (x >> 59)) * 58885565329898161ull; }
static uint64_t mul1(uint64_t y) { return 6364136223846793005ull * (y ^ (y >> 62)); }
static uint64_t rec(const char *n, uint64_t v) { sym_rec_int(n, (long)v); return v; }

static void step()
{
    sym_rec_begin("rng_step");
    tinymt64_t s;
    s.status[0] = rec("s0", sym_int("s0", 64));
    s.status[1] = rec("s1", sym_int("s1", 64));
    s.mat1 = (uint32_t)rec("mat1", sym_int("mat1", 32));
    s.mat2 = (uint32_t)rec("mat2", sym_int("mat2", 32));
    s.tmat = rec("tmat", sym_int("tmat", 64));
    uint64_t n0, n1;
    spec_next(s.status[0], s.status[1], s.mat1, s.mat2, n0, n1);
    uint64_t u = spec_temper(n0, n1, s.tmat);
    tinymt64_t t = s;
    tinymt64_next_state(&t);
    sym_assert_true((t.status[0] ^ n0) == 0 && 1, "transition: first state word");
    sym_assert_true((t.status[1] ^ n1) == 0, "transition: second state word");
    sym_assert_true((((t.status[0] & MASK) | t.status[1]) != 0) | (((s.status[0] & MASK) | s.status[1]) == 0), "a non-zero state never becomes zero");
    sym_assert_true((t.mat1 == s.mat1) & (t.mat2 == s.mat2) & (t.tmat == s.tmat), "parameters are kept");
    tinymt64_t t2 = t;
    sym_assert_true(tinymt64_temper(&t) == u, "tempering");
    sym_assert_true((t.status[0] == t2.status[0]) & (t.status[1] == t2.status[1]), "tempering leaves the state alone");
    t = s;
    sym_assert_true(tinymt64_generate_uint64(&t) == u, "generate_uint64");
    sym_assert_true((t.status[0] == n0) & (t.status[1] == n1), "generate_uint64 advances by one step");
    const uint64_t one = 0x3ff0000000000000ull;
    double d;
#define OUT(call, name, lo, lop, hi, hip) \
    t = s; d = call(&t); \
    sym_assert_true((t.status[0] == n0) & (t.status[1] == n1), name " advances by one step"); \
    sym_assert_true(sym_fp_cmp(lop, d, lo) & sym_fp_cmp(hip, d, hi), name " range");
    // predicates: 2 >, 3 >=, 4 <, 5 <=
    if (sym_param("doubles", 1)) {
        OUT(tinymt64_generate_double12, "double12", 1.0, 3, 2.0, 4)
        sym_assert_true(sym_dbits(d) == ((u >> 12) | one), "double12 carries the upper 52 bits");
        double c = d;
        OUT(tinymt64_generate_double01, "double01", 0.0, 3, 1.0, 4)
        sym_assert_true(sym_fp_same(d, c - 1.0), "double01 is double12 - 1");
        OUT(tinymt64_generate_doubleOC, "doubleOC", 0.0, 2, 1.0, 5)
        sym_assert_true(sym_fp_same(d, 2.0 - c), "doubleOC is 2 - double12");
        OUT(tinymt64_generate_doubleOO, "doubleOO", 0.0, 2, 1.0, 4)
        OUT(tinymt64_generate_double, "generate_double", 0.0, 3, 1.0, 4)
    }
}
static void init()
{
    sym_rec_begin("rng_init");
    tinymt64_t s;
    s.mat1 = (uint32_t)rec("mat1", sym_int("mat1", 32));
    s.mat2 = (uint32_t)rec("mat2", sym_int("mat2", 32));
    uint64_t tmat, seed, a, b;
    if (sym_param("zero", 0)) {
        // the seeds that lead to the all-zero state: the rounds run backwards from it (each is its own inverse)
        a = sym_int("top", 64) & ~MASK;
        b = 0;
        for (int i = 7; i >= 1; --i) if (i & 1) b ^= i + mul1(a); else a ^= i + mul1(b);
        seed = a ^ ((uint64_t)s.mat1 << 32);
        tmat = b ^ s.mat2;
    } else {
        seed = sym_int("seed", 64);
        tmat = sym_int("tmat", 64);
    }
    rec("tmat", tmat);
    rec("seed", seed);
    s.tmat = tmat;
    tinymt64_t t = s;
    tinymt64_init(&t, seed);
    a = seed ^ ((uint64_t)s.mat1 << 32);
    b = s.mat2 ^ s.tmat;
    for (int i = 1; i < 8; ++i) if (i & 1) b ^= i + mul1(a); else a ^= i + mul1(b);
    if ((a & MASK) == 0 && b == 0) { a = 'T'; b = 'M'; sym_reach("certified"); }
    sym_assert_true((t.status[0] == a) & (t.status[1] == b), "initial state");
    sym_assert_true(((t.status[0] & MASK) | t.status[1]) != 0, "initial state is not zero");
    sym_assert_true((t.mat1 == s.mat1) & (t.mat2 == s.mat2) & (t.tmat == s.tmat), "parameters are kept");
}
static void array()
{
    int n = (int)sym_param("keys", 1);
    sym_rec_begin("rng_array");
    sym_rec_int("n", n);
    tinymt64_t s;
    s.mat1 = (uint32_t)rec("mat1", sym_int("mat1", 32));
    s.mat2 = (uint32_t)rec("mat2", sym_int("mat2", 32));
    s.tmat = rec("tmat", sym_int("tmat", 64));
    uint64_t key[32], kept[32];
    for (int i = 0; i < n; ++i) {
        char nm[16];
        snprintf(nm, sizeof nm, "key%d", i);
        kept[i] = key[i] = rec(nm, sym_int(nm, 64));
    }
    tinymt64_t t = s;
    tinymt64_init_by_array(&t, key, n);
    uint64_t x[4] = {0, s.mat1, s.mat2, s.tmat};
    int rounds = n + 1 > 8 ? n + 1 : 8, p = 0;
    for (int k = 0; k < rounds; ++k) {
        uint64_t r = i1(x[p] ^ x[(p + 1) & 3] ^ x[(p + 3) & 3]);
        x[(p + 1) & 3] += r;
        r += k == 0 ? (uint64_t)n : (k <= n ? key[k - 1] : 0) + p;
        x[(p + 2) & 3] += r;
        x[p] = r;
        p = (p + 1) & 3;
    }
    for (int k = 0; k < 4; ++k) {
        uint64_t r = i2(x[p] + x[(p + 1) & 3] + x[(p + 3) & 3]);
        x[(p + 1) & 3] ^= r;
        r -= p;
        x[(p + 2) & 3] ^= r;
        x[p] = r;
        p = (p + 1) & 3;
    }
    uint64_t a = x[0] ^ x[1], b = x[2] ^ x[3];
    if ((a & MASK) == 0 && b == 0) { a = 'T'; b = 'M'; }
    sym_assert_true((t.status[0] == a) & (t.status[1] == b), "initial state from an array");
    sym_assert_true(((t.status[0] & MASK) | t.status[1]) != 0, "initial state is not zero");
    for (int i = 0; i < n; ++i) sym_assert_true(key[i] == kept[i], "the key array is left alone");
}
void sym_harness()
{
    const char *m = sym_param_s("mode", "step");
    if (m[0] == 's') step(); else if (m[0] == 'i') init(); else array();
    sym_reach("result");
}
