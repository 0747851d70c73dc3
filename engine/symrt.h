// Harness API (defined, uninstrumented, by the runtime).  Everything a harness computes itself is compiled and
// instrumented together with the code under test, so an oracle is written as ordinary C++.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sym_harness();                                        // provided by the harness
long sym_param(const char *name, long dflt);               // key=value parameter of the run
const char *sym_param_s(const char *name, const char *dflt);
// --- exact real domain
double sym_real(const char *name);                         // a fresh symbolic real
double sym_real_at(const char *name, long p, long q);      // same; the first path samples it at p/q
void sym_assume_le(double a, double b);                    // path assumption a <= b
void sym_assume_lt(double a, double b);
void sym_assume_ne(double a, double b);
void sym_assert_eq(double a, double b, const char *what);  // decided by the solver for every value on this path
void sym_assert_le(double a, double b, const char *what);
double sym_fact(int n);                                    // exact n!
double sym_rat(long p, long q);                            // exact rational
int sym_is_symbolic(double x);
// --- control
void sym_assert(int cond, const char *what);               // cond is already decided on this path
void sym_reach(const char *label);                         // reachability witness
void sym_discard();                                        // path outside the stated bounds
void sym_expect_no_crash(int on);                          // (default on) a crash of the code under test is a violation
// --- record of what the path did, replayed on the real build
void sym_rec_begin(const char *fn);
void sym_rec_vec(const char *name, const double *p, size_t n);
void sym_rec_int(const char *name, long v);
void sym_rec_str(const char *name, const char *s);
void sym_rec_strn(const char *name, const char *s, size_t n);
void sym_rec_out(const char *name, double v);
void sym_rec_outs(const char *name, const char *v);
// --- text <-> symbolic numbers
void sym_register_token(const char *text, double value);   // strtod(text) yields value
double sym_token_value(const char *text, int *ok);         // value printed by the code under test ("@S12@" or a number)
// --- random number generator stub
void sym_rng_limit(int n);                                 // draws beyond n discard the path
int sym_rng_count();
double sym_rng_log(int i);                                 // log of the i-th draw
int sym_rng_zero(int i);                                   // was the i-th draw 0?
int sym_rng_repeated();                                    // draws that took a number of the stream already used
long sym_live_bytes();                                     // bytes of these blocks
int sym_live();                                            // blocks of memory and plans that the instrumented code holds
long sym_cost();                                           // work done so far: instructions, copies, transforms (programs built for counting)
void sym_cost_limit(long extra, const char *what);          // end the path with a violation once it has done that much more
int sym_rng_unset();                                       // draws from a generator that was not initialised
// --- bit-precise domain (needs SYM_INT=1)
uint64_t sym_int(const char *name, int bits);              // fresh symbolic integer
void sym_bytes(void *p, size_t n, const char *name);       // make n bytes symbolic
double sym_bits_double(const char *name);                  // a double with arbitrary bits (IEEE, bit precise)
void sym_assume(int cond);                                 // may be symbolic
void sym_assert_true(int cond, const char *what);          // may be symbolic: decided by the solver
uint64_t sym_dbits(double x);                              // IEEE bits of x (shadowed)
int sym_fp_same(double a, double b);                       // bit-for-bit equal (symbolic result)
int sym_fp_cmp(int pred, double a, double b);              // IEEE comparison without fast-math assumptions (LLVM predicate)
void sym_require_before_arith(int cond, const char *what); // cond must hold when arithmetic on a bit-precise value starts; the path ends there
void *sym_alloc(size_t bytes);                             // zeroed object of (possibly symbolic) size
size_t sym_obj_size(const void *p);                        // size of the heap object holding p
// --- fftw model
int sym_fftw_count();                                      // transforms executed so far
int sym_fftw_size(int i);
int sym_plan_count();                                      // plans made so far
int sym_plan_kinds();                                      // different kinds and lengths among them
}
