// recorded calls of the library entry points
#pragma once
#include "common.hpp"
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
enum { OP_KS, OP_FFT, OP_NEW_b, OP_NEW_B, OP_MNS_b, OP_MNS_B, OP_COUNT };
static inline double call_ecdf2(const vector<double> &b, const vector<double> &B, int fft)
{
    sym_rec_begin("ecdf2");
    sym_rec_vec("b", b.data(), b.size());
    sym_rec_vec("B", B.data(), B.size());
    sym_rec_int("fft", fft);
    double r = ecdf2(b, B, fft != 0);
    sym_rec_out("result", r);
    return r;
}
static inline double call_one(int op, const vector<double> &v)
{
    bool lower = op == OP_NEW_b || op == OP_MNS_b;
    const char *fn = op == OP_NEW_b ? "ecdf1_new_b" : op == OP_NEW_B ? "ecdf1_new_B" : op == OP_MNS_b ? "ecdf1_mns2016_b" : "ecdf1_mns2016_B";
    sym_rec_begin(fn);
    sym_rec_vec(lower ? "b" : "B", v.data(), v.size());
    double r = op == OP_NEW_b ? ecdf1_new_b(v) : op == OP_NEW_B ? ecdf1_new_B(v) : op == OP_MNS_b ? ecdf1_mns2016_b(v) : ecdf1_mns2016_B(v);
    sym_rec_out("result", r);
    return r;
}
static inline bool op_lower(int op) { return op == OP_NEW_b || op == OP_MNS_b; }
static inline double call_op(int op, const vector<double> &b, const vector<double> &B)
{
    if (op == OP_KS || op == OP_FFT) return call_ecdf2(b, B, op == OP_FFT);
    return call_one(op, op_lower(op) ? b : B);
}
