// Runs recorded calls on the real build of the repository (same compiler flags as its Makefile).
// Input: one call per line; doubles as 16 hexadecimal digits.  Output: one line per call.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <unistd.h>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <fftw3.h>
#include <set>
#include <time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "../harness/shapes.hpp"
#include "common.hh"
#include "ecdf1_mns2016.hh"
#include "ecdf1_new.hh"
#include "ecdf2.hh"
#include "fftwconvolver.hh"
#include "poisson_pmf.hh"
#include "read_boundaries_file.hh"
#include "string_utils.hh"
#include "tinymt64.h"
using namespace std;
static double rd(istream &is) { string s; is >> s; uint64_t u = stoull(s, 0, 16); double d; memcpy(&d, &u, 8); return d; }
static vector<double> rv(istream &is) { int n; is >> n; vector<double> v(n); for (auto &x : v) { double d = rd(is); memcpy(&x, &d, 8); } return v; }
static string wd(double d) { uint64_t u; memcpy(&u, &d, 8); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b; }
static string rs(istream &is) { string h, s; is >> h; if (h == "-") return ""; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)stoi(h.substr(i, 2), 0, 16); return s; }
static string ws(const string &s) { string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r.size() ? r : "-"; }
// bytes and open files that stay behind per repetition
template <class F> static string repeat(F f)
{
    auto used = [] { struct mallinfo2 m = mallinfo2(); return (double)m.uordblks + (double)m.hblkhd; };
    for (int i = 0; i < 3; ++i) try { f(); } catch (exception &) {}
    auto files = [] { int n = 0; for (int i = 0; i < 1000; ++i) n += fcntl(i, F_GETFD) >= 0; return n; };
    double before = used();
    int open = files();
    for (int i = 0; i < 64; ++i) try { f(); } catch (exception &) {}
    return wd((used() - before) / 64) + " " + wd((files() - open) / 64.0);
}
static string boundary_file(int bad)
{
    string name = "/tmp/replay-leak." + to_string(getpid());
    if (bad == 8) return name + ".does-not-exist";
    static const char *T[] = {"0.25, 0.25, 0.25\n0.5, 0.5\n", "", "0.25, 0.25, 0.25\n", "0.25, 0.25, 0.25", "# boundaries\n0.25\n0.5\n", "0.25\nnone\n", "x, 0.25\n0.5\n", "0.25, nothing\n0.5\n"};
    FILE *f = fopen(name.c_str(), "w");
    fputs(T[bad], f);
    fclose(f);
    return name;
}
// the plans a call makes, and the different kinds and lengths among them
static int g_plans = 0;
static set<pair<int, int>> g_planned;
extern "C" fftw_plan fftw_plan_dft_r2c_1d(int n, double *in, fftw_complex *out, unsigned f)
{
    static auto real = (fftw_plan (*)(int, double *, fftw_complex *, unsigned))dlsym(RTLD_NEXT, "fftw_plan_dft_r2c_1d");
    ++g_plans;
    g_planned.insert({0, n});
    return real(n, in, out, f);
}
extern "C" fftw_plan fftw_plan_dft_c2r_1d(int n, fftw_complex *in, double *out, unsigned f)
{
    static auto real = (fftw_plan (*)(int, fftw_complex *, double *, unsigned))dlsym(RTLD_NEXT, "fftw_plan_dft_c2r_1d");
    ++g_plans;
    g_planned.insert({1, n});
    return real(n, in, out, f);
}
// processor time of a call, measured in a child that is ended after max seconds
static double shortest(int op, const vector<double> &b, const vector<double> &B, double max)
{
    int fd[2];
    if (pipe(fd)) return 0;
    pid_t p = fork();
    if (!p) {
        struct rlimit l = {(rlim_t)(2 * max + 2), (rlim_t)(2 * max + 2)};
        setrlimit(RLIMIT_CPU, &l);
        // the mean over enough calls for the clock's resolution, the smaller of two such means
        double best = 1e30;
        for (int j = 0; j < 2; ++j) {
            double total = 0;
            int k = 0;
            struct timespec s, e;
            clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s);
            for (; k == 0 || (k < 1000 && total < 0.25); ++k) {
                try {
                    if (op == 0 || op == 1) ecdf2(b, B, op == 1);
                    else if (op == 2) ecdf1_new_b(b);
                    else if (op == 3) ecdf1_new_B(B);
                    else if (op == 4) ecdf1_mns2016_b(b);
                    else ecdf1_mns2016_B(B);
                } catch (exception &) {}
                clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &e);
                total = (e.tv_sec - s.tv_sec) + 1e-9 * (e.tv_nsec - s.tv_nsec);
            }
            best = min(best, total / k);
            if (total > max / 2) break;
        }
        if (write(fd[1], &best, sizeof best) != sizeof best) _exit(1);
        _exit(0);
    }
    close(fd[1]);
    double r = 0;
    if (read(fd[0], &r, sizeof r) != sizeof r) r = 2 * max + 2; // took longer than that
    close(fd[0]);
    waitpid(p, 0, 0);
    return r;
}
int main()
{
    map<int, shared_ptr<FFTWConvolver>> conv;
    map<int, shared_ptr<PoissonPMFGenerator>> pmf;
    string line;
    while (getline(cin, line)) {
        istringstream is(line);
        string c;
        is >> c;
        string out = "=";
        try {
            if (c == "ecdf2") { int f; is >> f; vector<double> b = rv(is), B = rv(is); out += " " + wd(ecdf2(b, B, f != 0)); }
            else if (c == "ecdf1_new_b") out += " " + wd(ecdf1_new_b(rv(is)));
            else if (c == "ecdf1_new_B") out += " " + wd(ecdf1_new_B(rv(is)));
            else if (c == "ecdf1_mns2016_b") out += " " + wd(ecdf1_mns2016_b(rv(is)));
            else if (c == "ecdf1_mns2016_B") out += " " + wd(ecdf1_mns2016_B(rv(is)));
            else if (c == "check") { string nm; int n; is >> nm >> n; check_boundary_vector(nm, n, rv(is)); }
            else if (c == "convolve") {
                int max, size, off;
                is >> max >> size >> off;
                vector<double> a = rv(is), b = rv(is), o(size + 3 + off, 7.0);
                vector<double> A(off + a.size() + 2, 0.0), Bv(off + b.size() + 2, 0.0);
                copy(a.begin(), a.end(), A.begin() + off);
                copy(b.begin(), b.end(), Bv.begin() + off);
                if (!conv[max]) conv[max] = make_shared<FFTWConvolver>(max);
                vector<double> A0 = A, B0 = Bv;
                conv[max]->convolve_same_size(size, &A[off], &Bv[off], &o[off]);
                for (int i = 0; i < off; ++i) if (o[i] != 7.0) out += " before";
                for (size_t i = off + size; i < o.size(); ++i) if (o[i] != 7.0) out += " after";
                if (A != A0 || Bv != B0) out += " inputs";
                for (int i = 0; i < size; ++i) out += " " + wd(o[off + i]);
            }
            else if (c == "convolve_size") { // arrays of exactly the requested size, except when it must be refused
                int max, size;
                is >> max >> size;
                int len = size > max ? 1 : size;
                if (!conv[max]) conv[max] = make_shared<FFTWConvolver>(max);
                double *a = (double *)malloc(8 * (len ? len : 1)), *b = (double *)malloc(8 * (len ? len : 1)), *o = (double *)malloc(8 * (len ? len : 1));
                for (int i = 0; i < len; ++i) a[i] = b[i] = 1, o[i] = 7;
                conv[max]->convolve_same_size(size, a, b, o);
                double dev = 0;
                for (int i = 0; i < len; ++i) { double e = o[i] - (i + 1); e = e < 0 ? -e : e; if (!(e <= dev)) dev = e; }
                free(a); free(b); free(o);
                out += " " + wd(dev);
            }
            else if (c == "pmf_array") { int m, k; is >> m >> k; if (!pmf[m]) pmf[m] = make_shared<PoissonPMFGenerator>(m); pmf[m]->compute_array(k, rd(is)); for (int i = 0; i <= k; ++i) out += " " + wd(pmf[m]->get_array()[i]); }
            else if (c == "pmf_held") { int m, k; is >> m >> k; if (!pmf[m]) throw std::logic_error("no generator"); for (int i = 0; i <= k; ++i) out += " " + wd(pmf[m]->get_array()[i]); }
            else if (c == "pmf_single") { int m, k; is >> m >> k; double l = rd(is); if (!pmf[m]) pmf[m] = make_shared<PoissonPMFGenerator>(m); out += " " + wd(poisson_pmf(l, k)) + " " + wd(pmf[m]->evaluate_pmf(l, k)); }
            else if (c == "line") { for (double d : read_comma_delimited_doubles(rs(is))) out += " " + wd(d); }
            else if (c == "long") out += " " + to_string(string_to_long(rs(is)));
            else if (c == "double") out += " " + wd(string_to_double(rs(is)));
            else if (c == "file") { auto p = read_and_check_boundaries_file(rs(is)); for (double d : p.first) out += " " + wd(d); out += " |"; for (double d : p.second) out += " " + wd(d); }
            else if (c == "split") { string s = rs(is), d = rs(is); for (auto &x : split(s, d[0])) out += " " + ws(x); }
            else if (c == "repeat") {
                int op, max, size;
                is >> op >> max >> size;
                vector<double> b = rv(is), B = rv(is);
                string t = rs(is);
                if (op == 8) t = boundary_file(size);
                out += " " + repeat([&] {
                    switch (op) {
                    case 0: case 1: ecdf2(b, B, op == 1); break;
                    case 2: ecdf1_new_b(b); break;
                    case 3: ecdf1_new_B(B); break;
                    case 4: ecdf1_mns2016_b(b); break;
                    case 5: ecdf1_mns2016_B(B); break;
                    case 6: { FFTWConvolver v(max); vector<double> x(size, 1.0), y(size, 1.0), o(size, 0.0); for (int i = 0; i < 2; ++i) v.convolve_same_size(size, x.data(), y.data(), o.data()); break; }
                    case 7: { PoissonPMFGenerator g(max); g.compute_array(size, b[0]); break; }
                    case 8: read_and_check_boundaries_file(t); break;
                    case 9: read_comma_delimited_doubles(t); break;
                    }
                });
                if (op == 8 && size < 8) unlink(t.c_str());
            }
            else if (c == "growth") {
                int op, w, v, g, n[2];
                double limit;
                is >> op >> w >> v >> g;
                vector<double> ts = rv(is);
                is >> n[0] >> n[1] >> limit;
                double first = 1;
                for (int k = 0; k < 2; ++k) {
                    double best = shortest(op, shape_lower(n[k], w, g, ts[0]), shape_upper(n[k], v, g, ts[1]), k ? 2 * limit * first + 1 : 20);
                    if (k == 0) first = best;
                    out += " " + wd(best);
                }
                g_plans = 0;
                g_planned.clear();
                vector<double> b = shape_lower(n[0], w, g, ts[0]), B = shape_upper(n[0], v, g, ts[1]);
                if (op == 0 || op == 1) ecdf2(b, B, op == 1); else if (op == 2) ecdf1_new_b(b); else if (op == 3) ecdf1_new_B(B);
                out += " " + to_string(g_plans) + " " + to_string(g_planned.size());
            }
            else if (c == "rng_init") { tinymt64_t t; uint64_t seed; memset(&t, 0, sizeof t); is >> t.mat1 >> t.mat2 >> t.tmat >> seed; tinymt64_init(&t, seed); out += " " + to_string(t.status[0]) + " " + to_string(t.status[1]); }
            else if (c == "rng_array") { tinymt64_t t; int n; memset(&t, 0, sizeof t); is >> t.mat1 >> t.mat2 >> t.tmat >> n; vector<uint64_t> key(n); for (auto &x : key) is >> x; tinymt64_init_by_array(&t, key.data(), n); out += " " + to_string(t.status[0]) + " " + to_string(t.status[1]); }
            else if (c == "rng_step") {
                tinymt64_t t, s;
                is >> s.status[0] >> s.status[1] >> s.mat1 >> s.mat2 >> s.tmat;
                t = s; uint64_t u = tinymt64_generate_uint64(&t);
                out += " " + to_string(t.status[0]) + " " + to_string(t.status[1]) + " " + to_string(u);
                t = s; out += " " + wd(tinymt64_generate_double(&t));
                t = s; out += " " + wd(tinymt64_generate_double01(&t));
                t = s; out += " " + wd(tinymt64_generate_double12(&t));
                t = s; out += " " + wd(tinymt64_generate_doubleOC(&t));
                t = s; out += " " + wd(tinymt64_generate_doubleOO(&t));
            }
            else { printf("? %s\n", c.c_str()); continue; }
        } catch (runtime_error &e) { out = string("! ") + ws(e.what()); }
        puts(out.c_str());
        fflush(stdout);
    }
    return 0;
}
