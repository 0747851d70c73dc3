// text parsing: every byte string up to the bound (mode line / double / long), or a template whose '?' are arbitrary bytes
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <cstring>
#include <stdexcept>
#include "string_utils.hh"
#include "common.hpp"
using std::string;
// the specification reads a field with the C library's own conversion
static bool number(const string &f, double &v)
{
    char *e;
    errno = 0;
    v = strtod(f.c_str(), &e);
    return e != f.c_str() && errno == 0;
}
static bool integer(const string &f, long &v)
{
    char *e;
    errno = 0;
    v = strtol(f.c_str(), &e, 10);
    return e != f.c_str() && errno == 0 && *e == 0;
}
void sym_harness()
{
    const char *tmpl = sym_param_s("text", "");
    int n = (int)sym_param("n", (long)strlen(tmpl));
    static char buf[1024];
    sym_bytes(buf, n, "c");
    for (int i = 0; tmpl[i] && i < n; ++i) if (tmpl[i] != '?') buf[i] = tmpl[i] == '_' ? ' ' : tmpl[i];
    if (sym_param("nonul", 0)) for (int i = 0; i < n; ++i) sym_assume(buf[i] != 0);
    string text(buf, n);
    string mode = sym_param_s("mode", "line");
    sym_rec_begin(mode.c_str());
    sym_rec_strn("text", text.data(), n);
    bool threw = false;
    if (mode == "line") {
        vector<double> got;
        try { got = read_comma_delimited_doubles(text); } catch (std::runtime_error &) { threw = true; }
        vector<string> f(1);
        for (int i = 0; i < n; ++i) if (text[i] == ',') f.push_back(string()); else f.back().push_back(text[i]);
        if (f.back().size() == 0) f.pop_back();
        bool ok = true;
        vector<double> want(f.size());
        for (size_t i = 0; i < f.size() && ok; ++i) ok = number(f[i], want[i]);
        sym_assert(threw == !ok, ok ? "a line of numbers is accepted" : "a field without a number is rejected");
        if (ok && !threw) {
            sym_assert(got.size() == want.size(), "one number per field");
            for (size_t i = 0; i < got.size() && i < want.size(); ++i) sym_assert_true(sym_fp_same(got[i], want[i]), "numbers are read exactly and in order");
            sym_reach("accepted");
        }
    } else if (mode == "double") {
        double got = 0, want;
        try { got = string_to_double(text); } catch (std::runtime_error &) { threw = true; }
        bool ok = number(text, want);
        sym_assert(threw == !ok, ok ? "a number is accepted" : "text without a number is rejected");
        if (ok && !threw) { sym_assert_true(sym_fp_same(got, want), "the number is read exactly"); sym_reach("accepted"); }
    } else {
        long got = 0, want;
        try { got = string_to_long(text); } catch (std::runtime_error &) { threw = true; }
        bool ok = integer(text, want);
        sym_assert(threw == !ok, ok ? "an integer is accepted" : "text that is not an integer is rejected");
        if (ok && !threw) { sym_assert_true(got == want, "the integer is read exactly"); sym_reach("accepted"); }
    }
    sym_reach("result");
}
