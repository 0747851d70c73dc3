// crossprob_mc argument handling: arbitrary text for the mode or for the number of simulations
#include "cliutil.hpp"
#include <cerrno>
#include <climits>
int crossprob_mc_main(int, char **);
void sym_harness()
{
    const char *tmpl = sym_param_s("text", "");
    int n = (int)sym_param("n", (long)strlen(tmpl)), argcmode = sym_param("argc", 4), missing = sym_param("missing", 0), which = sym_param("arg", 3), limit = sym_param("draws", 8);
    static char buf[64];
    sym_bytes(buf, n, "c");
    for (int i = 0; tmpl[i] && i < n; ++i) if (tmpl[i] != '?') buf[i] = tmpl[i] == '_' ? ' ' : tmpl[i];
    for (int i = 0; i < n; ++i) sym_assume(buf[i] != 0);
    for (int i = 0; i < n; ++i) sym_assume(buf[i] != '\n'); // (error messages quote the text)
    std::string text(buf, n), file = scratch_file(), out, mode = sym_param_s("mode", "ecdf"), sims = sym_param_s("sims", "2");
    write_file(file, "0.2\n0.9\n");
    sym_rng_limit(limit);
    if (which == 1) mode = text; else sims = text;
    vector<std::string> args;
    args.push_back("crossprob_mc");
    if (argcmode > 1) args.push_back(mode);
    if (argcmode > 2) args.push_back(missing ? file + ".does-not-exist" : file);
    if (argcmode > 3) args.push_back(sims);
    for (int i = 4; i < argcmode; ++i) args.push_back("2");
    sym_rec_begin("crossprob_mc_args");
    sym_rec_strn("text", text.data(), n);
    sym_rec_int("which", which);
    sym_rec_str("mode", which == 1 ? "" : mode.c_str());
    sym_rec_str("sims", which == 3 ? "" : sims.c_str());
    sym_rec_int("argc", argcmode);
    sym_rec_int("missing", missing);
    int rc = run_main(crossprob_mc_main, args, out);
    unlink(file.c_str());
    int draws = sym_rng_count();
    sym_rec_int("exit", rc);
    bool number = some_number(out);
    bool ok = argcmode == 4 && !missing && (mode == "ecdf" || mode == "poisson");
    long v = 0;
    if (ok) {
        char *e;
        errno = 0;
        v = strtol(sims.c_str(), &e, 10);
        ok = e != sims.c_str() && errno == 0 && *e == 0;
        if (ok && v == 0) return; // the fraction of no simulations is nothing to make a claim about
        ok = ok && v > 0;
    }
    sym_reach("result");
    if (!ok) {
        sym_assert(rc != 0, "malformed arguments exit with a nonzero status");
        sym_assert(!number, "malformed arguments print no estimate");
        return;
    }
    sym_reach("accepted");
    sym_assert(rc == 0, "a valid request exits with status 0");
    sym_assert(number, "a valid request prints an estimate");
    sym_assert_true(v * 2 == draws, "exactly the given number of simulations is run");
}
