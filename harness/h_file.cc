// the boundary file reader: both lines of a file, in several layouts and lengths, are read exactly and in order
#include "cliutil.hpp"
#include "read_boundaries_file.hh"
#include <stdexcept>
extern "C" void sym_harness()
{
    int nb = sym_param("nb", 2), nB = sym_param("nB", 2), missing = sym_param("missing", 0);
    vector<double> b, B;
    for (int i = 0; i < nb; ++i) b.push_back(sym_real_at(("b" + std::to_string(i)).c_str(), i + 1, nb + 2));
    for (int i = 0; i < nB; ++i) B.push_back(sym_real_at(("B" + std::to_string(i)).c_str(), i + 1, nB + 3));
    if (nb + nB > 6) { // the converter tests every number against 0
        for (int i = 0; i < nb; ++i) sym_assume_lt(0.0, b[i]);
        for (int i = 0; i < nB; ++i) sym_assume_lt(0.0, B[i]);
    }
    std::string file = scratch_file();
    int bad = sym_param("bad", 0) ? 1 + sym_choice("shape", 7) : 0;
    int style = bad ? 0 : sym_choice("style", 6);
    std::string text = file_text(b, B, style, bad);
    if (!missing) write_file(file, text); else file += ".does-not-exist";
    sym_rec_begin("file");
    sym_rec_vec("b", b.data(), b.size());
    sym_rec_vec("B", B.data(), B.size());
    sym_rec_int("style", style);
    sym_rec_int("missing", missing);
    sym_rec_int("bad", bad);
    std::pair<vector<double>, vector<double> > r;
    bool threw = false;
    try { r = read_and_check_boundaries_file(file); } catch (std::runtime_error &) { threw = true; }
    unlink(file.c_str());
    sym_reach("result");
    if (bad) { sym_assert(threw, "a file that does not have two lines of numbers is refused"); return; }
    sym_assert(threw == (missing != 0), missing ? "a missing file is an error" : "a file of numbers is accepted");
    if (threw || missing) return;
    sym_assert(r.first.size() == b.size() && r.second.size() == B.size(), "one number per field");
    for (size_t i = 0; i < b.size() && i < r.first.size(); ++i) sym_assert_eq(r.first[i], b[i], "the first line is read exactly and in order");
    for (size_t i = 0; i < B.size() && i < r.second.size(); ++i) sym_assert_eq(r.second[i], B[i], "the second line is read exactly and in order");
}
