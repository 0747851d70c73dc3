// running a command line program's main() inside the harness
#pragma once
#include "common.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <unistd.h>
static std::string scratch_file()
{
    const char *d = sym_param_s("tmp", "/tmp");
    return std::string(d) + "/bounds." + std::to_string((long)getpid());
}
struct TokenFile {
    std::string text, real_text_vec;
    int counter;
    TokenFile() : counter(0) {}
    // appends a numeral standing for v
    void number(double v)
    {
        char t[32];
        snprintf(t, sizeof t, "0.%d", 31000001 + 17 * counter++);
        sym_register_token(t, v);
        text += t;
    }
    void line(const vector<double> &v, int style)
    {
        for (size_t i = 0; i < v.size(); ++i) {
            if (i) text += style == 1 ? "," : style == 5 ? " ," : ", ";
            else if (style == 2) text += "  ";
            if (style >= 4) text += std::string(style == 4 ? 300 : 1, ' ');
            number(v[i]);
        }
        if (style == 2 && v.size()) text += ",";
        text += "\n";
    }
};
// the two lines; bad: 1 nothing, 2 and 3 one line, 4 a comment line, 5 to 7 a field that is no number
static std::string file_text(const vector<double> &b, const vector<double> &B, int style, int bad)
{
    TokenFile t;
    if (bad == 4) t.text += "# boundaries\n";
    if (bad != 1) t.line(b, style);
    if (bad == 3) t.text.erase(t.text.size() - 1);
    if (bad == 6) t.text = "x, " + t.text;
    if (bad == 7) t.text = t.text.substr(0, t.text.size() - 1) + ", nothing\n";
    if (bad == 5) t.text += "none\n";
    if (bad == 0 || bad == 4 || bad >= 6) t.line(B, style);
    if (style == 3 && B.size() && !bad) t.text.erase(t.text.size() - 1); // no newline at the end of the file
    return t.text;
}
static int run_main(int (*mainfn)(int, char **), const vector<std::string> &args, std::string &out)
{
    std::ostringstream cap;
    std::streambuf *old = std::cout.rdbuf(cap.rdbuf());
    vector<vector<char> > store;
    for (size_t i = 0; i < args.size(); ++i) { vector<char> s(args[i].begin(), args[i].end()); s.push_back(0); store.push_back(s); }
    vector<char *> argv;
    for (size_t i = 0; i < store.size(); ++i) argv.push_back(&store[i][0]);
    argv.push_back(NULL);
    int rc;
    try { rc = mainfn((int)args.size(), &argv[0]); } catch (...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old);
    out = cap.str();
    return rc;
}
static void write_file(const std::string &name, const std::string &text)
{
    FILE *f = fopen(name.c_str(), "wb");
    if (!f) { perror(name.c_str()); abort(); }
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
}
// does the text contain nothing but one number?
static bool only_number(const std::string &s, double &v)
{
    int ok;
    v = sym_token_value(s.c_str(), &ok);
    return ok == 1 && s.size() && s[s.size() - 1] == '\n' && s.find('\n') == s.size() - 1;
}
// is there a line that is a number?
static bool some_number(const std::string &s)
{
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l)) {
        int ok;
        if (l.size() && l[0] != ' ' && (sym_token_value(l.c_str(), &ok), ok == 1)) return true;
    }
    return false;
}
