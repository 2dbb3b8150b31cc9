// C30: the generator of the Lindhard-Sorensen tables writes the tables the library reads.
#include "gen.h"
#include "catima/nucdata.h"
#include <cctype>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace gen;

// the two functions that are tabulated, replaced by ones drawn for each case
namespace stand_in {
static std::function<double(const catima::Projectile &)> L, X;
static long calls;
} // namespace stand_in
namespace catima {
static double stand_in_L(const Projectile &p) {
    stand_in::calls++;
    return stand_in::L(p);
}
static double stand_in_X(const Projectile &p) {
    stand_in::calls++;
    return stand_in::X(p);
}
} // namespace catima
namespace generator {
#define main generator_main
#define bethek_lindhard stand_in_L
#define bethek_lindhard_X stand_in_X
#include "generator.cpp"
#undef main
#undef bethek_lindhard
#undef bethek_lindhard_X
} // namespace generator

static bool slurp(const char *f, std::string &out) {
    FILE *h = fopen(f, "rb");
    if (!h) return false;
    char b[65536];
    size_t n;
    out.clear();
    while ((n = fread(b, 1, sizeof b, h)) > 0) out.append(b, n);
    fclose(h);
    return true;
}
static std::string strip_comments(const std::string &t) {
    std::string r;
    for (size_t i = 0; i < t.size(); i++) {
        if (!t.compare(i, 2, "//")) {
            while (i < t.size() && t[i] != '\n') i++;
            r += '\n';
        } else if (!t.compare(i, 2, "/*")) {
            i = t.find("*/", i);
            if (i == std::string::npos) break;
            i++;
        } else
            r += t[i];
    }
    return r;
}
static bool word_at(const std::string &t, size_t i, const std::string &w) {
    auto id = [](char c) { return isalnum((unsigned char)c) || c == '_'; };
    return !t.compare(i, w.size(), w) && (i == 0 || !id(t[i - 1])) && (i + w.size() >= t.size() || !id(t[i + w.size()]));
}
static size_t find_word(const std::string &t, const std::string &w) {
    for (size_t i = t.find(w); i != std::string::npos; i = t.find(w, i + 1))
        if (word_at(t, i, w)) return i;
    return std::string::npos;
}
// number following a word, after an optional = ( or {
static double number(Src &s, const std::string &t, const std::string &w) {
    size_t i = find_word(t, w);
    s.check(i != std::string::npos, "missing", "no %s in the file", w.c_str());
    i += w.size();
    while (i < t.size() && (isspace((unsigned char)t[i]) || t[i] == '=' || t[i] == '(' || t[i] == '{')) i++;
    char *e;
    double x = strtod(t.c_str() + i, &e);
    s.check(e != t.c_str() + i, "number", "no number after %s", w.c_str());
    return x;
}
// double w[][n] = {{...},...};
static std::vector<std::vector<double>> table(Src &s, const std::string &t, const std::string &w, int &columns) {
    size_t i = find_word(t, w);
    s.check(i != std::string::npos, "missing", "no table %s in the file", w.c_str());
    i = t.find(']', i); // the open first dimension
    i = i == std::string::npos ? i : t.find('[', i);
    s.check(i != std::string::npos, "dimension", "no second dimension of %s", w.c_str());
    columns = atoi(t.c_str() + i + 1);
    i = t.find('=', i);
    s.check(i != std::string::npos, "table", "no values of %s", w.c_str());
    i++;
    std::vector<std::vector<double>> r;
    int depth = 0;
    bool comma = true; // a value may follow
    for (; i < t.size(); i++) {
        char c = t[i];
        if (isspace((unsigned char)c)) continue;
        if (c == '{') {
            s.check(comma && depth < 2, "braces", "unexpected { in %s", w.c_str());
            if (++depth == 2) r.push_back({});
        } else if (c == '}') {
            comma = false;
            if (--depth == 0) {
                for (i++; i < t.size() && isspace((unsigned char)t[i]); i++) {}
                s.check(i < t.size() && t[i] == ';', "semicolon", "no ; after %s", w.c_str());
                return r;
            }
        } else if (c == ',') {
            s.check(!comma, "comma", "two commas in %s", w.c_str());
            comma = true;
        } else {
            char *e;
            double x = strtod(t.c_str() + i, &e);
            s.check(e != t.c_str() + i && depth == 2 && comma, "value", "unexpected text in %s: %s", w.c_str(), t.substr(i, 20).c_str());
            r.back().push_back(x);
            i = e - t.c_str() - 1;
            comma = false;
        }
    }
    s.check(false, "end", "table %s does not end", w.c_str());
    return r;
}
static int run_generator(std::string &printed) {
    std::ostringstream o;
    auto *b = std::cout.rdbuf(o.rdbuf());
    int r = generator::generator_main();
    std::cout.rdbuf(b);
    printed = o.str();
    return r;
}

struct Directory { // of this process: the file has a fixed name
    std::string d = fmt("generator-%d", (int)getpid());
    Directory() {
        mkdir(d.c_str(), 0777);
        if (chdir(d.c_str())) abort();
    }
    ~Directory() {
        if (chdir("..")) abort();
        rmdir(d.c_str());
    }
};
struct Law { // s Z^a T^b A^c
    double s, a, b, c;
    double operator()(double Z, double T, double A) const { return s * std::pow(Z, a) * std::pow(T, b) * std::pow(A, c); }
};
static Law law(Src &s) {
    Law l;
    auto e = [&] { return s.chance(1, 4) ? 0.0 : s.uniform(-2, 2); };
    l.s = s.loguniform(1e-6, 1e6) * (s.coin() ? 1 : -1);
    l.a = e();
    l.b = e();
    l.c = e();
    s.note("%.17g Z^%.17g T^%.17g A^%.17g", l.s, l.a, l.b, l.c);
    return l;
}
static void tables(Src &s) {
    Law L = law(s), X = law(s);
    stand_in::calls = 0;
    stand_in::L = [&](const catima::Projectile &p) { return L(p.Z, p.T, p.A); };
    stand_in::X = [&](const catima::Projectile &p) { return X(p.Z, p.T, p.A); };
    const char *file = "generated_LS_coeff.h";
    Directory here;
    unlink(file);
    if (s.chance(1, 3)) { // an older, longer file is replaced
        std::ofstream f(file);
        for (int i = 0; i < 300000; i++) f << "double ls_coefficients_a[][1]={{1}};\n";
        s.label("older file");
    }
    std::string printed, t;
    int r = run_generator(printed);
    s.check(r == 0, "exit", "the generator returned %d", r);
    s.check(slurp(file, t), "file", "no file was written");
    unlink(file);
    s.check(stand_in::calls > 0, "calls", "the functions were not called");
    t = strip_comments(t);
    double n = number(s, t, "LS_NUM_ENERGY_POINTS"), maxz = number(s, t, "LS_MAX_Z"), inc = number(s, t, "a_rel_increase"), e0 = number(s, t, "logEmin"), e1 = number(s, t, "logEmax");
    s.check(find_word(t, "catima") != std::string::npos && find_word(t, "ls_coefficients") != std::string::npos, "namespaces", "namespaces are missing");
    s.check(std::count(t.begin(), t.end(), '{') == std::count(t.begin(), t.end(), '}'), "braces", "braces do not match");
    s.check(n >= 2 && n == (int)n && e1 > e0, "grid", "%g points from 10^%g to 10^%g MeV/u", n, e0, e1);
    s.close("lowest energy", e0, 0, 0, 1e-12);
    s.close("highest energy", e1, catima::logEmax, 1e-12);
    s.close("relative increase of the mass", inc, 0.05, 1e-12);
    { // the energies the library will use
        size_t i = find_word(t, "ls_energy_table");
        s.check(i != std::string::npos, "missing", "no energy table");
        i += strlen("ls_energy_table");
        double a = -1, b = -1;
        sscanf(t.c_str() + i, " ( %lf , %lf )", &a, &b);
        std::string arguments = t.substr(i, t.find(';', i) - i);
        bool named = find_word(arguments, "logEmin") != std::string::npos && find_word(arguments, "logEmin") < find_word(arguments, "logEmax");
        s.check(named || (a == e0 && b == e1), "energy table", "energy table from 10^%g to 10^%g", a, b);
        size_t j = t.rfind("EnergyTable", i);
        s.check(j != std::string::npos, "energy table", "no type of the energy table");
        double k = -1;
        if (sscanf(t.c_str() + j, "EnergyTable < %lf", &k) == 1) s.check(k == n, "energy table", "energy table of %g points, tables of %g", k, n);
    }
    const char *names[] = {"ls_coefficients_a", "ls_coefficients_ahi", "ls_X_coefficients_a", "ls_X_coefficients_ahi"};
    for (int k = 0; k < 4; k++) {
        int columns;
        auto v = table(s, t, names[k], columns);
        s.check(columns == n, "columns", "%s has %d columns, not %g", names[k], columns, n);
        s.check(v.size() == maxz, "rows", "%s has %zu rows, LS_MAX_Z is %g", names[k], v.size(), maxz);
        s.check(v.size() >= 108, "rows", "%s ends at Z=%zu", names[k], v.size());
        for (size_t z = 1; z <= v.size(); z++) {
            s.check(v[z - 1].size() == n, "values", "%s has %zu values for Z=%zu", names[k], v[z - 1].size(), z);
            double A = ref::weight[z] * (k % 2 ? 1.05 : 1);
            for (int i = 0; i < n; i++) {
                double T = std::pow(10.0, e0 + i * (e1 - e0) / (n - 1)), want = k < 2 ? L(z, T, A) : X(z, T, A), got = v[z - 1][i];
                if (!(std::fabs(got - want) <= 8e-6 * std::fabs(want))) s.fail("entry", fmt("%s for Z=%zu, energy %d: %.10g, expected %.10g", names[k], z, i, got, want));
            }
            s.eval();
        }
    }
    s.nontrivial();
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C30", {
        {"tables", tables, 300, 6000, "a pair of random functions of charge, energy and mass tabulated by the generator; all non-trivial"},
    }});
}
