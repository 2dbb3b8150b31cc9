// C26: the MOCADI export writes the beam and the layers it was given.
#include "gen.h"
#include "catima/convert.h"
#include <cctype>
#include <cstdio>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

// own names in a namespace: convert.h defines things in the global one
namespace check {
namespace ref = ::ref;
using gen::C; using gen::El; using gen::M; using gen::P; using gen::Src;
using gen::compound; using gen::element; using gen::fmt; using gen::material; using gen::proj; using gen::reset;

static std::string scratch(const char *n) { return fmt("%s-%d", n, (int)getpid()); }
static bool slurp(const std::string &f, std::string &out) {
    FILE *h = fopen(f.c_str(), "rb");
    if (!h) return false;
    char b[65536];
    size_t n;
    out.clear();
    while ((n = fread(b, 1, sizeof b, h)) > 0) out.append(b, n);
    fclose(h);
    return true;
}
static std::vector<std::string> lines(const std::string &t) {
    std::vector<std::string> v;
    std::string l;
    std::istringstream i(t);
    while (std::getline(i, l)) {
        while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
        if (!l.empty()) v.push_back(l);
    }
    return v;
}
// the numbers of a line, separated by commas; ok=false if there is anything else
static std::vector<double> numbers(const std::string &l, bool &ok) {
    std::vector<double> v;
    std::istringstream i(l);
    std::string w;
    ok = true;
    while (std::getline(i, w, ',')) {
        char *e;
        double x = strtod(w.c_str(), &e);
        while (isspace((unsigned char)*e)) e++;
        if (*e || e == w.c_str()) ok = false;
        v.push_back(x);
    }
    return v;
}
struct Reader {
    Src &s;
    std::vector<std::string> l;
    size_t i = 0;
    void word(const char *w) {
        s.check(i < l.size(), "short file", "file ends where %s is expected", w);
        s.check(l[i] == w, "keyword", "line %zu is '%s', expected %s", i + 1, l[i].c_str(), w);
        i++;
    }
    void line(const char *what, std::vector<double> want) {
        s.check(i < l.size(), "short file", "file ends where %s is expected", what);
        bool ok;
        auto v = numbers(l[i], ok);
        s.check(ok && v.size() == want.size(), "numbers", "line %zu (%s) is '%s', expected %zu numbers", i + 1, what, l[i].c_str(), want.size());
        for (size_t j = 0; j < want.size(); j++) s.close(fmt("%s, number %zu", what, j + 1).c_str(), v[j], want[j], 1e-12, 5.1e-7);
        i++;
    }
};

// number of a compound of the data base, by its frozen description; 0 if none
static std::vector<int> ids(const catima::Material &m) {
    std::vector<int> r;
    for (int id = 201; id <= 349; id++) {
        M c = compound(id);
        if ((int)c.e.size() != m.ncomponents() || std::fabs(c.rho - m.density()) > 1e-6) continue;
        bool same = true;
        for (size_t i = 0; i < c.e.size(); i++) {
            auto t = m.get_element(i);
            double A = c.e[i].A > 0 ? c.e[i].A : ref::weight[c.e[i].Z];
            if (t.Z != c.e[i].Z || std::fabs(t.A - A) > 1e-9 * A || std::fabs(t.stn - c.e[i].n) > 1e-12) same = false;
        }
        if (same) r.push_back(id);
    }
    return r;
}

struct Layer {
    catima::Material m;
    int id = 0; // compound, as it is in the data base
};
static Layer layer(Src &s, std::string &txt) {
    Layer r;
    M m;
    switch (s.pick({4, 5, 2, 2})) {
    case 0: {
        El e = element(s, s.coin() ? 1 : s.integer(1, 5));
        if (s.chance(1, 12)) e.Z = s.integer(99, 109), e.A = s.coin() ? 0 : s.uniform(240, 290);
        m.e = {e};
        m.rho = s.coin() ? s.loguniform(1e-4, 25) : ref::density[std::min(98, e.Z)];
        if (!(m.rho > 0)) m.rho = 1;
        r.m = m.lib();
        break;
    }
    case 1:
        r.id = s.integer(201, 349);
        m = compound(r.id);
        r.m = m.lib();
        break;
    case 2: { // nearly a compound
        int id = s.integer(201, 349);
        m = compound(id);
        switch (s.pick({1, 1, 1, 1})) {
        case 0: m.rho *= s.coin() ? 1.01 : 2; break;
        case 1: m.e[s.integer(0, m.e.size() - 1)].n *= m.fractions ? 0.9 : 2; m.compound = 0; break;
        case 2: {
            auto &x = m.e[s.integer(0, m.e.size() - 1)];
            x.A = (x.A > 0 ? x.A : ref::weight[x.Z]) + 1;
            m.compound = 0;
            break;
        }
        default: m.e.push_back({0, 1, m.fractions ? 0.01 : 1.0}); m.compound = 0;
        }
        r.m = m.lib();
        break;
    }
    default:
        m = material(s);
        r.m = m.lib();
    }
    r.m.thickness(s.chance(1, 10) ? 0 : s.loguniform(1e-5, 100));
    txt = m.str() + fmt(" thickness=%.17g", r.m.thickness());
    return r;
}

static void file(Src &s) {
    reset();
    P p = proj(s);
    double T = s.chance(1, 8) ? 0 : s.loguniform(1e-3, 1e6);
    catima::Phasespace x, y;
    bool defaults = s.chance(1, 5);
    if (!defaults) {
        auto v = [&] { return s.chance(1, 5) ? 0.0 : s.loguniform(1e-4, 10); };
        x.sigma_x = v();
        x.sigma_a = v() * 1e-2;
        y.sigma_x = v();
        y.sigma_a = v() * 1e-2;
        if (s.coin()) x.cov_x = 0.3 * x.sigma_x * x.sigma_a;
    }
    s.note("T=%.17g, widths %.17g %.17g angles %.17g %.17g", T, x.sigma_x, y.sigma_x, x.sigma_a, y.sigma_a);
    int n = s.pick({1, 3, 4, 1}) == 3 ? s.integer(8, 40) : s.integer(0, 5);
    catima::Layers l;
    std::vector<Layer> want;
    for (int i = 0; i < n; i++) {
        std::string t;
        want.push_back(layer(s, t));
        l.add(want.back().m);
        s.note("layer %d: %s", i, t.c_str());
    }
    std::string f = scratch("mocadi");
    unlink(f.c_str());
    if (s.chance(1, 4)) { // an older, longer file
        FILE *h = fopen(f.c_str(), "w");
        for (int i = 0; i < 2000; i++) fputs("*******\nMATTER\n1,2,3\n", h);
        fclose(h);
        s.label("file exists");
    }
    catima::Projectile lp = p.lib(T);
    bool ok = defaults ? save_mocadi(f.c_str(), lp, l) : save_mocadi(f.c_str(), lp, l, x, y);
    std::string text;
    bool have = slurp(f, text);
    unlink(f.c_str());
    s.check(ok, "reports failure", "save_mocadi reported failure");
    s.check(have, "no file", "there is no file");
    Reader r{s, lines(text)};
    r.word("epax 2");
    r.word("atima-1.0");
    r.word("option listmode root");
    r.word("BEAM");
    s.check(r.i < r.l.size(), "short file", "file ends in the beam block");
    bool num;
    auto ev = numbers(r.l[r.i], num);
    s.check(num && ev.size() == 1 && ev[0] >= 1, "events", "number of particles is '%s'", r.l[r.i].c_str());
    r.i++;
    r.line("energy, time, mass, charge", {T, 0, p.A, p.Z});
    r.line("distribution of the x plane", {2});
    r.line("width and angle in x", {x.sigma_x, 1000 * x.sigma_a, 0, 0, 0});
    r.line("distribution of the y plane", {2});
    r.line("width and angle in y", {y.sigma_x, 1000 * y.sigma_a, 0, 0, 0});
    r.line("distribution of the energy", {1});
    r.line("energy width", {0, 0, 0, 0, 0});
    bool db = false;
    for (int i = 0; i < n; i++) {
        const auto &m = want[i].m;
        r.word("*******");
        r.word("MATTER");
        double a = 0;
        int z = 0;
        if (m.ncomponents() == 1) {
            a = m.get_element(0).A;
            z = m.get_element(0).Z;
        } else {
            auto v = ids(m);
            s.check(r.i < r.l.size(), "short file", "file ends in a matter block");
            auto got = numbers(r.l[r.i], num);
            int g = num && got.size() == 3 ? (int)got[1] : -1;
            if (want[i].id) {
                s.check(!v.empty(), "data base", "compound %d is not what the data base had", want[i].id);
                db = true;
            }
            if (!v.empty()) s.check(std::find(v.begin(), v.end(), g) != v.end(), "compound number", "layer %d is compound %d, written is %d", i, v[0], g);
            z = v.empty() ? 0 : g;
        }
        r.line(fmt("mass, charge, density of layer %d", i).c_str(), {a, (double)z, m.density() * 1000});
        r.line(fmt("thickness of layer %d", i).c_str(), {2, m.thickness() / m.density()});
        r.line("rest of the matter block", {0});
        r.line("rest of the matter block", {0, 0, 0});
        r.line("rest of the matter block", {1, 1, 0});
        r.line("rest of the matter block", {0, 0, 0, 0});
    }
    r.word("ERWARTUNGSWERTE");
    r.word("SAVE");
    r.word("END");
    s.check(r.i == r.l.size(), "extra lines", "there is '%s' behind the end", r.i < r.l.size() ? r.l[r.i].c_str() : "");
    if (n > 1) s.nontrivial();
    if (db) s.label("compound of the data base");
    if (n > 5) s.label("many layers");
}

static void failure(Src &s) {
    reset();
    catima::Layers l;
    int n = s.integer(0, 2);
    for (int i = 0; i < n; i++) l.add(catima::Material(12, 6, 2.0, 1.0));
    P p = proj(s);
    std::string d = scratch("dir"), f;
    switch (s.pick({1, 1, 1, 1})) {
    case 0: f = ""; break;
    case 1: f = d + "/missing/file"; break;
    case 2: f = d; break;
    default: f = d + "/" + std::string(300 + s.integer(0, 200), 'x');
    }
    mkdir(d.c_str(), 0755);
    s.note("file name '%.60s' (%zu characters)", f.c_str(), f.size());
    bool ok = save_mocadi(f.c_str(), p.lib(100), l);
    std::string t;
    bool file = !f.empty() && slurp(f, t) && !t.empty();
    rmdir(d.c_str());
    s.check(!ok && !file, "open failure", "a file that cannot be opened was reported as written");
    s.nontrivial();
}

static void match(Src &s) {
    reset();
    int i = s.integer(201, 349), j = s.coin() ? i : s.integer(201, 349);
    auto a = catima::get_material(i), b = catima::get_material(j);
    s.note("compounds %d and %d", i, j);
    auto va = ids(a);
    int id = materialdb_id(a);
    s.check(std::find(va.begin(), va.end(), id) != va.end(), "materialdb_id", "compound %d is found as %d", i, id);
    bool same = std::find(va.begin(), va.end(), j) != va.end();
    s.check(mocadi_material_match(a, b) == same, "match", "compounds %d and %d: match %d, expected %d", i, j, (int)mocadi_material_match(a, b), (int)same);
    s.check(mocadi_material_match(b, a) == same, "match", "compounds %d and %d: match differs in the other order", i, j);
    b = a;
    b.thickness(3);
    s.check(mocadi_material_match(a, b) && mocadi_material_match(a, a), "match itself", "compound %d does not match itself", i);
    b.density(a.density() + 1e-3);
    s.check(!mocadi_material_match(a, b), "match density", "compound %d matches with another density", i);
    s.nontrivial();
}

} // namespace check

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C26", {
        {"file", check::file, 15000, 600000, "Random beam, widths and layers (elements, every compound, near-compounds, mixtures); the written file is parsed and compared; non-trivial: two or more layers."},
        {"failure", check::failure, 2000, 50000, "File names that cannot be opened; non-trivial: all."},
        {"match", check::match, 5000, 200000, "Pairs of compounds: found number and matching against the frozen data base; non-trivial: all."},
    }});
}
