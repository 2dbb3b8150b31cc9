// C27: the calculator program prints the results of its configuration file.
#include "calc.h"
#include <cctype>
#include <iostream>
#include <sstream>
#include <unistd.h>

int calculator_main(int argc, char *argv[]);

namespace check {
namespace ref = ::ref;
using gen::El; using gen::M; using gen::P; using gen::Src; using gen::fmt;

// runs the program on this text; returns what it printed
static std::string run(const std::string *text) {
    std::string f = fmt("calculator-%d.json", (int)getpid());
    unlink(f.c_str());
    if (text) {
        FILE *h = fopen(f.c_str(), "wb");
        fwrite(text->data(), 1, text->size(), h);
        fclose(h);
    }
    std::ostringstream o;
    auto *old = std::cout.rdbuf(o.rdbuf());
    char a0[] = "catima_calculator";
    std::string a1 = f;
    char *av[] = {a0, &a1[0], nullptr};
    calculator_main(2, av);
    std::cout.rdbuf(old);
    unlink(f.c_str());
    return o.str();
}

// ---- JSON text, written in different ways ----------------------------------------
static std::string number(Src &s, double x) {
    switch (s.pick({4, 1, 1})) {
    case 0: return fmt("%.17g", x);
    case 1: return fmt("%.17e", x);
    default: return fmt("%.17E", x);
    }
}
static std::string object(Src &s, std::vector<std::pair<std::string, std::string>> v) {
    for (size_t i = 0; i + 1 < v.size(); i++) std::swap(v[i], v[s.integer(i, v.size() - 1)]);
    const char *ws = s.coin() ? "\n  " : "";
    std::string r = "{";
    for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::string(ws) + "\"" + v[i].first + "\":" + v[i].second;
    return r + ws + "}";
}
struct Mat {
    catima::Material m;
    double rho, th;
    std::string json;
};
static Mat mat(Src &s) {
    Mat r;
    std::vector<std::pair<std::string, std::string>> v;
    int id;
    bool compound = s.chance(1, 3);
    bool given = s.chance(1, 2);
    double A = 0, ipot = 0;
    if (compound) {
        id = s.integer(201, 349);
        r.rho = gen::compound(id).rho;
    } else {
        El e = gen::element(s, 1);
        id = e.Z;
        A = e.A;
        r.rho = ref::density[id];
        if (!(r.rho > 0)) given = true;
        if (A > 0 || s.chance(1, 4)) v.push_back({"A", number(s, A)});
        if (s.chance(1, 6)) {
            ipot = ref::ipot[id] * s.uniform(0.7, 1.5);
            v.push_back({"Ipot", number(s, ipot)});
        }
    }
    v.push_back({"Z", fmt("%d", id)});
    if (given) {
        r.rho = s.loguniform(1e-4, 25);
        v.push_back({"density", number(s, r.rho)});
    } else if (s.chance(1, 4) && r.rho > 0)
        v.push_back({"density", s.coin() ? "0" : "0.0"});
    r.th = s.chance(1, 10) ? 0 : s.loguniform(1e-4, 3);
    if (r.th > 0 || s.coin()) v.push_back({"thickness", number(s, r.th)});
    if (s.chance(1, 8)) v.push_back({"comment", "\"some text\""});
    if (compound) {
        r.m = catima::get_material(id);
        r.m.density(r.rho).thickness(r.th);
    } else {
        r.m = catima::Material(A, id, r.rho, r.th);
        if (ipot > 0) r.m.I(ipot);
    }
    r.json = object(s, v);
    return r;
}
static std::string energies(Src &s, std::vector<double> &E, bool &exact) {
    auto e = [&] { return s.chance(1, 8) ? s.loguniform(1e-3, 1e5) : s.chance(1, 3) ? (double)s.integer(10, 1500) : s.loguniform(5, 1500); };
    exact = true;
    switch (s.pick({3, 2, 3, 3, 3})) {
    case 0: E = {e()}; s.label("number"); return number(s, E[0]);
    case 1: E = {e()}; s.label("text"); return "\"" + number(s, E[0]) + "\"";
    case 2: {
        int n = s.integer(1, 6);
        std::string r = "[";
        for (int i = 0; i < n; i++) {
            E.push_back(i && s.chance(1, 6) ? E[s.draw(i - 1)] : e());
            r += (i ? ", " : "") + number(s, E[i]);
        }
        s.label("list");
        return r + "]";
    }
    case 3: {
        double a = e(), b = a + s.uniform(0.1, 1000);
        int n = s.integer(2, 12);
        for (int i = 0; i < n; i++) E.push_back(a + (b - a) * i / (n - 1));
        std::vector<std::pair<std::string, std::string>> v{{"min", number(s, a)}, {"max", number(s, b)}, {"num", fmt("%d", n)}};
        if (s.chance(1, 5)) v.push_back({"step", number(s, 1 + s.unit())}); // the number of points wins
        s.label("range with count");
        return object(s, v);
    }
    default: {
        static const double nice[] = {1, 10, 100, 0.1, 0.5, 25, 2, 0.01, 0.3};
        double step = s.coin() ? nice[s.draw(8)] : s.loguniform(0.01, 100);
        double a = s.coin() ? s.integer(1, 500) : s.loguniform(1, 500);
        int n = s.integer(2, 15);
        double b = a + (n - 1) * step;
        if (s.chance(1, 4)) { // the step does not divide the range
            b += s.uniform(0.1, 0.9) * step;
            exact = false;
            s.label("range with a step that does not divide it");
        } else
            s.label("range with step");
        for (int i = 0; i < n; i++) E.push_back(a + i * step);
        return object(s, {{"min", number(s, a)}, {"max", number(s, b)}, {"step", number(s, step)}});
    }
    }
}

// ---- reading the output -----------------------------------------------------------
struct Out {
    Src &s;
    std::vector<std::string> l;
    size_t i = 0;
    Out(Src &s, const std::string &t) : s(s) {
        std::istringstream in(t);
        std::string x;
        while (std::getline(in, x))
            if (x.compare(0, 8, "Warning:") && x.compare(0, 13, "using config:")) l.push_back(x);
    }
    const std::string &next(const char *what) {
        s.check(i < l.size(), "output ends", "output ends where %s is expected", what);
        return l[i++];
    }
    // "<prefix><number>[unit]"
    double value(const std::string &text, const char *key) {
        size_t k = text.find(key);
        s.check(k != std::string::npos, "output", "no '%s' in '%s'", key, text.c_str());
        k += strlen(key);
        while (k < text.size() && (isspace((unsigned char)text[k]) || text[k] == '=')) k++;
        char *e;
        double x = strtod(text.c_str() + k, &e);
        s.check(e != text.c_str() + k, "output", "no number after '%s' in '%s'", key, text.c_str());
        return x;
    }
    // printed with six digits
    void same(const char *what, double got, double want) { s.close(what, got, want, 5.2e-6); }
    void field(const char *name, double want) {
        const std::string &t = next(name);
        size_t k = t.find_first_not_of(" \t");
        s.check(k != std::string::npos && t.compare(k, strlen(name), name) == 0, "output", "line '%s' where %s is expected", t.c_str(), name);
        same(name, value(t, name), want);
    }
    void word(const std::string &w) {
        const std::string &t = next(w.c_str());
        s.check(t.find(w) != std::string::npos, "output", "line '%s' where '%s' is expected", t.c_str(), w.c_str());
    }
};

static void valid(Src &s) {
    gen::reset();
    P p = gen::proj(s, 108, false);
    std::vector<Mat> m;
    int n = s.integer(1, 4);
    bool single = n == 1 && s.coin();
    for (int i = 0; i < n; i++) m.push_back(mat(s));
    std::vector<double> E;
    bool exact;
    std::string ej = energies(s, E, exact);
    std::string mj;
    for (auto &x : m) mj += (mj.empty() ? "" : ", ") + x.json;
    if (!single) mj = "[" + mj + "]";
    std::vector<std::pair<std::string, std::string>> top{{"projectile", "[" + number(s, p.A) + "," + fmt(s.coin() ? "%g" : "%.1f", p.Z) + "]"}, {"energy", ej}, {"material", mj}};
    switch (s.pick({6, 1, 1})) {
    case 0: break;
    case 1: top.push_back({"config", "\"atimav1.3\""}); break;
    default: top.push_back({"remark", "[1, {\"a\": null}]"});
    }
    std::string text = object(s, top);
    s.note("%s", text.c_str());
    Out o(s, run(&text));
    // head
    while (o.i < o.l.size() && o.l[o.i].compare(0, 11, "Projectile:")) {
        s.check(o.l[o.i].find("Could not") == std::string::npos, "rejected", "a valid file was rejected: %s", o.l[o.i].c_str());
        o.i++;
    }
    auto &pl = o.next("Projectile");
    o.same("projectile A", o.value(pl, "A ="), p.A);
    o.same("projectile Z", o.value(pl, "Z ="), p.Z);
    o.word("Materials:");
    catima::Layers l;
    for (int i = 0; i < n; i++) {
        auto &t = o.next("material");
        s.check(t.compare(0, fmt("#%d", i).size(), fmt("#%d", i)) == 0, "order", "line '%s' where material %d is expected", t.c_str(), i);
        o.same("material density", o.value(t, "density"), m[i].rho);
        o.same("material thickness", o.value(t, "thickness"), m[i].th);
        l.add(m[i].m);
    }
    for (size_t k = 0; k < E.size(); k++) {
        auto &t = o.next("energy");
        s.check(t.compare(0, 2, "--") == 0, "energies", "line '%s' where energy %zu is expected", t.c_str(), k);
        double e = o.value(t, "T =");
        if (exact)
            o.same("energy", e, E[k]);
        else { // any equal or shortened steps, beginning at the minimum
            double w = E[k];
            s.check(k == 0 ? std::fabs(e - w) <= 6e-6 * w : e >= w * (1 - 6e-6) && e <= w + (E[1] - E[0]) * (1 + 1e-5) + 6e-6 * w, "energy", "energy %zu is %g, steps begin with %g", k, e, w);
        }
        bool later = false;
        double Ek = E[k];
        if (!exact) { // the energy is only known to six digits: labels and first energy only
            o.word("material #0");
            o.field("Ein", e);
            while (o.i < o.l.size() && o.l[o.i].compare(0, 2, "--")) o.i++;
            later = true;
        }
        if (later) continue;
        auto r = catima::calculate(catima::Projectile(p.A, p.Z, 0, Ek), l);
        for (int i = 0; i < n; i++) {
            o.word(fmt("material #%d", i));
            auto &x = r.results[i];
            o.field("Ein", x.Ein);
            o.field("Eout", x.Eout);
            o.field("sigma_E", x.sigma_E);
            o.field("Eloss", x.Eloss);
            o.field("range", x.range);
            o.field("sigma_r", x.sigma_r);
            o.field("sigma_a", x.sigma_a);
            o.field("dEdx(Ein)", x.dEdxi);
            o.field("TOF", x.tof);
        }
        auto &x = r.total_result;
        double g = 1 + x.Eout / 931.4940954;
        o.word("total:");
        o.field("Eout", x.Eout);
        o.field("Beta", catima::beta_from_T(x.Eout));
        o.field("Gamma", g);
        o.field("P", p.A * std::sqrt(x.Eout * x.Eout + 2 * x.Eout * 931.4940954));
        o.field("Eloss", x.Eloss);
        o.field("sigma_E", x.sigma_E);
        o.field("sigma_a", x.sigma_a);
        o.field("TOF", x.tof);
        if (x.Eout > 0 && x.Eout < Ek) s.nontrivial();
    }
    while (o.i < o.l.size()) {
        bool blank = o.l[o.i].find_first_not_of(" \t\r") == std::string::npos;
        s.check(blank, "extra output", "more output than energies: '%s'", o.l[o.i].c_str());
        o.i++;
    }
    if (n > 1) s.label("several materials");
}

static void invalid(Src &s) {
    gen::reset();
    std::string proj = "\"projectile\":[12,6]", en = "\"energy\":100", ma = "\"material\":{\"Z\":6,\"thickness\":0.1}";
    std::string text;
    bool none = false;
    auto whole = [&] { return "{" + proj + "," + en + "," + ma + "}"; };
    switch (s.pick({2, 1, 1, 1, 2, 2, 2, 2, 1})) {
    case 0: { // cut or damaged text
        text = whole();
        if (s.coin())
            text = text.substr(0, s.integer(0, text.size() - 1));
        else { // behind a bracket, comma or colon
            std::vector<size_t> at;
            for (size_t i = 0; i < text.size(); i++)
                if (strchr("{}[],:", text[i])) at.push_back(i + 1);
            text.insert(at[s.integer(0, at.size() - 1)], s.coin() ? "@" : "}");
        }
        break;
    }
    case 1: text = "{" + en + "," + ma + "}"; break;
    case 2: text = "{" + proj + "," + ma + "}"; break;
    case 3: text = "{" + proj + "," + en + "}"; break;
    case 4: {
        static const char *bad[] = {"\"C\"", "12", "[12]", "[]", "[\"a\",\"b\"]", "{\"A\":12,\"Z\":6}", "null", "true"};
        proj = std::string("\"projectile\":") + bad[s.draw(7)];
        text = whole();
        break;
    }
    case 5: {
        static const char *bad[] = {"[]", "{}", "\"fast\"", "{\"min\":10,\"max\":100}", "{\"min\":10,\"num\":3}", "{\"min\":100,\"max\":10,\"num\":5}", "{\"min\":10,\"max\":100,\"num\":0}", "{\"min\":10,\"max\":100,\"step\":0}", "{\"min\":10,\"max\":100,\"step\":-3}", "null", "true", "{\"min\":\"a\",\"max\":100,\"num\":4}"};
        en = std::string("\"energy\":") + bad[s.draw(11)];
        text = whole();
        break;
    }
    case 6: {
        static const char *bad[] = {"[]", "{}", "\"C\"", "6", "[6]", "[{\"Z\":6,\"thickness\":1},7]", "{\"A\":12}", "{\"Z\":0}", "{\"Z\":-4,\"thickness\":1}", "{\"Z\":\"C\"}", "null", "[{\"Z\":6,\"thickness\":1},{\"thickness\":1}]", "{\"Z\":6,\"density\":\"a\"}", "{\"Z\":6,\"thickness\":[]}"};
        ma = std::string("\"material\":") + bad[s.draw(13)];
        text = whole();
        break;
    }
    case 7: { // unknown element or compound
        int z;
        switch (s.pick({1, 1, 1})) {
        case 0: z = s.integer(130, 199); break;
        case 1: z = 200; break;
        default: z = s.integer(350, 100000);
        }
        ma = fmt("\"material\":{\"Z\":%d,\"thickness\":1}", z);
        text = whole();
        break;
    }
    default: none = true; // no such file
    }
    s.note("%s", none ? "no file" : text.c_str());
    std::string out = run(none ? nullptr : &text);
    s.check(out.find_first_not_of(" \n\t") != std::string::npos, "silent", "nothing was printed");
    s.check(out.find("Eout") == std::string::npos && out.find("range =") == std::string::npos, "numbers", "numbers were printed for an unusable file");
    s.nontrivial();
    // and the next valid file is not disturbed
    std::string ok = "{\"projectile\":[12,6],\"energy\":100,\"material\":{\"Z\":6,\"thickness\":0.1}}";
    std::string a = run(&ok);
    s.check(a.find("Eout") != std::string::npos, "next file", "the next valid file gives no numbers");
}
} // namespace check

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C27", {
        {"valid", check::valid, 2500, 200000, "Random configuration files (all forms of energies, elements, compounds, one or several materials, number formats, key order); printed text against the library; non-trivial: a particle passes with loss."},
        {"invalid", check::invalid, 3000, 50000, "Damaged or incomplete files and unknown materials: a message and no numbers, later files are calculated; non-trivial: all."},
    }});
}
