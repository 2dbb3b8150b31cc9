// C16: a material is described consistently whichever way it is built.
#include "gen.h"
using namespace gen;

static const double NA = 6.022140857; // 1e23 per mol

// plain model of a material
struct Model {
    std::vector<El> e; // A already resolved
    double rho = 1e-5, th = 0, I = 0, M = 0;
    bool defined = true; // molar mass is that of the composition
};
static double natural(double A, int Z) { return A > 0 ? A : (Z > 0 && Z < 110 ? ref::weight[Z] : 0); }

static void compare(Src &s, const catima::Material &m, const Model &k) {
    s.check(m.ncomponents() == (int)k.e.size(), "ncomponents", "%d components, expected %zu", m.ncomponents(), k.e.size());
    s.close("density", m.density(), k.rho, 0);
    s.close("thickness", m.thickness(), k.th, 1e-15);
    s.close("thickness_cm", m.thickness_cm(), k.th / k.rho, 1e-15);
    s.close("I", m.I(), k.I, 0);
    s.close("M", m.M(), k.M, 1e-13);
    s.close("number_density", m.number_density(), NA * k.rho / k.M, 1e-13);
    s.close("number_density_cm2", m.number_density_cm2(), NA * k.th / k.M, 1e-13);
    bool frac = !k.e.empty(), stoi = true;
    for (auto &x : k.e) (x.n < 1 ? stoi : frac) = false;
    double sw = 0;
    for (size_t i = 0; i < k.e.size(); i++) {
        auto t = m.get_element(i);
        s.close("element mass", t.A, k.e[i].A, 0);
        s.check(t.Z == k.e[i].Z, "element charge", "element %zu has Z=%d, expected %d", i, t.Z, k.e[i].Z);
        s.close("stoichiometric number", t.stn, k.e[i].n, 0);
        if (!frac && !stoi) continue;
        double w = frac ? k.e[i].n : k.e[i].n * k.e[i].A / k.M, n = frac ? k.e[i].n * k.M / k.e[i].A : k.e[i].n;
        sw += w;
        s.close("weight_fraction", m.weight_fraction(i), w, 1e-13);
        s.close("molar_fraction", m.molar_fraction(i), n, 1e-13);
        s.close("number_density(i)", m.number_density(i), NA * k.rho / k.M * n, 1e-13);
        s.close("number_density_cm2(i)", m.number_density_cm2(i), NA * k.th / k.M * n, 1e-13);
        // a fraction of the mass of a mole is the mass of the molar fraction
        s.close("fractions", m.weight_fraction(i) * k.M, m.molar_fraction(i) * t.A, 1e-13);
    }
    if (stoi && k.defined && !k.e.empty()) s.close("sum of weight fractions", sw, 1, 1e-12);
    int n = k.e.size();
    for (int i : {n, n + 1, n + 1000, INT_MAX}) {
        s.close("number_density beyond", m.number_density(i), 0, 0);
        s.close("number_density_cm2 beyond", m.number_density_cm2(i), 0, 0);
    }
}
static void set_mass(Model &k) {
    bool frac = true;
    double a = 0, b = 0;
    for (auto &x : k.e) {
        if (x.n >= 1) frac = false;
        a += x.n / x.A;
        b += x.n * x.A;
    }
    k.M = frac ? 1 / a : b;
}
static Model model_of(const M &m) {
    Model k;
    for (auto &x : m.e) k.e.push_back({natural(x.A, x.Z), x.Z, x.n});
    set_mass(k);
    return k;
}
static catima::Material from_list(const std::vector<El> &e, double rho, double I, double M) {
#define X(i) {e[i].A, (double)e[i].Z, e[i].n}
    switch (e.size()) {
    case 1: return catima::Material({X(0)}, rho, I, M);
    case 2: return catima::Material({X(0), X(1)}, rho, I, M);
    case 3: return catima::Material({X(0), X(1), X(2)}, rho, I, M);
    case 4: return catima::Material({X(0), X(1), X(2), X(3)}, rho, I, M);
    case 5: return catima::Material({X(0), X(1), X(2), X(3), X(4)}, rho, I, M);
    default: return catima::Material({X(0), X(1), X(2), X(3), X(4), X(5)}, rho, I, M);
    }
#undef X
}
static M plain(Src &s) {
    MOpt o;
    o.compounds = false;
    M m = material(s, o);
    for (auto &x : m.e)
        if (s.chance(1, 10)) x.Z = s.integer(99, 109), x.A = s.coin() ? 0 : x.A;
        else if (s.chance(1, 8)) x.A = s.loguniform(0.5, 400);
        else if (s.chance(1, 12)) x.A = -s.loguniform(0.1, 100);
    return m;
}

// ---- building in different ways ---------------------------------------------------------
static void build(Src &s) {
    M d = plain(s);
    if (d.e.size() > 6) d.e.resize(6);
    double rho = s.loguniform(1e-6, 25), th = s.loguniform(1e-8, 1e3), I = s.coin() ? s.uniform(10, 1000) : 0;
    double given = s.chance(1, 3) ? s.loguniform(1, 500) : 0;
    s.note("%s rho=%.17g th=%.17g I=%.17g mass=%.17g", d.str().c_str(), rho, th, I, given);
    if (d.e.size() > 1) s.nontrivial();
    Model k = model_of(d);
    k.rho = rho;
    k.th = th;
    k.I = I;
    catima::Material a;
    for (auto &x : d.e) a.add_element(x.A, x.Z, x.n);
    a.calculate();
    a.density(rho).thickness(th).I(I);
    compare(s, a, k);
    if (d.e.size() == 1 && d.e[0].n == 1.0) {
        s.label("single element constructor");
        catima::Material b(d.e[0].A, d.e[0].Z, rho, th, I);
        compare(s, b, k);
        s.check(a == b && b == a, "equal constructors", "element constructor and add_element give different materials");
        catima::Material b2(d.e[0].A, d.e[0].Z);
        Model k2 = k;
        k2.rho = 1e-5;
        k2.th = 0;
        k2.I = 0;
        compare(s, b2, k2);
    }
    catima::Material c = from_list(d.e, rho, I, 0);
    c.thickness(th);
    compare(s, c, k);
    s.check(a == c && c == a, "equal constructors", "list constructor and add_element give different materials");
    if (given > 0) {
        catima::Material g = from_list(d.e, rho, I, given);
        g.thickness(th);
        Model kg = k;
        kg.M = given;
        kg.defined = false;
        compare(s, g, kg);
        s.check(!(g == c) || std::fabs(given - k.M) < 1e-9 * k.M, "equality ignores molar mass", "materials with molar mass %.17g and %.17g are equal", given, k.M);
        a.M(given);
        s.check(a == g, "equal after setting the mass", "setting the molar mass differs from constructing with it");
    }
    // copies are independent
    catima::Material z = c;
    z.density(rho * 2).thickness(th * 3).I(I + 1).M(3);
    z.add_element(12, 6, 1);
    compare(s, c, k);
    catima::Material y;
    y = c;
    compare(s, y, k);
}

// ---- histories of operations -------------------------------------------------------------
static void history(Src &s) {
    catima::Material m;
    Model k;
    bool frac = s.coin();
    int n = s.integer(3, 25);
    El first = element(s, frac ? s.uniform(0.01, 0.99) : s.integer(1, 5));
    m.add_element(first.A, first.Z, first.n);
    k.e.push_back({natural(first.A, first.Z), first.Z, first.n});
    k.M += first.n * k.e.back().A;
    int sets = 0, adds = 0;
    bool stale = frac; // fractions: molar mass needs calculate()
    for (int i = 0; i < n; i++) {
        switch (s.pick({3, 3, 3, 2, 2, 3, 1, 1})) {
        case 0: {
            El x = element(s, frac ? s.uniform(0.01, 0.99) : s.chance(1, 3) ? s.uniform(1, 9) : s.integer(1, 9));
            if (k.e.size() >= 8) break;
            m.add_element(x.A, x.Z, x.n);
            k.e.push_back({natural(x.A, x.Z), x.Z, x.n});
            k.M += x.n * k.e.back().A;
            if (frac) stale = true;
            s.note("add_element(%.17g,%d,%.17g)", x.A, x.Z, x.n);
            adds++;
            break;
        }
        case 1: {
            double v = s.loguniform(1e-6, 30);
            catima::Material &r = m.density(v);
            s.check(&r == &m, "chaining", "density() does not return the material");
            k.rho = v;
            s.note("density(%.17g)", v);
            sets++;
            break;
        }
        case 2: {
            double v = s.chance(1, 6) ? 0 : s.loguniform(1e-8, 1e4);
            catima::Material &r = m.thickness(v);
            s.check(&r == &m, "chaining", "thickness() does not return the material");
            k.th = v;
            s.note("thickness(%.17g)", v);
            sets++;
            break;
        }
        case 3: {
            double v = s.chance(1, 6) ? 0 : s.loguniform(1e-8, 1e4);
            catima::Material &r = m.thickness_cm(v);
            s.check(&r == &m, "chaining", "thickness_cm() does not return the material");
            k.th = k.rho * v;
            s.note("thickness_cm(%.17g)", v);
            s.close("thickness_cm set", m.thickness_cm(), v, 1e-14);
            sets++;
            break;
        }
        case 4: {
            double v = s.chance(1, 4) ? 0 : s.uniform(1, 1500);
            catima::Material &r = m.I(v);
            s.check(&r == &m, "chaining", "I() does not return the material");
            k.I = v;
            s.note("I(%.17g)", v);
            sets++;
            break;
        }
        case 5:
            m.calculate();
            if (frac) set_mass(k), stale = false;
            s.note("calculate()");
            break;
        case 6: {
            double v = s.loguniform(1, 500);
            catima::Material &r = m.M(v);
            s.check(&r == &m, "chaining", "M() does not return the material");
            k.M = v;
            k.defined = false;
            stale = false;
            s.note("M(%.17g)", v);
            sets++;
            break;
        }
        default: { // replaced by a copy of a copy
            catima::Material t = m, u;
            u = t;
            s.check(u == m, "copy equal", "a copy differs from the original");
            m = u;
        }
        }
        if (!stale) compare(s, m, k);
    }
    if (sets > 1 && adds > 0) s.nontrivial();
}

// ---- equality ------------------------------------------------------------------------------
static void equality(Src &s) {
    M d = s.chance(1, 4) ? compound(s.integer(201, 349)) : plain(s);
    if (d.compound) d.I = s.coin() ? 0 : 75;
    d.th = s.loguniform(1e-6, 10);
    catima::Material a = d.lib(), b = d.lib();
    s.note("%s", d.str().c_str());
    s.check(a == b && b == a && a == a, "equal", "identical materials are not equal");
    s.check(a.thickness(1) == b.thickness(2), "thickness in equality", "materials of different thickness are not the same material");
    // small enough densities are the same
    b.density(a.density() + s.uniform(-0.9e-6, 0.9e-6));
    s.check(a == b && b == a, "density within 1e-6", "materials whose densities differ by less than 1e-6 are not equal: %.17g %.17g", a.density(), b.density());
    Model k = model_of(d);
    size_t i = s.draw(k.e.size() - 1), j = s.draw(k.e.size() - 1);
    double M0 = a.M();
    std::vector<El> e = k.e;
    const char *what = "";
    double rho = d.rho, I = d.I, M = M0;
    bool differ = true;
    double rel = s.coin() ? s.loguniform(1e-12, 1e-3) : s.loguniform(1e-3, 2);
    switch (s.pick({2, 2, 2, 2, 2, 2, 2, 2, 1})) {
    case 0:
        what = "density";
        rho += (s.coin() || rho < 2e-5 ? 1 : -1) * s.loguniform(1.01e-6, 1);
        if (rho <= 0) rho = d.rho + 1e-5;
        break;
    case 1: what = "ionisation potential"; I = I > 0 ? I * (1 + rel) : s.loguniform(1e-3, 1000); break;
    case 2: what = "molar mass"; M *= 1 + rel; break;
    case 3: what = "atomic mass"; e[i].A *= 1 + rel; break;
    case 4: what = "charge"; e[i].Z += e[i].Z > 1 && s.coin() ? -1 : 1; break;
    case 5:
        what = "stoichiometric number";
        e[i].n = e[i].n >= 1 ? e[i].n * (1 + rel) : e[i].n * (1 - std::min(rel, 0.5));
        break;
    case 6: what = "one more element"; e.push_back(s.coin() ? e[i] : El{12, 6, e[0].n}); break;
    case 7:
        what = "one element less";
        e.erase(e.begin() + i);
        break;
    default:
        what = "exchanged elements";
        if (e[i].A == e[j].A && e[i].Z == e[j].Z && e[i].n == e[j].n) differ = false;
        std::swap(e[i], e[j]);
    }
    catima::Material c;
    for (auto &x : e) c.add_element(x.A, x.Z, x.n);
    c.M(M).density(rho).thickness(1).I(I); // the molar mass is kept: only one thing differs
    s.note("different: %s (element %zu)", what, i);
    catima::Material a2;
    for (auto &x : k.e) a2.add_element(x.A, x.Z, x.n);
    a2.M(M0).density(d.rho).I(d.I);
    s.check(a2 == a && a == a2, "equal rebuilt", "the material rebuilt from its elements is not equal");
    if (std::string(what) == "exchanged elements" && differ) { // another order is another description; only symmetry is required
        s.check((c == a) == (a == c), "symmetry", "equality is not symmetric");
        return;
    }
    s.nontrivial();
    s.check((c == a) == !differ && (a == c) == !differ, "equality", "materials with different %s compare %s", what, differ ? "equal" : "different");
    // the same in a chain: equal to itself however often copied
    std::vector<catima::Material> v(3, c);
    s.check(v[0] == v[2] && v[1] == c, "equal copies", "copies are not equal");
}

// ---- elements and compounds of the data base ------------------------------------------------
static void database(Src &s) {
    if (s.coin()) {
        int z = s.integer(1, 109);
        s.note("element %d", z);
        s.nontrivial();
        catima::Material m(0, z), l({{0, (double)z, 1}}), g = catima::get_material(z);
        s.close("natural weight", m.get_element(0).A, ref::weight[z], 1e-15);
        s.close("natural weight", m.M(), ref::weight[z], 1e-15);
        s.close("natural weight in list", l.get_element(0).A, ref::weight[z], 1e-15);
        if (g.ncomponents()) {
            s.check(g.ncomponents() == 1 && g.get_element(0).Z == z, "get_material", "element %d is wrong", z);
            s.close("get_material mass", g.M(), ref::weight[z], 1e-15);
            if (z < 99) s.close("get_material density", g.density(), ref::density[z], 1e-15);
            m.density(g.density());
            s.check(g == m, "get_material", "element %d differs from the material built by hand", z);
        }
    } else {
        M d = compound(s.integer(201, 349));
        s.note("compound %d", d.compound);
        s.nontrivial();
        catima::Material g = catima::get_material(d.compound), e = catima::get_material((catima::material)d.compound), h = catima::get_compound((catima::material)d.compound);
        s.check(g == e && g == h, "compound shortcuts", "the ways to ask for compound %d differ", d.compound);
        Model k = model_of(d);
        k.rho = d.rho;
        k.I = g.I();
        compare(s, g, k);
        double th = s.loguniform(1e-6, 100);
        g.thickness_cm(th);
        s.close("thickness from cm", g.thickness(), th * d.rho, 1e-14);
        k.th = th * d.rho;
        compare(s, g, k);
        catima::Material b;
        for (auto &x : d.e) b.add_element(x.A, x.Z, x.n);
        b.calculate();
        b.density(d.rho).I(g.I());
        s.check(b == e, "compound by hand", "compound %d built by hand differs", d.compound);
    }
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C16", {
        {"build", build, 400000, 6000000, "A random composition (stoichiometric numbers or mass fractions, natural or given masses) is built by constructor, list and add_element and compared with definitions; non-trivial: more than one element."},
        {"history", history, 250000, 4000000, "A random sequence of up to 25 building and setting operations against a plain model, all getters compared after each; non-trivial: at least two setters and one more element."},
        {"equality", equality, 400000, 8000000, "A material and a copy differing in exactly one ingredient; non-trivial: something that matters differs."},
        {"database", database, 20000, 200000, "An element or compound of the data base against the frozen tables; non-trivial: all."},
    }});
}
