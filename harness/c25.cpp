// C25: vector and convenience calls equal element-wise single calls; magnification factors.
#include "calc.h"
using namespace gen;

static double list_energy(Src &s) {
    switch (s.pick({6, 1, 1, 1})) {
    case 0: return energy(s, 1e-3, 1e7);
    case 1: return s.uniform(0, 0.00099);
    case 2: return 0;
    default: return -s.loguniform(1e-6, 1e3);
    }
}
static Case base(Src &s) {
    reset();
    Case k = draw_case(s, true, MOpt(), true, 0.01, 1e6);
    if (!positive(k.p, k.m, k.c)) s.skip();
    set_thickness(k);
    s.note("%s", k.str().c_str());
    return k;
}

static void vectors(Src &s) {
    Case k = base(s);
    int n = s.pick({1, 8}) == 0 ? 0 : s.integer(1, 12);
    if (s.chance(1, 20)) n = s.integer(600, 700);
    std::vector<double> T;
    std::string txt;
    bool below = false;
    for (int i = 0; i < n; i++) {
        if (n > 50)
            T.push_back(ref::node(i % 600) * (i % 2 ? 1 : 1.001));
        else if (i && s.chance(1, 5))
            T.push_back(T[s.integer(0, i - 1)]); // repeated
        else
            T.push_back(list_energy(s));
        if (T.back() < 1e-3) below = true;
        if (i < 12) txt += fmt("%.17g ", T.back());
    }
    s.note("%d energies: %s", n, txt.c_str());
    auto m = k.m.lib();
    auto c = k.c.lib();
    auto p = k.lp();
    std::vector<double> copy = T;
    if (s.coin()) catima::_storage.Reset();
    auto eo = catima::energy_out(p, T, m, c);
    auto dr = catima::dedx_from_range(p, T, m, c);
    s.check(eo.size() == T.size(), "energy_out length", "energy_out returned %zu values for %zu energies", eo.size(), T.size());
    s.check(dr.size() == T.size(), "dedx_from_range length", "dedx_from_range returned %zu values for %zu energies", dr.size(), T.size());
    s.check(T == copy, "list changed", "the list was changed");
    for (size_t i = 0; i < T.size(); i++) {
        if (T[i] < 1e-3) {
            s.check(eo[i] == 0, "energy_out below", "energy_out[%zu] at %.17g is %.17g", i, T[i], eo[i]);
            s.check(dr[i] == 0, "dedx_from_range below", "dedx_from_range[%zu] at %.17g is %.17g", i, T[i], dr[i]);
        } else {
            catima::Projectile q = k.p.lib(T[i]);
            s.close(fmt("energy_out[%zu] at %.17g", i, T[i]).c_str(), eo[i], catima::energy_out(q, m, c), 1e-9, 1e-12);
            s.close(fmt("dedx_from_range[%zu] at %.17g", i, T[i]).c_str(), dr[i], catima::dedx_from_range(q, m, c), 1e-9);
        }
    }
    s.check(p.T == k.T && p.A == k.p.A && p.Z == k.p.Z, "projectile changed", "the projectile was changed");
    if (n > 1) s.nontrivial();
    if (below) s.label("energy below 1 keV/u");
    if (n > 50) s.label("long list");
    if (n == 0) s.label("empty list");
}

static void same_multi(Src &s, const char *w, const catima::MultiResult &a, const catima::MultiResult &b) {
    s.check(a.results.size() == b.results.size(), w, "%s: %zu and %zu entries", w, a.results.size(), b.results.size());
    same_result(s, w, a.total_result, b.total_result);
    for (size_t i = 0; i < a.results.size(); i++) same_result(s, fmt("%s entry %zu", w, i).c_str(), a.results[i], b.results[i]);
}

static void overloads(Src &s) {
    Case k = base(s);
    auto m = k.m.lib();
    auto c = k.c.lib();
    double other = energy(s, 1e-3, 1e6);
    auto p = k.p.lib(other), q = k.lp(); // p: carries another energy
    s.note("projectile carries %.17g", other);
    auto want = catima::calculate(q, m, c);
    same_result(s, "calculate(p,m,T,c)", catima::calculate(p, m, k.T, c), want);
    s.check(p.T == other, "projectile energy", "the energy of the caller's projectile became %.17g", p.T);
    s.close("energy_out through the spline", catima::energy_out(k.T, m.thickness(), catima::get_range_spline(catima::get_data(q, m, c))), catima::energy_out(q, m, c), 1e-9, 1e-12);
    // layers
    catima::Layers l;
    int n = s.integer(0, 3);
    for (int i = 0; i < n; i++) {
        M x = i == 0 && s.coin() ? k.m : material(s);
        if (!positive(k.p, x, k.c)) x = k.m;
        x.th = s.uniform(0, 0.4) * catima::range(q, x.lib(), c);
        s.note("layer %d: %s", i, x.str().c_str());
        l.add(x.lib());
    }
    auto full = catima::calculate(q, catima::Phasespace(), l, c);
    same_multi(s, "calculate(p,layers,c)", catima::calculate(q, l, c), full);
    same_multi(s, "calculate(p,T,layers,c)", catima::calculate(p, k.T, l, c), full);
    s.check(p.T == other, "projectile energy", "the energy of the caller's projectile became %.17g", p.T);
    s.check(q.T == k.T, "projectile energy", "the energy of the caller's projectile became %.17g", q.T);
    // projectile call operator and setters used by the shortcuts
    catima::Projectile r = p;
    auto &ret = r(k.T);
    s.check(&ret == &r && r.T == k.T && r.A == p.A && r.Z == p.Z && r.Q == p.Q, "p(T)", "p(T) gives A=%g Z=%g Q=%g T=%g", r.A, r.Z, r.Q, r.T);
    if (n > 1) s.nontrivial();
}

// calculate(pa,pz,T,ta,tz,thickness,density)
static void numbers(Src &s) {
    reset();
    P p = proj(s, 108, false);
    El e = element(s, 1);
    double T = energy(s, 0.01, 1e6), rho = s.chance(1, 3) ? s.loguniform(1e-5, 25) : ref::density[std::min(98, e.Z)];
    if (!(rho > 0)) rho = 1;
    M m;
    m.e = {e};
    m.rho = rho;
    C c;
    if (!positive(p, m, c)) s.skip();
    m.th = fraction(s) * catima::range(p.lib(T), m.lib());
    s.note("calculate(%.17g, %d, %.17g, %.17g, %d, %.17g, %.17g)", p.A, (int)p.Z, T, e.A, e.Z, m.th, rho);
    auto a = catima::calculate(p.A, (int)p.Z, T, e.A, e.Z, m.th, rho);
    auto b = catima::calculate(p.lib(T), catima::Material(e.A, e.Z, rho, m.th));
    same_result(s, "calculate of numbers", a, b);
    // and through the element-wise material
    same_result(s, "calculate of numbers, element added", a, catima::calculate(p.lib(T), m.lib()), 1e-10);
    if (m.th > 0) s.nontrivial();
}

static void magnification(Src &s) {
    Case k = base(s);
    auto m = k.m.lib();
    auto c = k.c.lib();
    int mode = s.pick({8, 1, 1});
    if (mode == 1) m.thickness(0);
    if (mode == 2) m.thickness(-1);
    auto p = k.p.lib(s.coin() ? k.T : 33);
    double E = k.T;
    if (E > 9e6) E = 9e6;
    auto w = catima::w_magnification(p, E, m, c);
    if (mode) {
        s.check(w.first == 1 && w.second == 1, "no target", "without target: %.17g %.17g", w.first, w.second);
        s.label("no target");
        return;
    }
    if (!(m.thickness() > 0)) {
        s.check(w.first == 1 && w.second == 1, "no target", "without target: %.17g %.17g", w.first, w.second);
        return;
    }
    double T[3] = {0.99 * E, E, 1.01 * E}, o[3], pi[3], po[3];
    for (int i = 0; i < 3; i++) {
        o[i] = T[i] < 1e-3 ? 0 : catima::energy_out(k.p.lib(T[i]), m, c);
        auto mom = [&](double t) { return std::sqrt(t * t + 2 * t * 931.4940954); };
        pi[i] = mom(T[i]);
        po[i] = mom(o[i]);
    }
    s.note("outgoing energies %.17g %.17g %.17g", o[0], o[1], o[2]);
    if (!(o[0] > 0 && o[1] > 0 && o[2] > 0)) {
        s.check(w.first == 0 && w.second == 0, "stopped", "stopped: %.17g %.17g", w.first, w.second);
        s.label("stopped");
        return;
    }
    double f = (o[2] - o[0]) / o[1] / ((T[2] - T[0]) / T[1]);
    double g = (po[2] - po[0]) / po[1] / ((pi[2] - pi[0]) / pi[1]);
    // cancellation of the differences: the outgoing energies themselves agree to 1e-9
    s.close("energy magnification", w.first, f, 1e-6);
    s.close("momentum magnification", w.second, g, 1e-6);
    s.check(p.T == k.T || p.T == 33, "projectile changed", "the projectile was changed");
    s.nontrivial();
    if (f > 1.5) s.label("magnified by more than 1.5");
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C25", {
        {"vectors", vectors, 1600, 400000, "Random lists of energies (repeated, unordered, below 1 keV/u, zero, negative, empty, long) against single calls; non-trivial: two or more energies."},
        {"overloads", overloads, 1200, 300000, "Shortcut overloads with energy, without phase space, layers, against the full call; the caller's projectile stays; non-trivial: two or more layers."},
        {"numbers", numbers, 2000, 300000, "The overload of plain numbers against projectile and material objects; non-trivial: positive thickness."},
        {"magnification", magnification, 2400, 400000, "Central differences over single energy_out calls; no target; stopped; non-trivial: particle passes at all three energies."},
    }});
}
