// C04: monotonic ranges and residual energies, positive stopping power.
#include "calc.h"
#include <memory>
using namespace gen;

// pairs of energies: far apart, neighbours, within rounding of table points
static std::pair<double, double> pair_T(Src &s) {
    double a = energy(s), b;
    switch (s.pick({2, 3, 1})) {
    case 0: b = energy(s); break;
    case 1: b = a * (1 + s.loguniform(1e-9, 0.1)); break;
    default: b = std::nextafter(a, 1e9);
    }
    b = std::min(b, 1e7);
    if (a > b) std::swap(a, b);
    return {a, b};
}
// combinations for which the models are meant: equilibrium charge, ordinary ionisation potential
static Case plain(Src &s) {
    Case k;
    k.p = proj(s, 108, false);
    MOpt o;
    k.m = material(s, o);
    k.c = calc_config(s, k.p.Z);
    return k;
}

static void stopping(Src &s) {
    Case k = plain(s);
    s.note("%s, %s", k.m.str().c_str(), k.c.str().c_str());
    for (auto &x : k.m.e)
        if (x.Z == 85 || x.Z == 87) s.skip();
    catima::Material lm = k.m.lib();
    catima::Config lc = k.c.lib();
    s.nontrivial();
    for (int i = 0; i < 40; i++) {
        double T = energy(s, 1e-4);
        double d = catima::dedx(k.p.lib(T), lm, lc), n = catima::dedx_n(k.p.lib(T), lm);
        s.check(std::isfinite(d) && d > 0, "dedx", "stopping power %g at T=%.17g", d, T);
        s.check(std::isfinite(n) && n > 0 && n <= d * (1 + 1e-12), "dedx_n", "nuclear stopping power %g of %g at T=%.17g", n, d, T);
    }
}
static void ranges(Src &s) {
    reset();
    Case k = plain(s);
    s.note("%s, %s", k.m.str().c_str(), k.c.str().c_str());
    catima::Material lm = k.m.lib();
    catima::Config lc = k.c.lib();
    s.nontrivial();
    for (int i = 0; i < 60; i++) {
        auto e = pair_T(s);
        s.note("T=%.17g and %.17g", e.first, e.second);
        double a = catima::range(k.p.lib(e.first), lm, lc), b = catima::range(k.p.lib(e.second), lm, lc);
        s.check(std::isfinite(a) && a >= 0 && std::isfinite(b), "range", "range %g at T=%.17g", a, e.first);
        double slack = 4e-16 * b; // two neighbouring doubles may have the same range
        s.check(e.second > e.first * (1 + 1e-9) ? b > a : b >= a - slack, "monotonic", "range %.17g at T=%.17g but %.17g at T=%.17g", a, e.first, b, e.second);
        double d = catima::dedx_from_range(k.p.lib(e.first), lm, lc);
        s.check(std::isfinite(d) && d > 0, "dedx_from_range", "stopping power from the range %g at T=%.17g", d, e.first);
    }
}
// a charge state that is kept: the known fold of the range at the end of the transition between the regimes, and nothing else
static void fixed_charge(Src &s) {
    reset();
    Case k;
    k.p = proj(s);
    if (k.p.Q == 0) k.p.Q = std::max(1.0, k.p.Z * s.uniform(0.02, 1));
    k.m = material(s, MOpt());
    k.c = calc_config(s, k.p.Z);
    k.c.z_eff = 0;
    if (!positive(k.p, k.m, k.c)) s.skip();
    s.note("charge %.17g, %s, %s", k.p.Q, k.m.str().c_str(), k.c.str().c_str());
    bool fold = folded(k.p, k.m, k.c);
    s.label(fold ? "steep end of the transition" : "fixed charge");
    catima::Material lm = k.m.lib();
    catima::Config lc = k.c.lib();
    s.nontrivial();
    std::string known; // reported behind everything else
    std::unique_ptr<ref::Tables> own(fold ? new ref::Tables(k.p.ref(), k.m.ref(), k.c.ref(), false) : nullptr);
    for (int i = 0; i < 60; i++) {
        auto e = pair_T(s);
        if (s.chance(1, 4)) {
            e.first = s.uniform(20, 40), e.second = s.uniform(20, 40);
            if (e.first > e.second) std::swap(e.first, e.second);
        }
        s.note("T=%.17g and %.17g", e.first, e.second);
        double a = catima::range(k.p.lib(e.first), lm, lc), b = catima::range(k.p.lib(e.second), lm, lc);
        double d = catima::dedx_from_range(k.p.lib(e.first), lm, lc);
        bool rising = e.second > e.first * (1 + 1e-9) ? b > a : b >= a - 4e-16 * std::fabs(b);
        if (fold && e.first > 15 && e.first < 60) {
            // the swing of the spline through the right ranges, no other value
            s.close("range at the fold", a, own->range(e.first), 1e-6, 1e-6 * own->range(60));
            if (!rising || !(d > 0)) known = fmt("range %.17g at T=%.17g but %.17g at T=%.17g", a, e.first, b, e.second);
            continue;
        }
        s.check(std::isfinite(a) && a >= 0 && std::isfinite(b), "range", "range %g at T=%.17g", a, e.first);
        s.check(rising || (fold && e.second > 15 && e.second < 60), "monotonic", "range %.17g at T=%.17g but %.17g at T=%.17g", a, e.first, b, e.second);
        s.check(std::isfinite(d) && d > 0, "dedx_from_range", "stopping power from the range %g at T=%.17g", d, e.first);
    }
    s.check(known.empty(), "fold-of-fixed-charge", "%s", known.c_str());
}
static void residual(Src &s) {
    reset();
    Case k = plain(s);
    s.note("%s, %s", k.m.str().c_str(), k.c.str().c_str());
    catima::Material lm = k.m.lib();
    catima::Config lc = k.c.lib();
    s.nontrivial();
    auto R = [&](double T) { return catima::range(k.p.lib(T), lm, lc); };
    auto eout = [&](double T, double th) {
        lm.thickness(th);
        return catima::energy_out(k.p.lib(T), lm, lc);
    };
    for (int i = 0; i < 20; i++) {
        // thicker target. The thickness is met to 1e-5 g/cm2, so the comparison is made in range
        double T = energy(s), r = R(T), f = fraction(s), g = s.coin() ? fraction(s) : f * (1 + s.loguniform(1e-9, 1));
        if (f > g) std::swap(f, g);
        double a = eout(T, f * r), b = eout(T, g * r);
        s.note("T=%.17g thickness %.17g and %.17g", T, f * r, g * r);
        s.check(R(b) <= R(a) + 2.001e-5 + 1e-12 * r, "thicker", "behind %.17g g/cm2 %.17g MeV/u, behind %.17g %.17g", f * r, a, g * r, b);
        if ((g - f) * r > 2.1e-5) s.check(b <= a, "thicker", "behind %.17g g/cm2 %.17g MeV/u, behind %.17g %.17g", f * r, a, g * r, b);
        // faster particle
        auto e = pair_T(s);
        double th = fraction(s) * R(e.first);
        a = eout(e.first, th), b = eout(e.second, th);
        s.note("thickness %.17g T=%.17g and %.17g", th, e.first, e.second);
        s.check(R(a) <= R(b) + 2.001e-5 + 1e-12 * R(e.second), "faster", "%.17g MeV/u leaves with %.17g, %.17g with %.17g", e.first, a, e.second, b);
        if (R(e.second) - R(e.first) > 2.1e-5) s.check(a <= b, "faster", "%.17g MeV/u leaves with %.17g, %.17g with %.17g", e.first, a, e.second, b);
    }
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C04", {
        {"stopping", stopping, 40000, 800000, "stopping power at 40 energies of a random combination; all non-trivial"},
        {"fixed charge", fixed_charge, 2500, 50000, "60 pairs of energies with a charge state that is kept, a quarter of them around the end of the transition; all non-trivial"},
        {"ranges", ranges, 8000, 150000, "60 pairs of energies, from neighbouring doubles to far apart; all non-trivial"},
        {"residual", residual, 6000, 100000, "20 pairs of thicknesses and of energies; all non-trivial"},
    }});
}
