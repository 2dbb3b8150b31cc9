// C14: time of flight.
#include "calc.h"
using namespace gen;

struct Time {
    ref::Proj p;
    ref::Mat m;
    ref::Conf c;
    double f(double T) const { return 1 / (ref::dedx(p, T, m, c) * ref::beta(T)); }
    double unit() const { return 10 * p.A / (299.792458 * m.rho); }
    double gl(double a, double b) const {
        return ref::gl8()([&](double T) { return f(T); }, a, b);
    }
    // eight points per factor four of energy
    double rule(double a, double b) const {
        double s = 0;
        while (a > 4 * b && a > 4e-3) {
            s += gl(0.25 * a, a);
            a *= 0.25;
        }
        return unit() * (s + gl(b, a));
    }
    double fine(double a, double b) const { // from a down to b
        std::vector<double> cut{a, b};
        for (double x = b * 1.1; x < a; x *= 1.1) cut.push_back(x);
        for (double x : {0.025, 2.5, 7.8379, 10.0, 30.0, 2000.0, 50000.0})
            if (x > b && x < a) cut.push_back(x);
        std::sort(cut.begin(), cut.end());
        double s = 0;
        for (size_t i = 1; i < cut.size(); i++) s += ref::gl16()([&](double T) { return f(T); }, cut[i - 1], cut[i]);
        return unit() * s;
    }
};
static void compare(Src &s, const Time &t, double a, double b, double got) {
    s.check(std::isfinite(got) && got >= 0, "finite", "time of flight %g", got);
    double r = t.rule(a, b);
    // rounding of the energies of thin targets
    double tol = 1e-7 + 4e-15 * a / std::max(1e-300, a - b);
    if (std::fabs(got - r) <= tol * r) return;
    double w = t.fine(a, b);
    s.check(std::fabs(got / w - 1) < 2e-3, "time of flight", "from %.12g to %.12g MeV/u: %.12g ns, the eight-point rule gives %.12g, the integral is %.12g", a, b, got, r, w);
}
static void time(Src &s) {
    reset();
    Case k = draw_case(s);
    if (!positive(k.p, k.m, k.c)) s.skip();
    Time t{k.p.ref(), k.m.ref(), k.c.ref()};
    catima::Config lc = k.c.lib();
    catima::Material m = k.m.lib();
    double v_light = 29.9792458;
    for (int i = 0; i < 6; i++) {
        double T = i ? energy(s) : k.T, f = i ? fraction(s) : k.f, r = catima::range(k.p.lib(T), m, lc), th = f * r;
        s.note("%s; T=%.17g thickness %.17g", k.str().c_str(), T, th);
        catima::Result x = catima::calculate(k.p.lib(T), m.thickness(th), lc);
        if (i == 0 && x.Eout > 0 && th > 0) s.nontrivial();
        if (th == 0 || x.Eout == 0) {
            s.check(x.tof == 0, "no flight", "time of flight %g for thickness %g and residual energy %g", x.tof, th, x.Eout);
            continue;
        }
        compare(s, t, T, x.Eout, x.tof);
        // between the times for the velocities at both ends, for the length that was passed
        if (!(T - x.Eout > 1e-9 * T) || T > 5e6) continue; // the spline bends at the last point
        if (!smooth(k.p, k.m, k.c)) continue;
        // the effective charge of Winger falls to zero for heavy projectiles, too steeply for the table
        auto rough = [&](double e) { return std::fabs(catima::dedx_from_range(k.p.lib(e), m, lc) / catima::dedx(k.p.lib(e), m, lc) - 1) > 0.02; };
        if (k.c.z_eff == 4 && (rough(T) || rough(x.Eout))) continue;
        double len = (r - catima::range(k.p.lib(x.Eout), m, lc)) / k.m.rho, fast = len / (v_light * ref::beta(T)), slow = len / (v_light * ref::beta(x.Eout));
        double tol = 0.04 + 1e-11 * r / (len * k.m.rho);
        s.check(x.tof >= fast * (1 - tol) && x.tof <= slow * (1 + tol), "bounds", "time of flight %.9g, expected between %.9g and %.9g", x.tof, fast, slow);
    }
    for (int i = 0; i < 4; i++) {
        double a = energy(s), b = s.coin() ? energy(s) : a * (1 - s.loguniform(1e-6, 0.5));
        if (a < b) std::swap(a, b);
        b = std::max(b, 1e-3);
        s.note("from %.17g to %.17g", a, b);
        compare(s, t, a, b, catima::calculate_tof_from_E(k.p.lib(a), b, m, lc));
        if (!smooth(k.p, k.m, k.c)) continue;
        // adds over a chain of energies, grows with the energy lost
        double c = b + (a - b) * s.unit();
        double ac = catima::calculate_tof_from_E(k.p.lib(a), c, m, lc), cb = catima::calculate_tof_from_E(k.p.lib(c), b, m, lc), ab = catima::calculate_tof_from_E(k.p.lib(a), b, m, lc);
        s.close("sum of two parts", ac + cb, ab, 0.06);
        s.check(ac <= ab * 1.06, "grows", "%.9g ns to %.9g MeV/u but %.9g to %.9g", ac, c, ab, b);
    }
}
// the table of times
static void table(Src &s) {
    reset();
    Case k = draw_case(s, false);
    if (!positive(k.p, k.m, k.c)) s.skip();
    s.note("%s", k.str().c_str());
    Time t{k.p.ref(), k.m.ref(), k.c.ref()};
    auto v = catima::calculate_tof(k.p.lib(s.coin() ? 0 : 5), k.m.lib(), k.c.lib());
    s.check(v.size() == ref::NT, "size", "%zu values", v.size());
    s.nontrivial();
    double sum = 0;
    s.close("first value", v[0], 0, 0, 1e-12 * v[1]);
    for (int i = 1; i < ref::NT; i++) {
        sum += t.unit() * t.gl(ref::node(i - 1), ref::node(i));
        s.check(v[i] > v[i - 1], "grows", "value %d", i);
        s.close("time table", v[i], sum, 1e-7);
    }
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C14", {
        {"time", time, 5000, 100000, "six targets and four pairs of energies of a random combination; non-trivial when the first target is passed"},
        {"table", table, 1500, 20000, "the whole table of times; all non-trivial"},
    }});
}
