// C17: density only changes lengths and times.
#include "calc.h"
using namespace gen;

static void density(Src &s) {
    reset();
    Case k = draw_case(s);
    if (!positive(k.p, k.m, k.c)) s.skip();
    set_thickness(k);
    double f = s.pick({3, 2, 1, 1}), rho2;
    rho2 = f == 0 ? k.m.rho * s.loguniform(0.01, 100) : f == 1 ? k.m.rho * (1 + s.uniform(-0.1, 0.1)) : f == 2 ? s.loguniform(1e-6, 100) : k.m.rho + s.loguniform(1e-9, 1e-5);
    s.note("%s; other density %.17g", k.str().c_str(), rho2);
    if (k.m.th > 0 && rho2 != k.m.rho) s.nontrivial();
    catima::Config c = k.c.lib();
    catima::Material a = k.m.lib(), b = a;
    b.density(rho2);
    s.check(b.thickness() == a.thickness(), "thickness", "setting the density changes the thickness");
    double q = k.m.rho / rho2;
    if (s.coin()) { // given in cm at the other density
        catima::Material t = k.m.lib();
        t.density(rho2).thickness(0).thickness_cm(k.m.th / rho2);
        s.close("thickness from cm", t.thickness(), k.m.th, 1e-14);
        t.thickness(k.m.th);
        b = t;
    }
    for (int i = 0; i < 3; i++) {
        double T = i ? energy(s) : k.T;
        if (i) {
            double th = fraction(s) * catima::range(k.p.lib(T), a, c);
            a.thickness(th);
            b.thickness(th);
            s.note("T=%.17g thickness %.17g", T, th);
        }
        if (s.chance(1, 3)) catima::_storage.Reset(); // not from the remembered table
        auto p = k.p.lib(T);
        catima::Result x = catima::calculate(p, a, c), y = catima::calculate(p, b, c);
        s.note("%s", str(x).c_str());
        // depths are found with the thickness tolerance, whose rounding may end the iteration a step earlier: same density -> same path
        for (auto &fl : fields()) {
            std::string n = fl.name;
            double w = x.*fl.f, rel = 1e-10;
            if (n == "tof" || n == "sigma_x" || n == "cov") w *= q;
            double slop = 0;
            if (n == "sigma_x" || n == "cov" || (n == "sigma_a" && k.c.scat != 255)) {
                rel = 1e-9;
                if (a.thickness() < 1e-3) slop = 0.3;
                else slop = 3e-3;
                if (std::fabs(y.*fl.f - w) <= 1e-9 * w) slop = 0;
                if (slop > 0) s.label("depth iteration differs");
            }
            s.close(fl.name, y.*fl.f, w, std::max(rel, slop));
        }
        s.close("range", catima::range(p, b, c), catima::range(p, a, c), 1e-11);
        s.close("dedx", catima::dedx(p, b, c), catima::dedx(p, a, c), 1e-11);
        s.close("domega2dx", catima::domega2dx(p, b, c), catima::domega2dx(p, a, c), 1e-11);
        s.close("da2dx", catima::da2dx(p, b, c), catima::da2dx(p, a, c), 1e-11);
        s.close("energy_out", catima::energy_out(p, b, c), catima::energy_out(p, a, c), 1e-11);
        s.close("radiation_length", catima::radiation_length(b), catima::radiation_length(a), 1e-11);
        double lo = T * 0.7;
        if (lo > 1e-3) s.close("calculate_tof_from_E", catima::calculate_tof_from_E(p, lo, b, c), catima::calculate_tof_from_E(p, lo, a, c) * q, 1e-11);
        catima::Projectile u = p, v = p;
        s.close("nonreaction_rate", catima::nonreaction_rate(u, b, c), catima::nonreaction_rate(v, a, c), 1e-10);
        s.close("production_rate", catima::production_rate(3, 500, 900, b, c), catima::production_rate(3, 500, 900, a, c), 1e-11);
        if (T > 1) {
            auto wa = catima::w_magnification(p, T, a, c), wb = catima::w_magnification(p, T, b, c);
            s.close("w_magnification", wb.first, wa.first, 1e-10);
        }
    }
}
// stacks: thicknesses in cm
static void stacks(Src &s) {
    reset();
    P p = proj(s);
    C c = calc_config(s, p.Z);
    double T = s.loguniform(30, 3000), q = s.loguniform(0.05, 20), e = T;
    int n = s.integer(2, 4);
    catima::Layers a, b;
    for (int i = 0; i < n; i++) {
        M m = material(s);
        if (!positive(p, m, c)) s.skip();
        m.th = s.uniform(0.01, 0.3) * catima::range(p.lib(e), m.lib(), c.lib());
        s.note("layer %s", m.str().c_str());
        a.add(m.lib());
        m.rho *= q;
        b.add(m.lib());
        e *= 0.7;
    }
    s.note("T=%.17g densities times %.17g %s", T, q, c.str().c_str());
    s.nontrivial();
    catima::Phasespace u, v;
    u.sigma_x = 0.3, u.sigma_a = 0.004, u.cov_x = 0.0005;
    v = u;
    v.sigma_x /= q, v.cov_x /= q;
    auto x = catima::calculate(p.lib(T), u, a, c.lib()).total_result, y = catima::calculate(p.lib(T), v, b, c.lib()).total_result;
    for (auto &fl : fields()) {
        std::string nm = fl.name;
        double w = x.*fl.f;
        if (nm == "tof" || nm == "sigma_x" || nm == "cov") w /= q;
        bool depth = nm == "sigma_x" || nm == "cov" || (nm == "sigma_a" && c.scat != 255);
        s.close(fl.name, y.*fl.f, w, depth ? 3e-3 : 1e-9);
    }
    s.close("stack thickness in cm", b.thickness_cm(), a.thickness_cm() / q, 1e-11);
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C17", {
        {"density", density, 2500, 100000, "two densities of the same material and thickness; non-trivial when they differ and there is a thickness"},
        {"stacks", stacks, 700, 30000, "stacks whose densities are all multiplied by a factor; all non-trivial"},
    }});
}
