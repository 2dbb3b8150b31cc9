// C03: the combined result agrees with the single-quantity functions.
#include "calc.h"
using namespace gen;

static void valid(Src &s, const catima::Result &r) {
    for (auto &f : fields()) {
        double v = r.*f.f;
        if (f.name == std::string("sp"))
            s.check(v == -1 || (v >= 0 && v <= 1), "sp", "survival probability %.17g", v);
        else
            s.check(std::isfinite(v) && v >= 0, f.name, "%s is %.17g", f.name, v);
    }
}

static void combined(Src &s) {
    reset();
    Case k = draw_case(s);
    if (!positive(k.p, k.m, k.c)) s.skip();
    set_thickness(k);
    catima::Material m = k.m.lib();
    catima::Config c = k.c.lib();
    for (int i = 0; i < 4; i++) {
        double T = k.T, th = k.m.th;
        if (i > 0) {
            T = energy(s);
            th = fraction(s) * catima::range(k.p.lib(T), m, c);
        }
        s.note("%s; T=%.17g thickness=%.17g", k.str().c_str(), T, th);
        m.thickness(th);
        catima::Projectile p = k.p.lib(T);
        catima::Result r = catima::calculate(p, m, c);
        s.note("%s", str(r).c_str());
        valid(s, r);
        same_result(s, "calculate with an energy", catima::calculate(k.p.lib(77), m, T, c), r);
        s.close("Ein", r.Ein, T, 0);
        s.close("range", r.range, catima::range(p, m, c), 1e-10);
        s.close("dEdxi", r.dEdxi, catima::dedx_from_range(p, m, c), 1e-10);
        s.close("sigma_r", r.sigma_r, catima::range_straggling(k.p.lib(3), T, m, c), 1e-10);
        s.close("sigma_r", r.sigma_r * r.sigma_r, std::max(0.0, catima::range_variance(p, T, m, c)), 1e-10);
        if (th == 0) {
            s.label("no thickness");
            s.close("Eout", r.Eout, T, 0);
            s.close("dEdxo", r.dEdxo, r.dEdxi, 0);
            for (double v : {r.Eloss, r.sigma_E, r.sigma_a, r.sigma_x, r.cov, r.tof}) s.check(v == 0, "no thickness", "without thickness: %s", str(r).c_str());
            s.check(r.sp == 1, "no thickness", "without thickness: %s", str(r).c_str());
            continue;
        }
        if (i == 0) s.nontrivial();
        double eo = catima::energy_out(p, m, c);
        s.close("Eout", r.Eout, eo, 1e-12);
        s.close("Eloss", r.Eloss, k.p.A * (T - eo), 1e-11, 1e-13 * k.p.A * T);
        double v1 = catima::angular_variance(p, m, c, 1), v2 = catima::angular_variance(p, m, c, 2);
        s.close("sigma_x", r.sigma_x, std::sqrt(v2), 1e-10);
        s.close("cov", r.cov, v1, 1e-10);
        catima::Projectile q = p;
        s.close("sp", r.sp, catima::nonreaction_rate(q, m, c), 1e-10);
        if (r.Eout == 0) {
            s.label("stopped");
            for (double v : {r.dEdxo, r.sigma_E, r.sigma_a, r.tof}) s.check(v == 0, "stopped", "stopped: %s", str(r).c_str());
            s.check(r.sp == -1, "stopped", "stopped with survival probability %g", r.sp);
            continue;
        }
        s.close("dEdxo", r.dEdxo, catima::dedx_from_range(k.p.lib(eo), m, c), 1e-9);
        s.close("tof", r.tof, catima::calculate_tof_from_E(p, eo, m, c), 1e-9);
        // straggling; targets taking less than a thousandth of the energy use the derivatives
        const catima::DataPoint &d = catima::get_data(p, m, c);
        const catima::Interpolator &as = catima::get_angular_variance_spline(d);
        bool thin = 0.999 * T < eo, both = std::fabs(0.999 * T / eo - 1) < 1e-9, atima = k.c.scat == 255;
        s.label(thin ? "thin" : "thick");
        double f = r.dEdxo / k.p.A;
        double eThin = f * f * std::max(0.0, 0.5 * (catima::domega2de(p, T, m, c) + catima::domega2de(p, eo, m, c)) * (T - eo));
        double eThick = std::pow(catima::energy_straggling_from_E(p, T, eo, m, c), 2);
        double aThin = 0.5 * (as.derivative(T) + as.derivative(eo)) * (T - eo), aThick = as(T) - as(eo);
        double vT = catima::range_variance(p, T, m, c);
        auto one = [&](const char *n, double got, double a, double b, double big) {
            double want = both ? (std::fabs(got - a) < std::fabs(got - b) ? a : b) : thin ? a : b;
            s.close(n, got, want, 1e-8, (thin ? 0 : 1e-13 * big));
        };
        one("squared sigma_E", r.sigma_E * r.sigma_E, eThin, eThick, f * f * vT);
        if (atima)
            one("squared sigma_a", r.sigma_a * r.sigma_a, aThin, aThick, as(T));
        else
            s.close("sigma_a", r.sigma_a, catima::angular_straggling(p, m, c), 1e-10);
        if (!atima) s.close("squared sigma_a", r.sigma_a * r.sigma_a, catima::angular_variance(p, m, c), 1e-10);
    }
}
static void below(Src &s) {
    Case k = draw_case(s);
    k.m.th = s.coin() ? s.loguniform(1e-6, 10) : 0;
    double T;
    switch (s.pick({2, 2, 1, 1})) {
    case 0: T = s.loguniform(1e-9, 9.98e-4); break;
    case 1: T = 1e-3 * (1 - s.loguniform(1e-5, 0.1)); break;
    case 2: T = 0; break;
    default: T = -s.loguniform(1e-3, 100);
    }
    s.note("%s; T=%.17g", k.str().c_str(), T);
    s.nontrivial();
    catima::Result r = catima::calculate(k.p.lib(T), k.m.lib(), k.c.lib());
    for (auto &f : fields())
        if (f.name != std::string("sp")) s.check(r.*f.f == 0, "below", "%s is %g below 1 keV/u", f.name, r.*f.f);
    s.check(r.sp == 1, "below", "survival probability %g below 1 keV/u", r.sp);
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C03", {
        {"combined", combined, 6000, 120000, "four energies and thicknesses of a random combination, all fields; non-trivial when the first target has a thickness"},
        {"below", below, 20000, 200000, "energies below 1 keV/u, zero and negative; all non-trivial"},
    }});
}
