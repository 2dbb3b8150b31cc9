// C18: reaction probability and production rate.
#include "calc.h"
using namespace gen;

static void kox(Src &s) {
    P p = proj(s);
    int ap = (int)std::lround(p.A), zp = (int)p.Z, zt = target_z(s), at = std::max(zt, (int)std::lround(ref::weight[zt]) + s.integer(0, 6) - 3);
    double E = s.coin() ? s.loguniform(30, 1e5) : s.uniform(30, 40);
    if (s.chance(1, 4)) E = std::pow(10, 1.5) * (1 + (s.unit() - 0.5) * 0.02);
    double barrier = zp * zt / (1.3 * (std::cbrt((double)ap) + std::cbrt((double)at))) * (ap + at) / ((double)ap * at);
    if (s.chance(1, 6)) E = std::max(1.01, barrier * 1.05) * (1 + s.loguniform(1e-3, 10)); // below the limit of the reaction rate
    s.note("Ap=%d Zp=%d E=%.17g At=%d Zt=%d", ap, zp, E, at, zt);
    s.nontrivial();
    s.close("SigmaR_Kox", catima::SigmaR_Kox(ap, zp, E, at, zt), ref::sigma_kox(ap, zp, E, at, zt), 1e-10);
    // elementary relations between rate and survival
    double sg = s.loguniform(1e-3, 1e4), t = s.loguniform(1e-5, 1e3);
    double want = std::exp(-sg * t * 1e-4);
    s.close("nonreaction_rate(sigma,t)", catima::nonreaction_rate(sg, t), want, 1e-12, 1e-300);
    s.close("reaction_rate(sigma,t)", catima::reaction_rate(sg, t), 1 - want, 1e-10, 1e-15);
    auto f = [&](double x) { return sg * (1 + 0.5 * x / t); };
    s.close("reaction_rate(f,t)", catima::reaction_rate(f, t), 1 - std::exp(-sg * t * 1.25e-4), 1e-9, 1e-14);
}
struct Loss {
    const ref::Tables &t;
    double T;
    int ap, zp;
    double sigma(double th) const { return at_energy(t.eout(T, th)); }
    double at_energy(double e) const {
        double s = 0;
        for (auto &x : t.m.e) s += x.n * ref::sigma_kox(ap, zp, e, ref::main_isotope(x.Z), x.Z);
        return s;
    }
};
static void survival(Src &s) {
    reset();
    Case k = draw_case(s, true);
    k.T = s.pick({4, 1, 1}) == 0 ? s.loguniform(30, 5000) : energy(s);
    k.c.scat = 255;
    if (!positive(k.p, k.m, k.c)) s.skip();
    ref::Tables t(k.p.ref(), k.m.ref(), k.c.ref(), false);
    catima::Config c = k.c.lib();
    catima::Material m = k.m.lib();
    const double N = 6.022140857;
    double M = k.m.ref().M;
    bool fold = folded(k.p, k.m, k.c);
    for (int i = 0; i < 4; i++) {
        double T = i ? (s.chance(1, 3) ? energy(s, 1, 1e6) : s.loguniform(30, 5000)) : k.T, r = t.range(T);
        double f = s.pick({2, 2, 1}) == 0 ? s.unit() : fraction(s), th = f * r;
        if (s.chance(1, 4) && T > 30) th = (r - t.range(30)) * (s.coin() ? s.unit() : 1 + (s.unit() - 0.5) * 1e-3);
        m.thickness(th);
        s.note("%s; T=%.17g thickness %.17g", k.str().c_str(), T, th);
        catima::Projectile p = k.p.lib(T);
        double got = catima::nonreaction_rate(p, m, c);
        s.check(p.T == T, "argument", "the projectile energy was changed");
        if (T < 30) {
            s.check(got == -1 , "below", "survival probability %g at %g MeV/u", got, T);
            continue;
        }
        if (th == 0) {
            s.check(got == 1, "no target", "survival probability %g without target", got);
            continue;
        }
        if (fold) continue; // more than one energy has the same range
        double e = t.eout(T, th), lim = std::fabs(r - th - t.range(30));
        if (lim < 2.1e-5 + 1e-7 * r) continue;
        if (e < 30) {
            s.label("leaves below 30 MeV/u");
            s.check(got == -1, "leaves below", "survival probability %g with %g MeV/u left", got, e);
            continue;
        }
        s.nontrivial();
        Loss l{t, T, (int)std::lround(k.p.A), (int)k.p.Z};
        double s0 = l.sigma(0), s1 = l.at_energy(e), change = std::fabs(s0 - s1) / s0;
        double two = N * th / M * 0.5 * (s0 + s1);
        double eight = N / M * ref::gl8()([&](double x) { return l.sigma(x); }, 0, th);
        s.check(got >= 0 && got <= 1, "interval", "survival probability %g", got);
        // a depth is met to 1e-5 g/cm2
        double slope = std::fabs(s1 - l.at_energy(t.eout(T, std::max(0.0, th - 2e-5)))) + std::fabs(s0 - l.at_energy(t.eout(T, std::min(th, 2e-5)))) ;
        double tol = N / M * th * (slope + 1e-7 * std::fabs(s0)) * 1e-4 + 1e-9;
        double w2 = std::exp(-two * 1e-4), w8 = std::exp(-eight * 1e-4);
        bool ok2 = std::fabs(got - w2) <= tol, ok8 = std::fabs(got - w8) <= tol;
        bool near = std::fabs(change - 0.05) < 1e-4 + slope / s0;
        s.label(change < 0.05 ? "nearly constant cross section" : "changing cross section");
        if (change < 0.05 || near) s.check(ok2 || ok8, "survival", "%.12g, expected %.12g or %.12g (tolerance %g)", got, w2, w8, tol);
        else s.check(ok8, "survival", "%.12g, expected %.12g (tolerance %g; constant cross section would give %.12g)", got, w8, tol, w2);
        s.close("sp", catima::calculate(p, m, c).sp, got, 1e-10);
        // thicker targets, consecutive targets
        double g = s.uniform(0.1, 0.9);
        catima::Material a = m, b = m;
        a.thickness(g * th);
        b.thickness((1 - g) * th);
        double first = catima::nonreaction_rate(p, a, c), ea = catima::energy_out(p, a, c);
        if (s0 > 0 && s1 > 0) s.check(first >= got - tol, "thicker", "%.12g behind a part, %.12g behind the whole", first, got);
        if (ea >= 30 && catima::energy_out(k.p.lib(ea), b, c) > 30) {
            catima::Projectile q = k.p.lib(ea);
            double second = catima::nonreaction_rate(q, b, c);
            double lo = 1e99, hi = -1e99; // the average is taken of two or eight points
            for (int j = 0; j <= 12; j++) {
                double v = l.sigma(th * j / 12);
                lo = std::min(lo, v);
                hi = std::max(hi, v);
            }
            s.close("consecutive targets", first * second, got, 0, 3 * tol + got * N / M * th * 1e-4 * (hi - lo));
        }
    }
}
static void production(Src &s) {
    M m = material(s);
    m.th = s.chance(1, 10) ? 0 : s.loguniform(1e-4, 300);
    double cs = s.loguniform(1e-6, 1000), a = s.chance(1, 6) ? 0 : s.loguniform(1, 5000), b;
    switch (s.pick({3, 2, 2, 1})) {
    case 0: b = s.loguniform(1, 5000); break;
    case 1: b = a + s.uniform(-10, 10); break;
    case 2: b = a + (s.coin() ? 5 : -5) * (1 + (s.unit() - 0.5) * 1e-6); break;
    default: b = a;
    }
    b = std::max(0.0, b);
    s.note("%s cs=%.17g rcs_projectile=%.17g rcs_product=%.17g", m.str().c_str(), cs, a, b);
    s.nontrivial();
    // (exp(-a t)-exp(-b t))/(b-a), written without cancellation
    double t = 6.022140857 * m.th / m.ref().M * 1e-4, x = std::fabs(a - b) * t;
    double want = cs * t * std::exp(-std::min(a, b) * t) * (x < 1e-8 ? 1 - x / 2 : -std::expm1(-x) / x);
    double got = catima::production_rate(cs, a, b, m.lib());
    double tol = 1e-9;
    if (std::fabs(a - b) < 5.0001) s.label("nearly equal"), tol += std::fabs(std::expm1(std::fabs(x)));
    if (std::fabs(a - b) > 4.9999) tol += 1e-14 / std::max(1e-12, std::fabs(std::expm1(-std::fabs(x))));
    s.close("production_rate", got, want, tol, 1e-300);
    s.check(got >= 0, "production", "negative production %g", got);
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C18", {
        {"kox", kox, 100000, 2000000, "the cross section and the elementary rates against the reference; all non-trivial"},
        {"survival", survival, 5000, 100000, "survival behind random targets against the averaged reference cross section; non-trivial when defined"},
        {"production", production, 100000, 2000000, "production rates against the solution of the equations, also where both loss cross sections meet; all non-trivial"},
    }});
}
