// C09: effective charge models.
#include "gen.h"
using namespace gen;

static void models(Src &s) {
    P p = proj(s);
    El e = element(s, 1);
    C c;
    c.z_eff = s.integer(0, 6);
    double T = energy(s);
    if (c.z_eff == 6 && p.Z > 28 && T >= 30 && T <= 2000) c.z_eff = 1;
    s.note("target Z=%d, T=%.17g, model %d", e.Z, T, c.z_eff);
    if (c.z_eff == 3 && std::fabs(T / 2.5 - 1) < 1e-12) s.skip();
    s.nontrivial();
    s.label(fmt("model %d", c.z_eff) == "model 0" ? "charge state" : "model");
    catima::Target t;
    t.A = e.A > 0 ? e.A : ref::weight[e.Z];
    t.Z = e.Z;
    double got = catima::z_effective(p.lib(T), t, c.lib()), want = ref::z_eff(c.z_eff, p.Z, p.ref().Q, T, e.Z);
    s.close("z_effective", got, want, 1e-10, 3e-10 * p.Z);
    if (c.z_eff == 0) s.check(got == (p.Q == 0 ? p.Z : p.Q), "charge", "effective charge %g for the charge state %g", got, p.Q);
}
static void functions(Src &s) {
    int pz = proj_z(s), tz = s.chance(1, 6) ? s.integer(93, 120) : target_z(s);
    double T = energy(s), b = ref::beta(T), tol = 3e-10 * pz;
    s.note("projectile Z=%d target Z=%d T=%.17g", pz, tz, T);
    s.nontrivial();
    s.close("Pierce-Blann", catima::z_eff_Pierce_Blann(pz, b), ref::z_eff(1, pz, pz, T, tz), 1e-10, tol);
    s.close("Anthony-Lanford", catima::z_eff_Anthony_Landford(pz, b, tz), ref::z_eff(2, pz, pz, T, tz), 1e-10, tol);
    if (std::fabs(T / 2.5 - 1) > 1e-12) s.close("Hubert", catima::z_eff_Hubert(pz, T, tz), ref::z_eff(3, pz, pz, T, tz), 1e-10, tol);
    s.close("Winger", catima::z_eff_Winger(pz, b, tz), ref::z_eff(4, pz, pz, T, tz), 1e-10, tol);
    s.close("Schiwietz", catima::z_eff_Schiwietz(pz, b, tz), ref::z_eff(5, pz, pz, T, tz), 1e-10, tol);
    if (pz < 29 || T < 30 || T > 2000) s.close("global", catima::z_eff_global(pz, T, tz), ref::z_eff(6, pz, pz, T, tz), 1e-10, tol);
}
// shape: not above the nuclear charge, full stripping at high energy, rising with energy
static void shape(Src &s) {
    int pz = proj_z(s), model = s.integer(1, 3);
    El e = element(s, 1);
    catima::Target t;
    t.A = ref::weight[e.Z];
    t.Z = e.Z;
    C c;
    c.z_eff = model;
    double T = energy(s), T2 = T * (1 + s.loguniform(1e-3, 10));
    s.note("projectile Z=%d target Z=%d T=%.17g and %.17g, model %d", pz, e.Z, T, T2, model);
    s.nontrivial();
    catima::Projectile p(ref::weight[pz], pz);
    double a = catima::z_effective(p(T), t, c.lib()), b = catima::z_effective(p(T2), t, c.lib());
    s.check(a <= pz * (1 + 1e-12), "bound", "effective charge %g above %d", a, pz);
    double h = catima::z_effective(p(1e6), t, c.lib());
    s.check(std::fabs(h / pz - 1) < 0.02, "limit", "effective charge %g at 1 TeV/u", h);
    s.check(b >= a - pz * (1e-9), "rise", "effective charge falls from %g to %g", a, b);
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C09", {
        {"models", models, 1000000, 10000000, "projectile with or without charge state, target, energy, model through the configuration, against the reference; all non-trivial"},
        {"functions", functions, 500000, 5000000, "every model function on its own; all non-trivial"},
        {"shape", shape, 500000, 5000000, "bound, rise with energy and high-energy limit of the exponential models; all non-trivial"},
    }});
}
