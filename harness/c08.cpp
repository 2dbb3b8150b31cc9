// C08: SRIM stopping power below 10 MeV/u, blend up to 30 MeV/u, nuclear stopping.
#include "gen.h"
#include "catima/srim.h"
using namespace gen;

static double low_T(Src &s) {
    switch (s.pick({4, 3, 2})) {
    case 0: return s.loguniform(1e-3, 40);
    case 1: return energy(s, 1e-6, 40);
    default: return s.loguniform(1e-6, 40);
    }
}

static void srim_elements(Src &s) {
    int pz = proj_z(s), tz = target_z(s);
    bool v95 = s.coin();
    double T = low_T(s);
    s.note("projectile Z=%d target Z=%d T=%.17g version %d", pz, tz, T, v95 ? 95 : 85);
    if (std::fabs(T / 0.025 - 1) < 1e-12 || ref::srim_kink(pz, tz, T) < 1e-9) s.skip();
    s.nontrivial();
    s.label(pz == 1 ? "proton" : pz == 2 ? "helium" : "heavy ion");
    double got = catima::srim_dedx_e(pz, tz, T, v95);
    s.close("srim_dedx_e", got, ref::srim(pz, tz, T, v95), 1e-9);
    s.check(got > 0, "sign", "stopping power %g", got);
}
static void low_materials(Src &s) {
    P p = proj(s);
    M m = material(s);
    C c = config(s, p.Z);
    double T = low_T(s);
    s.note("%s, T=%.17g, %s", m.str().c_str(), T, c.str().c_str());
    auto rm = m.ref();
    if (kink(p.ref(), T, rm, c.ref()) < 1e-9) s.skip();
    s.nontrivial();
    s.close("sezi_dedx_e", catima::sezi_dedx_e(p.lib(T), m.lib(), c.lib()), ref::low_energy(p.ref(), T, rm, c.ref()), 1e-9);
}
static void nuclear(Src &s) {
    P p = proj(s);
    M m = material(s);
    double T = s.chance(1, 3) ? s.loguniform(1e-9, 1) : energy(s, 1e-6);
    s.note("%s, T=%.17g", m.str().c_str(), T);
    auto rm = m.ref();
    if (kink(p.ref(), T, rm, C().ref()) < 1e-9) s.skip();
    s.nontrivial();
    double got = catima::dedx_n(p.lib(T), m.lib());
    s.close("dedx_n", got, ref::nuclear(p.ref(), T, rm), 1e-9);
    s.check(got > 0, "sign", "nuclear stopping power %g", got);
    catima::Target t;
    t.A = rm.e[0].A;
    t.Z = rm.e[0].Z;
    s.close("dedx_n element", catima::dedx_n(p.lib(T), t), ref::nuclear(p.ref(), T, t.Z, t.A), 1e-9);
    s.close("reduced_energy_loss_unit", catima::reduced_energy_loss_unit(p.lib(T), t), ref::reduced_energy(p.ref(), T, t.Z, t.A), 1e-11);
}
static void total(Src &s) {
    P p = proj(s);
    M m = material(s);
    C c = config(s, p.Z);
    double T;
    switch (s.pick({4, 2, 2})) {
    case 0: T = s.uniform(9, 31); break;
    case 1: T = low_T(s); break;
    default: T = energy(s);
    }
    if (c.z_eff == 6 && p.Z > 28) c.z_eff = 1;
    s.note("%s, T=%.17g, %s", m.str().c_str(), T, c.str().c_str());
    auto rm = m.ref();
    auto rp = p.ref();
    auto rc = c.ref();
    if (kink(rp, T, rm, rc) < 1e-9) s.skip();
    s.nontrivial();
    s.label(T <= 10 ? "low" : T < 30 ? "blend" : "high");
    ref::Conf plain = rc;
    plain.corr = 15;
    double want = ref::dedx(rp, T, rm, rc), scale = std::fabs(want) + (T > 10 ? std::fabs(ref::bethe(rp, T, rm, plain)) : 0);
    s.close("dedx", catima::dedx(p.lib(T), m.lib(), c.lib()), want, 0, 1e-9 * scale);
}
// no step at the borders of the regimes
static void borders(Src &s) {
    P p = proj(s);
    M m = material(s);
    C c = config(s, p.Z);
    double T = s.coin() ? 10 : 30;
    if (c.z_eff == 6) c.z_eff = 1;
    double d = s.loguniform(1e-13, 1e-7);
    s.note("%s, T=%.17g (1 +- %g), %s", m.str().c_str(), T, d, c.str().c_str());
    auto rm = m.ref();
    s.nontrivial();
    catima::Material lm = m.lib();
    catima::Config lc = c.lib();
    double a = catima::dedx(p.lib(T * (1 - d)), lm, lc), b = catima::dedx(p.lib(T), lm, lc), e = catima::dedx(p.lib(T * (1 + d)), lm, lc);
    // other jumps of the parametrisation may lie there (Barkas factor, srim screening)
    double k = 1;
    for (auto &x : rm.e) {
        double v = std::sqrt(ref::beta2(T)) * ref::gamma(T) / ref::alpha / std::sqrt((double)x.Z);
        k = std::min({k, std::fabs(v - 1), std::fabs(v - 4), ref::srim_kink((int)p.Z, x.Z, T), std::fabs(ref::reduced_energy(p.ref(), T, x.Z, x.A) / 30 - 1)});
    }
    if (k < 1e-5) s.skip();
    ref::Conf plain = c.ref();
    plain.corr = 15;
    double slope = std::fabs(b) + ref::low_energy(p.ref(), T, rm, c.ref()) + std::fabs(ref::bethe(p.ref(), T, rm, plain));
    s.close("dedx below the border", a, b, 0, (20 * d + 1e-10) * slope);
    s.close("dedx above the border", e, b, 0, (20 * d + 1e-10) * slope);
}
static void zero(Src &s) {
    P p = proj(s);
    M m = material(s);
    C c = config(s, p.Z);
    double T = s.coin() ? 0.0 : -s.loguniform(1e-9, 1e3);
    s.note("%s, T=%.17g, %s", m.str().c_str(), T, c.str().c_str());
    s.nontrivial();
    s.check(catima::dedx(p.lib(T), m.lib(), c.lib()) == 0, "zero", "stopping power %g at T=%g", catima::dedx(p.lib(T), m.lib(), c.lib()), T);
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C08", {
        {"srim", srim_elements, 600000, 10000000, "projectile and target charge, energy, coefficient set against the reference parametrisation; cases next to a jump of the parametrisation are skipped, the others non-trivial"},
        {"materials", low_materials, 300000, 5000000, "electronic stopping of a random material at low energy against the mass-weighted reference; non-trivial as above"},
        {"nuclear", nuclear, 300000, 5000000, "nuclear stopping of materials and elements, reduced energy; all non-trivial"},
        {"total", total, 400000, 8000000, "full stopping power in all three energy regimes (labels count them); all non-trivial"},
        {"borders", borders, 200000, 3000000, "values at and around 10 and 30 MeV/u agree; all non-trivial"},
        {"zero", zero, 20000, 200000, "zero and negative energies; all non-trivial"},
    }});
}
