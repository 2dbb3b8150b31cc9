// C07: Bethe stopping power with every correction switch.
#include "gen.h"
using namespace gen;

// the regime in which the function is used: above 10 MeV/u it enters the stopping power
static double bethe_energy(Src &s) { return energy(s, 10.0000001, 1e7); }

static void elements(Src &s) {
    P p = proj(s);
    El e = element(s, 1);
    C c = config(s, p.Z);
    double T = bethe_energy(s), I = s.chance(1, 4) ? s.uniform(15, 1000) : 0;
    if (c.z_eff == 6 && p.Z > 28) s.skip();
    s.note("target A=%.17g Z=%d, T=%.17g, I=%.17g, %s", e.A, e.Z, T, I, c.str().c_str());
    ref::Mat m;
    double A = e.A > 0 ? e.A : ref::weight[e.Z];
    m.e.push_back({A, e.Z, 1, 1});
    auto rc = c.ref();
    auto rp = p.ref();
    if (kink(rp, T, m, rc) < 1e-9) s.skip();
    double want = ref::bethe(rp, T, e.Z, A, rc, I);
    catima::Target t;
    t.A = A;
    t.Z = e.Z;
    double got = catima::bethek_dedx_e(p.lib(T), t, c.lib(), I);
    // the correction terms can nearly cancel, so the tolerance is relative to the uncorrected value
    ref::Conf plain = rc;
    plain.corr = 15;
    double scale = std::fabs(ref::bethe(rp, T, e.Z, A, plain, I)) + std::fabs(want);
    s.nontrivial();
    if (c.corr) s.label("corrections switched off");
    if (T > 50000) s.label("high energy terms");
    s.close("bethek_dedx_e", got, want, 0, 1e-9 * scale);
}

static void materials(Src &s) {
    P p = proj(s);
    M m = material(s);
    C c = config(s, p.Z);
    double T = bethe_energy(s);
    s.note("%s, T=%.17g, %s", m.str().c_str(), T, c.str().c_str());
    auto rm = m.ref();
    auto rc = c.ref();
    auto rp = p.ref();
    if (c.z_eff == 6 && p.Z > 28) s.skip();
    if (kink(rp, T, rm, rc) < 1e-9) s.skip();
    double want = ref::bethe(rp, T, rm, rc);
    ref::Conf plain = rc;
    plain.corr = 15;
    double scale = std::fabs(ref::bethe(rp, T, rm, plain)) + std::fabs(want);
    s.nontrivial();
    if (m.I > 0) s.label("ionisation potential given");
    s.close("bethek_dedx_e", catima::bethek_dedx_e(p.lib(T), m.lib(), c.lib()), want, 0, 1e-9 * scale);
    if (T >= 30) // the full stopping power is this plus the nuclear part
        s.close("dedx", catima::dedx(p.lib(T), m.lib(), c.lib()), want + ref::nuclear(rp, T, rm), 0, 1e-9 * scale);
}

// switching a correction changes the result exactly by that correction, for any setting of the others
static void switches(Src &s) {
    P p = proj(s);
    El e = element(s, 1);
    C c;
    c.z_eff = (int)s.draw(1);
    c.corr = s.integer(0, 15);
    double T = bethe_energy(s);
    s.note("target A=%.17g Z=%d, T=%.17g, %s", e.A, e.Z, T, c.str().c_str());
    ref::Mat m;
    double A = e.A > 0 ? e.A : ref::weight[e.Z];
    m.e.push_back({A, e.Z, 1, 1});
    auto rp = p.ref();
    if (kink(rp, T, m, c.ref()) < 1e-9) s.skip();
    catima::Target t;
    t.A = A;
    t.Z = e.Z;
    auto f = [&](int corr) {
        C x = c;
        x.corr = corr;
        return catima::bethek_dedx_e(p.lib(T), t, x.lib(), 0);
    };
    double on = f(c.corr), g = ref::gamma(T), b2 = ref::beta2(T), eta = std::sqrt(b2) * g;
    double ze = ref::z_eff(c.z_eff, p.Z, rp.Q, T, e.Z), f1 = ref::K_dedx * ze * ze * e.Z / (b2 * A);
    double base = std::log(2e6 * ref::e_mass * b2 * g * g / ref::ipot[e.Z]) - b2;
    double barkas = ref::barkas(ze, eta, e.Z), sh = eta >= 0.13 ? ref::shell(eta, ref::ipot[e.Z]) / e.Z : 0;
    double scale = std::fabs(on) + f1 * (std::fabs(base) + 10);
    s.nontrivial();
    for (int bit : {1, 2, 4, 8}) {
        if (c.corr & bit) continue;
        double diff = on - f(c.corr | bit), want = 0;
        if (bit == 1) want = f1 * (base - ((c.corr & 4) ? 0 : sh)) * (barkas - 1);
        if (bit == 2) want = f1 * ref::ls(rp, T);
        if (bit == 4) want = -f1 * sh * ((c.corr & 1) ? 1 : barkas);
        if (bit == 8) want = T > 50000 ? ref::pair_production(rp, T, e.Z, A) + ref::bremsstrahlung(rp, T, e.Z, A) : 0;
        s.close("correction", diff, want, 1e-9, 1e-9 * scale);
    }
}

// the pieces on their own
static void pieces(Src &s) {
    int z = target_z(s);
    double T = s.chance(1, 2) ? energy(s) : s.loguniform(1, 1e6);
    double ze = s.uniform(0.01, 110);
    s.note("target Z=%d T=%.17g zeff=%.17g", z, T, ze);
    double b = ref::beta(T), g = ref::gamma(T), eta = b * g, x = std::log(eta) / 2.3025851;
    s.nontrivial();
    double v = eta / ref::alpha / std::sqrt((double)z);
    if (std::fabs(v - 1) > 1e-9 && std::fabs(v - 4) > 1e-9) {
        double k = catima::bethek_barkas(ze, eta, z);
        s.close("bethek_barkas", k, ref::barkas(ze, eta, z), 1e-11);
        s.check(k >= 1, "barkas-sign", "Barkas factor %g below 1", k);
    }
    int i = std::min(z, 97) - 1;
    // beta is rounded to 1, so gamma is only as good as 1-beta
    double tol = 1e-9 + 1e-15 * g * g;
    if (std::fabs(x - ref::de_x0[i]) > 1e-8 + tol && std::fabs(x - ref::de_x1[i]) > 1e-8 + tol && T < 1e7) {
        double d = catima::bethek_density_effect(b, z);
        s.close("bethek_density_effect", d, ref::density_effect(T, z), 1e-9, 20 * tol);
    }
}
static void pieces_pb(Src &s) {
    P p = proj(s);
    El e = element(s, 1);
    double T = s.loguniform(1000, 1e7);
    double A = e.A > 0 ? e.A : ref::weight[e.Z];
    s.note("target A=%.17g Z=%d T=%.17g", A, e.Z, T);
    catima::Target t;
    t.A = A;
    t.Z = e.Z;
    s.nontrivial();
    double scale = ref::K_dedx * ref::alpha * ref::alpha * p.Z * p.Z * e.Z * e.Z * ref::gamma(T) / A;
    double pp = catima::pair_production(p.lib(T), t);
    s.close("pair_production", pp, ref::pair_production(p.ref(), T, e.Z, A), 1e-9, 1e-10 * scale);
    s.check(pp >= 0, "sign", "pair production %g", pp);
    s.close("bremsstrahlung", catima::bremsstrahlung(p.lib(T), t), ref::bremsstrahlung(p.ref(), T, e.Z, A), 1e-10);
}

// the density correction is never negative and sets in without a jump
static void density_sign(Src &s) {
    int z = s.integer(1, 98), i = std::min(z, 97) - 1;
    double x = s.chance(1, 2) ? ref::de_x0[i] + s.loguniform(1e-6, 1) : s.uniform(-2, 4);
    double bg = std::pow(10.0, x);
    double b = bg / std::sqrt(1 + bg * bg);
    double d = catima::bethek_density_effect(b, z);
    s.note("target Z=%d log10(beta gamma)=%.17g density effect %.17g", z, x, d);
    s.nontrivial();
    std::string key = fmt("density-effect-Z%d", z);
    s.check(d >= -0.05, key.c_str(), "density effect of Z=%d is %g at log10(beta gamma)=%g", z, d, x);
}
// directed: just above the onset for every element
static void density_onset(Src &s) {
    int z = s.integer(1, 98), i = std::min(z, 97) - 1;
    double f[2];
    for (int k = 0; k < 2; k++) {
        double bg = std::pow(10.0, ref::de_x0[i] + (k ? 1e-7 : -1e-7));
        f[k] = catima::bethek_density_effect(bg / std::sqrt(1 + bg * bg), z);
    }
    s.note("target Z=%d density effect below and above the onset: %g %g", z, f[0], f[1]);
    s.nontrivial();
    std::string key = fmt("density-effect-Z%d", z);
    s.check(std::fabs(f[1] - f[0]) < 0.1, key.c_str(), "density effect of Z=%d jumps from %g to %g at its onset", z, f[0], f[1]);
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C07", {
        {"elements", elements, 400000, 8000000, "random projectile, element, energy above 10 MeV/u, configuration, against the reference formula; every case not next to a jump of the parametrisation is non-trivial"},
        {"materials", materials, 150000, 3000000, "random material (element, compound, mixture, given ionisation potential) against the reference formula; non-trivial as above"},
        {"switches", switches, 150000, 3000000, "each correction that is on is switched off separately, the difference must be that correction; all cases non-trivial"},
        {"pieces", pieces, 200000, 4000000, "Barkas factor and density effect on their own; all non-trivial"},
        {"pair-brems", pieces_pb, 200000, 4000000, "pair production and bremsstrahlung on their own; all non-trivial"},
        {"density-sign", density_sign, 200000, 2000000, "density effect is not negative; all non-trivial"},
        {"density-onset", density_onset, 3000, 10000, "density effect continuous at the onset; elements drawn at random, all of them occur"},
    }});
}
