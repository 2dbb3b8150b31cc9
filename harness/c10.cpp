// C10: energy-loss straggling per length.
#include "gen.h"
using namespace gen;

static bool jump(const P &p, double T, const ref::Mat &m, const C &c) {
    auto near = [&](double v) { return std::fabs(T / v - 1) < 1e-9; };
    if (near(1) || near(30) || (c.z_eff == 3 && near(2.5)) || (c.z_eff == 6 && near(2000))) return true;
    return false;
}
static void elements(Src &s) {
    P p = proj(s);
    El e = element(s, 1);
    C c = config(s, p.Z);
    double T = energy(s);
    if (c.z_eff == 6 && p.Z > 28) c.z_eff = 1;
    s.note("target A=%.17g Z=%d, T=%.17g, %s", e.A, e.Z, T, c.str().c_str());
    catima::Target t;
    t.A = e.A > 0 ? e.A : ref::weight[e.Z];
    t.Z = e.Z;
    ref::Mat m;
    m.e.push_back({t.A, t.Z, 1, 1});
    if (jump(p, T, m, c)) s.skip();
    s.nontrivial();
    if (c.calc == 0) s.label("additional shell term");
    if (T < 30) s.label("Firsov limit applies");
    double got = catima::dedx_variance(p.lib(T), t, c.lib()), want = ref::omega2(p.ref(), T, t.Z, t.A, c.ref());
    double ze = ref::z_eff(c.z_eff, p.Z, p.ref().Q, T, t.Z), g = ref::gamma(T);
    double scale = ref::K_omega * std::fabs(ze) * p.Z * t.Z / t.A * g * g;
    s.close("dedx_variance", got, want, 1e-9, 1e-9 * scale);
    s.check(got >= 0, "sign", "straggling %g is negative", got);
    if (T < 30)
        s.check(got <= catima::energy_straggling_firsov(p.Z, T, t.Z, t.A) * (1 + 1e-12), "firsov", "straggling %g above the Firsov value", got);
}
static void firsov(Src &s) {
    int z1 = proj_z(s), z2 = target_z(s);
    double m2 = ref::weight[z2] * s.uniform(0.9, 1.1), T = energy(s);
    s.note("Z1=%d Z2=%d M2=%.17g T=%.17g", z1, z2, m2, T);
    s.nontrivial();
    s.close("energy_straggling_firsov", catima::energy_straggling_firsov(z1, T, z2, m2),
            4.8184e-3 * std::pow(z1 + z2, 8.0 / 3) / m2 * ref::beta2(T) / (ref::alpha * ref::alpha), 1e-8);
}
static void materials(Src &s) {
    P p = proj(s);
    M m = material(s);
    C c = config(s, p.Z);
    double T = energy(s);
    if (c.z_eff == 6 && p.Z > 28) c.z_eff = 1;
    s.note("%s, T=%.17g, %s", m.str().c_str(), T, c.str().c_str());
    auto rm = m.ref();
    if (jump(p, T, rm, c)) s.skip();
    s.nontrivial();
    double scale = 0, g = ref::gamma(T);
    for (auto &x : rm.e) {
        double ze = ref::z_eff(c.z_eff, p.Z, p.ref().Q, T, x.Z);
        scale += x.w * ref::K_omega * std::fabs(ze) * p.Z * x.Z / x.A * g * g;
    }
    s.close("domega2dx", catima::domega2dx(p.lib(T), m.lib(), c.lib()), ref::omega2(p.ref(), T, rm, c.ref()), 1e-9, 1e-9 * scale);
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C10", {
        {"elements", elements, 600000, 10000000, "random projectile, element, energy over ten decades, configuration, against the reference; cases not next to a regime border are non-trivial"},
        {"firsov", firsov, 200000, 3000000, "Firsov value on its own; all non-trivial"},
        {"materials", materials, 400000, 8000000, "straggling of mixtures as mass-weighted sum; non-trivial as above"},
    }});
}
