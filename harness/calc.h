// Shared pieces of the checks of whole calculations.
#pragma once
#include "gen.h"

namespace gen {

struct Case {
    P p;
    M m;
    C c;
    double T = 0, f = 0;
    catima::Projectile lp() const { return p.lib(T); }
    std::string str() const { return fmt("%s, T=%.17g, %s", m.str().c_str(), T, c.str().c_str()); }
};

// A configuration usable from 1 keV/u on. The Hubert charge is zero below 2.5 MeV/u (no electronic problem there:
// it is only used above 10 MeV/u for the stopping power, but the straggling is zero below 2.5).
inline C calc_config(Src &s, double pz, bool any_scattering = true) {
    C c = config(s, pz, any_scattering);
    if (c.z_eff == 6 && pz > 28) c.z_eff = 1;
    return c;
}

// Z of projectile such that the Bethe formula stays positive for every generated target is not guaranteed for all
// models; the caller checks with positive().
inline bool positive(const P &p, const M &m, const C &c) {
    auto rp = p.ref();
    auto rm = m.ref();
    auto rc = c.ref();
    for (double T : {10.5, 12.0, 15.0, 20.0, 25.0, 29.9, 40.0, 60.0, 100.0, 1000.0})
        if (!(ref::dedx(rp, T, rm, rc) > 0)) return false;
    return true;
}

// a fixed charge state so low that the stopping power drops at 30 MeV/u by more than a factor of 14 within one step of the
// table: the cubic spline through the ranges overshoots and folds there (known finding of C04), and the inverse of
// the range is not unique
inline bool folded(const P &p, const M &m, const C &c) {
    if (c.z_eff != 0) return false;
    double a = ref::dedx(p.ref(), 28.5, m.ref(), c.ref()), b = ref::dedx(p.ref(), 30.2, m.ref(), c.ref());
    return !(a < 12 * b && b < 12 * a);
}

// a fixed charge state far from equilibrium makes the transition between 10 and 30 MeV/u steep, and the density effect of
// Z=85 and 87 has a jump (known finding of C07): tables and quadrature are less accurate there
inline bool smooth(const P &p, const M &m, const C &c) {
    if (c.z_eff == 0 && p.Q > 0) return false;
    for (auto &x : m.e)
        if (x.Z == 85 || x.Z == 87) return false;
    return true;
}

// draws projectile, material, configuration, energy and a thickness as fraction of the range
inline Case draw_case(Src &s, bool thickness = true, MOpt o = MOpt(), bool any_scattering = true, double Tmin = 1e-3, double Tmax = 1e7) {
    Case k;
    k.p = proj(s);
    k.m = material(s, o);
    k.c = calc_config(s, k.p.Z, any_scattering);
    k.T = energy(s, Tmin, Tmax);
    if (thickness) k.f = fraction(s);
    return k;
}
// thickness from the range of the library itself (only used to aim)
inline void set_thickness(Case &k) {
    double r = catima::range(k.lp(), k.m.lib(), k.c.lib());
    if (!(r >= 0) || !(r < 1e30)) r = 1;
    k.m.th = k.f * r;
}

} // namespace gen

// ---- comparing results ---------------------------------------------------------------
namespace gen {
struct Field {
    const char *name;
    double catima::Result::*f;
};
inline const std::vector<Field> &fields() {
    using R = catima::Result;
    static const std::vector<Field> v{{"Ein", &R::Ein}, {"Eout", &R::Eout}, {"Eloss", &R::Eloss}, {"range", &R::range}, {"dEdxi", &R::dEdxi}, {"dEdxo", &R::dEdxo}, {"sigma_E", &R::sigma_E}, {"sigma_a", &R::sigma_a}, {"sigma_r", &R::sigma_r}, {"sigma_x", &R::sigma_x}, {"cov", &R::cov}, {"tof", &R::tof}, {"sp", &R::sp}};
    return v;
}
// all fields equal up to rel
inline void same_result(Src &s, const char *what, const catima::Result &a, const catima::Result &b, double rel = 1e-12) {
    for (auto &f : fields()) {
        std::string n = std::string(what) + " " + f.name;
        double scale = f.name == std::string("Eloss") ? rel * b.Ein : 0;
        s.close(n.c_str(), a.*f.f, b.*f.f, rel, scale);
    }
}
inline std::string str(const catima::Result &r) {
    std::string o;
    for (auto &f : fields()) o += fmt("%s=%.9g ", f.name, r.*f.f);
    return o;
}
} // namespace gen
