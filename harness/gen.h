// Generators of projectiles, materials, configurations, energies and thicknesses.
#pragma once
#include "pbt.h"
#include "ref.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/material_database.h"
#include "catima/storage.h"
#include "catima/nucdata.h"
#include "catima/reactions.h"

namespace gen {
using pbt::Src;
using pbt::fmt;

// ---- projectile ------------------------------------------------------------------
struct P {
    double A, Z, Q; // Q=0: not given
    catima::Projectile lib(double T = 0) const { return catima::Projectile(A, Z, Q, T); }
    ref::Proj ref() const { return {A, Z, Q == 0 ? Z : Q}; }
    std::string str() const { return fmt("projectile A=%.17g Z=%g Q=%.17g", A, Z, Q); }
};

inline int proj_z(Src &s, int zmax = 108) {
    static const int common[] = {1, 2, 6, 3, 8, 18, 26, 36, 54, 79, 82, 92};
    static const int edge[] = {1, 2, 3, 16, 19, 20, 28, 29, 91, 92, 93, 94, 97, 98, 107, 108};
    int z;
    switch (s.pick({4, 3, 4, 2})) {
    case 0: z = common[s.draw(11)]; break;
    case 1: z = s.integer(1, 10); break;
    case 2: z = s.integer(1, 108); break;
    default: z = edge[s.draw(15)];
    }
    return std::min(z, zmax);
}
inline P proj(Src &s, int zmax = 108, bool charge = true) {
    P p;
    p.Z = proj_z(s, zmax);
    double w = ref::weight[(int)p.Z];
    switch (s.pick({5, 3, 2})) {
    case 0: p.A = w; break;
    case 1: p.A = std::max(1.0, std::round(w) + s.integer(0, 12) - 6); break;
    default: p.A = w * s.uniform(0.85, 1.2);
    }
    p.Q = 0;
    if (charge) switch (s.pick({6, 2, 1})) {
        case 0: break;
        case 1: p.Q = s.integer(1, (int)p.Z); break;
        default: p.Q = std::max(0.01, s.uniform(0.1, 1) * p.Z);
        }
    s.note("%s", p.str().c_str());
    return p;
}

// ---- material ---------------------------------------------------------------------
struct El {
    double A; // 0: natural weight
    int Z;
    double n;
};
struct M {
    std::vector<El> e;
    double rho = 1, th = 0, I = 0;
    int compound = 0; // number in the data base, or 0
    bool fractions = false;

    catima::Material lib() const {
        catima::Material m;
        if (compound)
            m = catima::get_material(compound);
        else {
            for (auto &x : e) m.add_element(x.A, x.Z, x.n);
            m.calculate();
        }
        m.density(rho).thickness(th);
        if (I > 0) m.I(I);
        return m;
    }
    ref::Mat ref() const {
        ref::Mat r;
        r.rho = rho;
        r.th = th;
        r.I = I;
        double sum = 0;
        for (auto &x : e) {
            double A = x.A > 0 ? x.A : ref::weight[x.Z];
            r.e.push_back({A, x.Z, 0, 0});
            sum += fractions ? x.n / A : x.n * A;
        }
        r.M = fractions ? 1 / sum : sum;
        for (size_t i = 0; i < e.size(); i++) {
            auto &t = r.e[i];
            t.w = fractions ? e[i].n : e[i].n * t.A / r.M;
            t.n = fractions ? e[i].n * r.M / t.A : e[i].n;
        }
        return r;
    }
    std::string str() const {
        std::string r = compound ? fmt("compound %d {", compound) : std::string("material {");
        for (auto &x : e) r += fmt("{%.17g,%d,%.17g}", x.A, x.Z, x.n);
        return r + fmt("} density=%.17g thickness=%.17g I=%.17g", rho, th, I);
    }
};

inline M compound(int id) {
    M m;
    m.compound = id;
    m.fractions = true;
    for (int i = 0; i < ref::n_compounds; i++)
        if (ref::compounds[i].id == id) {
            m.e.push_back({ref::compounds[i].A, ref::compounds[i].Z, ref::compounds[i].stn});
            m.rho = ref::compounds[i].density;
            if (ref::compounds[i].stn >= 1) m.fractions = false;
        }
    return m;
}

inline int target_z(Src &s, int zmax = 98) {
    static const int common[] = {6, 1, 2, 4, 7, 8, 13, 14, 26, 29, 79, 82, 92};
    static const int edge[] = {1, 2, 3, 4, 5, 6, 7, 32, 91, 92, 93, 96, 97, 98};
    int z;
    switch (s.pick({4, 4, 2})) {
    case 0: z = common[s.draw(12)]; break;
    case 1: z = s.integer(1, 98); break;
    default: z = edge[s.draw(13)];
    }
    return std::min(z, zmax);
}
inline El element(Src &s, double n, int zmax = 98) {
    El x;
    x.Z = target_z(s, zmax);
    double w = ref::weight[x.Z];
    switch (s.pick({6, 2, 1})) {
    case 0: x.A = 0; break;
    case 1: x.A = std::max(1.0, std::round(w) + s.integer(0, 6) - 3); break;
    default: x.A = std::max(1.0, w * s.uniform(0.9, 1.1));
    }
    x.n = n;
    return x;
}
struct MOpt {
    bool compounds = true, single = true, multi = true, ipot = true, density = true;
    int zmax = 98;
};
inline M material(Src &s, MOpt o = MOpt()) {
    M m;
    switch (s.pick({o.single ? 5 : 0, o.compounds ? 3 : 0, o.multi ? 4 : 0, o.multi ? 3 : 0})) {
    case 0:
        m.e.push_back(element(s, 1.0, o.zmax));
        m.rho = ref::density[std::min(98, m.e[0].Z)];
        break;
    case 1: m = compound(s.integer(201, 349)); break;
    case 2: {
        int k = s.integer(2, 5);
        for (int i = 0; i < k; i++) {
            double n = s.chance(1, 5) ? s.uniform(1, 20) : s.integer(1, 12);
            m.e.push_back(element(s, n, o.zmax));
        }
        break;
    }
    default: {
        int k = s.integer(2, 6);
        std::vector<double> w(k);
        double sum = 0;
        for (auto &x : w) sum += x = s.loguniform(1e-3, 1);
        m.fractions = true;
        for (auto x : w) m.e.push_back(element(s, x / sum, o.zmax));
    }
    }
    if (o.density && s.chance(1, 3)) m.rho = s.loguniform(1e-5, 25);
    if (!(m.rho > 0)) m.rho = 1;
    if (o.ipot && s.chance(1, 6)) { // around the mean potential of the mixture
        double a = 0, b = 0;
        for (auto &x : m.ref().e) {
            a += x.w * x.Z / x.A * std::log(ref::ipot[x.Z]);
            b += x.w * x.Z / x.A;
        }
        m.I = std::exp(a / b) * s.uniform(0.7, 1.5);
    }
    return m;
}

// ---- configuration ------------------------------------------------------------------
struct C {
    int z_eff = 1, corr = 0, calc = 1, low = 0, scat = 255;
    double factor = 1;
    catima::Config lib() const {
        catima::Config c;
        c.z_effective = (unsigned char)z_eff;
        c.corrections = (unsigned char)corr;
        c.calculation = (unsigned char)calc;
        c.low_energy = (unsigned char)low;
        c.scattering = (unsigned char)scat;
        c.scattering_factor = factor;
        return c;
    }
    ref::Conf ref() const {
        ref::Conf c;
        c.z_eff = z_eff;
        c.corr = corr;
        c.calc = calc;
        c.low = low;
        c.scat = scat;
        c.factor = factor;
        return c;
    }
    std::string str() const { return fmt("config z_eff=%d corrections=%d calculation=%d low_energy=%d scattering=%d factor=%.17g", z_eff, corr, calc, low, scat, factor); }
};
// models usable at every energy for this projectile (hubert gives 0 below 2.5 MeV/u, global needs an external library for Z>28)
inline C config(Src &s, double pz, bool any_scattering = true) {
    C c;
    if (s.chance(1, 2)) {
        switch (s.pick({5, 3, 3, 2, 3, 3, 1})) {
        case 0: c.z_eff = 1; break;
        case 1: c.z_eff = 0; break;
        case 2: c.z_eff = 2; break;
        case 3: c.z_eff = 3; break;
        case 4: c.z_eff = 4; break;
        case 5: c.z_eff = 5; break;
        default: c.z_eff = pz < 29 ? 6 : 5;
        }
        if (s.chance(1, 2)) c.corr = s.integer(0, 15);
        c.calc = s.chance(1, 3) ? 0 : 1;
        c.low = s.chance(1, 3) ? 1 : 0;
    }
    if (any_scattering && s.chance(1, 2)) {
        static const int sc[] = {255, 0, 1, 2};
        c.scat = sc[s.draw(3)];
        if (s.chance(1, 3)) c.factor = s.loguniform(0.1, 10);
    }
    return c;
}

// ---- energy -------------------------------------------------------------------------
inline double energy(Src &s, double lo = 1e-3, double hi = 1e7) {
    double T = 0;
    switch (s.pick({5, 3, 3, 2, 1, 2})) {
    case 0: T = s.loguniform(1, 3000); break;
    case 1: T = s.loguniform(1e-3, 1e7); break;
    case 2: {
        static const double b[] = {30, 10, 50000, 1, 2.5, 2000, 0.025, 0.001, 7.8};
        static const double d[] = {0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 0.05, -0.05};
        T = b[s.draw(8)];
        T *= 1 + d[s.draw(8)];
        break;
    }
    case 3: {
        T = ref::node(s.integer(0, 599));
        static const double d[] = {0, 1e-15, -1e-15, 1e-9, -1e-9};
        T *= 1 + d[s.draw(4)];
        break;
    }
    case 4: T = s.coin() ? hi : lo; break;
    default: { // round numbers
        static const double f[] = {100, 1, 10, 1000, 0.1};
        static const int m[] = {1, 2, 3, 5};
        T = f[s.draw(4)] * (s.coin() ? s.integer(1, 20) : m[s.draw(3)]);
    }
    }
    return std::min(hi, std::max(lo, T));
}

// thickness as a fraction of the range
inline double fraction(Src &s) {
    switch (s.pick({5, 2, 2, 1, 1, 1})) {
    case 0: return s.unit();
    case 1: return s.loguniform(1e-8, 1);
    case 2: return 1 - s.loguniform(1e-8, 0.5);
    case 3: return 1 + s.loguniform(1e-8, 1);
    case 4: return s.uniform(1, 3);
    default: return 0;
    }
}

// relative distance to the nearest jump of the stopping power parametrisations for this material
inline double kink(const ref::Proj &p, double T, const ref::Mat &m, const ref::Conf &c) {
    double d = 1, g = ref::gamma(T), eta = std::sqrt(g * g - 1);
    auto near = [&](double a, double b) { d = std::min(d, std::fabs(a / b - 1)); };
    near(eta, 0.13);
    near(T, 10);
    near(T, 30);
    near(T, 50000);
    near(T, 0.025);
    if (c.z_eff == 3) near(T, 2.5);
    if (c.z_eff == 6) near(T, 2000), near(T, 30);
    double x = std::log(eta) / 2.3025851;
    for (auto &e : m.e) {
        double v = eta / ref::alpha / std::sqrt((double)e.Z);
        near(v, 1);
        near(v, 4);
        int i = std::min(e.Z, 97) - 1;
        d = std::min(d, std::fabs(x - ref::de_x0[i]));
        d = std::min(d, std::fabs(x - ref::de_x1[i]));
        double eps = ref::reduced_energy(p, T, e.Z, e.A);
        near(eps, 30);
        if (T < 31) d = std::min(d, ref::srim_kink((int)p.Z, e.Z, T));
    }
    return d;
}

inline void reset() {
    catima::_storage.Reset();
    catima::default_config = catima::Config();
}
} // namespace gen
