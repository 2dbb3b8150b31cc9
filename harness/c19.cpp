// C19: the C interface returns what the C++ interface returns.
#include "calc.h"
namespace capi {
#include "catima/cwrapper.h"
}
using namespace gen;

struct Tgt {
    double A;
    double Z; // >200: compound
    double th, rho;
};
static catima::Material material_of(const Tgt &t, double rho) {
    catima::Material m;
    if (t.Z > 200)
        m = catima::get_material((int)t.Z);
    else
        m = catima::Material(t.A, (int)t.Z);
    double tab = t.Z > 200 ? m.density() : catima::element_density((int)t.Z);
    m.density(rho > 0 ? rho : tab).thickness(t.th);
    return m;
}
static double frozen_density(int z) {
    if (z < 200) return ref::density[z];
    return compound(z).rho;
}

// a sequence of calls through both interfaces
static void calls(Src &s) {
    reset();
    capi::catima_defaults.z_effective = 1;
    C base; // options of the C++ defaults, not reachable from C
    int n = s.integer(1, 6), targets = 0, models = 0;
    for (int i = 0; i < n; i++) {
        if (s.chance(1, 3)) {
            C c = config(s, 108);
            if (c.z_eff == 6) c.z_eff = 2;
            catima::default_config = c.lib();
            s.note("C++ defaults: %s", c.str().c_str());
        }
        int z = proj_z(s);
        P p;
        p.Z = z;
        p.Q = 0;
        p.A = s.coin() ? ref::weight[z] : std::max(1.0, std::round(ref::weight[z]) + s.integer(-5, 5));
        if (s.chance(1, 2)) {
            static const int models_[] = {1, 0, 2, 3, 4, 5, 6};
            capi::catima_defaults.z_effective = models_[s.draw(z < 29 ? 6 : 5)];
            s.note("catima_defaults.z_effective=%d", capi::catima_defaults.z_effective);
            models++;
        }
        if (capi::catima_defaults.z_effective == 6 && z > 28) capi::catima_defaults.z_effective = 5;
        int ze = capi::catima_defaults.z_effective;
        Tgt t;
        if (s.chance(2, 5)) {
            t.Z = s.integer(201, 349);
            t.A = s.coin() ? 0 : s.uniform(1, 300);
            targets++;
        } else {
            t.Z = target_z(s, 98);
            double w = ref::weight[(int)t.Z];
            t.A = s.coin() ? 0 : std::max(1.0, std::round(w) + s.integer(-3, 3));
            if (t.A != 0) targets++;
        }
        t.rho = s.pick({2, 1, 1, 3});
        t.rho = t.rho == 0 ? -1 : t.rho == 1 ? 0 : t.rho == 2 ? -s.loguniform(1e-3, 1e3) : s.loguniform(1e-5, 25);
        double T = energy(s), f = fraction(s);
        t.th = 0;
        // the expected configuration: the C++ defaults with charge model and scattering replaced
        catima::Config c = catima::default_config;
        c.z_effective = (unsigned char)ze;
        c.scattering = 255;
        catima::Projectile q(p.A, p.Z);
        catima::Material m0 = material_of(t, t.rho);
        double R = catima::range(q(T), m0, c);
        if (!(R > 0 && R < 1e30)) s.skip();
        t.th = f * R;
        m0.thickness(t.th);
        s.close("density of the target", m0.density(), t.rho > 0 ? t.rho : frozen_density((int)t.Z), 1e-14);
        if (s.chance(1, 3)) catima::_storage.Reset();
        s.note("%s T=%.17g target A=%.17g Z=%g thickness=%.17g density=%.17g", p.str().c_str(), T, t.A, t.Z, t.th, t.rho);
        // once more through C++ with something else in between
        if (s.chance(1, 3)) {
            catima::Config o = c;
            o.z_effective = ze == 1 ? 2 : 1;
            o.scattering = 1;
            catima::calculate(q(T), m0, o);
        }
        int fn = s.integer(0, 7);
        double Tin = T, Tout = T * s.uniform(0.05, 1);
        const double tol = 1e-12;
        catima::Material mt = material_of(t, -1); // functions without density
        auto call = [&](int fn) {
            switch (fn) {
            case 0: {
                auto x = capi::catima_calculate(p.A, z, T, t.A, t.Z, t.th, t.rho);
                auto y = catima::calculate(q(T), m0, c);
                s.close("Ein", x.Ein, y.Ein, tol);
                s.close("Eout", x.Eout, y.Eout, tol);
                s.close("Eloss", x.Eloss, y.Eloss, tol, tol * T);
                s.close("range", x.range, y.range, tol);
                s.close("dEdxi", x.dEdxi, y.dEdxi, tol);
                s.close("dEdxo", x.dEdxo, y.dEdxo, tol);
                s.close("sigma_E", x.sigma_E, y.sigma_E, tol);
                s.close("sigma_a", x.sigma_a, y.sigma_a, tol);
                s.close("sigma_r", x.sigma_r, y.sigma_r, tol);
                s.close("tof", x.tof, y.tof, tol);
                break;
            }
            case 1: s.close("catima_Eout", capi::catima_Eout(p.A, z, T, t.A, t.Z, t.th, t.rho), catima::energy_out(q(T), m0, c), tol); break;
            case 2: s.close("catima_range", capi::catima_range(p.A, z, T, t.A, t.Z), catima::range(q(T), mt, c), tol); break;
            case 3: s.close("catima_range_straggling", capi::catima_range_straggling(p.A, z, T, t.A, t.Z), catima::range_straggling(q, T, mt, c), tol); break;
            case 4: s.close("catima_angular_straggling_from_E", capi::catima_angular_straggling_from_E(p.A, z, Tin, Tout, t.A, t.Z), catima::angular_straggling_from_E(q(Tin), Tout, mt, c), tol); break;
            case 5: s.close("catima_energy_straggling_from_E", capi::catima_energy_straggling_from_E(p.A, z, Tin, Tout, t.A, t.Z), catima::energy_straggling_from_E(q, Tin, Tout, mt, c), tol); break;
            case 6: {
                catima::Projectile r = q;
                r.T = T;
                s.close("catima_nonreaction_rate", capi::catima_nonreaction_rate(p.A, z, T, t.A, t.Z, t.th), catima::nonreaction_rate(r, mt, c), tol);
                break;
            }
            default: {
                int k = s.integer(-3, 115);
                s.close("atomic_weight", capi::atomic_weight(k), k > 0 && k < 110 ? ref::weight[k] : 0, 1e-15);
            }
            }
            s.check(capi::catima_defaults.z_effective == ze, "C defaults", "a call changed the C defaults");
        };
        call(fn);
        if (s.coin()) call(s.integer(0, 7));
    }
    if (n > 1 && targets && models) s.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C19", {
        {"calls", calls, 3000, 250000, "A sequence of up to six calls of the C interface, mixed with changes of both defaults and C++ calls, each compared with the C++ call with the expected configuration; non-trivial: several calls, a charge model selected, a target that is not a natural element."},
    }});
}
