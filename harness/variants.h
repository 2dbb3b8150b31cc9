// Loading and comparing copies of the library built with other options.
#pragma once
#include <functional>
#include "variant_input.h"
#include "calc.h"
#include <dlfcn.h>
namespace variants {
using namespace gen;

struct Variant {
    variant_fn f = nullptr;
    void (*reset)() = nullptr;
};
// the shared objects are named in VERIF_VARIANTS as name=path separated by ':'
inline Variant variant(const std::string &name) {
    static std::map<std::string, Variant> v;
    if (v.empty()) {
        std::string e = getenv("VERIF_VARIANTS") ? getenv("VERIF_VARIANTS") : "";
        size_t i = 0;
        while (i < e.size()) {
            size_t j = std::min(e.find(':', i), e.size()), k = e.find('=', i);
            Variant x;
            void *h = dlopen(e.substr(k + 1, j - k - 1).c_str(), RTLD_NOW | RTLD_LOCAL);
            if (h) {
                x.f = (variant_fn)dlsym(h, "variant_eval");
                x.reset = (void (*)())dlsym(h, "variant_reset");
            } else
                fprintf(stderr, "%s\n", dlerror());
            v[e.substr(i, k - i)] = x;
            i = j + 1;
        }
    }
    if (!v[name].f) {
        fprintf(stderr, "variant %s is missing\n", name.c_str());
        abort();
    }
    return v[name];
}
struct Values {
    double v[variant_max];
    const char *n[variant_max];
    int k;
};
inline Values run(const std::string &name, const VariantInput &in, bool reset) {
    Values r;
    auto x = variant(name);
    if (reset) x.reset();
    r.k = x.f(&in, r.v, r.n);
    return r;
}
inline VariantInput input(const Case &k, double T2, double lower) {
    VariantInput in = {};
    in.pA = k.p.A; in.pZ = k.p.Z; in.pQ = k.p.Q;
    in.T = k.T; in.T2 = T2; in.lower = lower;
    in.compound = k.m.compound;
    if (!k.m.compound) {
        in.n = k.m.e.size();
        for (int i = 0; i < in.n; i++) in.A[i] = k.m.e[i].A, in.Z[i] = k.m.e[i].Z, in.N[i] = k.m.e[i].n;
    }
    in.rho = k.m.rho; in.th = k.m.th; in.I = k.m.I;
    in.z_eff = k.c.z_eff; in.corr = k.c.corr; in.calc = k.c.calc; in.low = k.c.low; in.scat = k.c.scat; in.factor = k.c.factor;
    return in;
}
// the Gottschalk correction takes the logarithm of a difference of momenta: digits are lost in thin targets
inline double lost(const VariantInput &in, const Values &a, int i) {
    static const char *n[] = {"sigma_a", "sigma_x", "cov", "function angular_straggling", "function angular_straggling_from_E"};
    if (in.scat != 2) return 0;
    for (auto x : n)
        if (!strcmp(a.n[i], x)) {
            double loss = std::min((a.v[0] - a.v[1]) / a.v[0], (a.v[variant_result] - a.v[variant_result + 1]) / a.v[variant_result]);
            if (!strcmp(x, "function angular_straggling_from_E")) loss = std::min(loss, 1 - in.lower / in.T);
            return loss > 1e-8 ? 1e-12 / loss : 1;
        }
    return 0;
}
// a particle that nearly stops: the residual range is a small difference, and rounding grows by the ratio
inline double near_end(const VariantInput &in, const Values &a, int i) {
    auto amp = [](double R, double th) { return th > R ? 0 : 1e-14 * R / std::max(R - th, 1e-14 * R); };
    double R = a.v[3];
    if (i < 4 * variant_result) return i / variant_result == 0 ? amp(R, in.th) : amp(R, 0.3 * in.th) + amp(R, 0.6 * in.th);
    if (!strcmp(a.n[i], "function energy_out")) return amp(R, in.th);
    if (!strcmp(a.n[i], "function energy_out vector")) {
        double R2 = R;
        for (int j = 0; j < a.k; j++)
            if (!strcmp(a.n[j], "spline")) R2 = a.v[j]; // the second one, at T2
        return amp(R, in.th) + amp(R2, in.th);
    }
    if (!strcmp(a.n[i], "magnification")) return in.th > 0.95 * R && in.th < 1.05 * R ? 1 : 100 * amp(R, in.th);
    return 0;
}
// straggling far below its size next to a step of the local quantities is only the swing of the spline
inline double swing(const VariantInput &in, const Values &a, int i) {
    double R2 = 0;
    for (int j = 0; j < a.k; j++)
        if (!strcmp(a.n[j], "spline")) R2 = std::fabs(a.v[j]); // the second one, at T2
    const char *n = a.n[i];
    if (!strcmp(n, "sigma_r")) return 1e-12 * std::fabs(a.v[i - 5]);
    if (!strcmp(n, "function range_straggling")) return 1e-12 * R2;
    if (!strcmp(n, "function range_variance")) return 1e-24 * R2 * R2;
    if (!strcmp(n, "sigma_E") || !strcmp(n, "function energy_straggling_from_E")) return 1e-12 * in.T;
    return 0;
}
inline void compare(Src &s, const char *name, const Values &a, const Values &b, const VariantInput &in, double rel, bool except_sp,
                    std::function<double(int)> noise = nullptr) {
    s.check(a.k == b.k, "number", "number of values");
    for (int i = 0; i < a.k; i++) {
        if (except_sp && !strcmp(a.n[i], "sp")) continue;
        if (!strcmp(a.n[i], "index") && a.v[i] != b.v[i]) { // at a table point rounding decides
            double n = std::max(a.v[i], b.v[i]), T = i >= 2 && !strcmp(a.n[i - 2], "index") ? in.T2 : in.T;
            s.check(std::fabs(a.v[i] - b.v[i]) == 1 && std::fabs(T / ref::node((int)n) - 1) < 1e-12, "index", "index of %.17g is %g and %g", T, a.v[i], b.v[i]);
            continue;
        }
        double scale = !strcmp(a.n[i], "Eloss") ? rel * a.v[i - 2] : std::max(1e-30, swing(in, a, i)), more = near_end(in, a, i) + (noise ? noise(i) : 0);
        if (!(more < 0.3)) continue; // no digit left
        s.close(fmt("%s, value %d (%s)", name, i, a.n[i]).c_str(), b.v[i], a.v[i], std::max(rel, lost(in, a, i)) + more, lost(in, a, i) < 1 ? scale : 1e9);
    }
}
} // namespace variants
