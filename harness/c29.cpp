// C29: build options do not change results beyond their documented effect.
#include "variants.h"
using namespace gen;
using namespace variants;

static VariantInput draw(Src &s, Case &k, bool &reset, bool thin) {
    gen::reset();
    k = draw_case(s, true, MOpt(), true, 0.01, 1e6);
    double T2 = energy(s, 1e-3, 1e7), lower = k.T * s.uniform(0.1, 1);
    if (thin && s.coin()) k.f = s.loguniform(1e-6, 1e-3);
    reset = s.chance(1, 2);
    if (!positive(k.p, k.m, k.c)) s.skip();
    // aim with the library in this program
    double r = catima::range(k.lp(), k.m.lib(), k.c.lib());
    k.m.th = k.f * (r > 0 && r < 1e30 ? r : 1);
    s.note("%s, T2=%.17g lower=%.17g", k.str().c_str(), T2, lower);
    return input(k, T2, lower);
}
// relative error of value i: straggling is the difference of two table values, small in a thin target unless it is
// calculated there by the approximation; results: 0 one target, 1 and 2 layers, 3 the sum of the layers
struct Noise {
    double A, va, vr, vl;
    bool approximation;
    Noise(const Case &k, const VariantInput &in, bool approximation) : A(k.p.A), approximation(approximation) {
        auto &d = catima::get_data(k.lp(), k.m.lib(), k.c.lib());
        va = std::fabs(catima::get_angular_variance_spline(d)(k.T));
        vr = std::fabs(catima::get_range_straggling_spline(d)(k.T));
        vl = std::fabs(catima::get_range_straggling_spline(d)(in.lower));
    }
    double operator()(const Values &a, int i) const {
        if (!strcmp(a.n[i], "function energy_straggling_from_E")) return 2e-14 * vr / std::fabs(vr - vl);
        int block = i / variant_result, j = i % variant_result;
        if (block > 3 || !(j == 6 || j == 7 || (block == 3 && (j == 9 || j == 10)))) return 0;
        const double *r = a.v + block * variant_result, *q = block == 3 ? a.v + variant_result : r; // of the first layer
        if (r[j == 6 ? 6 : 7] == 0) return 0; // stopped
        if (approximation && q[1] > 0.999 * q[0] && (block < 3 || q[1 + variant_result] > 0.999 * q[variant_result])) return 0;
        return j == 6 ? (block == 3 ? 4e-14 : 2e-14) * vr * q[5] * q[5] / (A * A) / (r[6] * r[6]) : 2e-14 * va / (r[7] * r[7]);
    }
};
static void all_same(Src &s, const char *name) {
    Case k;
    bool reset;
    auto in = draw(s, k, reset, false);
    auto a = run("std", in, reset), b = run(name, in, reset);
    Noise noise(k, in, true);
    compare(s, name, a, b, in, 1e-9, false, [&](int i) { return noise(a, i); });
    if (k.m.th > 0) s.nontrivial();
}
static void splines(Src &s) { all_same(s, "nosplines"); }
static void index(Src &s) { all_same(s, "search"); }
static void table(Src &s) { all_same(s, "calculated"); }
// all options off at once, against the build without the thin target approximation alone
static void bare(Src &s) {
    Case k;
    bool reset;
    auto in = draw(s, k, reset, s.coin());
    auto a = run("nothin", in, reset), b = run("bare", in, reset);
    Noise noise(k, in, false);
    compare(s, "without all options", a, b, in, 1e-9, true, [&](int i) { return noise(a, i); });
    if (k.m.th > 0) s.nontrivial();
}
static void reactions(Src &s) {
    Case k;
    bool reset;
    auto in = draw(s, k, reset, false);
    compare(s, "without reactions", run("std", in, reset), run("noreactions", in, reset), in, 1e-12, true);
    if (k.m.th > 0) s.nontrivial();
}
static void thin(Src &s) {
    Case k;
    bool reset;
    auto in = draw(s, k, reset, true);
    auto a = run("std", in, reset), b = run("nothin", in, reset);
    bool sm = smooth(k.p, k.m, k.c);
    s.check(a.k == b.k, "number", "number of values");
    bool any = false;
    Noise noisy(k, in, false);
    for (int i = 0; i < a.k; i++) {
        int block = i / variant_result, j = i % variant_result;
        if (block < 4 && (j == 6 || j == 7 || (block == 3 && (j == 9 || j == 10)))) { // the sums follow from the angles
            // results: 0 one target, 1 and 2 layers, 3 the sum of the layers
            const double *r = a.v + block * variant_result;
            bool is_thin = r[1] > 0.999 * r[0];
            if (block == 3) is_thin = a.v[14] > 0.999 * a.v[13] || a.v[27] > 0.999 * a.v[26];
            if (is_thin) {
                any = true;
                double noise = noisy(a, i);
                s.check(b.v[i] >= 0 && std::isfinite(b.v[i]), "finite", "%s of a thin target is %g without the approximation", a.n[i], b.v[i]);
                if (!(noise < 0.3) || !sm || !(r[1] > 0.002)) continue;
                s.close(fmt("thin target, value %d (%s)", i, a.n[i]).c_str(), b.v[i], a.v[i], 0.01 + noise);
                continue;
            }
        }
        double scale = !strcmp(a.n[i], "Eloss") ? 1e-12 * a.v[i - 2] : swing(in, a, i);
        s.close(fmt("without thin target approximation, value %d (%s)", i, a.n[i]).c_str(), b.v[i], a.v[i], std::max(1e-12, lost(in, a, i)) + near_end(in, a, i), lost(in, a, i) < 1 ? scale : 1e9);
    }
    if (any) s.nontrivial();
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C29", {
        {"splines", splines, 1200, 100000, "Rebuilt instead of stored splines: all results, functions and tables; non-trivial: positive thickness."},
        {"index", index, 1200, 100000, "Searched instead of calculated table index: all results, functions and tables; non-trivial: positive thickness."},
        {"table", table, 600, 50000, "Energies of the table calculated at each use instead of stored: all results, functions and tables; non-trivial: positive thickness."},
        {"bare", bare, 800, 80000, "All options off at once against only the thin target approximation off: all but the survival probability; non-trivial: positive thickness."},
        {"reactions", reactions, 1000, 100000, "Without reactions: all but the survival probability; non-trivial: positive thickness."},
        {"thin", thin, 1500, 150000, "Without the thin target approximation: straggling of thin targets within a per cent, the rest unchanged; non-trivial: a thin target."},
    }});
}
