// C21: the Lindhard-Sorensen tables agree with the direct calculation.
#include "gen.h"
using namespace gen;

static double table(bool X, const catima::Projectile &p) { return X ? catima::precalculated_lindhard_X(p) : catima::precalculated_lindhard(p); }
static double direct(bool X, const catima::Projectile &p) { return X ? catima::bethek_lindhard_X(p) : catima::bethek_lindhard(p); }
static catima::Projectile at(double A, double Z, double T) {
    catima::Projectile p(A, Z);
    p.T = T;
    return p;
}
static int charge(Src &s) { return s.coin() ? s.integer(1, 108) : std::min(108, proj_z(s)); }
// the straggling sum is a small difference of large numbers near the end of the table
static double noise(bool X, double T) { return X && T > 3e5 ? 2e-2 : 1.2e-5; }

// ---- at the points of the table ----------------------------------------------------------
static void nodes(Src &s) {
    int z = charge(s), i = s.integer(0, 199);
    bool X = s.coin(), hi = s.coin();
    double w = ref::weight[z], T = ref::ls_node(i), A = hi ? w * 1.05 : w;
    s.note("%s z=%d A=%.17g T=%.17g (point %d)", X ? "X" : "L", z, A, T, i);
    s.nontrivial();
    auto p = at(A, z, T);
    double t = table(X, p), d = direct(X, p);
    s.note("table %.9g direct %.9g", t, d);
    ref::Proj r{A, (double)z, (double)z};
    s.close(X ? "table of X" : "table of L", t, X ? ref::ls_X(r, T) : ref::ls(r, T), 1e-9, 1e-9);
    // X has a table at 1.05 too; both are rounded to five digits
    s.close(X ? "X at a table point" : "L at a table point", d, t, 0, noise(X, T) * (hi ? 2 : 1));
}

// ---- between, other isotopes --------------------------------------------------------------
static void between(Src &s) {
    int z = charge(s);
    bool X = s.coin();
    double w = ref::weight[z], A = w, T = s.loguniform(1, 1e7);
    switch (s.pick({2, 2, 2})) {
    case 0: break;
    case 1: A = std::max(1.0, std::round(w) + s.integer(-6, 6)); break;
    default: A = w * s.uniform(0.9, 1.15);
    }
    s.note("%s z=%d A=%.17g T=%.17g", X ? "X" : "L", z, A, T);
    double da = std::fabs(A / w - 1) / 0.05;
    if (A != w) s.nontrivial();
    auto p = at(A, z, T);
    double t = table(X, p), d = direct(X, p);
    double tol0 = 0;
    // interpolation error from the second differences of the frozen table, in energy and in mass
    const double *y = (X ? ref::lsx_a : ref::ls_a) + (z - 1) * 200, *v = (X ? ref::lsx_ahi : ref::ls_ahi) + (z - 1) * 200;
    int i = std::min(198, (int)(std::log10(T) / 7 * 199));
    double curv = 0, lin = 0;
    for (int k = std::max(1, i - 2); k <= std::min(198, i + 3); k++) curv = std::max(curv, std::fabs(y[k + 1] - 2 * y[k] + y[k - 1]));
    for (int k = std::max(0, i - 1); k <= std::min(199, i + 2); k++) {
        curv = std::max(curv, std::fabs(y[k] * 0) + std::fabs(y[std::min(199, k + 1)] - y[k]) * 0.05);
        lin = std::max(lin, std::fabs(v[k] - y[k]));
    }
    if (X && T > 1e6) tol0 = 0.04;
    double tol = tol0 + 0.5 * curv + lin * da * (0.1 + 0.1 * da) + noise(X, T) * (1 + da);
    // the direct sum is replaced by its limit from gamma = 10/radius on, with a small step
    if (std::fabs(std::log(ref::gamma(T) * std::cbrt(A) * 3.05573356675e-3 / 10)) < 0.09) tol += 0.05;
    s.note("table %.9g direct %.9g difference %.3g allowed %.3g", t, d, t - d, tol);
    s.close(X ? "X between table points" : "L between table points", t, d, 0, tol);
}

// ---- without the direct calculation: linear between the points, edges of the table -----------
static void shape(Src &s) {
    int z = charge(s), i = s.integer(0, 198);
    bool X = s.coin();
    double A = ref::weight[z] * (s.coin() ? s.uniform(0.85, 1.2) : 1), a = ref::ls_node(i), b = ref::ls_node(i + 1), u = s.unit();
    double T = a + (b - a) * u;
    s.note("%s z=%d A=%.17g T=%.17g", X ? "X" : "L", z, A, T);
    s.nontrivial();
    double ya = table(X, at(A, z, a * (1 + 1e-14))), yb = table(X, at(A, z, b * (1 - 1e-14))), y = table(X, at(A, z, T));
    if (ya > 0 || yb > 0 || !X) {
        if (!X || (ya > 0 && yb > 0)) s.close("linear in energy", y, ya + (yb - ya) * u, 1e-9, 1e-9);
    } else
        s.close("X stays zero", y, 0, 1e-9, 1e-9);
    ref::Proj r{A, (double)z, (double)z};
    s.close("value", y, X ? ref::ls_X(r, T) : ref::ls(r, T), 1e-9, 1e-9);
    // linear in the mass
    if (!X) {
        double w = ref::weight[z], l = table(X, at(w, z, T)), h = table(X, at(w * 1.05, z, T));
        s.close("linear in mass", y, l + (h - l) * (A / w - 1) / 0.05, 1e-9, 1e-8);
    } else
        s.check(y >= 0, "X negative", "X = %.17g", y);
    // outside
    double lo = s.coin() ? s.loguniform(1e-3, 0.9999) : 1 - s.loguniform(1e-9, 1e-2);
    double up = s.coin() ? s.loguniform(1.0001e7, 1e12) : 1e7 * (1 + s.loguniform(1e-9, 1e-2));
    s.close("below the table", table(X, at(A, z, lo)), X ? 1 : table(X, at(A, z, 1.0)), 1e-12);
    s.close("above the table", table(X, at(A, z, up)), table(X, at(A, z, 1e7 * (1 - 1e-13))), 1e-9, 1e-9);
    // heavier than the last element
    int zz = s.integer(109, 130);
    double AA = s.uniform(250, 330), TT = energy(s);
    s.close("beyond the last element", table(X, at(AA, zz, TT)), table(X, at(AA, 108, TT)), 1e-13);
    ref::Proj r2{AA, 108, 108};
    s.close("last element", table(X, at(AA, 108, TT)), X ? ref::ls_X(r2, TT) : ref::ls(r2, TT), 1e-9, 1e-9);
}
// the direct sum itself: independent of charge state, limit for slow light ions, ultrarelativistic limit
static void limits(Src &s) {
    int z = charge(s);
    double A = ref::weight[z] * s.uniform(0.9, 1.15);
    double T = s.loguniform(1, 1e7);
    auto p = at(A, z, T);
    s.note("z=%d A=%.17g T=%.17g", z, A, T);
    double d = catima::bethek_lindhard(p);
    double g = ref::gamma(T), rho = std::cbrt(A) * 3.05573356675e-3;
    if (g >= 10 / rho) {
        s.label("ultrarelativistic");
        s.nontrivial();
        double bg = std::sqrt(g * g - 1), b2 = 1 - 1 / (g * g);
        s.close("ultrarelativistic limit", d, -std::log(bg * rho) - 0.2 + 0.5 * b2, 1e-9, 1e-9);
    } else if (s.chance(1, 2)) {
        p.Q = s.uniform(0, z);
        s.close("charge state", catima::bethek_lindhard(p), d, 0);
    }
    // the Bloch correction is the limit of slow point charges: -eta^2 sum 1/(n (n^2+eta^2)) + small relativistic terms
    if (T < 5 && z <= 10) {
        s.label("Bloch limit");
        s.nontrivial();
        double b2 = 1 - 1 / (g * g), eta = z * ref::alpha / std::sqrt(b2), sum = 0;
        for (int n = 1; n < 200000; n++) sum += 1 / (n * ((double)n * n + eta * eta));
        s.close("Bloch correction", d, -eta * eta * sum, 0.03, 0.002 + 0.01 * z * std::sqrt(b2));
    }
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C21", {
        {"nodes", nodes, 3000, 100000, "A random element and table point; the table, the frozen table and the direct phase-shift sum are compared; non-trivial: all."},
        {"between", between, 3000, 100000, "A random projectile and energy between the table points; the tolerance is the interpolation error of the table; non-trivial: mass different from the natural one."},
        {"shape", shape, 100000, 5000000, "Linear interpolation in energy and mass, edges of the table, elements beyond the table; non-trivial: all."},
        {"limits", limits, 1500, 40000, "The direct sum in its ultrarelativistic and low-velocity limits; non-trivial: one of the limits applies."},
    }});
}
