// C24: kinematics and special functions satisfy their identities.
#include "gen.h"
#include <complex>
using namespace gen;
typedef std::complex<double> Z;
typedef long double LD;
typedef std::complex<LD> ZL;
static const double U = 931.4940954; // MeV
static const LD PIL = 3.14159265358979323846264338327950288L;

// ---- kinematics ---------------------------------------------------------------------------------
static void kinematics(Src &s) {
    double T = s.chance(1, 6) ? s.loguniform(1e-9, 1e15) : energy(s, 1e-6, 1e9), M = s.chance(1, 3) ? s.uniform(0.5, 300) : s.integer(1, 300);
    s.note("T=%.17g M=%.17g", T, M);
    s.nontrivial();
    double g = catima::gamma_from_T(T), b = catima::beta_from_T(T), p = catima::p_from_T(T, M);
    LD x = (LD)T / U;
    s.close("gamma", g, (double)(1 + x), 1e-9);
    double loss = 5e-16 / std::min(1.0, T / U); // 1-1/gamma^2 cancels
    s.close("beta", b, (double)std::sqrt(x * (x + 2) / ((1 + x) * (1 + x))), 1e-9 + loss);
    s.close("momentum", p, (double)(M * (LD)U * std::sqrt(x * (x + 2))), 1e-9);
    // relations between them
    s.check(g >= 1 && b >= 0 && b <= 1 + 1e-15, "range", "gamma %.17g beta %.17g", g, b);
    if (g < 1e6) s.close("gamma and beta", 1 / std::sqrt(1 - b * b), g, 1e-9 * g * g);
    s.close("momentum and velocity", b * g * U * M, p, 2e-9 + loss);
    // there are two definitions of the momentum: one in the header of the reactions, one in the library
    static double (*volatile library)(double, double) = &catima::p_from_T;
    s.close("momentum (library)", library(T, M), p, 1e-12);
    double E = (T + U) * M;
    s.close("energy and momentum", std::sqrt(p * p + U * U * M * M), E, 1e-9);
    s.close("velocity", p / E, b, 2e-9 + loss);
    // monotonic, linear in mass
    double T2 = T * (1 + s.loguniform(1e-6, 10));
    s.check(catima::gamma_from_T(T2) >= g && catima::beta_from_T(T2) >= b * (1 - 2 * loss) && catima::p_from_T(T2, M) > p, "monotonic", "not growing from T=%.17g to %.17g", T, T2);
    double f = s.uniform(0.1, 10);
    s.close("momentum per mass", catima::p_from_T(T, M * f), p * f, 1e-12);
    s.close("rest", catima::gamma_from_T(0), 1, 0);
    s.close("rest", catima::beta_from_T(0), 0, 0);
    s.close("rest", catima::p_from_T(0, M), 0, 0);
    s.close("momentum per nucleon", catima::p_from_T(T, 1.0) * M, p, 1e-12);
    int n = s.integer(-6, 8);
    double v = s.uniform(0.2, 5), w = 1;
    for (int i = 0; i < std::abs(n); i++) w *= v;
    if (n < 0) w = 1 / w;
    s.close("ipow", catima::ipow(v, n), w, 1e-13);
    double y = s.uniform(-4, 4);
    s.close("power", catima::power(v, y), std::exp(y * std::log(v)), 1e-12);
}

// ---- log gamma -------------------------------------------------------------------------------------
// own: shift to large real part, Stirling series; only meaningful modulo 2 pi i
static ZL lgam(ZL z) {
    if (z.real() < 0.5L) return std::log(PIL) - std::log(std::sin(PIL * z)) - lgam(ZL(1) - z);
    ZL sh = 0;
    while (z.real() < 25) {
        sh += std::log(z);
        z += ZL(1);
    }
    static const LD B[] = {1.L / 12, -1.L / 360, 1.L / 1260, -1.L / 1680, 1.L / 1188, -691.L / 360360, 1.L / 156};
    ZL r = (z - ZL(0.5L)) * std::log(z) - z + ZL(0.5L * std::log(2 * PIL)), q = ZL(1) / z, q2 = q * q;
    for (LD b : B) {
        r += b * q;
        q *= q2;
    }
    return r - sh;
}
static double wrap(double d) { return d - 2 * M_PI * std::round(d / (2 * M_PI)); }
static void same(Src &s, const char *what, Z a, Z b, double tol) {
    s.eval();
    if (std::fabs(a.real() - b.real()) <= tol * (1 + std::fabs(b.real())) && std::fabs(wrap(a.imag() - b.imag())) <= tol * (1 + std::fabs(b.imag()))) return;
    s.fail(what, fmt("%s: got (%.15g,%.15g), expected (%.15g,%.15g)", what, a.real(), a.imag(), b.real(), b.imag()));
}
static Z argument(Src &s) {
    double x = s.pick({3, 2, 2}), y = s.pick({3, 2, 2});
    x = x == 0 ? s.uniform(-8, 8) : x == 1 ? s.loguniform(1e-3, 100) : -s.loguniform(1e-2, 60);
    y = y == 0 ? s.uniform(-8, 8) : y == 1 ? 0 : s.uniform(-60, 60);
    return Z(x, y);
}
static double pole(Z z) { // distance to the nearest pole
    double n = std::min(0.0, std::round(z.real()));
    return std::abs(z - Z(n, 0));
}
static void gamma(Src &s) {
    Z z = argument(s);
    if (pole(z) < 1e-3) z += Z(0.25, 0);
    s.note("z=(%.17g,%.17g)", z.real(), z.imag());
    s.label(z.real() <= 0 ? "left half plane" : "right half plane");
    if (z.imag() != 0) s.nontrivial();
    const double tol = 3e-9;
    Z l = catima::lngamma(z);
    ZL w = lgam(ZL(z.real(), z.imag()));
    double near = 1e-12 / pole(z);
    same(s, "log gamma", l, Z((double)w.real(), (double)w.imag()), tol + near);
    same(s, "conjugate", catima::lngamma(std::conj(z)), std::conj(l), z.imag() == 0 ? 7 : tol);
    if (pole(z + 1.0) > 1e-3) same(s, "recurrence", catima::lngamma(z + 1.0), l + std::log(z), tol + near);
    if (pole(1.0 - z) > 1e-3 && std::fabs(z.imag()) < 100) same(s, "reflection", l + catima::lngamma(1.0 - z), std::log(M_PI) - std::log(std::sin(M_PI * z)), 2 * tol + 10 * near + 1e-12 / pole(1.0 - z));
    if (pole(2.0 * z) > 1e-3 && pole(z + 0.5) > 1e-3) same(s, "duplication", l + catima::lngamma(z + 0.5), (1.0 - 2.0 * z) * std::log(2.0) + 0.5 * std::log(M_PI) + catima::lngamma(2.0 * z), 3 * tol + 10 * near + 1e-11 / pole(2.0 * z));
    // real arguments
    double x = z.real();
    if (pole(Z(x, 0)) > 1e-3) s.close("real argument", catima::lngamma(Z(x, 0)).real(), std::lgamma(x), tol, tol + 1e-12 / pole(Z(x, 0)));
    double y = s.uniform(0.01, 20);
    s.close("imaginary axis", 2 * catima::lngamma(Z(0, y)).real(), std::log(M_PI / (y * std::sinh(M_PI * y))), tol, 2 * tol + 1e-11 / y);
    s.close("half axis", 2 * catima::lngamma(Z(0.5, y)).real(), std::log(M_PI / std::cosh(M_PI * y)), tol, 2 * tol);
    int n = s.integer(1, 20);
    double f = 0;
    for (int i = 2; i < n; i++) f += std::log((double)i);
    s.close("factorial", catima::lngamma(Z(n, 0)).real(), f, tol, tol);
}

// ---- confluent hypergeometric function -------------------------------------------------------------
struct Series {
    ZL sum = 1;
    LD biggest = 1;
    bool early = false; // the terms get small before they get large: the series may be cut there
};
static Series own(ZL a, ZL b, ZL z) {
    Series r;
    ZL t = 1;
    bool small = false;
    for (int m = 0; m < 2000; m++) {
        t *= (a + ZL(m)) / (b + ZL(m)) * z / ZL(m + 1);
        r.sum += t;
        LD q = std::abs(t);
        r.biggest = std::max(r.biggest, q);
        if (small && q > 2e-6L) r.early = true;
        if (q <= 2e-6L) small = true;
        if (q < 1e-25L * r.biggest && m > 2 * std::abs(z)) break;
    }
    return r;
}
static void hyper(Src &s) {
    // arguments as in the phase shifts: b = 1+2 sk or 1-2 sk, a = 1+sk+i eta, z = 2 i k r; and general ones
    Z a, b, z;
    if (s.chance(1, 8)) { // many terms of one sign, no cancellation
        a = Z(s.uniform(0.5, 6), 0);
        b = Z(s.uniform(0.5, 8), 0);
        z = Z(s.loguniform(5, 300), 0);
        s.label("many terms");
    } else if (s.coin()) {
        double n = s.integer(1, 20), Zp = s.integer(1, 108), sk = std::sqrt(n * n - std::pow(Zp / 137.035999, 2)), eta = Zp / 137.036 / s.uniform(0.05, 1);
        int sg = s.coin() ? 1 : -1;
        a = Z(sg * sk + 1, eta);
        b = Z(sg * 2 * sk + 1, 0);
        z = Z(0, s.loguniform(1e-4, 20));
        s.label("as in the phase shifts");
    } else {
        a = Z(s.uniform(-3, 6), s.uniform(-6, 6));
        b = Z(s.uniform(0.3, 8), s.uniform(-3, 3));
        z = Z(s.uniform(-4, 6), s.uniform(-6, 6));
        s.label("general");
    }
    s.note("a=(%.17g,%.17g) b=(%.17g,%.17g) z=(%.17g,%.17g)", a.real(), a.imag(), b.real(), b.imag(), z.real(), z.imag());
    auto r = own(ZL(a.real(), a.imag()), ZL(b.real(), b.imag()), ZL(z.real(), z.imag()));
    auto tol = [](const Series &r) { return (double)(2e-5L + 1e-6L * std::abs(r.sum) + 1e-13L * r.biggest); };
    auto comp = [&](const char *what, Z got, ZL want, double t) {
        double d = std::abs(got - Z((double)want.real(), (double)want.imag()));
        s.check(d <= t, what, "%s: got (%.12g,%.12g), expected (%.12g,%.12g), difference %.3g allowed %.3g", what, got.real(), got.imag(), (double)want.real(), (double)want.imag(), d, t);
    };
    if (r.early) {
        s.label("terms grow again");
        s.skip();
    }
    s.nontrivial();
    Z M = catima::hyperg(a, b, z);
    comp("hypergeometric", M, r.sum, tol(r));
    // Kummer: M(a,b,z) = exp(z) M(b-a,b,-z)
    auto q = own(ZL((b - a).real(), (b - a).imag()), ZL(b.real(), b.imag()), ZL(-z.real(), -z.imag()));
    if (!q.early) {
        Z K = catima::hyperg(b - a, b, -z);
        Z e = std::exp(z);
        comp("Kummer", M, ZL((e * K).real(), (e * K).imag()), tol(r) + std::abs(e) * tol(q));
    }
    comp("exponential", catima::hyperg(b, b, z), ZL(std::exp(z).real(), std::exp(z).imag()), 2e-5 + 1e-6 * std::abs(std::exp(z)) + 1e-13 * std::exp(std::abs(z)));
    Z m12 = (std::exp(z) - 1.0) / z;
    if (std::abs(z) > 1e-3) comp("(exp(z)-1)/z", catima::hyperg(Z(1, 0), Z(2, 0), z), ZL(m12.real(), m12.imag()), 2e-5 + 1e-6 * std::abs(m12) + 1e-13 * std::exp(std::abs(z)));
    comp("at zero", catima::hyperg(a, b, Z(0, 0)), ZL(1, 0), 0);
    comp("conjugate", catima::hyperg(std::conj(a), std::conj(b), std::conj(z)), ZL(M.real(), -M.imag()), 1e-9 * (1 + (double)r.biggest));
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C24", {
        {"kinematics", kinematics, 400000, 20000000, "Random kinetic energies over 24 decades and masses; definitions and relations between gamma, beta, momentum and energy; non-trivial: all."},
        {"gamma", gamma, 200000, 10000000, "Random complex arguments off the poles; own Stirling series, recurrence, reflection, duplication, conjugation and special values, modulo 2 pi; non-trivial: complex."},
        {"hyper", hyper, 100000, 5000000, "Arguments as in the phase shifts and general ones; own series in extended precision, Kummer transformation, special cases; non-trivial: all, series whose terms grow again after getting small are skipped."},
    }});
}
