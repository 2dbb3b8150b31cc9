// Reference model of the physics the library documents, written independently of the library
// (own tables in ref_data.cpp, own quadrature nodes, own spline solver, own root finder).
#pragma once
#include "ref_data.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <memory>
#include <vector>

namespace ref {

const double pi = 3.14159265358979323846;
const double u_mass = 931.4940954, e_mass = 0.510998928, alpha = 1 / 137.035999139;
const double N_A = 6.022140857, c0 = 299.792458;
const double K_dedx = 0.3070749187, K_omega = 0.3070749187 * 0.510998928;
const double E_low = 1e-3;

struct Proj {
    double A, Z, Q;
};
struct Elem {
    double A;
    int Z;
    double w; // mass fraction
    double n; // atoms per molecule
};
struct Mat {
    std::vector<Elem> e;
    double M = 0, rho = 0, I = 0, th = 0;
};
struct Conf {
    int z_eff = 1, corr = 0, calc = 1, low = 0, scat = 255;
    double factor = 1;
};

// ---- kinematics -------------------------------------------------------------
inline double gamma(double T) { return 1 + T / u_mass; }
inline double beta2(double T) { // T(T+2m)/(T+m)^2, free of cancellation
    return T * (T + 2 * u_mass) / ((T + u_mass) * (T + u_mass));
}
inline double beta(double T) { return std::sqrt(beta2(T)); }
inline double momentum(double T, double A) { return A * std::sqrt(T * T + 2 * T * u_mass); }

// ---- effective charge ----------------------------------------------------------
inline double z_eff(int model, double Z, double Q, double T, double tz) {
    double b = beta(T), z23 = std::cbrt(Z * Z);
    switch (model) {
    case 0: return Q;
    case 1: return Z * -std::expm1(-0.95 * b / (alpha * z23));
    case 2: {
        double B = 1.18 - 7.5e-3 * tz + 4.53e-5 * tz * tz, A = 1.16 - 1.91e-3 * tz + 1.26e-5 * tz * tz;
        return Z - Z * A * std::exp(-B * b / (alpha * z23));
    }
    case 3: {
        if (T < 2.5) return 0;
        double l = std::log(tz), x[4];
        if (tz == 4) x[0] = 2.045 + 2 * std::exp(-0.04369 * Z), x[1] = 7, x[2] = 0.2643, x[3] = 0.4171;
        else if (tz == 6) x[0] = 2.584 + 1.91 * std::exp(-0.03958 * Z), x[1] = 6.933, x[2] = 0.2433, x[3] = 0.3969;
        else {
            x[0] = 1.164 + 0.2319 * std::exp(-0.004302 * tz) + 1.658 * std::exp(-0.0517 * Z);
            x[1] = 8.144 + 0.09876 * l;
            x[2] = 0.314 + 0.01072 * l;
            x[3] = 0.5218 + 0.02521 * l;
        }
        return Z - Z * x[0] * std::exp(-x[1] * std::exp(x[2] * std::log(T) - x[3] * std::log(Z)));
    }
    case 4: {
        double t = tz == 1 ? 2.6 : tz == 2 ? 2.8 : tz;
        double x = b / 0.012 / std::exp(0.45 * std::log(Z)), p = std::log(Z), q = std::log(t);
        double a[5] = {-0.4662, -0.5491 * std::exp(p * (0.7028 + p * (-0.1089 + p * 0.001644)) + q * (-0.5155 + q * 0.05633)),
                       0.005447 * std::exp(0.8795 * p - 1.091 * q), -0.0008261 * std::exp(2.848 * p - 0.2442 * p * p * p), -0.00009293};
        double s = a[0] + x * (a[1] + x * (a[2] + x * (a[3] + x * a[4])));
        return Z * -std::expm1(s);
    }
    case 5: {
        double v = std::exp(-0.543 * std::log(Z)) * b / (2.19 / c0);
        double c1 = 1 - 0.26 * std::exp(-tz / 11 - (tz - Z) * (tz - Z) / 9), c2 = 1 + 0.030 * v * std::log(tz);
        double x = c1 * std::pow(v / c2 / 1.54, 1 + 1.83 / Z), x4 = x * x * x * x;
        return Z * (8.29 * x + x4) / (0.06 / x + 4 + 7.4 * x + x4);
    }
    case 6: // global charge states: only the limits that need no external library
        if (T > 2000) return Z;
        return z_eff(1, Z, Q, T, tz);
    }
    return NAN;
}

// ---- Lindhard-Sorensen tables --------------------------------------------------------
inline double ls_node(int i) { return std::exp(2.30258509299404568401799145468 * (i * 7.0 / 199.0)); }
inline double ls_interp(const double *y, double T) {
    double f = std::log10(T) * 199.0 / 7.0;
    int i = std::min(198, std::max(0, (int)std::floor(f)));
    if (i < 198 && T >= ls_node(i + 1)) i++;
    if (i > 0 && T < ls_node(i)) i--;
    double a = ls_node(i), b = ls_node(i + 1);
    return y[i] + (y[i + 1] - y[i]) * (T - a) / (b - a);
}
inline double ls_pair(const double *t, const double *thi, const Proj &p, double T) {
    int z = std::min(108, (int)p.Z);
    double d = (p.A / weight[z] - 1) / 0.05;
    double v = ls_interp(t + (z - 1) * 200, T), w = ls_interp(thi + (z - 1) * 200, T);
    return v + (w - v) * d;
}
inline double ls(const Proj &p, double T) { return ls_pair(ls_a, ls_ahi, p, std::min(std::max(T, ls_node(0)), ls_node(199))); }
inline double ls_X(const Proj &p, double T) {
    if (T < ls_node(0)) return 1;
    return std::max(0.0, ls_pair(lsx_a, lsx_ahi, p, std::min(T, ls_node(199))));
}

// ---- Bethe stopping power -----------------------------------------------------------
inline double barkas(double zeff, double eta, double tz) {
    double v = eta / alpha / std::sqrt(tz), f = 0;
    if (v >= 4) f = 0.45 / std::sqrt(v);
    else if (v >= 3) f = 0.26 - 0.03 * (v - 3);
    else if (v >= 2) f = 0.30 - 0.04 * (v - 2);
    else if (v >= 1) f = 0.33 - 0.03 * (v - 1);
    return 1 + 2 * zeff * f / (v * v * std::sqrt(tz));
}
inline double density_effect(double T, int tz) {
    int i = std::min(tz, 97) - 1;
    double x = std::log(std::sqrt(T * (T + 2 * u_mass)) / u_mass) / 2.3025851;
    if (x < de_x0[i]) return de_d0[i] > 0 ? de_d0[i] * std::pow(10, 2 * (x - de_x0[i])) : 0;
    double d = 4.6052 * x - de_c[i];
    if (x <= de_x1[i]) d += de_a[i] * std::pow(de_x1[i] - x, de_m[i]);
    return d;
}
inline double pair_production(const Proj &p, double T, int tz, double ta) {
    double g = gamma(T), d = 1 / std::sqrt(g), ld = -std::log(g), l0 = std::log(2 * g), zt = 183 / std::cbrt((double)tz);
    double screen = 19.0 / 9 * std::log(zt / (1 + 25.018803808 * zt / g));
    double L = 4178 / 81.0 - 248 * l0 / 27 + (28 * l0 / 9 - 446.0 / 27) * ld + 14 * ld * ld / 9;
    L = d * (L / (pi * pi) - 21.0 / 27);
    double s = 0.25 * K_dedx * alpha * alpha * p.Z * p.Z * tz * (tz + 1) * g * (screen + L) / ta;
    return s < 0 ? 0 : s;
}
inline double bremsstrahlung(const Proj &p, double T, int tz, double ta) {
    double g = gamma(T), R = 1.18 * (std::cbrt(p.A) + std::cbrt(ta));
    double L = std::log1p(2 * g * 0.1 * 6.582119514 * c0 / u_mass / R / p.A);
    return 4 * K_dedx * alpha * (e_mass / u_mass) * g * std::pow(p.Z, 4) * tz * tz * L / (ta * p.A * 3 * pi);
}
inline double shell(double eta, double I) {
    double i2 = 1 / (eta * eta), i4 = i2 * i2, i6 = i4 * i2;
    return (0.422377 * i2 + 0.0304043 * i4 - 0.00038106 * i6) * 1e-6 * I * I + (3.858019 * i2 - 0.1667989 * i4 + 0.00157955 * i6) * 1e-9 * I * I * I;
}
inline double bethe(const Proj &p, double T, int tz, double ta, const Conf &c, double I = 0) {
    double b2 = beta2(T), g = gamma(T), eta = std::sqrt(b2) * g, ze = z_eff(c.z_eff, p.Z, p.Q, T, tz);
    if (I <= 0) I = ipot[tz];
    double L = std::log(2e6 * e_mass * b2 * g * g / I) - b2;
    if (!(c.corr & 4) && eta >= 0.13) L -= shell(eta, I) / tz;
    if (!(c.corr & 1)) L *= barkas(ze, eta, tz);
    if (!(c.corr & 2)) L += ls(p, T);
    L -= 0.5 * density_effect(T, tz);
    double s = K_dedx * ze * ze * tz / (b2 * ta) * L;
    if (T > 50000 && !(c.corr & 8)) s += pair_production(p, T, tz, ta) + bremsstrahlung(p, T, tz, ta);
    return s;
}

// ---- low energy stopping power (SRIM parametrisation), per atom ------------------------
inline double srim_proton(const double *tab, int tz, double T) {
    const double *k = tab + 8 * (std::min(tz, 92) - 1);
    double e = std::max(25.0, 1000 * T);
    double lo = k[0] * std::pow(e, k[1]) + k[2] * std::pow(e, k[3]);
    double hi = k[4] * std::pow(e, -k[5]) * std::log(k[6] / e + k[7] * e);
    double s = 1 / (1 / lo + 1 / hi);
    if (1000 * T <= 25) s *= std::pow(40 * T, tz > 6 ? 0.45 : 0.25);
    return s;
}
inline double srim(int pz, int tz, double T, bool v95) {
    const double *tab = v95 ? srim95 : srim85;
    double e = 1000 * T;
    if (pz == 1) return srim_proton(tab, tz, T);
    if (pz == 2) {
        e = std::max(e, 1.0);
        double l = std::log(e);
        double a = 0.2865 + 0.1266 * l - 0.001429 * l * l + 0.02402 * l * l * l - 0.01135 * l * l * l * l + 0.001475 * l * l * l * l * l;
        double q = -std::expm1(-std::min(30.0, a));
        double g = 1 + (0.007 + 0.00005 * tz) * std::exp(-(7.6 - l) * (7.6 - l));
        return 4 * q * g * g * srim_proton(tab, tz, T);
    }
    double z13 = std::cbrt((double)pz), z23 = z13 * z13, vf = vfermi[std::min(tz, 92) - 1];
    double v = std::sqrt(e / 25) / vf, vv = v * v;
    double vr = v >= 1 ? vf * (v + 0.2 / v) : 0.75 * vf * (1 + vv * (2.0 / 3 - vv / 15));
    double ylim = std::max(0.13, 1 / z23), y = std::max(ylim, vr / z23);
    double a = -0.803 * std::pow(y, 0.3) + 1.3167 * std::pow(y, 0.6) + 0.38157 * y + 0.008983 * y * y;
    double q = std::min(1.0, std::max(0.0, -std::expm1(-std::min(a, 50.0))));
    double b = std::min(0.43, std::max(0.32, 0.12 + 0.025 * pz)) / z13;
    double l0 = (0.8 - q * std::min(1.2, 0.6 + pz / 30.0)) / z13, l1;
    double q1 = std::max(0.0, 0.9 - 0.025 * pz), z16 = 0.025 * std::min(16, pz);
    if (q < 0.2) l1 = 0;
    else if (q < q1) l1 = b * (q - 0.2) / std::fabs(q1 - 0.2000001);
    else if (q < std::max(0.0, 1 - z16)) l1 = b;
    else l1 = b * (1 - q) / z16;
    double l = std::max(l1, l0 * lscreen[std::min(pz, 92) - 1]);
    double h = 4 * l * vf / 1.919;
    double zeta = q + (1 - q) / (2 * vf * vf) * std::log1p(h * h);
    double d = 7.6 - std::max(0.0, std::log(e));
    zeta *= 1 + (0.18 + 0.0015 * tz) / (pz * pz) * std::exp(-d * d);
    double zz = zeta * pz * zeta * pz;
    if (y <= ylim) {
        double vm = std::max(1.0, 0.13 * z23);
        double vmin = 0.5 * (vm + std::sqrt(std::max(0.0, vm * vm - 0.8 * vf * vf)));
        double ee = 25 * vmin * vmin;
        double ex = (tz == 6 || ((tz == 14 || tz == 32) && pz <= 19)) ? 0.35 : 0.5;
        return srim_proton(tab, tz, ee * 0.001) * zz * std::pow(e / ee, ex);
    }
    return srim_proton(tab, tz, T) * zz;
}
// distance of a heavy-ion SRIM point to the places where the parametrisation jumps (in relative velocity / ionisation)
inline double srim_kink(int pz, int tz, double T) {
    if (pz <= 2) return pz == 2 ? std::fabs(1000 * T - 1) : 1;
    double z23 = std::cbrt((double)pz * pz), vf = vfermi[std::min(tz, 92) - 1];
    double v = std::sqrt(40 * T) / vf, vv = v * v;
    double vr = v >= 1 ? vf * (v + 0.2 / v) : 0.75 * vf * (1 + vv * (2.0 / 3 - vv / 15));
    double ylim = std::max(0.13, 1 / z23), y = std::max(ylim, vr / z23);
    double a = -0.803 * std::pow(y, 0.3) + 1.3167 * std::pow(y, 0.6) + 0.38157 * y + 0.008983 * y * y;
    double q = std::min(1.0, std::max(0.0, -std::expm1(-std::min(a, 50.0))));
    double q1 = std::max(0.0, 0.9 - 0.025 * pz), q2 = std::max(0.0, 1 - 0.025 * std::min(16, pz));
    double d = std::fabs(vr / z23 / ylim - 1);
    for (double x : {std::fabs(q - 0.2), std::fabs(q - q1), std::fabs(q - q2), std::fabs(v - 1)}) d = std::min(d, x);
    return d;
}

// ---- nuclear stopping ------------------------------------------------------------------
inline double reduced_energy(const Proj &p, double T, int tz, double ta) {
    double s = std::pow(p.Z, 0.23) + std::pow((double)tz, 0.23);
    return 32.53 * ta * (1000 * T * p.A) / (p.Z * tz * (p.A + ta) * s);
}
inline double nuclear(const Proj &p, double T, int tz, double ta) {
    double s = std::pow(p.Z, 0.23) + std::pow((double)tz, 0.23), e = reduced_energy(p, T, tz, ta), r;
    if (e <= 0) return 0;
    if (e <= 30) r = std::log1p(1.1383 * e) / (2 * (e + 0.01321 * std::pow(e, 0.21226) + 0.19593 * std::sqrt(e)));
    else r = std::log(e) / (2 * e);
    return 846.21 * p.Z * tz * p.A * r * N_A / ((p.A + ta) * s * ta);
}

// ---- stopping power of a material -----------------------------------------------------
inline double nuclear(const Proj &p, double T, const Mat &m) {
    double s = 0;
    for (auto &e : m.e) s += e.w * nuclear(p, T, e.Z, e.A);
    return s;
}
inline double bethe(const Proj &p, double T, const Mat &m, const Conf &c) {
    double s = 0;
    for (auto &e : m.e) s += e.w * bethe(p, T, e.Z, e.A, c, m.I);
    return s;
}
inline double low_energy(const Proj &p, double T, const Mat &m, const Conf &c) {
    double s = 0;
    for (auto &e : m.e) s += e.w * srim((int)p.Z, e.Z, T, c.low == 1) / e.A;
    return 100 * N_A * s;
}
inline double dedx(const Proj &p, double T, const Mat &m, const Conf &c) {
    if (T <= 0) return 0;
    double s = nuclear(p, T, m), f = std::min(1.0, std::max(0.0, (T - 10) / 20));
    if (f < 1) s += (1 - f) * low_energy(p, T, m, c);
    if (f > 0) s += f * bethe(p, T, m, c);
    return s;
}

// ---- energy-loss straggling ------------------------------------------------------------
inline double omega2(const Proj &p, double T, int tz, double ta, const Conf &c) {
    double b2 = beta2(T), g = gamma(T), ze = z_eff(c.z_eff, p.Z, p.Q, T, tz), extra = 0;
    if (c.calc == 0) {
        double me = e_mass * 1e6 * b2;
        extra = std::max(0.0, 24.89 * std::pow((double)tz, 1.2324) / me * std::log(2 * me / (33.05 * std::pow((double)tz, 1.6364))));
    }
    double v = K_omega * ze * ze * tz / ta * (ls_X(p, T) * g * g + extra);
    if (T < 30) v = std::min(v, 4.8184e-3 * std::pow(p.Z + tz, 8.0 / 3) / ta * b2 / (alpha * alpha));
    return v;
}
inline double omega2(const Proj &p, double T, const Mat &m, const Conf &c) {
    double s = 0;
    for (auto &e : m.e) s += e.w * omega2(p, T, e.Z, e.A, c);
    return s;
}

// ---- scattering --------------------------------------------------------------------------
inline double radiation_length(int z, double A) {
    static const std::pair<int, double> tab[] = {{1, 63.04},  {2, 94.32},  {3, 82.78},  {4, 65.19},  {6, 42.7},   {7, 37.99},  {8, 34.24},  {9, 32.93},
                                                 {10, 28.94}, {13, 24.01}, {14, 21.82}, {17, 19.28}, {18, 19.55}, {22, 16.16}, {26, 13.84}, {29, 12.86},
                                                 {32, 12.25}, {50, 8.82},  {54, 8.48},  {74, 6.76},  {78, 6.54},  {79, 6.46},  {82, 6.37},  {92, 6.00}};
    for (auto &t : tab)
        if (t.first == z) return t.second;
    double a2 = alpha * z * alpha * z;
    double L = std::log(184.15 / std::cbrt((double)z)), L1 = std::log(1194 / std::cbrt((double)z * z));
    return 716.405 * A / (z * z * (L - 1.202 * a2 + 1.0369 * a2 * a2 - 1.008 * a2 * a2 * a2 / (1 + a2)) + z * L1);
}
inline double radiation_length(const Mat &m) {
    double s = 0;
    for (auto &e : m.e) s += e.w / radiation_length(e.Z, e.A);
    return 1 / s;
}
inline double scattering_length(const Mat &m) {
    double s = 0;
    for (auto &e : m.e) {
        double a = e.A, z = e.Z;
        s += e.w * 0.00034896 * z * z * (2 * std::log(33219 / std::cbrt(a * z)) - 1) / a;
    }
    return 1 / s;
}
inline double Es2(const Conf &c) { return (c.scat == 0 || c.scat == 1) ? 2 * pi / alpha * e_mass * e_mass : 198.81; }
inline double pv(const Proj &p, double T) { return momentum(T, p.A) * beta(T); }
inline double da2dx(const Proj &p, double T, const Mat &m, const Conf &c) {
    if (T <= 0) return 0;
    double q = pv(p, T);
    return c.factor * Es2(c) * p.Z * p.Z / (radiation_length(m) * q * q);
}

// ---- quadrature ---------------------------------------------------------------------------
template <int N> struct GL {
    std::array<double, N> x, w;
    GL() {
        for (int i = 0; i < N; i++) {
            long double t = std::cos(3.14159265358979323846L * (i + 0.75L) / (N + 0.5L)), dp = 0;
            for (int it = 0; it < 100; it++) {
                long double p0 = 1, p1 = t;
                for (int k = 2; k <= N; k++) {
                    long double p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k;
                    p0 = p1;
                    p1 = p2;
                }
                dp = N * (t * p1 - p0) / (t * t - 1);
                long double d = p1 / dp;
                t -= d;
                if (std::fabs((double)d) < 1e-18) break;
            }
            x[i] = (double)t;
            w[i] = (double)(2 / ((1 - t * t) * dp * dp));
        }
    }
    template <typename F> double operator()(F f, double a, double b) const {
        double s = 0, h = 0.5 * (b - a), m = 0.5 * (a + b);
        for (int i = 0; i < N; i++) s += w[i] * f(m + h * x[i]);
        return h * s;
    }
};
inline const GL<8> &gl8() {
    static const GL<8> g;
    return g;
}
inline const GL<16> &gl16() {
    static const GL<16> g;
    return g;
}

// ---- tables ----------------------------------------------------------------------------------
const int NT = 600;
inline double node(int i) { return std::exp(2.30258509299404568401799145468 * (-3.0 + i * (10.0 / 599.0))); }
inline const std::array<double, NT> &nodes() {
    static const std::array<double, NT> v = [] {
        std::array<double, NT> a;
        for (int i = 0; i < NT; i++) a[i] = node(i);
        return a;
    }();
    return v;
}

// natural cubic spline through arbitrary points
struct Spline {
    std::vector<double> x, y, m; // m: second derivatives
    Spline() {}
    Spline(const double *xs, const double *ys, int n) : x(xs, xs + n), y(ys, ys + n), m(n, 0.0) {
        std::vector<long double> d(n), r(n);
        for (int i = 1; i < n - 1; i++) {
            long double h0 = (long double)x[i] - x[i - 1], h1 = (long double)x[i + 1] - x[i];
            long double diag = 2 * (h0 + h1), rhs = 6 * (((long double)y[i + 1] - y[i]) / h1 - ((long double)y[i] - y[i - 1]) / h0);
            if (i > 1) {
                long double f = h0 / d[i - 1];
                diag -= f * h0;
                rhs -= f * r[i - 1];
            }
            d[i] = diag;
            r[i] = rhs;
        }
        long double next = 0;
        for (int i = n - 2; i >= 1; i--) {
            long double h1 = (long double)x[i + 1] - x[i];
            next = (r[i] - (i < n - 2 ? h1 * next : 0)) / d[i];
            m[i] = (double)next;
        }
    }
    int seg(double v) const {
        int i = int(std::upper_bound(x.begin(), x.end(), v) - x.begin()) - 1;
        return std::min(std::max(i, 0), (int)x.size() - 2);
    }
    double operator()(double v) const {
        int n = (int)x.size();
        if (v < x[0]) return y[0] + (v - x[0]) * deriv(x[0]);
        if (v > x[n - 1]) return y[n - 1] + (v - x[n - 1]) * deriv(x[n - 1]);
        int i = seg(v);
        double h = x[i + 1] - x[i], t = v - x[i];
        double c = (y[i + 1] - y[i]) / h - h * (2 * m[i] + m[i + 1]) / 6;
        return y[i] + t * (c + t * (m[i] / 2 + t * (m[i + 1] - m[i]) / (6 * h)));
    }
    double deriv(double v) const {
        int n = (int)x.size();
        v = std::min(std::max(v, x[0]), x[n - 1]);
        int i = seg(v);
        double h = x[i + 1] - x[i], t = v - x[i];
        double c = (y[i + 1] - y[i]) / h - h * (2 * m[i] + m[i + 1]) / 6;
        return c + t * (m[i] + t * (m[i + 1] - m[i]) / (2 * h));
    }
};

struct Tables {
    Proj p;
    Mat m;
    Conf c;
    Spline range, rvar, avar;
    Tables(const Proj &p_, const Mat &m_, const Conf &c_, bool all = true) : p(p_), m(m_), c(c_) {
        std::array<double, NT> r, v, a;
        r[0] = v[0] = a[0] = 0;
        const auto &E = nodes();
        double k = all ? da2dx(p, 1, m, c) * pv(p, 1) * pv(p, 1) : 0;
        for (int i = 1; i < NT; i++) {
            double s1 = 0, s2 = 0, s3 = 0, h = 0.5 * (E[i] - E[i - 1]), mid = 0.5 * (E[i] + E[i - 1]);
            for (int j = 0; j < 8; j++) {
                double T = mid + h * gl8().x[j], w = gl8().w[j], s = dedx(p, T, m, c);
                s1 += w / s;
                if (all) {
                    s2 += w * omega2(p, T, m, c) / (s * s * s);
                    double q = pv(p, T);
                    s3 += w * k / (q * q * s);
                }
            }
            r[i] = r[i - 1] + p.A * h * s1;
            v[i] = v[i - 1] + p.A * h * s2;
            a[i] = a[i - 1] + p.A * h * s3;
        }
        range = Spline(E.data(), r.data(), NT);
        if (all) {
            rvar = Spline(E.data(), v.data(), NT);
            avar = Spline(E.data(), a.data(), NT);
        }
    }
    // residual energy by bisection; 0 if stopped
    double eout(double T, double th) const {
        double rest = range(T) - th;
        if (rest <= 0 || rest < range(E_low)) return 0;
        double lo = E_low, hi = T;
        for (int i = 0; i < 200 && hi - lo > 1e-15 * hi; i++) {
            double mid = 0.5 * (lo + hi);
            (range(mid) > rest ? hi : lo) = mid;
        }
        return 0.5 * (lo + hi);
    }
};

// ---- reactions ---------------------------------------------------------------------------------
inline int main_isotope(int z) {
    for (int i = 0; i < n_isotopes; i++)
        if (isotopes[i].z == z) return isotopes[i].a;
    return 0;
}
inline double sigma_kox(int Ap, int Zp, double E, int At, int Zt) {
    double ap = std::cbrt((double)Ap), at = std::cbrt((double)At);
    double D = 5.0 * (At - 2 * Zt) * Zp / ((double)Ap * At);
    double Bc = Zp * Zt / (1.3 * (ap + at));
    double l = std::log10(E), c;
    if (l < 1.5) c = (2 - 10 / std::pow(1.5, 5)) * std::pow(l / 1.5, 3);
    else c = 2 - 10 / std::pow(l, 5);
    double R = 1.1 * (ap + at + 1.85 * ap * at / (ap + at) - c) + D;
    return 10 * pi * R * R * (1 - Bc / (E * Ap * At / (double)(Ap + At)));
}

} // namespace ref
