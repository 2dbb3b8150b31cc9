// C23: quadrature rules integrate with their nominal exactness.
#include "gen.h"
#include "catima/integrator.h"
using namespace gen;
using namespace integrators;
typedef long double LD;

struct Interval {
    double a, b;
};
static Interval interval(Src &s) {
    Interval i;
    switch (s.pick({2, 3, 1, 1})) {
    case 0: return {-1, 1};
    case 1: i.a = s.uniform(-10, 10); i.b = i.a + s.loguniform(1e-3, 100); break;
    case 2: i.a = s.loguniform(1e-6, 1e3); i.b = i.a * (1 + s.loguniform(1e-4, 1e3)); break;
    default: i.a = -s.loguniform(1e-3, 1e5); i.b = i.a + s.loguniform(0.1, 1e4) * std::fabs(i.a);
    }
    if (s.chance(1, 4)) std::swap(i.a, i.b);
    return i;
}
// polynomial in u=(x-a)/(b-a) (0..1) or t (-1..1), with exact integral
struct Poly {
    Interval i;
    bool centred;
    std::vector<double> c;
    LD eval(LD x) const {
        LD u = (x - i.a) / ((LD)i.b - i.a), r = 0;
        if (centred) u = 2 * u - 1;
        for (size_t k = c.size(); k-- > 0;) r = r * u + c[k];
        return r;
    }
    LD integral() const {
        LD r = 0;
        for (size_t k = 0; k < c.size(); k++) r += centred ? (k % 2 ? 0 : (LD)c[k] / (k + 1)) : (LD)c[k] / (k + 1);
        return r * ((LD)i.b - i.a);
    }
    double scale() const {
        double r = 0;
        for (auto x : c) r += std::fabs(x);
        return r * std::fabs(i.b - i.a);
    }
    double noise() const { // rounding of the argument
        double d = 0, w = std::fabs(i.b - i.a);
        for (size_t k = 0; k < c.size(); k++) d += k * std::fabs(c[k]);
        return d * w * 4e-16 * (std::max(std::fabs(i.a), std::fabs(i.b)) / w + 1);
    }
};
static Poly poly(Src &s, Interval i, int maxdeg) {
    Poly p;
    p.i = i;
    p.centred = s.coin();
    int deg = s.coin() ? maxdeg : s.integer(0, maxdeg);
    p.c.assign(deg + 1, 0);
    if (s.coin())
        p.c[deg] = s.uniform(0.5, 2);
    else
        for (auto &x : p.c) x = s.uniform(-1, 1);
    s.note("degree %d on [%.17g,%.17g] %s", deg, i.a, i.b, p.centred ? "centred" : "from the left");
    return p;
}

// ---- Gauss-Legendre ----------------------------------------------------------------------------
template <int n> static void points(Src &s, const std::array<double, n> &pts, std::vector<double> used, Interval i) {
    double w = std::fabs(i.b - i.a), m = std::max(std::fabs(i.a), std::fabs(i.b));
    s.check((int)used.size() == n, "number of evaluations", "%zu evaluations for %d points", used.size(), n);
    std::sort(used.begin(), used.end());
    std::vector<double> p(pts.begin(), pts.end());
    if (i.b < i.a) std::reverse(p.begin(), p.end());
    for (int k = 0; k < n; k++) {
        if (k) s.check(p[k] > p[k - 1], "order of points", "point %d is not larger than the one before", k);
        s.close("points", used[k], p[k], 0, 1e-14 * (w + m));
        s.check(p[k] >= std::min(i.a, i.b) - 1e-14 * m && p[k] <= std::max(i.a, i.b) + 1e-14 * m, "point outside", "point %d outside of the interval", k);
        s.close("symmetry", p[k] + p[n - 1 - k], i.a + i.b, 0, 1e-14 * (w + 2 * m));
    }
}
template <int n> static void gl(Src &s) {
    Interval i = interval(s);
    Poly p = poly(s, i, 2 * n - 1);
    s.note("order %d", n);
    if (p.c.size() > (size_t)n) s.nontrivial();
    GaussLegendreIntegration<n> g;
    std::vector<double> used;
    auto f = [&](double x) {
        used.push_back(x);
        return (double)p.eval(x);
    };
    double r = g.integrate(f, i.a, i.b);
    s.close("Gauss-Legendre", r, (double)p.integral(), 1e-12, 2e-14 * p.scale() + p.noise());
    points<n>(s, g.get_points(i.a, i.b), used, i);
    s.close("call operator", g(f, i.a, i.b), r, 1e-14, 1e-16 * p.scale());
    s.close("reversed", g.integrate(f, i.b, i.a), -r, 1e-12, 1e-14 * p.scale() + p.noise());
    s.close("empty", g.integrate(f, i.a, i.a), 0, 0);
    s.check(g.n() == n, "order", "n() is %d for order %d", g.n(), n);
    // default interval and weights
    auto d = g.get_points();
    double sum = 0;
    for (int k = 0; k < n / 2 + n % 2; k++) {
        s.check(g.w(k) > 0, "weight", "weight %d not positive", k);
        sum += g.w(k) * (n % 2 && k == 0 ? 1 : 2);
    }
    s.close("sum of weights", sum, 2, 1e-13);
    Interval u{-1, 1};
    std::vector<double> dd(d.begin(), d.end());
    points<n>(s, d, dd, u);
    s.close("default points", d[0] * (i.b - i.a) / 2 + (i.a + i.b) / 2, g.get_points(i.a, i.b)[0], 0, 1e-14 * (std::fabs(i.a) + std::fabs(i.b)));
}
static void legendre(Src &s) {
    switch (s.draw(13)) {
    case 0: gl<8>(s); break;
    case 1: gl<3>(s); break;
    case 2: gl<4>(s); break;
    case 3: gl<5>(s); break;
    case 4: gl<6>(s); break;
    case 5: gl<7>(s); break;
    case 6: gl<10>(s); break;
    case 7: gl<12>(s); break;
    case 8: gl<14>(s); break;
    case 9: gl<16>(s); break;
    case 10: gl<20>(s); break;
    case 11: gl<32>(s); break;
    case 12: gl<64>(s); break;
    default: gl<128>(s);
    }
}

// ---- Gauss-Kronrod -----------------------------------------------------------------------------
template <int n> static void gk(Src &s) {
    typedef GaussKronrodIntegration<n> G;
    Interval i = interval(s);
    const int m = (n - 1) / 2, deg = 3 * m + 1;
    Poly p = poly(s, i, deg);
    s.note("order %d", n);
    if (p.c.size() > (size_t)n) s.nontrivial();
    std::vector<double> used;
    auto f = [&](double x) {
        used.push_back(x);
        return (double)p.eval(x);
    };
    auto r = G::integrate_nonadaptive(f, i.a, i.b);
    double tol = 2e-14 * p.scale() + p.noise();
    s.close("Gauss-Kronrod", r.first, (double)p.integral(), 1e-12, tol);
    points<n>(s, G::get_points(i.a, i.b), used, i);
    s.check(G::n() == n, "order", "n() is %d for order %d", G::n(), n);
    s.check(r.second >= 0, "error estimate", "negative error estimate %.17g", r.second);
    // up to 2m-1 both rules are exact: no error is seen
    if ((int)p.c.size() <= 2 * m) {
        s.label("exact for the embedded rule");
        s.check(r.second <= 1e-12 * std::fabs(r.first) + 4 * tol + 1e-15 * std::fabs(i.b - i.a), "error estimate of an exact rule", "error estimate %.3g for a polynomial both rules integrate exactly", r.second);
    }
    double back = G::integrate_nonadaptive(f, i.b, i.a).first;
    s.close("reversed", back, -r.first, 1e-12, tol);
    s.close("empty", G::integrate_nonadaptive(f, i.a, i.a).first, 0, 0);
    s.close("empty adaptive", G::integrate(f, i.a, i.a), 0, 0);
    double sum = 0, gs = 0;
    for (int k = 0; k < n / 2 + 1; k++) sum += G::w(k) * (k ? 2 : 1);
    for (int k = 0; k < (m + 1) / 2; k++) gs += G::wg(k) * (m % 2 && k == 0 ? 1 : 2);
    s.close("sum of weights", sum, 2, 1e-13);
    s.close("sum of Gauss weights", gs, 2, 1e-13);
    // a polynomial is done in one step, also adaptively and in parts
    int N = s.integer(1, 6);
    s.close("adaptive polynomial", G::integrate(f, i.a, i.b, 1e-9 * p.scale(), 1e-9, N), (double)p.integral(), 1e-11, 5 * tol);
}
static void kronrod(Src &s) {
    switch (s.draw(4)) {
    case 0: gk<21>(s); break;
    case 1: gk<7>(s); break;
    case 2: gk<15>(s); break;
    case 3: gk<31>(s); break;
    default: gk<61>(s);
    }
}

// The rule may be blind by accident (a kink where both rules err alike). An own copy of the textbook recursion decides
// whether a result outside of the requested precision is such a case.
template <int n, class F> static double own_adaptive(F &f, double a, double b, double eps, double reps, int level = 49) {
    typedef GaussKronrodIntegration<n> G;
    const int m = (n - 1) / 2;
    double p = 0.5 * (b - a), q = 0.5 * (b + a), k = 0, g = 0;
    for (int i = 0; i < n / 2 + 1; i++) {
        double v = i ? f(p * G::x(i) + q) + f(-p * G::x(i) + q) : f(q);
        k += G::w(i) * v;
        bool gauss = m % 2 ? i % 2 == 0 : i % 2 == 1;
        if (gauss) g += G::wg(i / 2) * v;
    }
    double err = std::fabs(p) * std::fabs(g - k), r = p * k, lim = 10 * std::numeric_limits<double>::epsilon();
    if (std::fabs(r) < lim || std::fabs(b - a) < lim) return r;
    double e = std::max(reps * std::fabs(r), eps);
    if (e < lim || std::fabs(r) < e || !level || err <= e) return r;
    return own_adaptive<n>(f, a, q, 0.707 * e, 0, level - 1) + own_adaptive<n>(f, q, b, 0.707 * e, 0, level - 1);
}
// ---- adaptive ------------------------------------------------------------------------------------
template <int n> static void ad(Src &s) {
    typedef GaussKronrodIntegration<n> G;
    int kind = s.pick({2, 2, 2, 2, 1, 1, 1});
    double a = s.uniform(-5, 5), b = a + s.loguniform(0.1, 10), c = s.uniform(a, b), k = s.loguniform(0.5, 20), A = s.loguniform(0.1, 100);
    long evals = 0;
    LD I = 0;
    auto F = [&](LD x) -> LD { // antiderivative
        switch (kind) {
        case 0: return std::exp(k / 5 * (x - a)) / (k / 5);
        case 1: return -std::cos(k * x) / k + 1.5L * x;
        case 2: return (x > c ? 1 : -1) * (x - c) * (x - c) / 2;
        case 3: return std::atan(k * (x - c)) / k;
        case 4: return (x > c ? 2.0L / 3 : -2.0L / 3) * std::pow(std::fabs(x - c), 1.5L);
        case 5: return x > c ? (x - c) * (x - c) / 2 : 0;
        default: return x + (x > c ? 2 * (x - c) : 0); // a step
        }
    };
    auto f = [&](double x) -> double {
        evals++;
        switch (kind) {
        case 0: return A * std::exp(k / 5 * (x - a));
        case 1: return A * (std::sin(k * x) + 1.5);
        case 2: return A * std::fabs(x - c);
        case 3: return A / (1 + k * k * (x - c) * (x - c));
        case 4: return A * std::sqrt(std::fabs(x - c));
        case 5: return x > c ? A * (x - c) : 0;
        default: return A * (x > c ? 3 : 1);
        }
    };
    double eps, reps;
    bool defaults = s.chance(1, 4);
    eps = defaults ? 1e-3 : s.coin() ? s.loguniform(1e-10, 1e-3) : 1e-12;
    reps = defaults ? 1e-6 : s.loguniform(1e-10, 1e-4);
    s.note("order %d, function %d on [%.17g,%.17g] c=%.17g k=%.17g A=%.17g eps=%.3g reps=%.3g", n, kind, a, b, c, k, A, eps, reps);
    I = A * (F(b) - F(a));
    if (kind >= 2) s.nontrivial();
    typedef std::vector<std::pair<double, double>> Parts;
    auto judge = [&](const char *what, double got, double want, const Parts &parts) {
        double tol = 2 * std::max(eps, reps * std::fabs(want)) + 1e-13 * std::fabs(want);
        if (!(std::fabs(got - want) <= tol)) {
            double own = 0;
            for (auto &q : parts) own += own_adaptive<n>(f, q.first, q.second, eps / parts.size(), reps);
            if (std::fabs(got - own) <= 1e-10 * std::fabs(want) + 0.01 * tol) {
                s.label("error estimate blind");
                return;
            }
        }
        s.note("%s: %.15g (exact %.15g, %ld evaluations)", what, got, want, evals);
        s.close(what, got, want, 0, tol);
        s.check(evals < 4000000, "evaluations", "%ld evaluations", evals);
    };
    double r = defaults ? G::integrate(f, a, b) : G::integrate(f, a, b, eps, reps);
    judge("adaptive", r, (double)I, {{a, b}});
    evals = 0;
    double back = defaults ? G::integrate(f, b, a) : G::integrate(f, b, a, eps, reps);
    judge("adaptive reversed", back, (double)-I, {{b, a}});
    evals = 0;
    int N = s.integer(2, 9);
    double parts = G::integrate(f, a, b, eps, reps, N);
    Parts eq;
    for (int i = 0; i < N; i++) {
        double st = (b - a) / N, l = a + i * st;
        eq.push_back({l, l + st});
    }
    judge("adaptive in equal parts", parts, (double)I, eq);
    evals = 0;
    // arbitrary intervals
    std::vector<std::pair<double, double>> iv;
    std::vector<double> cut{a, b};
    int m = s.integer(0, 4);
    for (int i = 0; i < m; i++) cut.push_back(s.coin() ? s.uniform(a, b) : c);
    std::sort(cut.begin(), cut.end());
    for (size_t i = 0; i + 1 < cut.size(); i++) iv.push_back({cut[i], cut[i + 1]});
    double x = defaults ? G::integrate_intervals(f, iv) : G::integrate_intervals(f, iv, eps, reps);
    judge("adaptive over intervals", x, (double)I, iv);
    // any subset of the intervals
    std::vector<std::pair<double, double>> sub;
    LD J = 0;
    for (auto &q : iv)
        if (s.coin()) sub.push_back(q), J += A * (F(q.second) - F(q.first));
    evals = 0;
    double y = G::integrate_intervals(f, sub, eps, reps);
    if (sub.empty()) s.close("no intervals", y, 0, 0);
    else judge("adaptive over some intervals", y, (double)J, sub);
    evals = 0;
    judge("integrate_adaptive", G::integrate_adaptive(f, a, b, eps, reps), (double)I, {{a, b}});
}
static void adaptive(Src &s) {
    switch (s.draw(4)) {
    case 0: ad<21>(s); break;
    case 1: ad<7>(s); break;
    case 2: ad<15>(s); break;
    case 3: ad<31>(s); break;
    default: ad<61>(s);
    }
}

// ---- two dimensions --------------------------------------------------------------------------------
template <int n, int m, class G> static void dd(Src &s, const G &g, const char *name) {
    Interval i = interval(s), j = interval(s);
    Poly p = poly(s, i, 2 * n - 1), q = poly(s, j, 2 * m - 1);
    s.note("%s orders %d and %d", name, n, m);
    s.nontrivial();
    std::set<std::pair<double, double>> used;
    auto f = [&](double x, double y) {
        used.insert({x, y});
        return (double)(p.eval(x) * q.eval(y));
    };
    double r = g.integrate(f, i.a, i.b, j.a, j.b);
    double want = (double)(p.integral() * q.integral()), sc = p.scale() * q.scale(), tol = 1e-13 * sc + 2 * p.noise() * q.scale() + 2 * q.noise() * p.scale();
    s.close("two dimensions", r, want, 1e-11, tol);
    s.close("call operator", g(f, i.a, i.b, j.a, j.b), r, 1e-13, 1e-15 * sc);
    s.close("reversed", g.integrate(f, i.b, i.a, j.a, j.b), -r, 1e-11, tol);
    s.close("reversed", g.integrate(f, i.a, i.b, j.b, j.a), -r, 1e-11, tol);
    s.close("empty", g.integrate(f, i.a, i.a, j.a, j.b), 0, 0);
    // a function that is not a product
    double e = s.uniform(-0.3, 0.3) / (1 + std::max(std::fabs(i.a), std::fabs(i.b))), h = s.uniform(-0.3, 0.3) / (1 + std::max(std::fabs(j.a), std::fabs(j.b)));
    auto lin = [&](double x, double y) { return 1 + e * x * y + h * y + (e - h) * x; };
    double wx = i.b - i.a, wy = j.b - j.a, mx = (i.a + i.b) / 2, my = (j.a + j.b) / 2;
    double big = std::fabs(wx * wy) * (1 + std::fabs(e) * (std::fabs(i.a) + std::fabs(i.b)) * (1 + std::fabs(j.a) + std::fabs(j.b)) + std::fabs(h) * (2 + std::fabs(j.a) + std::fabs(j.b) + std::fabs(i.a) + std::fabs(i.b)));
    s.close("bilinear", g.integrate(lin, i.a, i.b, j.a, j.b), wx * wy * (1 + e * mx * my + h * my + (e - h) * mx), 1e-12, 1e-13 * big);
}
static void two(Src &s) {
    switch (s.draw(11)) {
    case 0: dd<8, 8>(s, GaussLegendreIntegration2D<8>(), "2D"); break;
    case 1: dd<3, 3>(s, GaussLegendreIntegration2D<3>(), "2D"); break;
    case 2: dd<4, 4>(s, GaussLegendreIntegration2D<4>(), "2D"); break;
    case 3: dd<5, 5>(s, GaussLegendreIntegration2D<5>(), "2D"); break;
    case 4: dd<7, 7>(s, GaussLegendreIntegration2D<7>(), "2D"); break;
    case 5: dd<16, 16>(s, GaussLegendreIntegration2D<16>(), "2D"); break;
    case 6: dd<8, 3>(s, GaussLegendreIntegration2DA<8, 3>(), "2DA"); break;
    case 7: dd<3, 8>(s, GaussLegendreIntegration2DA<3, 8>(), "2DA"); break;
    case 8: dd<5, 7>(s, GaussLegendreIntegration2DA<5, 7>(), "2DA"); break;
    case 9: dd<4, 16>(s, GaussLegendreIntegration2DA<4, 16>(), "2DA"); break;
    case 10: dd<6, 6>(s, GaussLegendreIntegration2DA<6>(), "2DA"); break;
    default: dd<12, 10>(s, GaussLegendreIntegration2DA<12, 10>(), "2DA");
    }
}
// the rules the library uses
static void library(Src &s) {
    Interval i = interval(s);
    Poly p = poly(s, i, 15);
    auto f = [&](double x) { return (double)p.eval(x); };
    s.nontrivial();
    s.close("catima::integrator", catima::integrator.integrate(f, i.a, i.b), (double)p.integral(), 1e-12, 2e-14 * p.scale() + p.noise());
    s.close("catima::integrator_adaptive", catima::integrator_adaptive.integrate(f, i.a, i.b, 1e-12, 1e-12), (double)p.integral(), 1e-11, 5e-14 * p.scale() + p.noise());
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C23", {
        {"legendre", legendre, 200000, 5000000, "Random order, interval and polynomial up to degree 2n-1; points, weights, reversed and empty intervals; non-trivial: degree at least the order."},
        {"kronrod", kronrod, 200000, 5000000, "The same for Gauss-Kronrod up to degree (3n-1)/2; non-trivial: degree at least the order."},
        {"adaptive", adaptive, 300000, 10000000, "Random smooth, kinked, singular-derivative and step functions with random precision, whole, reversed, in parts and over lists of intervals, against their antiderivative; non-trivial: not smooth."},
        {"two", two, 100000, 2000000, "Products of random polynomials and bilinear functions in two dimensions; non-trivial: all."},
        {"library", library, 50000, 1000000, "The rules used by the calculations; non-trivial: all."},
    }});
}
