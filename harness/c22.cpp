// C22: table index, piecewise linear and cubic spline interpolation.
#include "gen.h"
#include <memory>
using namespace gen;
typedef long double LD;

// ---- index ---------------------------------------------------------------------------------
// the last point not above v; where v is a point up to rounding, the point before is the same interval
static void judge_index(Src &s, const char *what, const std::vector<double> &x, double v, int got) {
    int n = x.size(), want = -1;
    for (int i = 0; i < n; i++)
        if (x[i] <= v) want = i;
    s.eval();
    if (got == want) return;
    double eps = 1e-13; // rounding of the points and of the logarithm
    auto near = [&](int i) { return i >= 0 && i < n && std::fabs(v - x[i]) <= eps * std::max(std::fabs(x[i]), std::fabs(x[n - 1]) * (what[0] == 'L' && what[1] == 'i' ? 1 : 0)) + 3e-15; };
    if (got == want + 1 && near(got)) return;
    if (got == want - 1 && near(want)) return;
    s.fail(what, fmt("%s: index of %.17g is %d, expected %d (points %.17g, %.17g)", what, v, got, want, want >= 0 ? x[want] : -1, want + 1 < n ? x[want + 1] : -1));
}
static double around(Src &s, const std::vector<double> &x) {
    int n = x.size(), i = s.draw(n - 1);
    static const double d[] = {0, 1e-16, -1e-16, 3e-16, -3e-16, 1e-15, -1e-15, 1e-14, -1e-14, 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3};
    switch (s.pick({4, 4, 1, 1, 1, 1, 1})) {
    case 0: return s.uniform(x[0], x[n - 1]);
    case 1: return x[i] + d[s.draw(16)] * x[i];
    case 2: return x[0] - s.loguniform(1e-18, 10) * std::fabs(x[0]);
    case 3: return x[n - 1] + s.loguniform(1e-18, 1e3) * std::fabs(x[n - 1]);
    case 4: return i + 1 < n ? std::nextafter(x[i + 1], x[i]) : x[i];
    case 5: return i + 1 < n ? x[i] + (x[i + 1] - x[i]) * s.unit() : x[i];
    default: {
        static const double v[] = {0, -1, -1e300, 1e300, 1e-300, 1e30};
        return v[s.draw(5)];
    }
    }
}
template <int N> static void index_n(Src &s) {
    double a = s.uniform(-6, 5), b = a + s.loguniform(1e-2, 12);
    std::vector<double> x(N);
    s.note("N=%d log range %.17g..%.17g", N, a, b);
    catima::EnergyTable<N> t(a, b);
    catima::LogVArray<N> l(a, b);
    s.check(t.size() == N && l.size() == N, "size", "size of the table");
    double step = (b - a) / (N - 1);
    s.close("step", t.step, step, 1e-12);
    s.close("step_size", l.step_size(), step, 1e-12);
    for (int i = 0; i < N; i++) {
        double w = std::pow(10.0, a + i * step);
        x[i] = t[i];
        s.close("point", t(i), w, 3e-14);
        s.close("point", t[i], t.values[i], 0);
        s.close("log point", l(i), w, 3e-14);
        s.close("log point", l[i], l.value(i), 0);
    }
    s.check(t.end() - t.begin() == N && *t.begin() == x[0] && *(t.end() - 1) == x[N - 1], "iterators", "begin and end");
    double c = s.uniform(-100, 100), d = c + s.loguniform(1e-3, 1e4);
    catima::LinearVArray<N> v(c, d);
    std::vector<double> xl(N);
    for (int i = 0; i < N; i++) {
        xl[i] = v[i];
        s.close("linear point", v[i], c + (d - c) / (N - 1) * i, 1e-13, 1e-13 * (std::fabs(c) + std::fabs(d)));
    }
    s.close("min", v.get_min(), c, 0);
    s.close("max", v.get_max(), d, 0);
    s.nontrivial();
    for (int k = 0; k < 12; k++) {
        double q = around(s, x);
        judge_index(s, "EnergyTable", x, q, t.index(q));
        judge_index(s, "LogVArray", x, q, l.index(q));
        q = around(s, xl);
        judge_index(s, "LinearVArray", xl, q, v.index(q));
    }
}
static void index_(Src &s) {
    switch (s.pick({2, 1, 1, 1, 1, 2})) {
    case 0: index_n<600>(s); break;
    case 1: index_n<3>(s); break;
    case 2: index_n<10>(s); break;
    case 3: index_n<50>(s); break;
    case 4: index_n<100>(s); break;
    default: index_n<200>(s);
    }
}
// the table all calculations use
static void energy_table(Src &s) {
    auto &t = catima::energy_table;
    static std::vector<double> x;
    if (x.empty())
        for (int i = 0; i < 600; i++) x.push_back(t[i]);
    s.nontrivial();
    for (int i = 0; i < 600; i += 599) s.close("energy table", t[i], ref::node(i), 1e-13);
    int j = s.draw(599);
    s.close("energy table", t[j], ref::node(j), 1e-13);
    for (int k = 0; k < 10; k++) {
        double q = around(s, x);
        s.note("v=%.17g", q);
        judge_index(s, "energy_table", x, q, t.index(q));
    }
}

// ---- piecewise linear ------------------------------------------------------------------------
static std::vector<double> values(Src &s, const std::vector<double> &x, int &kind) {
    int n = x.size();
    std::vector<double> y(n);
    kind = s.pick({3, 3, 2, 1, 1, 2});
    double a = s.uniform(-5, 5), b = s.uniform(-3, 3), c = s.uniform(0.3, 2);
    for (int i = 0; i < n; i++) {
        double u = std::log(x[i] / x[0]) / std::log(x[n - 1] / x[0]);
        switch (kind) {
        case 0: y[i] = s.uniform(-1, 1); break;
        case 1: y[i] = a + std::sin(3 * c * u + b); break;
        case 2: y[i] = std::pow(x[i], c); break;
        case 3: y[i] = a; break;
        case 4: y[i] = a + b * x[i]; break;
        default: y[i] = std::exp(b * u) * (1 + 0.1 * std::cos(20 * u));
        }
    }
    return y;
}
template <int N> static void linear_n(Src &s) {
    double a = s.uniform(-3, 4), b = a + s.loguniform(0.5, 10);
    catima::EnergyTable<N> t(a, b);
    std::vector<double> x(t.begin(), t.end());
    int kind;
    auto y = values(s, x, kind);
    s.note("N=%d %.17g..%.17g values of kind %d", N, a, b, kind);
    if (kind == 0 || kind == 1) s.nontrivial();
    double m = 0;
    for (auto v : y) m = std::max(m, std::fabs(v));
    for (int k = 0; k < 10; k++) {
        double q = around(s, x), got = catima::EnergyTable_interpolate(t, q, y.data());
        s.note("x=%.17g", q);
        if (q < x[0] || q > x[N - 1]) {
            s.close("outside", got, 0, 0);
            continue;
        }
        int i = std::upper_bound(x.begin(), x.end(), q) - x.begin() - 1;
        if (i >= N - 1) i = N - 2;
        LD u = ((LD)q - x[i]) / ((LD)x[i + 1] - x[i]);
        s.close("linear interpolation", got, (double)(y[i] + (y[i + 1] - (LD)y[i]) * u), 1e-9, 1e-8 * m);
    }
    int i = s.draw(N - 1);
    s.close("linear interpolation at a point", catima::EnergyTable_interpolate(t, x[i], y.data()), y[i], 1e-12, 1e-12 * m);
}
static void linear(Src &s) {
    switch (s.pick({1, 1, 1, 1})) {
    case 0: linear_n<200>(s); break;
    case 1: linear_n<3>(s); break;
    case 2: linear_n<20>(s); break;
    default: linear_n<600>(s);
    }
}

// ---- cubic spline ------------------------------------------------------------------------------
struct Spline { // spline in extended precision: natural, or with zero slope at both ends
    std::vector<LD> x, y, m; // m: second derivatives
    void build(bool flat = false) {
        int n = x.size();
        std::vector<LD> c(n, 0), d(n, 0);
        m.assign(n, 0);
        if (flat) {
            LD h = x[1] - x[0];
            c[0] = 0.5L;
            d[0] = 3 * (y[1] - y[0]) / (h * h);
        }
        for (int i = 1; i < n - 1; i++) {
            LD h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
            LD r = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0);
            LD den = 2 * (h0 + h1) - h0 * c[i - 1];
            c[i] = h1 / den;
            d[i] = (r - h0 * d[i - 1]) / den;
        }
        if (flat) {
            LD h = x[n - 1] - x[n - 2], r = -6 * (y[n - 1] - y[n - 2]) / h;
            m[n - 1] = (r - h * d[n - 2]) / (2 * h - h * c[n - 2]);
        }
        for (int i = n - 2; i >= (flat ? 0 : 1); i--) m[i] = d[i] - c[i] * m[i + 1];
    }
    int find(LD q) const {
        int n = x.size(), i = std::upper_bound(x.begin(), x.end(), q) - x.begin() - 1;
        return std::max(0, std::min(n - 2, i));
    }
    void eval(LD q, LD &v, LD &d, LD &d2) const {
        int n = x.size();
        auto in = [&](LD q, int i, LD &v, LD &d, LD &d2) {
            LD h = x[i + 1] - x[i], A = (x[i + 1] - q) / h, B = (q - x[i]) / h;
            v = A * y[i] + B * y[i + 1] + ((A * A * A - A) * m[i] + (B * B * B - B) * m[i + 1]) * h * h / 6;
            d = (y[i + 1] - y[i]) / h + (-(3 * A * A - 1) * m[i] + (3 * B * B - 1) * m[i + 1]) * h / 6;
            d2 = A * m[i] + B * m[i + 1];
        };
        if (q < x[0]) {
            in(x[0], 0, v, d, d2);
            v += d * (q - x[0]);
            d2 = 0;
        } else if (q > x[n - 1]) {
            in(x[n - 1], n - 2, v, d, d2);
            v += d * (q - x[n - 1]);
            d2 = 0;
        } else
            in(q, find(q), v, d, d2);
    }
};
template <class T, class S> static void spline_on(Src &s, const T &t, const std::vector<double> &x, const std::vector<double> &y, int kind, const S &sp, const char *kindname, bool flat) {
    int n = x.size();
    Spline r;
    r.x.assign(x.begin(), x.end());
    r.y.assign(y.begin(), y.end());
    r.build(flat);
    if (flat) {
        s.label("flat ends");
        for (int e = 0; e < 2; e++) {
            int i = e ? n - 2 : 0;
            double h = x[i + 1] - x[i];
            s.close("slope at the end", sp.deriv(e ? x[n - 1] : x[0]), 0, 0, 1e-9 * (std::fabs(y[i]) + std::fabs(y[i + 1])) / h + 1e-9 * h * (double)(std::fabs(r.m[i]) + std::fabs(r.m[i + 1])));
        }
    }
    (void)t;
    s.note("%s N=%d %.17g..%.17g values of kind %d", kindname, n, x[0], x[n - 1], kind);
    if (kind < 3 || kind == 5) s.nontrivial();
    for (int k = 0; k < 14; k++) {
        double q = around(s, x);
        if (q < x[0] - 2 * (x[n - 1] - x[0]) || q > x[n - 1] + 2 * (x[n - 1] - x[0])) q = x[0] + (x[n - 1] - x[0]) * s.uniform(-0.5, 1.5);
        LD v, d, d2;
        r.eval(q, v, d, d2);
        int i = r.find(q);
        double scale = std::max({std::fabs(y[i]), std::fabs(y[i + 1]), (double)std::fabs(v)}), h = x[i + 1] - x[i];
        double ds = std::max((double)std::fabs(d), scale / h);
        if (flat) ds = std::max(ds, h * (double)(std::fabs(r.m[i]) + std::fabs(r.m[i + 1]))); // the slope vanishes at the ends as a difference of these
        s.note("x=%.17g", q);
        s.close("spline value", sp.evaluate(q), (double)v, 1e-9, 1e-10 * scale + 1e-10 * ds * std::fabs(q - x[i]));
        s.close("spline derivative", sp.deriv(q), (double)d, 1e-9, 1e-9 * ds + 2e-15 * std::fabs(q < x[0] ? x[0] : q) * (double)std::fabs(r.m[i] + r.m[i + 1]));
    }
    int i = s.draw(n - 1);
    double ymax = 0;
    for (int k = std::max(0, i - 2); k < std::min(n, i + 3); k++) ymax = std::max(ymax, std::fabs(y[k]));
    s.close("spline at a point", sp.evaluate(x[i]), y[i], 1e-10, 1e-10 * ymax);
    // continuity of value, derivative and second derivative at an inner point, from the spline alone
    i = 1 + s.draw(n - 3);
    double hl = (x[i] - x[i - 1]), hr = (x[i + 1] - x[i]), sc = std::max({std::fabs(y[i - 1]), std::fabs(y[i]), std::fabs(y[i + 1])});
    double e = 1e-9;
    LD v, d, d2, vv, dd, dd2;
    r.eval(x[i] - hl * 0.5, v, d, d2);
    r.eval(x[i] + hr * 0.5, vv, dd, dd2);
    double l = sp.deriv(x[i] - e * hl), m = sp.deriv(x[i] + e * hr);
    double bend = (double)(std::fabs(r.m[i - 1]) + std::fabs(r.m[i]) + std::fabs(r.m[i + 1])) * std::max(hl, hr);
    s.close("continuous derivative", m, l, 1e-9, 1e-8 * bend + 1e-8 * sc / std::min(hl, hr));
    // second derivative: slope of the (quadratic) derivative on both sides
    auto second = [&](double a, double h) { return (sp.deriv(a + h) - sp.deriv(a - h)) / (2 * h); };
    double sl = 2 * second(x[i] - 0.25 * hl, 0.125 * hl) - second(x[i] - 0.5 * hl, 0.125 * hl), sr = 2 * second(x[i] + 0.25 * hr, 0.125 * hr) - second(x[i] + 0.5 * hr, 0.125 * hr);
    double s2 = (double)(std::fabs(r.m[i - 1]) + std::fabs(r.m[i]) + std::fabs(r.m[i + 1])) + sc / (std::min(hl, hr) * std::min(hl, hr));
    s.close("continuous second derivative", sr, sl, 1e-6, 1e-6 * s2);
}
template <int N> static void spline_n(Src &s) {
    double a = s.uniform(-4, 4), b = a + s.loguniform(0.3, 10);
    auto t = std::make_unique<catima::EnergyTable<N>>(a, b);
    std::vector<double> x(t->begin(), t->end());
    int kind;
    auto y = values(s, x, kind);
    bool flat = s.chance(1, 4);
    if (s.coin()) {
        auto sp = std::make_unique<catima::cspline_special<catima::EnergyTable<N>>>(*t, y, !flat);
        spline_on(s, *t, x, y, kind, *sp, "EnergyTable", flat);
    } else {
        auto l = std::make_unique<catima::LogVArray<N>>(a, b);
        for (int i = 0; i < N; i++) x[i] = (*l)[i];
        auto sp = std::make_unique<catima::cspline_special<catima::LogVArray<N>>>(*l, y, !flat);
        spline_on(s, *l, x, y, kind, *sp, "LogVArray", flat);
    }
}
template <int N> static void spline_lin(Src &s) {
    double c = s.uniform(0.1, 100), d = c + s.loguniform(1e-2, 1e4);
    auto t = std::make_unique<catima::LinearVArray<N>>(c, d);
    std::vector<double> x(N);
    for (int i = 0; i < N; i++) x[i] = (*t)[i];
    int kind;
    auto y = values(s, x, kind);
    bool flat = s.chance(1, 4);
    auto sp = std::make_unique<catima::cspline_special<catima::LinearVArray<N>>>(*t, y, !flat);
    spline_on(s, *t, x, y, kind, *sp, "LinearVArray", flat);
}
static void spline(Src &s) {
    switch (s.pick({3, 1, 1, 2, 1, 1, 1, 1})) {
    case 0: spline_n<600>(s); break;
    case 1: spline_n<3>(s); break;
    case 2: spline_n<4>(s); break;
    case 3: spline_n<20>(s); break;
    case 4: spline_n<100>(s); break;
    case 5: spline_lin<3>(s); break;
    case 6: spline_lin<50>(s); break;
    default: spline_lin<10>(s);
    }
}
// the interpolator used by the library on its energy table
static void interpolator(Src &s) {
    auto &t = catima::energy_table;
    static std::vector<double> x;
    if (x.empty())
        for (int i = 0; i < 600; i++) x.push_back(t[i]);
    int kind;
    auto y = values(s, x, kind);
    Spline r;
    r.x.assign(x.begin(), x.end());
    r.y.assign(y.begin(), y.end());
    r.build();
    catima::Interpolator p(t, y);
    s.close("get_min", p.get_min(), x[0], 1e-15);
    s.close("get_max", p.get_max(), x[599], 1e-15);
    s.note("values of kind %d", kind);
    if (kind < 3 || kind == 5) s.nontrivial();
    auto look = [&](const catima::Interpolator &p, const char *what) {
        for (int k = 0; k < 8; k++) {
            double q = around(s, x);
            if (q < -1e8 || q > 1e8) q = 50;
            LD v, d, d2;
            r.eval(q, v, d, d2);
            int i = r.find(q);
            double scale = std::max({std::fabs(y[i]), std::fabs(y[i + 1]), (double)std::fabs(v)}), ds = std::max((double)std::fabs(d), scale / (x[i + 1] - x[i]));
            s.note("%s x=%.17g", what, q);
            s.close("interpolator value", p.eval(q), (double)v, 1e-9, 1e-10 * scale + 1e-10 * ds * std::fabs(q - x[i]));
            s.close("interpolator call", p(q), p.eval(q), 0);
            s.close("interpolator derivative", p.derivative(q), (double)d, 1e-9, 1e-9 * ds + 2e-15 * std::fabs(q < x[0] ? x[0] : q) * (double)std::fabs(r.m[i] + r.m[i + 1]));
        }
    };
    look(p, "direct");
    catima::Interpolator q2 = p, q3;
    q3 = q2;
    look(q3, "copy");
}
// ---- tridiagonal solver -------------------------------------------------------------------------
template <int N> static void solve_n(Src &s) {
    catima::tridiagonal_matrix<N> A{};
    std::array<double, N> b;
    double big = s.loguniform(1e-3, 1e3);
    for (int i = 0; i < N; i++) {
        double l = i ? s.uniform(-1, 1) : 0, u = i < N - 1 ? s.uniform(-1, 1) : 0;
        if (i) A(i, i - 1) = l * big;
        if (i < N - 1) A(i, i + 1) = u * big;
        A(i, i) = (std::fabs(l) + std::fabs(u) + s.uniform(0.1, 2)) * big * (s.coin() ? 1 : -1);
        b[i] = s.uniform(-10, 10);
    }
    const auto &C = A;
    s.nontrivial();
    s.note("N=%d", N);
    auto x = A.trig_solve(b);
    for (int i = 0; i < N; i++) {
        LD r = 0, sc = 0;
        for (int j = 0; j < N; j++) {
            if (j < i - 1 || j > i + 1) s.check(C(i, j) == 0, "off band", "element outside of the band is not zero");
            r += (LD)C(i, j) * x[j];
            sc += std::fabs((LD)C(i, j) * x[j]);
        }
        s.close("solution", (double)r, b[i], 1e-11, 1e-11 * (double)sc);
    }
}
static void solver(Src &s) {
    switch (s.pick({1, 1, 1, 1})) {
    case 0: solve_n<3>(s); break;
    case 1: solve_n<4>(s); break;
    case 2: solve_n<17>(s); break;
    default: solve_n<64>(s);
    }
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C22", {
        {"index", index_, 60000, 2000000, "Tables of 3 to 600 points over random ranges; indices of values at, next to, between and outside of the points against a linear search; non-trivial: all."},
        {"energy_table", energy_table, 200000, 10000000, "The same for the table of the calculations."},
        {"linear", linear, 60000, 2000000, "Random table values, piecewise linear interpolation; non-trivial: the values are not monotonic."},
        {"spline", spline, 40000, 1500000, "Random table values, cubic spline (natural, or with zero slope at the ends) against one in extended precision, and continuity of the derivatives; non-trivial: not a straight line."},
        {"interpolator", interpolator, 10000, 400000, "The same for the interpolator on the table of the calculations, and for copies of it."},
        {"solver", solver, 40000, 1500000, "Random diagonally dominant tridiagonal systems; the solution is put back; non-trivial: all."},
    }});
}
