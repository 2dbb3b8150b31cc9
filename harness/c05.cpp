// C05: cutting a target into slices does not change the outcome.
#include "calc.h"
using namespace gen;

struct Seq {
    double E = 0, loss = 0, tof = 0, a2 = 0;
    double slop = 0; // g/cm2
};
static void slices(Src &s) {
    reset();
    MOpt o;
    Case k;
    k.p = proj(s);
    k.m = material(s, o);
    k.c = calc_config(s, k.p.Z, false);
    if (!positive(k.p, k.m, k.c)) s.skip();
    k.T = energy(s);
    catima::Material m = k.m.lib();
    catima::Config c = k.c.lib();
    auto R = [&](double T) { return catima::range(k.p.lib(T), m, c); };
    double T = k.T, r = R(T), f = fraction(s), th = f * r;
    int n = s.integer(2, 8);
    std::vector<double> w(n), cut(n);
    double sum = 0;
    for (auto &x : w) sum += x = s.chance(1, 6) ? s.loguniform(1e-6, 1e-2) : s.uniform(0.05, 1);
    if (s.chance(1, 8)) w[s.integer(0, n - 1)] = 0, sum = 0;
    if (sum == 0)
        for (auto x : w) sum += x;
    for (int i = 0; i < n; i++) cut[i] = th * w[i] / sum;
    s.note("%s; thickness %.17g of range %.17g in slices", k.str().c_str(), th, r);
    for (double x : cut) s.note("  %.17g", x);
    if (th > 0) s.nontrivial();

    const catima::DataPoint &d = catima::get_data(k.p.lib(T), m, c);
    const catima::Interpolator &as = catima::get_angular_variance_spline(d);
    auto pass = [&](const std::vector<double> &t) {
        Seq q;
        q.E = T;
        for (double x : t) {
            m.thickness(x);
            catima::Result res = catima::calculate(k.p.lib(q.E), m, c);
            q.E = res.Eout;
            q.loss += res.Eloss;
            q.tof += res.tof;
            q.a2 += res.sigma_a * res.sigma_a;
            q.slop += 1.001e-5;
        }
        return q;
    };
    double eps = 1e-9 * r;
    auto rest = [&](double E) { return E > 0 ? R(E) : 0.0; };
    auto compare = [&](const char *what, const Seq &a, const Seq &b) {
        double tol = a.slop + b.slop + eps + R(1.0001e-3);
        s.check(std::fabs(rest(a.E) - rest(b.E)) <= tol, "energy", "%s: %.12g MeV/u against %.12g (ranges %.12g and %.12g, allowed %g)", what, a.E, b.E, rest(a.E), rest(b.E), tol);
    };
    auto alone = [&](const char *what, const Seq &a, int n) {
        s.close((std::string(what) + " energy loss").c_str(), a.loss, k.p.A * (T - a.E), 1e-10, 1e-12 * k.p.A * T);
        if (a.E > 0) {
            // angle against the variance table, time against a fine quadrature
            s.close((std::string(what) + " squared angle").c_str(), a.a2, as(T) - as(a.E), 3e-3, 1e-12 * n * as(T));
        }
    };
    Seq whole = pass({th}), parts = pass(cut);
    compare("slab and slices", whole, parts);
    alone("slab", whole, 1);
    alone("slices", parts, n);
    std::vector<double> other = cut;
    for (int i = n - 1; i > 0; i--) std::swap(other[i], other[s.integer(0, i)]);
    Seq perm = pass(other);
    compare("slices in two orders", parts, perm);
    alone("reordered slices", perm, n);
    if (whole.E > 0 && parts.E > 0 && perm.E > 0) {
        s.label("passes");
        auto time = [&](const char *what, const Seq &a, const Seq &b) {
            // the ends differ by the tolerance of the thickness
            double lo = std::min(a.E, b.E), slow = (a.slop + b.slop + eps) / (k.m.rho * 29.9792458 * ref::beta(lo));
            s.close(what, a.tof, b.tof, smooth(k.p, k.m, k.c) ? 0.05 : 0.3, slow);
        };
        time("time of flight of slab and slices", whole, parts);
        time("time of flight in two orders", perm, parts);
    }
    // the same as a stack
    catima::Layers l;
    for (double x : cut) {
        m.thickness(x);
        l.add(m);
    }
    auto mr = catima::calculate(k.p.lib(T), l, c);
    s.close("stack Eout", mr.total_result.Eout, parts.E, 1e-12);
    s.close("stack Eloss", mr.total_result.Eloss, parts.loss, 1e-12, 1e-13 * k.p.A * T);
    s.close("stack tof", mr.total_result.tof, parts.tof, 1e-12);
    if (parts.E > 1.0001e-3) s.close("stack squared angle", mr.total_result.sigma_a * mr.total_result.sigma_a, parts.a2, 1e-11);
}
// the thickness between two energies is the difference of their ranges
static void between(Src &s) {
    reset();
    Case k = draw_case(s, false);
    if (!positive(k.p, k.m, k.c)) s.skip();
    catima::Material m = k.m.lib();
    catima::Config c = k.c.lib();
    s.nontrivial();
    auto R = [&](double T) { return catima::range(k.p.lib(T), m, c); };
    for (int i = 0; i < 8; i++) {
        double a = energy(s), b = s.coin() ? energy(s) : a * (1 - s.loguniform(1e-7, 0.5));
        if (a < b) std::swap(a, b);
        b = std::max(b, 1e-3);
        m.thickness(R(a) - R(b));
        s.note("%s; from %.17g to %.17g, thickness %.17g", k.str().c_str(), a, b, m.thickness());
        double e = catima::energy_out(k.p.lib(a), m, c);
        if (b > 1.0001e-3 || e > 0) s.check(std::fabs(R(e) - R(b)) <= 1.001e-5 + 1e-9 * R(a) || (e == 0 && R(b) <= 1e-9 * R(a)), "between", "expected %.12g, got %.12g (ranges %.12g, %.12g)", b, e, R(b), R(e));
        // further with the rest: stops
        if (e > 0) {
            m.thickness(R(b) * 1.0001 + 1.1e-5);
            s.check(catima::energy_out(k.p.lib(e), m, c) == 0, "rest", "%.12g MeV/u is not stopped by %.12g g/cm2", e, m.thickness());
        }
    }
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C05", {
        {"slices", slices, 6000, 120000, "a slab in 2 to 8 slices (some tiny or empty), in two orders and as a stack; non-trivial with a thickness"},
        {"between", between, 5000, 80000, "thickness taken as range difference of 8 pairs of energies; all non-trivial"},
    }});
}
