// C13: angular and lateral spread.
#include "calc.h"
using namespace gen;

static void power(Src &s) {
    P p = proj(s);
    M m = material(s);
    C c = calc_config(s, p.Z);
    s.note("%s %s", m.str().c_str(), c.str().c_str());
    catima::Material lm = m.lib();
    auto rm = m.ref();
    auto rp = p.ref();
    s.nontrivial();
    s.close("radiation_length", catima::radiation_length(lm), ref::radiation_length(rm), 1e-10);
    s.close("scattering_length", catima::scattering_length(lm), ref::scattering_length(rm), 1e-10);
    for (auto &e : rm.e) {
        double x = catima::radiation_length(e.Z, e.A);
        s.close("radiation_length of an element", x, ref::radiation_length(e.Z, e.A), 1e-10);
        s.check(x > 1 && x < 100, "radiation_length", "radiation length %g of Z=%d A=%g", x, e.Z, e.A);
    }
    for (int i = 0; i < 8; i++) {
        double T = energy(s, 1e-4);
        double es = s.coin() ? 198.81 : s.loguniform(1, 1000);
        s.note("T=%.17g Es2=%.17g", T, es);
        auto q = p.lib(T);
        double pv = ref::pv(rp, T);
        s.close("da2dx", catima::da2dx(q, lm, c.lib()), ref::da2dx(rp, T, rm, c.ref()), 1e-9);
        s.close("angular_scattering_power", catima::angular_scattering_power(q, lm, es), es * p.Z * p.Z / (ref::radiation_length(rm) * pv * pv), 1e-9);
        catima::Target t = lm.get_element(s.integer(0, lm.ncomponents() - 1));
        s.close("angular_scattering_power of an element", catima::angular_scattering_power(q, t, es), es * p.Z * p.Z / (ref::radiation_length(t.Z, t.A) * pv * pv), 1e-9);
    }
    s.check(catima::da2dx(p.lib(0), lm, c.lib()) == 0, "zero energy", "scattering power at zero energy");
}

// depth integrand of the selected theory, x in g/cm2
struct Depth {
    const ref::Tables &t;
    double T, X0, Xs, p1v1;
    Depth(const ref::Tables &t_, double T_) : t(t_), T(T_), X0(ref::radiation_length(t.m)), Xs(ref::scattering_length(t.m)), p1v1(ref::pv(t.p, T_)) {}
    double at_energy(double e, double x) const {
        if (!(e > 0)) return 0;
        double q = ref::pv(t.p, e), z2 = t.p.Z * t.p.Z;
        if (t.c.scat == 2) {
            double c1 = std::log10(1 - (q / p1v1) * (q / p1v1)), c2 = std::log10(q);
            double f = 0.5244 + 0.1975 * c1 + 0.2320 * c2 - 0.0098 * c2 * c1;
            return f > 0 ? f * 225 * z2 / (Xs * q * q) : 0;
        }
        double f = 1;
        if (t.c.scat == 1) {
            double l = std::log(x / X0);
            f = l > -20.7 ? 0.97 * (1 + l / 20.7) * (1 + l / 22.7) : 0;
        }
        return f * ref::Es2(t.c) * z2 / (X0 * q * q);
    }
    double at(double x) const { return at_energy(t.eout(T, x), x); }
    double weight(double len, double x, int order) const { return order == 0 ? 1 : order == 1 ? (len - x) : (len - x) * (len - x); }
    // bounds of the eight-point rule when the energy is found to the thickness tolerance
    void rule(double len, int order, double &lo, double &hi) const {
        lo = hi = 0;
        for (int i = 0; i < 8; i++) {
            double x = 0.5 * len * (1 + ref::gl8().x[i]), w = 0.5 * len * ref::gl8().w[i] * weight(len, x, order);
            double eps = 1.01e-5 + 1e-8 * len;
            double a = 1e300, b = -1e300;
            for (double d : {-1.0, -0.5, -0.1, 0.0, 0.1, 0.5, 1.0}) {
                double xx = std::max(0.0, x + d * eps);
                double e = t.eout(T, xx), v = at_energy(e, x);
                if (e < 1.1e-3) b = std::max(b, at_energy(1e-3, x)), a = 0; // stopping or just not
                a = std::min(a, v);
                b = std::max(b, v);
            }
            lo += w * a;
            hi += w * b;
        }
    }
    double fine(double len, int order) const {
        double sum = 0, a = 0;
        // towards the entrance (logarithms) and the end (low energies) in geometric steps
        std::vector<double> cut{0};
        for (double x = 1e-8; x < 0.5; x *= 3) cut.push_back(x * len), cut.push_back((1 - x) * len);
        cut.push_back(0.5 * len);
        cut.push_back(len);
        std::sort(cut.begin(), cut.end());
        for (size_t i = 1; i < cut.size(); i++) {
            a = cut[i - 1];
            sum += ref::gl16()([&](double x) { return weight(len, x, order) * at(x); }, a, cut[i]);
        }
        return sum;
    }
};
static void against(Src &s, const Depth &d, double len, int order, double scale, double got) {
    double lo, hi;
    d.rule(len, order, lo, hi);
    s.check(std::isfinite(got) && got >= 0, "finite", "depth integral of order %d: %g", order, got);
    double g = got * scale;
    if (g >= lo * (1 - 1e-6) && g <= hi * (1 + 1e-6)) return;
    double f = d.fine(len, order);
    s.check(std::fabs(g / f - 1) < 2e-3, "depth", "order %d: %.9g, the eight-point rule gives %.9g to %.9g, the integral is %.9g", order, g, lo, hi, f);
}

static void spread(Src &s) {
    reset();
    Case k = draw_case(s);
    if (s.chance(3, 4)) {
        static const int sc[] = {0, 1, 2};
        k.c.scat = sc[s.draw(2)];
    }
    if (!positive(k.p, k.m, k.c)) s.skip();
    auto rp = k.p.ref();
    ref::Tables t(rp, k.m.ref(), k.c.ref());
    catima::Config lc = k.c.lib();
    double rho = k.m.rho;
    bool fold = folded(k.p, k.m, k.c);
    s.label(k.c.scat == 255 ? "default scattering" : k.c.scat == 0 ? "Fermi-Rossi" : k.c.scat == 1 ? "Highland" : "Gottschalk");
    for (int i = 0; i < 3; i++) {
        double T = i ? energy(s) : k.T, f = i ? fraction(s) : k.f, r = t.range(T), th = f * r;
        if (th == 0) continue;
        if (fold && T > 15) continue; // more than one energy has the same range
        if (i == 0) s.nontrivial();
        k.T = T;
        k.m.th = th;
        s.note("%s", k.str().c_str());
        catima::Material m = k.m.lib();
        auto p = k.p.lib(T);
        Depth d(t, T);
        double len = std::min(th, r);
        double v0 = catima::angular_variance(p, m, lc), v1 = catima::angular_variance(p, m, lc, 1), v2 = catima::angular_variance(p, m, lc, 2);
        against(s, d, len, 0, 1, v0);
        against(s, d, len, 1, rho, v1);
        against(s, d, len, 2, rho * rho, v2);
        s.check(v1 * v1 <= v0 * v2 * (1 + 1e-9), "Schwarz", "covariance %g, variances %g and %g", v1, v0, v2);
        s.close("angular_straggling", catima::angular_straggling(p, m, lc), std::sqrt(v0), 1e-12);
        catima::Result res = catima::calculate(p, m, lc);
        s.close("sigma_x", res.sigma_x, std::sqrt(v2), 1e-9);
        s.close("cov", res.cov, v1, 1e-9);
        if (res.Eout == 0) {
            s.label("stopped");
            s.check(res.sigma_a == 0, "stopped", "angular straggling %g of a stopped particle", res.sigma_a);
            continue;
        }
        if (k.c.scat != 255) {
            s.close("sigma_a", res.sigma_a, std::sqrt(v0), 1e-9);
        } else {
            double a = t.avar(T) - t.avar(res.Eout), b = 0.5 * (t.avar.deriv(T) + t.avar.deriv(res.Eout)) * (T - res.Eout), g = res.sigma_a * res.sigma_a;
            bool thin = 0.999 * T < res.Eout * (1 + 1e-9);
            double want = thin && std::fabs(g - b) < std::fabs(g - a) ? b : a;
            s.close("squared sigma_a", g, want, 1e-6, thin ? 1e-14 * t.avar(T) : 1e-10 * t.avar(T));
            // and it is the integral over the depth (up to what the table interpolation does at low energies)
            double passed = t.range(T) - t.range(res.Eout), lost = 4e-15 * t.range(T) / std::max(passed, 1e-300);
            if (res.Eout > 1 && T < 5e6 && lost < 0.1 && smooth(k.p, k.m, k.c)) s.close("squared sigma_a as depth integral", g, k.c.factor * d.fine(passed, 0), 2e-3 + lost);
        }
    }
    // from an energy to an energy
    double a = energy(s), b = std::max(1e-3, a * s.uniform(0, 1));
    s.note("from %.17g to %.17g", a, b);
    catima::Material m = k.m.lib(), n = m;
    double th = catima::range(k.p.lib(a), m, lc) - catima::range(k.p.lib(b), m, lc);
    if (th > 0 && !(fold && a > 15)) {
        n.thickness(th);
        double want = catima::angular_straggling(k.p.lib(a), n, lc);
        s.close("angular_straggling_from_E", catima::angular_straggling_from_E(k.p.lib(a), b, m, lc), want, 1e-10);
        Depth d(t, a);
        against(s, d, std::min(th, t.range(a)), 0, 1, want * want);
    }
}
// growth with thickness, all options
static void growth(Src &s) {
    reset();
    Case k = draw_case(s);
    static const int sc[] = {255, 0, 1, 2};
    k.c.scat = sc[s.draw(3)];
    if (!positive(k.p, k.m, k.c)) s.skip();
    catima::Config lc = k.c.lib();
    catima::Material m = k.m.lib();
    s.note("%s", k.str().c_str());
    s.nontrivial();
    for (int i = 0; i < 5; i++) {
        double T = energy(s), r = catima::range(k.p.lib(T), m, lc);
        double f = s.coin() ? s.uniform(0, 0.75) : s.loguniform(1e-7, 0.75), g = f * s.uniform(1.2, 3);
        if (g > 0.9) g = 0.9;
        if (k.c.scat == 1) f = std::max(f, 1e-2); // the logarithm of the depth is not resolved by eight points
        double thin = 3e-5; // energies in the target are found to 1e-5 g/cm2
        if (!(f * r > thin) || !((1 - g) * r > thin) || g < 1.2 * f) continue;
        s.note("T=%.17g thickness %.17g and %.17g of %.17g", T, f * r, g * r, r);
        catima::Result a = catima::calculate(k.p.lib(T), m.thickness(f * r), lc), b = catima::calculate(k.p.lib(T), m.thickness(g * r), lc);
        s.check(b.sigma_a >= a.sigma_a * 0.999, "angle grows", "sigma_a %.9g then %.9g", a.sigma_a, b.sigma_a);
        s.check(b.sigma_x >= a.sigma_x * 0.999, "width grows", "sigma_x %.9g then %.9g", a.sigma_x, b.sigma_x);
        s.check(b.cov >= a.cov * 0.999, "covariance grows", "cov %.9g then %.9g", a.cov, b.cov);
    }
    // any thickness at all
    for (int i = 0; i < 5; i++) {
        double T = energy(s), th = s.loguniform(1e-12, 1e6);
        s.note("T=%.17g thickness %.17g", T, th);
        m.thickness(th);
        catima::Result a = catima::calculate(k.p.lib(T), m, lc);
        for (double v : {a.sigma_a, a.sigma_x, a.cov}) s.check(std::isfinite(v) && v >= 0, "finite", "%s", str(a).c_str());
    }
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C13", {
        {"power", power, 40000, 800000, "radiation and scattering lengths and scattering power against the reference; all non-trivial"},
        {"spread", spread, 3000, 60000, "angular and lateral spread for each scattering option against depth integrals; non-trivial with a thickness"},
        {"growth", growth, 2500, 50000, "pairs of thicknesses, and thicknesses from 1e-12 to 1e6 g/cm2; all non-trivial"},
    }});
}
