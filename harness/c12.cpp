// C12: range and straggling are integrals of the local quantities.
#include "calc.h"
using namespace gen;

// variance against the reference; below 2.5 MeV/u the Hubert charge is zero and the table holds zeros
static void variance(Src &s, const ref::Tables &t, const char *what, double got, double T) {
    double want = t.rvar(T);
    if (t.c.z_eff == 3 && T < 2.7) {
        s.check(std::fabs(got) <= t.rvar(100), what, "%s: %g at T=%g where there is no charge", what, got, T);
        return;
    }
    s.close(what, got, want, 1e-7, 1e-13 * t.rvar(1.2 * T));
}

// against the complete reference tables (own formulas, own quadrature, own spline)
static void tables(Src &s) {
    reset();
    P p = proj(s);
    M m = material(s);
    C c = calc_config(s, p.Z);
    s.note("%s, %s", m.str().c_str(), c.str().c_str());
    auto rp = p.ref();
    auto rm = m.ref();
    auto rc = c.ref();
    if (!positive(p, m, c)) s.skip();
    ref::Tables t(rp, rm, rc);
    catima::Material lm = m.lib();
    catima::Config lc = c.lib();
    s.nontrivial();
    if (c.z_eff != 1) s.label("other charge model");
    if (c.calc == 0) s.label("additional straggling term");
    if (m.I > 0) s.label("ionisation potential given");
    for (int i = 0; i < 30; i++) {
        double T = energy(s);
        s.note("T=%.17g", T);
        double R = t.range(T);
        s.close("range", catima::range(p.lib(T), lm, lc), R, 1e-8);
        s.close("dedx_from_range", catima::dedx_from_range(p.lib(T), lm, lc), p.A / t.range.deriv(T), 1e-6);
        double v = catima::range_variance(p.lib(T), T, lm, lc);
        variance(s, t, "range_variance", v, T);
        s.close("range_straggling", catima::range_straggling(p.lib(T), T, lm, lc), std::sqrt(std::max(0.0, v)), 1e-12);
        if (!(c.z_eff == 3 && T < 2.7)) {
            double d = t.rvar.deriv(T);
            s.close("domega2de", catima::domega2de(p.lib(T), T, lm, lc), d, 1e-6, 1e-9 * t.rvar(1.2 * T) / T);
        }
    }
    // behind a target
    double Ta = energy(s), Tb = std::max(1e-3, Ta * (s.coin() ? s.unit() : 1 - s.loguniform(1e-6, 0.9)));
    if (c.z_eff == 3 && Tb < 2.7) return;
    s.note("energy straggling from %.17g to %.17g", Ta, Tb);
    double dv = t.rvar(Ta) - t.rvar(Tb), so = p.A / t.range.deriv(Tb);
    double got = catima::energy_straggling_from_E(p.lib(Ta), Ta, Tb, lm, lc);
    s.close("energy_straggling_from_E squared", got * got, so * so * std::max(0.0, dv) / (p.A * p.A), 1e-6, 3e-8 * so * so * t.rvar(Ta) / (p.A * p.A));
}

// integral of the library's own local functions between two energies, split finely (independent of the table)
static void integrals(Src &s) {
    reset();
    P p = proj(s);
    M m = material(s);
    C c = calc_config(s, p.Z);
    p.Q = 0; // a charge state far from equilibrium makes the transition region too steep for the table
    if (!positive(p, m, c)) s.skip();
    double a = energy(s), b = energy(s);
    if (s.coin()) b = a * (1 + s.loguniform(0.16, 1)); // neighbours
    if (a > b) std::swap(a, b);
    b = std::min(b, 1e7);
    if (c.z_eff == 3 && a < 3) a = 3;
    if (!(b > a * 1.15)) s.skip(); // shorter intervals see the smoothing of jumps by the spline
    s.note("%s, %s, between %.17g and %.17g", m.str().c_str(), c.str().c_str(), a, b);
    catima::Material lm = m.lib();
    catima::Config lc = c.lib();
    s.nontrivial();
    std::vector<double> cut{a, b};
    for (double x = a * 1.07; x < b; x *= 1.07) cut.push_back(x);
    for (double x : {0.025, 1.0, 2.5, 7.8379, 10.0, 30.0, 2000.0, 50000.0})
        if (x > a && x < b) cut.push_back(x);
    for (int i = 0; i < 200; i++)
        if (ref::ls_node(i) > a && ref::ls_node(i) < b) cut.push_back(ref::ls_node(i));
    std::sort(cut.begin(), cut.end());
    double r = 0, v = 0;
    for (size_t i = 1; i < cut.size(); i++) {
        r += ref::gl8()([&](double T) { return p.A / catima::dedx(p.lib(T), lm, lc); }, cut[i - 1], cut[i]);
        v += ref::gl8()([&](double T) {
            double d = catima::dedx(p.lib(T), lm, lc);
            return p.A * catima::domega2dx(p.lib(T), lm, lc) / (d * d * d);
        }, cut[i - 1], cut[i]);
    }
    double Ra = catima::range(p.lib(a), lm, lc), Rb = catima::range(p.lib(b), lm, lc);
    double Va = catima::range_variance(p.lib(a), a, lm, lc), Vb = catima::range_variance(p.lib(b), b, lm, lc);
    s.close("range difference", Rb - Ra, r, 5e-3, 1e-10 * Rb);
    if (b < 3e4) s.close("range variance difference", Vb - Va, v, 0.03, 1e-10 * Vb);
}

// the stopping power recovered from the range
static void recovered(Src &s) {
    reset();
    P p = proj(s);
    if (p.Q > 0) p.Q = std::max(p.Q, p.Z / 2); // a fixed low charge falls by orders of magnitude up to 30 MeV/u, too steep for the table
    M m = material(s);
    C c = calc_config(s, p.Z);
    if (!positive(p, m, c)) s.skip();
    for (auto &x : m.e)
        if (x.Z == 85 || x.Z == 87) s.skip(); // known jump of the density effect, see C07
    s.note("%s, %s", m.str().c_str(), c.str().c_str());
    s.nontrivial();
    catima::Material lm = m.lib();
    catima::Config lc = c.lib();
    for (int i = 0; i < 20; i++) {
        double T = s.loguniform(0.02, 1e6);
        double lo = 1e99, hi = 0; // the local values in the neighbourhood (the parametrisations have small jumps)
        bool jump = T > 3e4 && T < 8e4; // pair production and bremsstrahlung set in at 50 GeV/u with a jump, the spline swings around it
        for (int k = jump ? -20 : -6; k <= (jump ? 20 : 6); k++) {
            double d = catima::dedx(p.lib(T * std::pow(1.02, k)), lm, lc);
            lo = std::min(lo, d);
            hi = std::max(hi, d);
        }
        double got = catima::dedx_from_range(p.lib(T), lm, lc);
        s.note("T=%.17g", T);
        double w = jump ? 0.3 * (hi - lo) : 0;
        s.check(got > lo * 0.98 - w && got < hi * 1.02 + w, "recovered", "dedx_from_range %.10g at T=%.10g, local values between %.10g and %.10g", got, T, lo, hi);
    }
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C12", {
        {"tables", tables, 4000, 100000, "random projectile, material, configuration; range, variance, their derivatives at 30 energies and the straggling between two energies against complete reference tables; all cases non-trivial"},
        {"integrals", integrals, 3000, 60000, "difference of range and range variance between two energies against a fine quadrature of the library's local functions; non-trivial when the two energies differ"},
        {"recovered", recovered, 3000, 60000, "stopping power recovered from the range lies within the local values of the neighbourhood; all non-trivial"},
    }});
}
