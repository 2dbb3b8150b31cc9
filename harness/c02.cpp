// C02: the residual energy matches the range difference.
#include "calc.h"
using namespace gen;

static void check_eout(Src &s, const Case &k, double T, double th, double eout, const std::function<double(double)> &R) {
    double r = R(T), rest = r - th;
    s.check(std::isfinite(eout) && eout >= 0 && eout <= T, "interval", "residual energy %.17g outside of [0, %.17g]", eout, T);
    double eps = 1.001e-5 + 1e-9 * r;
    if (eout == 0) {
        s.label("stopped");
        // stopped: nothing left beyond the range at 1 keV/u
        s.check(rest <= R(1e-3) + 1e-9 * r, "stopped", "reported as stopped although %g g/cm2 of range %g are left", rest, r);
    } else {
        s.check(rest > -1e-9 * r, "passes", "residual energy %g although the target is thicker than the range by %g g/cm2", eout, -rest);
        double diff = std::fabs(r - R(eout) - th);
        s.check(diff <= eps, "range", "range %.12g - range(%.12g)=%.12g differs from the thickness %.12g by %g", r, eout, R(eout), th, diff);
        if (th > 0) s.label(eout < 1e-3 * (1 + 1e-9) ? "at the lowest energy" : "passes");
    }
}

// residual energy from the energy_out overloads and from calculate()
static void residual(Src &s) {
    reset();
    Case k = draw_case(s);
    if (!positive(k.p, k.m, k.c)) s.skip();
    set_thickness(k);
    s.note("%s", k.str().c_str());
    catima::Material lm = k.m.lib();
    catima::Config lc = k.c.lib();
    auto R = [&](double T) { return catima::range(k.p.lib(T), lm, lc); };
    if (k.m.th > 0) s.nontrivial();
    for (int i = 0; i < 12; i++) {
        double T = k.T, f = k.f;
        if (i > 0) {
            T = energy(s);
            f = fraction(s);
        }
        double th = f * R(T);
        s.note("T=%.17g thickness=%.17g", T, th);
        lm.thickness(th);
        double e = catima::energy_out(k.p.lib(T), lm, lc);
        check_eout(s, k, T, th, e, R);
        s.close("energy_out(T, thickness, spline)", catima::energy_out(T, th, catima::get_range_spline(catima::get_data(k.p.lib(T), lm, lc))), e, 1e-12);
        auto v = catima::energy_out(k.p.lib(1), std::vector<double>{T, 5.0}, lm, lc);
        s.check(v.size() == 2, "vector", "%zu values for two energies", v.size());
        s.close("energy_out of a vector", v[0], e, 1e-12);
        if (i < 4) {
            catima::Result r = catima::calculate(k.p.lib(T), lm, lc);
            s.close("Eout", r.Eout, e, 1e-12, th == 0 ? 1e-12 * T : 0);
            s.close("Ein", r.Ein, T, 0);
            s.close("Eloss", r.Eloss, (T - r.Eout) * k.p.A, 1e-12, 1e-13 * T * k.p.A);
        }
    }
}

// against the reference tables: the energy itself, where it is well determined
static void reference(Src &s) {
    reset();
    P p = proj(s);
    M m = material(s);
    C c = calc_config(s, p.Z);
    if (!positive(p, m, c)) s.skip();
    s.note("%s, %s", m.str().c_str(), c.str().c_str());
    ref::Tables t(p.ref(), m.ref(), c.ref(), false);
    catima::Config lc = c.lib();
    s.nontrivial();
    bool fold = folded(p, m, c);
    for (int i = 0; i < 40; i++) {
        double T = energy(s), f = fraction(s), r = t.range(T), th = f * r;
        if (fold && T > 15) continue; // more than one energy has this range
        s.note("T=%.17g thickness=%.17g", T, th);
        m.th = th;
        double e = catima::energy_out(p.lib(T), m.lib(), lc);
        double lo = t.eout(T, th + 1.01e-5 + 1e-8 * r), more = th - 1.01e-5 - 1e-8 * r, hi = more > 0 ? t.eout(T, more) : T;
        if (lo < 1.1e-3) lo = 0;
        s.check(e >= lo * (1 - 1e-9) && e <= hi * (1 + 1e-9) + 1e-12, "reference", "residual energy %.12g, expected between %.12g and %.12g (T=%.12g, thickness %.12g of range %.12g)", e, lo, hi, T, th, r);
    }
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C02", {
        {"residual", residual, 8000, 150000, "random projectile, material, configuration; 12 energies each with a thickness from zero over tiny, just below, just above to beyond the range; the residual energy is put back into the range function; non-trivial when the first target has a thickness"},
        {"reference", reference, 5000, 80000, "the residual energy against the inverted reference range; all non-trivial"},
    }});
}
