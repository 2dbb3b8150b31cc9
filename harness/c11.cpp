// C11: a mixture is the mass-weighted sum of its elements, however it is written.
#include "calc.h"
using namespace gen;

static std::vector<double> split(Src &s, double n, bool fractions) {
    int k = s.integer(2, 3);
    if (!fractions) k = std::min(k, (int)n);
    std::vector<double> r;
    if (fractions) {
        double rest = n;
        for (int i = 1; i < k; i++) {
            double x = rest * s.uniform(0.05, 0.95);
            r.push_back(x);
            rest -= x;
        }
        r.push_back(rest);
    } else { // every part at least 1
        double rest = n;
        for (int i = k; i > 1; i--) {
            double x = 1 + (rest - i) * s.unit();
            if (x < 1) x = 1;
            r.push_back(x);
            rest -= x;
        }
        r.push_back(std::max(1.0, rest));
    }
    return r;
}
// rewrites the composition without changing the material; returns what was done
static const char *rewrite(Src &s, M &m) {
    switch (s.pick({3, 3, 2, 3})) {
    case 0:
        for (int i = (int)m.e.size() - 1; i > 0; i--) std::swap(m.e[i], m.e[s.integer(0, i)]);
        return "reordered";
    case 1: {
        int i = s.integer(0, (int)m.e.size() - 1);
        El x = m.e[i];
        if (!m.fractions && x.n < 2) return "unchanged";
        auto parts = split(s, x.n, m.fractions);
        m.e[i].n = parts[0];
        for (size_t j = 1; j < parts.size(); j++) {
            x.n = parts[j];
            m.e.insert(m.e.begin() + s.integer(0, (int)m.e.size()), x);
        }
        return "split";
    }
    case 2: {
        if (m.fractions) return "unchanged";
        double f = s.coin() ? s.integer(2, 9) : s.uniform(1, 30);
        for (auto &x : m.e) x.n *= f;
        return "scaled";
    }
    default: {
        ref::Mat r = m.ref();
        if (m.fractions) {
            double lo = 1e99;
            for (auto &x : r.e) lo = std::min(lo, x.w / x.A);
            for (size_t i = 0; i < m.e.size(); i++) m.e[i].n = std::max(1.0, r.e[i].w / r.e[i].A / lo);
            m.fractions = false;
            return "as stoichiometric numbers";
        }
        if (m.e.size() < 2) return "unchanged";
        for (auto &x : r.e)
            if (!(x.w < 1)) return "unchanged";
        for (size_t i = 0; i < m.e.size(); i++) m.e[i].n = r.e[i].w;
        m.fractions = true;
        return "as mass fractions";
    }
    }
}
static void prepared(Src &s, M &m) {
    m = material(s);
    m.compound = 0;
    if (m.fractions) { // tabulated fractions add up to one only within their digits
        double sum = 0;
        for (auto &x : m.e) sum += x.n;
        for (auto &x : m.e) x.n /= sum;
    }
}
static void rewrites(Src &s, M a, M &b) {
    b = a;
    int n = s.integer(1, 3), done = 0;
    for (int i = 0; i < n; i++) {
        const char *w = rewrite(s, b);
        s.label(w);
        if (w != std::string("unchanged")) done++;
    }
    if (done) s.nontrivial();
    s.note("written as %s", a.str().c_str());
    s.note("and as %s", b.str().c_str());
}
// local quantities
static void local(Src &s) {
    P p = proj(s);
    M m, n;
    prepared(s, m);
    C c = calc_config(s, p.Z);
    rewrites(s, m, n);
    catima::Material a = m.lib(), b = n.lib();
    catima::Config lc = c.lib();
    s.close("radiation length", catima::radiation_length(b), catima::radiation_length(a), 1e-11);
    s.close("scattering length", catima::scattering_length(b), catima::scattering_length(a), 1e-11);
    s.note("%s", c.str().c_str());
    bool sum_rule = m.I == 0;
    for (int i = 0; i < 10; i++) {
        double T = energy(s);
        s.note("T=%.17g", T);
        auto q = p.lib(T);
        double d = catima::dedx(q, a, lc), dn = catima::dedx_n(q, a), om = catima::domega2dx(q, a, lc), an = catima::da2dx(q, a, lc);
        double scale = std::fabs(d) + dn;
        s.close("dedx", catima::dedx(q, b, lc), d, 1e-10, 1e-11 * scale);
        s.close("dedx_n", catima::dedx_n(q, b), dn, 1e-11);
        s.close("domega2dx", catima::domega2dx(q, b, lc), om, 1e-11);
        s.close("da2dx", catima::da2dx(q, b, lc), an, 1e-11);
        s.close("bethek_dedx_e", catima::bethek_dedx_e(q, b, lc), catima::bethek_dedx_e(q, a, lc), 1e-10, 1e-11 * std::fabs(scale));
        s.close("sezi_dedx_e", catima::sezi_dedx_e(q, b, lc), catima::sezi_dedx_e(q, a, lc), 1e-11);
        // sum over the elements with their mass fractions
        double sd = 0, sn = 0, so = 0, sa = 0, sx = 0, ss = 0, mag = 0;
        for (auto &x : m.ref().e) {
            catima::Material e(x.A, x.Z, 1.0);
            double v = catima::dedx(q, e, lc);
            sd += x.w * v;
            mag += x.w * std::fabs(v);
            sn += x.w * catima::dedx_n(q, e);
            so += x.w * catima::domega2dx(q, e, lc);
            sa += x.w * catima::da2dx(q, e, lc);
            sx += x.w / catima::radiation_length(e);
            ss += x.w / catima::scattering_length(e);
        }
        if (sum_rule) s.close("sum of dedx", d, sd, 1e-10, 1e-11 * mag);
        s.close("sum of dedx_n", dn, sn, 1e-11);
        s.close("sum of domega2dx", om, so, 1e-11);
        s.close("sum of da2dx", an, sa, 1e-11);
        s.close("sum of inverse radiation lengths", 1 / catima::radiation_length(a), sx, 1e-11);
        s.close("sum of inverse scattering lengths", 1 / catima::scattering_length(a), ss, 1e-11);
    }
}
// whole calculations
static void whole(Src &s) {
    reset();
    Case k;
    k.p = proj(s);
    M n;
    prepared(s, k.m);
    k.c = calc_config(s, k.p.Z);
    k.T = energy(s);
    if (s.coin()) k.T = s.loguniform(50, 3000);
    k.f = fraction(s);
    if (!positive(k.p, k.m, k.c)) s.skip();
    rewrites(s, k.m, n);
    catima::Config lc = k.c.lib();
    set_thickness(k);
    n.th = k.m.th;
    s.note("%s", k.str().c_str());
    catima::Material a = k.m.lib(), b = n.lib();
    double T = k.T;
    auto q = k.p.lib(T);
    double r = catima::range(q, a, lc);
    s.close("range", catima::range(q, b, lc), r, 1e-9);
    s.close("range variance", catima::range_variance(q, T, b, lc), catima::range_variance(q, T, a, lc), 1e-8, 1e-12 * catima::range_variance(q, std::max(3.0, 1.2 * T), a, lc));
    catima::Result x = catima::calculate(q, a, lc), y = catima::calculate(q, b, lc);
    s.note("%s", str(x).c_str());
    auto R = [&](double E) { return E > 0 ? catima::range(k.p.lib(E), a, lc) : 0.0; };
    s.check(std::fabs(R(x.Eout) - R(y.Eout)) <= 2.001e-5 + 1e-9 * r, "Eout", "residual energy %.12g or %.12g", x.Eout, y.Eout);
    if (std::fabs(x.Eout - y.Eout) > 1e-9 * x.Eout || std::fabs(x.Eout / 0.999 / x.Ein - 1) < 1e-8) {
        s.label("iteration ended elsewhere");
        return;
    }
    double rest = R(x.Eout) / r, near = 1 - std::fabs(rest);
    // differences of table values lose digits for thin targets
    double cancel = 1e-7 + 1e-12 / std::max(1e-9, near);
    for (auto &f : fields()) {
        std::string name = f.name;
        double rel = 1e-8, abs = 0;
        if (name == "Eloss") abs = 1e-9 * x.Ein * k.p.A;
        if (name == "sigma_E" || name == "sigma_a" || name == "sigma_r") rel = cancel;
        if (name == "sigma_E") abs = 1e-6 * x.sigma_r * x.dEdxo / k.p.A;
        if (name == "sigma_a") { // slope or difference of a sum that hardly grows at high energies
            double sum = std::fabs(catima::get_angular_variance_spline(catima::get_data(q, a, lc))(T));
            abs = 1e-7 * x.sigma_a + 1e-14 * sum * std::min(1.0, (x.Ein - x.Eout) / (0.03 * x.Ein)) / x.sigma_a;
        }
        if (name == "tof") rel = 1e-7 + 1e-12 / std::max(1e-9, near);
        if (name == "sigma_x" || name == "cov" || (name == "sigma_a" && k.c.scat != 255)) rel = 1e-4; // depth steps meet the thickness tolerance
        if (name == "sp") { // the average of two or eight values
            rel = 0;
            abs = 1e-7;
        }
        s.close(f.name, y.*f.f, x.*f.f, rel, abs);
    }
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C11", {
        {"local", local, 20000, 400000, "a random composition rewritten by reordering, splitting, scaling, conversion; ten energies; non-trivial when it was really rewritten"},
        {"whole", whole, 3000, 60000, "complete calculations for both ways of writing; non-trivial when it was really rewritten"},
    }});
}
