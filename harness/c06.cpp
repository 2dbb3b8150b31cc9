// C06: the totals over a layer stack.
#include "calc.h"
using namespace gen;

static bool equal(const catima::Material &a, const catima::Material &b) { return a == b && a.thickness() == b.thickness() && a.density() == b.density(); }
static void same_layers(Src &s, const char *what, const catima::Layers &a, const std::vector<catima::Material> &b) {
    s.check(a.num() == (int)b.size() && a.get_materials().size() == b.size(), "layers", "%s: %d layers instead of %zu", what, a.num(), b.size());
    double th = 0, cm = 0;
    for (size_t i = 0; i < b.size(); i++) {
        s.check(equal(a.get_materials()[i], b[i]), "layers", "%s: layer %zu differs", what, i);
        th += b[i].thickness();
        cm += b[i].thickness() / b[i].density();
    }
    s.close("thickness of the stack", a.thickness(), th, 1e-12);
    s.close("thickness of the stack in cm", a.thickness_cm(), cm, 1e-12);
}

static void stack(Src &s) {
    reset();
    P p = proj(s);
    int n = s.pick({1, 2, 3, 3, 2, 2});
    C c = calc_config(s, p.Z);
    catima::Config lc = c.lib();
    double T = energy(s), e = T;
    std::vector<catima::Material> v;
    s.note("T=%.17g %s", T, c.str().c_str());
    int same = 0;
    std::vector<M> ms;
    for (int i = 0; i < n; i++) {
        M m = i > 0 && s.chance(1, 3) ? ms[s.integer(0, i - 1)] : material(s);
        if (!positive(p, m, c)) s.skip();
        ms.push_back(m);
        // aim so that several layers are passed
        double r = e > 1e-3 ? catima::range(p.lib(e), m.lib(), lc) : 1e-4;
        double f = s.pick({4, 2, 1, 1, 1}) ;
        f = f == 0 ? s.uniform(0, 0.5) : f == 1 ? s.loguniform(1e-6, 0.9) : f == 2 ? 1.2 : f == 3 ? 0 : s.uniform(0.9, 1);
        m.th = f * r;
        s.note("layer %s", m.str().c_str());
        v.push_back(m.lib());
        e = e > 1e-3 && m.th > 0 ? catima::energy_out(p.lib(e), m.lib(), lc) : e;
    }
    catima::Phasespace ps;
    bool with_ps = s.coin();
    if (with_ps) {
        ps.sigma_x = s.chance(1, 4) ? 0 : s.loguniform(1e-4, 10);
        ps.sigma_a = s.chance(1, 4) ? 0 : s.loguniform(1e-5, 0.1);
        ps.cov_x = ps.sigma_x * ps.sigma_a * s.uniform(-1, 1);
    }
    s.note("phase space %.17g %.17g %.17g", ps.sigma_x, ps.sigma_a, ps.cov_x);
    catima::Layers l;
    for (auto &m : v) l.add(m);
    same_layers(s, "add", l, v);
    if (n > 1) s.nontrivial();

    catima::MultiResult r = with_ps ? catima::calculate(p.lib(T), ps, l, lc) : catima::calculate(p.lib(T), l, lc);
    s.check((int)r.results.size() == n, "entries", "%zu entries for %d layers", r.results.size(), n);
    // reference
    double E = T, loss = 0, sE = 0, tof = 0, xx = ps.sigma_x * ps.sigma_x, aa = ps.sigma_a * ps.sigma_a, xa = ps.cov_x, sp = 1;
    double big = xx;
    bool undef = false;
    for (int i = 0; i < n; i++) {
        catima::Result one = catima::calculate(p.lib(E), v[i], lc);
        same_result(s, fmt("entry %d", i).c_str(), r.results[i], one);
        s.check(i == 0 || r.results[i].Ein == r.results[i - 1].Eout || r.results[i - 1].Eout < 1e-3, "chain", "layer %d enters with %.17g after %.17g", i, r.results[i].Ein, r.results[i - 1].Eout);
        E = one.Eout;
        loss += one.Eloss;
        sE += one.sigma_E * one.sigma_E;
        tof += one.tof;
        double L = v[i].thickness() / v[i].density();
        // drift through the layer, then the scattering inside
        big = std::max(big, std::fabs(xx) + std::fabs(2 * L * xa) + L * L * aa + one.sigma_x * one.sigma_x);
        xx = xx + 2 * L * xa + L * L * aa + one.sigma_x * one.sigma_x;
        xa = xa + L * aa + one.cov;
        aa = aa + one.sigma_a * one.sigma_a;
        if (one.sp < 0) undef = true;
        sp *= one.sp;
    }
    const catima::Result &t = r.total_result;
    s.note("total %s", str(t).c_str());
    s.close("total Ein", t.Ein, T, 0);
    s.close("total Eout", t.Eout, n ? E : T, 1e-13);
    s.close("total Eloss", t.Eloss, loss, 1e-11);
    s.close("total tof", t.tof, tof, 1e-11);
    s.close("total sp", t.sp, undef ? -1 : sp, 1e-11);
    s.close("total squared sigma_x", t.sigma_x * t.sigma_x, std::fabs(xx), 1e-10, 1e-12 * big);
    s.close("total cov", t.cov, xa, 1e-10, 1e-12 * std::fabs(ps.cov_x));
    if (E > 1.0001e-3) {
        s.label("passes all");
        s.close("total squared sigma_E", t.sigma_E * t.sigma_E, sE, 1e-10);
        s.close("total squared sigma_a", t.sigma_a * t.sigma_a, aa, 1e-10);
    } else if (E < 1e-3 * (1 - 1e-9)) {
        s.label("stopped");
        s.check(t.sigma_E == 0 && t.sigma_a == 0, "stopped", "stopped: %s", str(t).c_str());
    }
    if (n == 0) s.label("empty");
    // overloads
    auto r2 = catima::calculate(p.lib(1), T, l, lc), r3 = catima::calculate(p.lib(T), catima::Phasespace{}, l, lc), r4 = catima::calculate(p.lib(T), l, lc);
    same_result(s, "calculate(p,T,layers)", r2.total_result, r4.total_result);
    same_result(s, "calculate(p,phasespace,layers)", r3.total_result, r4.total_result);
    s.check(r2.results.size() == r4.results.size(), "entries", "overloads differ");
}
// building stacks: a random program of operations against a list of materials
static void building(Src &s) {
    std::vector<std::vector<catima::Material>> ref(3);
    std::vector<catima::Layers> l(3);
    int n = s.integer(1, 25);
    if (n > 3) s.nontrivial();
    for (int i = 0; i < n; i++) {
        int a = s.integer(0, 2), b = s.integer(0, 2), d = s.integer(0, 2);
        switch (s.pick({6, 2, 2, 2, 2})) {
        case 0: {
            M m = material(s);
            m.th = s.chance(1, 5) ? 0 : s.loguniform(1e-5, 10);
            s.note("stack %d: add %s", a, m.str().c_str());
            l[a].add(m.lib());
            ref[a].push_back(m.lib());
            break;
        }
        case 1: {
            if (ref[a].size() + ref[b].size() > 60) break;
            s.note("stack %d: add stack %d", a, b);
            if (a == b) s.label("stack added to itself");
            auto t = ref[b];
            l[a].add(l[b]);
            ref[a].insert(ref[a].end(), t.begin(), t.end());
            break;
        }
        case 2: {
            if (ref[a].size() + ref[b].size() > 60) break;
            s.note("stack %d = stack %d + stack %d", d, a, b);
            auto t = ref[a];
            t.insert(t.end(), ref[b].begin(), ref[b].end());
            l[d] = l[a] + l[b];
            ref[d] = t;
            break;
        }
        case 3: {
            if (ref[a].size() > 60) break;
            M m = material(s);
            m.th = s.loguniform(1e-5, 10);
            s.note("stack %d = stack %d + %s", d, a, m.str().c_str());
            auto t = ref[a];
            t.push_back(m.lib());
            l[d] = l[a] + m.lib();
            ref[d] = t;
            break;
        }
        default: {
            if (ref[a].empty()) break;
            int j = s.integer(0, (int)ref[a].size() - 1);
            double th = s.loguniform(1e-5, 10);
            s.note("stack %d: thickness of layer %d = %.17g", a, j, th);
            l[a][j].thickness(th);
            ref[a][j].thickness(th);
        }
        }
        for (int k = 0; k < 3; k++) same_layers(s, fmt("stack %d", k).c_str(), l[k], ref[k]);
    }
}
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C06", {
        {"stack", stack, 2500, 50000, "0 to 5 layers of random materials, with and without initial phase space; non-trivial with at least two layers"},
        {"building", building, 6000, 100000, "up to 25 operations on three stacks against plain lists; non-trivial with more than three operations"},
    }});
}
