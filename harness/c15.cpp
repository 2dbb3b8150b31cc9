// C15: every function honours the configuration it is given, and only that one.
#include "calc.h"
using namespace gen;

using Values = std::vector<std::pair<std::string, double>>;
struct Args {
    catima::Projectile p, q; // q: another energy
    catima::Material m, m2;
    catima::Layers l;
    double lower;
};
static void put(Values &v, const char *n, const catima::Result &r) {
    for (auto &f : fields()) v.push_back({std::string(n) + "." + f.name, r.*f.f});
}
// every public function that takes a configuration; CC is the trailing argument list
#define ALL(CC, C0)                                                                                                   \
    v.push_back({"dedx", catima::dedx(a.p, a.m CC)});                                                                 \
    v.push_back({"domega2dx", catima::domega2dx(a.p, a.m CC)});                                                       \
    v.push_back({"da2dx", catima::da2dx(a.p, a.m CC)});                                                               \
    v.push_back({"range", catima::range(a.p, a.m CC)});                                                               \
    v.push_back({"dedx_from_range", catima::dedx_from_range(a.p, a.m CC)});                                           \
    for (double x : catima::dedx_from_range(a.p, std::vector<double>{a.q.T, 5.0}, a.m CC)) v.push_back({"dedx_from_range vector", x}); \
    v.push_back({"range_straggling", catima::range_straggling(a.p, a.q.T, a.m CC)});                                  \
    v.push_back({"range_variance", catima::range_variance(a.p, a.q.T, a.m CC)});                                      \
    v.push_back({"domega2de", catima::domega2de(a.p, a.q.T, a.m CC)});                                                \
    v.push_back({"angular_straggling", catima::angular_straggling(a.p, a.m CC)});                                     \
    v.push_back({"angular_variance", catima::angular_variance(a.p, a.m CC)});                                         \
    v.push_back({"angular_straggling_from_E", catima::angular_straggling_from_E(a.p, a.lower, a.m CC)});              \
    v.push_back({"energy_straggling_from_E", catima::energy_straggling_from_E(a.p, a.p.T, a.lower, a.m CC)});         \
    v.push_back({"energy_out", catima::energy_out(a.p, a.m CC)});                                                     \
    for (double x : catima::energy_out(a.p, std::vector<double>{a.q.T, a.p.T}, a.m CC)) v.push_back({"energy_out vector", x}); \
    put(v, "calculate", catima::calculate(a.p, a.m CC));                                                              \
    put(v, "calculate with energy", catima::calculate(a.p, a.m, a.q.T CC));                                           \
    put(v, "calculate layers", catima::calculate(a.p, a.l CC).total_result);                                          \
    put(v, "calculate layers, energy", catima::calculate(a.p, a.q.T, a.l CC).total_result);                           \
    {                                                                                                                 \
        catima::Phasespace ps;                                                                                        \
        ps.sigma_x = 0.1;                                                                                             \
        ps.sigma_a = 0.002;                                                                                           \
        auto r = catima::calculate(a.p, ps, a.l CC);                                                                  \
        put(v, "calculate phase space", r.total_result);                                                              \
        for (auto &x : r.results) put(v, "calculate phase space entry", x);                                           \
    }                                                                                                                 \
    {                                                                                                                 \
        auto t = catima::calculate_tof(a.p, a.m CC);                                                                  \
        v.push_back({"calculate_tof", t[100]});                                                                       \
        v.push_back({"calculate_tof", t[500]});                                                                       \
    }                                                                                                                 \
    v.push_back({"calculate_tof_from_E", catima::calculate_tof_from_E(a.p, a.lower, a.m CC)});                        \
    v.push_back({"w_magnification", catima::w_magnification(a.p, a.p.T, a.m CC).first});                              \
    v.push_back({"w_magnification p", catima::w_magnification(a.p, a.p.T, a.m CC).second});                           \
    {                                                                                                                 \
        catima::Projectile p = a.p;                                                                                   \
        v.push_back({"nonreaction_rate", catima::nonreaction_rate(p, a.m CC)});                                       \
    }                                                                                                                 \
    v.push_back({"production_rate", catima::production_rate(10, 500, 800, a.m CC)});                                  \
    v.push_back({"bethek_dedx_e", catima::bethek_dedx_e(a.p, a.m CC)});                                               \
    v.push_back({"bethek_dedx_e element", catima::bethek_dedx_e(a.p, a.m.get_element(0) CC)});                        \
    v.push_back({"sezi_dedx_e", catima::sezi_dedx_e(a.p, a.m CC)});                                                   \
    v.push_back({"dedx_variance", catima::dedx_variance(a.p, a.m.get_element(0) CC)});                                \
    v.push_back({"z_effective", catima::z_effective(a.p, a.m.get_element(0) CC)});                                    \
    v.push_back({"get_data range", catima::get_data(a.p, a.m CC).range[300]});                                        \
    v.push_back({"get_data variance", catima::get_data(a.p, a.m CC).range_straggling[500]});                          \
    v.push_back({"get_data angle", catima::get_data(a.p, a.m CC).angular_variance[300]});                             \
    if (points) {                                                                                                     \
        auto d = catima::calculate_DataPoint(a.p, a.m CC);                                                            \
        v.push_back({"DataPoint range", d.range[300]});                                                               \
        v.push_back({"DataPoint variance", d.range_straggling[500]});                                                 \
        v.push_back({"DataPoint angle", d.angular_variance[300]});                                                    \
    }

#define WITH , c
static Values explicit_(const Args &a, const catima::Config &c, bool points) {
    Values v;
    ALL(WITH, 0)
    return v;
}
#define WITHOUT
static Values default_(const Args &a, bool points) {
    Values v;
    ALL(WITHOUT, 0)
    return v;
}
static void same(Src &s, const char *what, const Values &a, const Values &b) {
    s.check(a.size() == b.size(), "size", "number of values");
    for (size_t i = 0; i < a.size(); i++) s.close((std::string(what) + ": " + a[i].first).c_str(), a[i].second, b[i].second, 1e-12);
}
static Args draw_args(Src &s, Case &k) {
    Args a;
    k.p = proj(s);
    k.m = material(s);
    M m2 = material(s);
    k.T = energy(s, 0.1, 1e5);
    k.c = calc_config(s, k.p.Z);
    if (s.chance(1, 2)) k.T = s.loguniform(35, 2000);
    set_thickness(k);
    k.m.th = s.uniform(0.05, 0.6) * catima::range(k.lp(), k.m.lib(), k.c.lib());
    a.p = k.lp();
    a.q = k.p.lib(energy(s, 0.01, 1e5));
    a.lower = k.T * s.uniform(0.2, 0.95);
    a.m = k.m.lib();
    m2.th = 0.3 * k.m.th;
    a.m2 = m2.lib();
    a.l.add(a.m);
    a.l.add(a.m2);
    if (!positive(k.p, k.m, k.c) || !positive(k.p, m2, k.c)) s.skip();
    s.note("%s; second layer %s; other energy %.17g", k.str().c_str(), m2.str().c_str(), a.q.T);
    return a;
}
// a configuration that differs in one or more options
static C other(Src &s, const C &c, double pz) {
    C d = c;
    int n = s.integer(1, 3);
    for (int i = 0; i < n; i++) switch (s.pick({3, 3, 2, 2, 2, 1})) {
        case 0: d.z_eff = (d.z_eff + s.integer(1, 5)) % 6; break;
        case 1: d.corr ^= 1 << s.integer(0, 3); break;
        case 2: d.calc ^= 1; break;
        case 3: d.low ^= 1; break;
        case 4: d.scat = d.scat == 255 ? s.integer(0, 2) : 255; break;
        default: d.factor *= s.uniform(1.1, 3);
        }
    return d;
}
static bool equal(const catima::Config &a, const catima::Config &b) { return a == b && a.scattering_factor == b.scattering_factor && a.corrections == b.corrections && a.calculation == b.calculation && a.low_energy == b.low_energy && a.scattering == b.scattering && a.z_effective == b.z_effective; }

static void honoured(Src &s) {
    reset();
    Case k;
    Args a = draw_args(s, k);
    C d = other(s, k.c, k.p.Z);
    if (!positive(k.p, k.m, d)) s.skip();
    s.note("global default %s", d.str().c_str());
    s.nontrivial();
    catima::Config c = k.c.lib();
    bool points = s.chance(1, 3);
    catima::default_config = c;
    Values alone = explicit_(a, c, points);
    // the same configuration as default, not given
    Values def = default_(a, points);
    same(s, "default against explicit", def, alone);
    s.check(equal(catima::default_config, c), "default", "the global default was changed by a calculation");
    // another default, given explicitly: the default must not matter, in either order, with or without remembered tables
    catima::default_config = d.lib();
    if (s.coin()) catima::_storage.Reset();
    Values foreign;
    if (s.coin()) foreign = default_(a, points);
    Values given = explicit_(a, c, points);
    same(s, "explicit with another default", given, alone);
    s.check(equal(catima::default_config, d.lib()), "default", "the global default was changed by a calculation");
    if (!foreign.empty()) {
        s.label("both configurations in turn");
        same(s, "default against explicit, other configuration", foreign, explicit_(a, d.lib(), points));
    }
    reset();
}
// which quantities an option may change
static void options(Src &s) {
    reset();
    Case k;
    Args a = draw_args(s, k);
    C d = k.c;
    bool scat = s.coin();
    if (scat) {
        if (s.coin() || d.scat != 255) d.scat = d.scat == 255 ? s.integer(0, 2) : 255;
        if (s.coin() || d.scat == k.c.scat) d.factor *= s.uniform(0.2, 3);
    } else
        d.calc ^= 1;
    s.label(scat ? "scattering" : "straggling mode");
    s.note("against %s", d.str().c_str());
    s.nontrivial();
    Values x = explicit_(a, k.c.lib(), true), y = explicit_(a, d.lib(), true);
    for (size_t i = 0; i < x.size(); i++) {
        std::string n = x[i].first;
        auto has = [&](const char *w) { return n.find(w) != std::string::npos; };
        bool angle = has("sigma_a") || has("sigma_x") || has("cov") || has("da2dx") || has("angular") || has("angle");
        bool strag = has("sigma_E") || has("sigma_r") || has("omega") || has("variance") || has("range_straggling") || has("energy_straggling");
        if (has("angular_variance")) strag = false;
        if ((scat && angle) || (!scat && strag)) continue;
        s.close((n + " must not change").c_str(), y[i].second, x[i].second, 1e-12);
    }
}
// a configuration left as it is constructed, and the global default as the program finds it
static catima::Config first_default;
static void initial(Src &s) {
    reset();
    Case k;
    Args a = draw_args(s, k);
    C d; // the documented choice
    if (!positive(k.p, k.m, d)) s.skip();
    s.nontrivial();
    catima::Config c = d.lib();
    Values want = explicit_(a, c, false);
    catima::Config plain;
    same(s, "configuration as constructed", explicit_(a, plain, false), want);
    catima::default_config = first_default;
    same(s, "global default of a new process", default_(a, false), want);
    reset();
}

int main(int argc, char **argv) {
    first_default = catima::default_config;
    return pbt::main_(argc, argv, {"C15", {
        {"honoured", honoured, 900, 25000, "about 40 functions with a random configuration given, as default, and with another default that differs in one to three options; all non-trivial"},
        {"initial", initial, 200, 5000, "the same functions with a configuration as constructed and with the global default of a new process, against the documented choice written out; all non-trivial"},
        {"options", options, 800, 25000, "pairs of configurations that differ in scattering or in the straggling mode; all non-trivial"},
    }});
}
