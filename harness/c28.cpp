// C28: no input makes the library read or write outside of its memory or hang. Compiled with address and undefined
// behaviour sanitizers; a report, a crash or a hang is the violation.
#include "variants.h"
#include "catima/abundance_database.h"
#include "catima/integrator.h"
#include "catima/spline.h"
#include "catima/srim.h"
namespace capi {
#include "catima/cwrapper.h"
}
#include <limits>
using namespace gen;

static volatile double sink;
static void use(double x) { sink = x; }
static void use(const catima::Result &r) { use(r.Eout + r.sigma_a + r.sigma_x + r.tof + r.sp); }

// any energy or thickness
static double any(Src &s, bool negative = true) {
    const double inf = std::numeric_limits<double>::infinity();
    double x;
    switch (s.pick({4, 3, 3, 2})) {
    case 0: return energy(s, 1e-3, 1e7);
    case 1: x = s.loguniform(1e-300, 1e300); break;
    case 2: {
        static const double e[] = {0, 1e-3, 1e7, 9.99e-4, 1.0000001e7, 1e-320, 5e-324, 1e308, 1.7976931348623157e308, 30, 10, 1e15, 2147483648.0, 4294967296.0, 9.3e18};
        x = e[s.draw(14)];
        static const double d[] = {0, 2.3e-16, -2.3e-16, 1e-9, -1e-9};
        x *= 1 + d[s.draw(4)];
        break;
    }
    default: x = inf;
    }
    if (!negative) x = std::min(x, 1e300);
    return negative && s.chance(1, 4) ? -x : x;
}
static catima::Config any_config(Src &s, double pz) {
    C c = config(s, pz);
    auto r = c.lib();
    if (s.chance(2, 3)) return r;
    auto byte = [&] { return (unsigned char)(s.coin() ? s.integer(0, 9) : s.integer(0, 255)); };
    if (s.coin()) r.z_effective = byte();
    if (s.coin()) r.corrections = byte();
    if (s.coin()) r.calculation = byte();
    if (s.coin()) r.low_energy = byte();
    if (s.coin()) r.scattering = byte();
    if (s.chance(1, 4)) r.scattering_factor = any(s);
    return r;
}
static P any_proj(Src &s) {
    P p = proj(s);
    if (s.chance(1, 3)) switch (s.pick({2, 2, 2, 1})) {
        case 0: p.Z = s.integer(109, 300); break;
        case 1: p.Z = s.uniform(1, 120); break;
        case 2: p.A = s.loguniform(1e-3, 1e5); break;
        default: p.Z = s.loguniform(1, 300); p.A = s.loguniform(1e-6, 1e5);
        }
    if (s.chance(1, 8)) p.Q = s.coin() ? -s.unit() * p.Z : p.Z * s.uniform(1, 5);
    return p;
}
static M any_material(Src &s) {
    M m = material(s);
    if (s.chance(1, 3)) {
        m.compound = 0;
        switch (s.pick({3, 2, 2, 1, 1})) {
        case 0: m.e = {{s.coin() ? 0 : s.loguniform(0.1, 1000), s.integer(1, 109), s.loguniform(1e-6, 1e6)}}; break;
        case 1: m.e.push_back({0, s.integer(90, 109), 1}); break;
        case 2: m.e[0].A = s.loguniform(1e-3, 1e5); break;
        case 3: m.I = s.loguniform(1e-6, 1e8); break;
        default:
            for (int i = 0; i < 40; i++) m.e.push_back({0, i + 1, 1});
        }
    }
    if (s.chance(1, 8)) m.rho = s.loguniform(1e-30, 1e30);
    return m;
}

// ordinary results stay ordinary: the first answers of the process
static const std::vector<double> &ordinary() {
    static std::vector<double> first;
    std::vector<double> v;
    auto put = [&](const catima::Result &r) {
        for (auto &f : fields()) v.push_back(r.*f.f);
    };
    put(catima::calculate(catima::Projectile(12, 6, 6, 500), catima::Material(12, 6, 2.0, 1.0)));
    put(catima::calculate(catima::Projectile(238, 92, 80, 90), catima::get_material(206).thickness(0.02)));
    if (first.empty()) first = v;
    static std::vector<double> now;
    now = v;
    return first.size() == now.size() && memcmp(&first[0], &now[0], first.size() * sizeof(double)) == 0 ? first : now;
}
static void still_ordinary(Src &s) {
    catima::default_config = catima::Config();
    static const std::vector<double> want = [] {
        catima::_storage.Reset();
        return ordinary();
    }();
    const auto &got = ordinary();
    for (size_t i = 0; i < want.size(); i++) s.close(fmt("ordinary value %zu afterwards", i).c_str(), got[i], want[i], 1e-12);
}

static void calls(Src &s) {
    still_ordinary(s);
    reset();
    P q = any_proj(s);
    M mm = any_material(s);
    double T = any(s);
    catima::Projectile p(q.A, q.Z, q.Q, T);
    catima::Material m = mm.lib();
    auto c = any_config(s, q.Z);
    double th = s.coin() ? any(s) : s.loguniform(1e-9, 10);
    m.thickness(th);
    s.note("A=%.17g Z=%.17g Q=%.17g T=%.17g; %s; thickness %.17g; config %d %d %d %d %d %.17g", q.A, q.Z, q.Q, T, mm.str().c_str(), th, c.z_effective, c.corrections, c.calculation, c.low_energy, c.scattering, c.scattering_factor);
    int n = s.integer(1, 6);
    for (int i = 0; i < n; i++) {
        double T2 = s.coin() ? any(s) : energy(s);
        int kind = s.integer(0, 31);
        if (s.coin()) p.T = T2;
        s.note("call %d with %.17g", kind, T2);
        switch (kind) {
        case 0: use(catima::calculate(p, m, c)); break;
        case 1: use(catima::range(p, m, c)); break;
        case 2: use(catima::dedx_from_range(p, m, c)); break;
        case 3: use(catima::range_straggling(p, T2, m, c)); break;
        case 4: use(catima::range_variance(p, T2, m, c)); break;
        case 5: use(catima::domega2de(p, T2, m, c)); break;
        case 6: use(catima::energy_out(p, m, c)); break;
        case 7: for (double x : catima::energy_out(p, std::vector<double>{T2, p.T, 100}, m, c)) use(x); break;
        case 8: for (double x : catima::dedx_from_range(p, std::vector<double>{T2, p.T, 100}, m, c)) use(x); break;
        case 9: use(catima::energy_straggling_from_E(p, p.T, T2, m, c)); break;
        case 10: use(catima::angular_straggling(p, m, c)); break;
        case 11: use(catima::angular_straggling_from_E(p, T2, m, c)); break;
        case 12: use(catima::angular_variance(p, m, c, s.integer(0, 3))); break;
        case 13: use(catima::calculate_tof_from_E(p, T2, m, c)); break;
        case 14: use(catima::w_magnification(p, T2, m, c).second); break;
        case 15: {
            catima::Layers l;
            int k = s.integer(0, 3);
            for (int j = 0; j < k; j++) l.add(s.coin() ? m : any_material(s).lib());
            catima::Phasespace ps;
            if (s.coin()) ps.sigma_x = any(s), ps.sigma_a = any(s), ps.cov_x = any(s);
            auto r = catima::calculate(p, ps, l, c);
            use(r.total_result);
            break;
        }
        case 16: {
            auto p2 = p;
            use(catima::nonreaction_rate(p2, m, c));
            break;
        }
        case 17: use(catima::production_rate(any(s), any(s), any(s), m, c)); break;
        case 18: use(catima::dedx(p, m, c)); break;
        case 19: use(catima::domega2dx(p, m, c)); break;
        case 20: use(catima::da2dx(p, m, c)); break;
        case 21: use(catima::bethek_dedx_e(p, m, c)); break;
        case 22: use(catima::sezi_dedx_e(p, m, c)); break;
        case 23: use(catima::dedx_n(p, m)); break;
        case 24: use(catima::dedx_variance(p, m.get_element(0), c)); break;
        case 25: use(catima::z_effective(p, m.get_element(0), c)); break;
        case 26: use(catima::precalculated_lindhard(p)); use(catima::precalculated_lindhard_X(p)); break;
        case 27: use(catima::angular_scattering_power(p, m)); use(catima::radiation_length(m)); use(catima::scattering_length(m)); break;
        case 28: {
            catima::DataPoint d;
            if (s.coin())
                d = catima::get_data(p, m, c);
            else
                d = catima::calculate_DataPoint(p, m, c);
            if (s.coin()) catima::_storage.Reset();
            use(d.range[s.integer(0, 599)]);
            use(catima::get_range_spline(d)(any(s)));
            use(catima::get_range_straggling_spline(d)(any(s)));
            use(catima::get_angular_variance_spline(d)(any(s)));
            break;
        }
        case 29: {
            catima::default_config = c;
            use(catima::calculate(p, m));
            break;
        }
        case 30: use(catima::calculate_tof(p, m, c)[s.integer(0, 599)]); break;
        default: use(catima::bethek_barkas(q.Z, any(s, false), s.integer(1, 109))); use(catima::bethek_density_effect(s.unit(), s.integer(1, 109)));
        }
    }
    s.nontrivial();
}

static int any_index(Src &s) {
    switch (s.pick({4, 2, 2, 2})) {
    case 0: return s.integer(-2, 360);
    case 1: return s.integer(-100000, 100000);
    case 2: return (int)(unsigned)s.draw(0xffffffffu);
    default: {
        static const int e[] = {0, -1, 1, 92, 93, 97, 98, 99, 108, 109, 110, 111, 199, 200, 201, 349, 350, 2147483647, -2147483647 - 1, -2147483647};
        return e[s.draw(19)];
    }
    }
}
// tables, interpolation, C interface with any number
static void tables(Src &s) {
    reset();
    int n = s.integer(1, 8);
    for (int i = 0; i < n; i++) {
        int a = any_index(s), b = any_index(s), kind = s.integer(0, 12);
        double x = any(s);
        s.note("call %d with %d %d %.17g", kind, a, b, x);
        switch (kind) {
        case 0: use(catima::element_atomic_weight(a)); use(catima::element_density(a)); break;
        case 1: {
            auto m = catima::get_material(a);
            use(m.M() + m.ncomponents());
            break;
        }
        case 2: use(abundance::get_isotopes_num(a)); use(abundance::get_isotope_a(a, b)); use(abundance::get_abundance(a, b)); use(abundance::get_isotope(a, b).first); break;
        case 3: {
            int j = catima::energy_table.index(x);
            s.check(j >= -1 && j < 600, "index", "index of %.17g is %d", x, j);
            break;
        }
        case 4: {
            static double y[600];
            use(catima::EnergyTable_interpolate(catima::energy_table, x, y));
            break;
        }
        case 5: {
            static std::vector<double> y(600, 1.5);
            catima::Interpolator f(catima::energy_table, y);
            use(f(x));
            use(f.derivative(x));
            break;
        }
        case 6: use(capi::catima_Eout(any_proj(s).A, s.integer(1, 108), x, 0, s.coin() ? s.integer(1, 98) : s.integer(201, 349), any(s), s.loguniform(1e-3, 20))); break;
        case 7: use(capi::catima_range(any_proj(s).A, s.integer(1, 108), x, 0, s.coin() ? s.integer(1, 98) : s.integer(201, 349))); break;
        case 8: use(capi::atomic_weight(a)); break;
        case 9: use(catima::SigmaR_Kox(s.integer(1, 300), s.integer(1, 120), x, s.integer(1, 300), s.integer(1, 120))); break;
        case 10: use(catima::gamma_from_T(x)); use(catima::beta_from_T(x)); use(catima::p_from_T(x, 4)); break;
        case 11: use(catima::Material(0, (int)s.integer(1, 98), s.coin() ? x : 1.0, any(s)).number_density_cm2()); break;
        default: use(catima::radiation_length(s.integer(1, 109), s.loguniform(1, 300))); use(catima::srim_dedx_e(s.integer(1, 120), s.integer(1, 109), x, s.coin()));
        }
    }
    s.nontrivial();
}

static double ref_range(const Case &k) { // rough, only used to aim
    double T = std::max(k.T, 1e-3), z = std::min(k.p.Z, 0.3 + k.p.Z * (1 - std::exp(-std::sqrt(T) / std::pow(k.p.Z, 0.6667))));
    return k.p.A / (z * z) * (0.0025 * std::pow(T, 1.75) + 1e-5) / (1 + 0.0005 * T);
}
// two copies of the library whose uninitialised variables and memory hold different values
static void initialised(Src &s) {
    reset();
    Case k = draw_case(s, true, MOpt(), true, s.coin() ? 1e-4 : 0.01, 1e7);
    double T2 = energy(s, 1e-3, 1e7), lower = k.T * s.uniform(0.1, 1);
    if (s.chance(1, 10)) k.T = 0;
    if (!positive(k.p, k.m, k.c)) s.skip();
    k.m.th = k.f * ref_range(k);
    s.note("%s, T2=%.17g lower=%.17g", k.str().c_str(), T2, lower);
    auto in = variants::input(k, T2, lower);
    in.direct = 1;
    in.x = s.coin() ? s.loguniform(1e-3, 100) : energy(s, 1e-3, 1e7);
    s.note("single terms at %.17g", in.x);
    bool fresh = s.coin();
    auto a = variants::run("zero", in, fresh), b = variants::run("pattern", in, fresh);
    s.check(a.k == b.k, "number", "number of values");
    for (int i = 0; i < a.k; i++) {
        double l = variants::lost(in, a, i);
        if (std::isnan(a.v[i]) && std::isnan(b.v[i])) continue;
        s.close(fmt("value %d (%s)", i, a.n[i]).c_str(), b.v[i], a.v[i], std::max(1e-12, l), l < 1 ? 1e-30 : 1e9);
    }
    s.nontrivial();
}

#ifdef VERIF_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    return pbt::fuzz_one(d, n, [](Src &s) { s.coin() ? calls(s) : tables(s); });
}
#else
int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C28", {
        {"calls", calls, 2500, 150000, "One to six calls with unusual projectiles, materials, configuration bytes, energies and thicknesses (zero, negative, huge, infinite) under sanitizers, ordinary results before and after; non-trivial: all."},
        {"tables", tables, 8000, 800000, "Table lookups, interpolation and C calls with any index and value under sanitizers; non-trivial: all."},
        {"initialised", initialised, 1500, 100000, "Two copies of the library, their uninitialised variables and memory filled differently, give the same results; non-trivial: all."},
    }});
}
#endif
