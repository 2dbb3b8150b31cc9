// The calculations compared by C28 and C29, compiled once per set of build options into a shared object.
#include "variant_input.h"
#include "catima/catima.h"
#include "catima/calculations.h"
#include "catima/material_database.h"
#include "catima/storage.h"
#include "catima/reactions.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>

#ifdef VERIF_FILL // new memory with a known content
void *operator new(std::size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    memset(p, VERIF_FILL, n);
    return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, std::size_t) noexcept { free(p); }
void operator delete[](void *p, std::size_t) noexcept { free(p); }
#endif

extern "C" __attribute__((visibility("default"))) int variant_eval(const VariantInput *in, double *out, const char **names) {
    using namespace catima;
    int k = 0;
    auto put = [&](const char *n, double x) {
        names[k] = n;
        out[k++] = x;
    };
    auto result = [&](const Result &r) {
        put("Ein", r.Ein); put("Eout", r.Eout); put("Eloss", r.Eloss); put("range", r.range); put("dEdxi", r.dEdxi); put("dEdxo", r.dEdxo);
        put("sigma_E", r.sigma_E); put("sigma_a", r.sigma_a); put("sigma_r", r.sigma_r); put("sigma_x", r.sigma_x); put("cov", r.cov); put("tof", r.tof);
#ifdef REACTIONS
        put("sp", r.sp);
#else
        put("sp", 1);
#endif
    };
    Material m;
    if (in->compound)
        m = get_material(in->compound);
    else {
        for (int i = 0; i < in->n; i++) m.add_element(in->A[i], in->Z[i], in->N[i]);
        m.calculate();
    }
    m.density(in->rho).thickness(in->th);
    if (in->I > 0) m.I(in->I);
    Projectile p(in->pA, in->pZ, in->pQ, in->T);
    Config c;
    c.z_effective = in->z_eff;
    c.corrections = in->corr;
    c.calculation = in->calc;
    c.low_energy = in->low;
    c.scattering = in->scat;
    c.scattering_factor = in->factor;
    result(calculate(p, m, c));
    Layers l;
    Material m2 = m;
    m2.thickness(0.3 * in->th);
    l.add(m2);
    l.add(m2);
    auto r = calculate(p, l, c);
    result(r.results[0]);
    result(r.results[1]);
    result(r.total_result);
    put("function range", range(p, m, c));
    put("function dedx_from_range", dedx_from_range(p, m, c));
    put("function energy_out", energy_out(p, m, c));
    for (double x : energy_out(p, std::vector<double>{in->T, in->T2}, m, c)) put("function energy_out vector", x);
    put("function range_straggling", range_straggling(p, in->T2, m, c));
    put("function range_variance", range_variance(p, in->T2, m, c));
    put("function energy_straggling_from_E", energy_straggling_from_E(p, in->T, in->lower, m, c));
    put("function angular_straggling", angular_straggling(p, m, c));
    put("function angular_straggling_from_E", angular_straggling_from_E(p, in->lower, m, c));
    put("function tof_from_E", calculate_tof_from_E(p, in->lower, m, c));
    put("function dedx", dedx(p, m, c));
    put("function domega2dx", domega2dx(p, m, c));
    put("function da2dx", da2dx(p, m, c));
    auto w = w_magnification(p, in->T, m, c);
    put("magnification", w.first);
    put("magnification", w.second);
    auto &d = get_data(p, m, c);
    for (int i : {0, 200, 300, 400, 599}) {
        put("table range", d.range[i]);
        put("table range_straggling", d.range_straggling[i]);
        put("table angular_variance", d.angular_variance[i]);
    }
    for (double T : {in->T, in->T2}) {
        put("index", energy_table.index(T));
        put("spline", get_range_spline(d)(T));
    }
    {
        DataPoint copy, own = calculate_DataPoint(p, m, c);
        copy = own;
        for (double T : {in->T, in->T2}) {
            put("spline of a calculated point", get_range_spline(own)(T));
            put("spline of a calculated point", get_range_straggling_spline(own)(T));
            put("spline of a calculated point", get_angular_variance_spline(own)(T));
            put("spline of a copied point", get_range_spline(copy)(T));
        }
    }
    if (in->direct) {
        Projectile q(in->pA, in->pZ, in->pQ, in->x);
        Target t = m.get_element(0);
        double beta = beta_from_T(in->x), eta = beta * gamma_from_T(in->x);
        put("bethek_dedx_e", bethek_dedx_e(q, m, c));
        put("bethek_dedx_e of an element", bethek_dedx_e(q, t, c, in->I));
        put("bethek_barkas", bethek_barkas(in->pZ, eta, t.Z));
        put("bethek_density_effect", bethek_density_effect(beta, t.Z));
        put("bethek_lindhard", bethek_lindhard(q));
        put("bethek_lindhard_X", bethek_lindhard_X(q));
        put("precalculated_lindhard", precalculated_lindhard(q));
        put("precalculated_lindhard_X", precalculated_lindhard_X(q));
        put("pair_production", pair_production(q, t));
        put("bremsstrahlung", bremsstrahlung(q, t));
        put("energy_straggling_firsov", energy_straggling_firsov(in->pZ, in->x, t.Z, t.A));
        put("sezi_dedx_e", sezi_dedx_e(q, m, c));
        put("dedx_n", dedx_n(q, m));
        put("dedx_n of an element", dedx_n(q, t));
        put("dedx_variance", dedx_variance(q, t, c));
        put("reduced_energy_loss_unit", reduced_energy_loss_unit(q, t));
        put("angular_scattering_power", angular_scattering_power(q, m));
        put("angular_scattering_power of an element", angular_scattering_power(q, t));
        put("angular_scattering_power_xs", angular_scattering_power_xs(q, m, p_from_T(in->T, in->pA), beta_from_T(in->T)));
        put("radiation_length", radiation_length(m));
        put("scattering_length", scattering_length(m));
        put("z_effective", z_effective(q, t, c));
        put("z_eff_Pierce_Blann", z_eff_Pierce_Blann(in->pZ, beta));
        put("z_eff_Anthony_Landford", z_eff_Anthony_Landford(in->pZ, beta, t.Z));
        put("z_eff_Hubert", z_eff_Hubert(in->pZ, in->x, t.Z));
        put("z_eff_Winger", z_eff_Winger(in->pZ, beta, t.Z));
        put("z_eff_global", z_eff_global(in->pZ, in->x, t.Z));
        put("z_eff_Schiwietz", z_eff_Schiwietz(in->pZ, beta, t.Z));
        put("z_eff_atima14", z_eff_atima14(in->pZ, beta, t.Z));
        for (double e : {0.5 * in->x, 1.01 * in->x}) {
            q.T = e;
            put("domega2de", domega2de(q, e, m, c));
            put("angular_variance", angular_variance(q, m, c));
        }
        static const EnergyTable<max_datapoints> stored(logEmin, logEmax); // whichever kind the build uses
        put("interpolated", EnergyTable_interpolate(stored, in->x, const_cast<double *>(&d.range[0])));
        put("number_density", m.number_density());
        put("number_density_cm2", m.number_density_cm2());
        put("mean potential", m.I());
        put("molar mass", m.M());
        Material empty;
        put("default density", empty.density());
        put("default thickness", empty.thickness());
        put("default mean potential", empty.I());
        put("default molar mass", empty.M());
        Result none;
        result(none);
        Projectile unset;
        put("default projectile", unset.A + unset.Z + unset.Q + unset.T);
    }
    return k;
}
extern "C" __attribute__((visibility("default"))) void variant_reset() { catima::_storage.Reset(); }
