// C20: tabulated data are right and safely indexed.
#include "gen.h"
#include "catima/abundance_database.h"
#include "catima/data_ionisation_potential.h"
using namespace gen;

static const std::vector<ref::Isotope> &isotopes(int z) {
    static std::vector<std::vector<ref::Isotope>> v;
    if (v.empty()) {
        v.resize(111);
        for (int i = 0; i < ref::n_isotopes; i++) v[ref::isotopes[i].z].push_back(ref::isotopes[i]);
    }
    return v[z >= 1 && z <= 109 ? z : 0];
}
static int any_int(Src &s) {
    switch (s.pick({4, 2, 2, 1, 1, 1})) {
    case 0: return s.integer(1, 109);
    case 1: return s.integer(110, 420);
    case 2: return -s.integer(0, 300);
    case 3: return INT_MIN + (int)s.draw(5);
    case 4: return INT_MAX - (int)s.draw(5);
    default: {
        int64_t v = (int64_t)s.draw(UINT32_MAX) + INT_MIN;
        return (int)v;
    }
    }
}

// ---- elements --------------------------------------------------------------------------
static void elements(Src &s) {
    int z = any_int(s);
    s.note("z=%d", z);
    if (z < 1 || z > 109) s.label("outside the tables");
    s.nontrivial();
    s.close("atomic weight", catima::element_atomic_weight(z), z >= 1 && z <= 109 ? ref::weight[z] : 0, 1e-14);
    s.close("density", catima::element_density(z), z >= 1 && z <= 98 ? ref::density[z] : 0, 1e-14);
    s.close("ionisation potential", catima::ipot(z), z >= 1 && z <= 120 ? ref::ipot[z] : 0, 1e-14);
    if (z >= 1 && z <= 109) {
        s.check(catima::element_atomic_weight(z) >= z, "weight below charge", "element %d lighter than its protons", z);
        double sum = 0;
        for (auto &i : isotopes(z)) sum += i.a * i.abundance;
        // nuclear masses differ from the mass number by less than 0.15, radioactive elements list one isotope
        if (isotopes(z).size() > 1 || ref::weight[z] != std::round(ref::weight[z])) s.close("mean isotope mass", sum, catima::element_atomic_weight(z), 0, 0.15);
    }
    int n = abundance::get_isotopes_num(z);
    s.check(n == (int)isotopes(z).size(), "number of isotopes", "%d isotopes for z=%d, expected %zu", n, z, isotopes(z).size());
}
static void isotope(Src &s) {
    int z = any_int(s), i;
    auto &v = isotopes(z);
    switch (s.pick({5, 2, 2, 1})) {
    case 0: i = v.empty() ? 0 : (int)s.draw(v.size() - 1); break;
    case 1: i = (int)v.size() + s.integer(0, 3); break;
    case 2: i = -s.integer(1, 300); break;
    default: i = any_int(s);
    }
    s.note("z=%d i=%d", z, i);
    bool in = i >= 0 && i < (int)v.size();
    s.label(in ? "existing isotope" : "outside of the table");
    s.nontrivial();
    int a = abundance::get_isotope_a(z, i);
    double f = abundance::get_abundance(z, i);
    auto p = abundance::get_isotope(z, i);
    s.check(a == (in ? v[i].a : 0), "isotope mass", "mass number %d, expected %d", a, in ? v[i].a : 0);
    s.close("abundance", f, in ? v[i].abundance : 0, 1e-6);
    s.check(p.first == a, "get_isotope mass", "get_isotope gives mass %d, get_isotope_a %d", p.first, a);
    s.close("get_isotope abundance", p.second, f, 1e-7);
    if (!v.empty()) {
        double sum = 0, last = 2;
        int n = abundance::get_isotopes_num(z);
        std::set<int> seen;
        for (int k = 0; k < n; k++) {
            double x = abundance::get_abundance(z, k);
            s.check(x > 0 && x <= last, "order of abundance", "isotope %d of z=%d is more abundant than the one before", k, z);
            last = x;
            sum += x;
            s.check(seen.insert(abundance::get_isotope_a(z, k)).second, "isotope twice", "z=%d lists a mass twice", z);
            s.check(abundance::get_isotope_a(z, k) >= z, "isotope mass below charge", "isotope lighter than its protons");
        }
        s.close("sum of abundances", sum, 1, 1e-3); // the tabulated values are rounded
    }
}

// ---- compounds -------------------------------------------------------------------------
static void compounds(Src &s) {
    int id;
    switch (s.pick({6, 2, 2, 2})) {
    case 0: id = s.integer(201, 349); break;
    case 1: id = s.integer(1, 98); break;
    case 2: id = s.integer(99, 200); break;
    default:
        do id = any_int(s);
        while (0);
    }
    s.note("id=%d", id);
    s.nontrivial();
    auto m = catima::get_material(id);
    if (id >= 1 && id <= 98) {
        s.label("element");
        s.check(m.ncomponents() == 1, "element components", "%d components", m.ncomponents());
        auto t = m.get_element(0);
        s.check(t.Z == id && t.stn == 1, "element", "Z=%d number %g", t.Z, t.stn);
        s.close("element weight", t.A, ref::weight[id], 1e-14);
        s.close("element molar mass", m.M(), ref::weight[id], 1e-14);
        s.close("element density", m.density(), ref::density[id], 1e-14);
        s.close("element thickness", m.thickness(), 0, 0);
        return;
    }
    auto g = catima::get_compound((catima::material)id);
    s.check(g == m && g.thickness() == m.thickness(), "get_compound", "get_material and get_compound differ");
    if (id < 201 || id > 349) {
        s.label("outside of the table");
        s.check(m.ncomponents() == 0, "unknown compound", "compound %d does not exist but has %d components", id, m.ncomponents());
        s.close("unknown compound molar mass", m.M(), 0, 0);
        return;
    }
    s.label("compound");
    M d = compound(id);
    auto r = d.ref();
    s.check(m.ncomponents() == (int)d.e.size(), "components", "compound %d has %d components, expected %zu", id, m.ncomponents(), d.e.size());
    s.close("density", m.density(), d.rho, 1e-13);
    s.close("I", m.I(), 0, 0);
    s.close("thickness", m.thickness(), 0, 0);
    s.close("molar mass", m.M(), r.M, 1e-12);
    // the order of the elements does not matter
    std::map<std::pair<int, double>, double> want, got;
    double sum = 0;
    for (size_t i = 0; i < d.e.size(); i++) {
        want[{r.e[i].Z, r.e[i].A}] += r.e[i].w;
        auto t = m.get_element(i);
        got[{t.Z, t.A}] += m.weight_fraction(i);
        sum += m.weight_fraction(i);
    }
    s.check(want.size() == got.size(), "elements", "compound %d has other elements", id);
    for (auto a = want.begin(), b = got.begin(); a != want.end(); ++a, ++b) {
        s.check(a->first.first == b->first.first, "element charge", "compound %d: Z=%d, expected %d", id, b->first.first, a->first.first);
        s.close("element mass", b->first.second, a->first.second, 1e-13);
        s.close("mass fraction", b->second, a->second, 1e-12);
    }
    s.close("sum of mass fractions", sum, 1, 1.1e-2); // a few mixtures are rounded to 1 %
}
// the sum is one to the precision the tables are written with, for all but the rounded ones
// every entry in one go: nothing is left to chance
static void sweep(Src &s) {
    int part = s.integer(0, 3);
    s.note("part %d", part);
    s.nontrivial();
    if (part == 0)
        for (int z = -300; z <= 500; z++) {
            s.close("atomic weight", catima::element_atomic_weight(z), z >= 1 && z <= 109 ? ref::weight[z] : 0, 1e-14);
            s.close("density", catima::element_density(z), z >= 1 && z <= 98 ? ref::density[z] : 0, 1e-14);
            s.close("ionisation potential", catima::ipot(z), z >= 1 && z <= 120 ? ref::ipot[z] : 0, 1e-14);
        }
    else if (part == 1)
        for (int z = -20; z <= 140; z++)
            for (int i = -20; i < 40; i++) {
                auto &v = isotopes(z);
                bool in = i >= 0 && i < (int)v.size();
                s.check(abundance::get_isotope_a(z, i) == (in ? v[i].a : 0), "isotope mass", "z=%d i=%d: mass number %d", z, i, abundance::get_isotope_a(z, i));
                s.close("abundance", abundance::get_abundance(z, i), in ? v[i].abundance : 0, 1e-6);
                s.close("get_isotope", abundance::get_isotope(z, i).second, in ? v[i].abundance : 0, 1e-6);
            }
    else if (part == 2)
        for (int id = -50; id <= 600; id++) {
            auto m = catima::get_material(id);
            bool el = id >= 1 && id <= 98, co = id >= 201 && id <= 349;
            M d;
            if (el) d.e.push_back({ref::weight[id], id, 1}), d.rho = ref::density[id];
            if (co) d = compound(id);
            s.check(m.ncomponents() == (int)d.e.size(), "components", "material %d has %d components, expected %zu", id, m.ncomponents(), d.e.size());
            if (!el && !co) continue;
            s.close("density", m.density(), d.rho, 1e-13);
            std::multiset<std::array<double, 3>> a, b;
            for (size_t i = 0; i < d.e.size(); i++) {
                a.insert({d.e[i].A, (double)d.e[i].Z, d.e[i].n});
                auto t = m.get_element(i);
                b.insert({t.A, (double)t.Z, t.stn});
            }
            for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y)
                for (int k = 0; k < 3; k++) s.close("composition", (*y)[k], (*x)[k], 1e-12);
        }
    else { // the names of the compounds
        using catima::material;
        struct N { material m; int z; double n; };
        static const N names[] = {{material::Water, 8, 1}, {material::CO2, 8, 2}, {material::Methane, 1, 4}, {material::Al2O3, 13, 2}, {material::NaI, 53, 1}, {material::Na2CO3, 11, 2}, {material::UO2, 92, 1}, {material::LaBr3, 35, 3}, {material::SiO2, 14, 1}, {material::BaF2, 9, 2}, {material::CdWO4, 8, 4}, {material::Toluene, 1, 8}, {material::Benzene, 6, 6}, {material::CsI, 55, 1}, {material::GaAs, 33, 1}, {material::Fe2O3, 8, 3}, {material::Ethanol, 1, 6}, {material::Glucose, 6, 6}, {material::Urea, 7, 2}, {material::PuO2, 94, 1}, {material::TlCl, 81, 1}, {material::WF6, 9, 6}};
        for (auto &x : names) {
            auto m = catima::get_material(x.m);
            double n = -1, all = 0;
            for (int i = 0; i < m.ncomponents(); i++) {
                all += m.molar_fraction(i);
                if (m.get_element(i).Z == x.z) n = m.molar_fraction(i);
            }
            (void)all;
            if (m.get_element(0).stn >= 1) s.close("named compound", n, x.n, 1e-12);
        }
    }
}

int main(int argc, char **argv) {
    return pbt::main_(argc, argv, {"C20", {
        {"sweep", sweep, 64, 64, "All elements, isotopes and compounds and a margin outside of the tables against the frozen data; every case is one table."},
        {"elements", elements, 200000, 10000000, "Any charge, from the smallest to the largest integer; non-trivial: all."},
        {"isotope", isotope, 200000, 10000000, "Any charge and isotope index; non-trivial: all."},
        {"compounds", compounds, 100000, 5000000, "Any compound number; non-trivial: all."},
    }});
}
