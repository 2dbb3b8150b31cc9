// Declarations of the frozen reference tables (ref_data.cpp).
#pragma once
namespace ref {
struct Isotope { int z, a; float abundance; };
struct CompoundElement { int id; double density, A; int Z; double stn; };
extern const double weight[110], density[99], ipot[121];
extern const double de_x0[97], de_x1[97], de_a[97], de_c[97], de_m[97], de_d0[97];
extern const double srim95[92 * 8], srim85[92 * 8], vfermi[92], lscreen[92];
extern const double ls_a[108 * 200], ls_ahi[108 * 200], lsx_a[108 * 200], lsx_ahi[108 * 200];
extern const Isotope isotopes[];
extern const int n_isotopes;
extern const CompoundElement compounds[];
extern const int n_compounds;
}
