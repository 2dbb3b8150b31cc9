// Interface between a check and copies of the library built with other options (plain data only).
#pragma once
struct VariantInput {
    double pA, pZ, pQ, T, T2, lower;
    int n; // elements
    double A[8], N[8];
    int Z[8];
    double rho, th, I;
    int compound;
    int z_eff, corr, calc, low, scat;
    double factor;
    int direct; // also call the functions for single terms, outside of the energies at which the library uses them
    double x; // energy of these calls
};
enum { variant_max = 200, variant_result = 13 };
// returns the number of values; the names go to names
typedef int (*variant_fn)(const VariantInput *in, double *out, const char **names);
