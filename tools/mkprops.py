#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here, one entry per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

C="src/catima.cpp"; K="src/calculations.cpp"; S="src/structures.cpp"; SH="include/catima/structures.h"
ST="src/storage.cpp"; STH="include/catima/storage.h"; SP="include/catima/spline.h"

prop("C01","A result depends only on its arguments, never on earlier calculations",
 "Whatever sequence of calculations came before, with whatever projectiles, materials, configurations and energies, and however many of them, a calculation returns exactly what it returns as the very first one of a fresh process. In particular two requests that differ in any single input that matters (projectile mass, charge or charge state, composition, ionisation potential, molar mass, any configuration option) never share a result, and asking again for something calculated long ago gives the same numbers.",
 ["histories","inputs","configurations"],
 "all sequences of calls mixing all public calculation functions over more distinct projectile/material/configuration combinations than can be remembered at once, including combinations that differ in one attribute only",
 "The storage test fills the cache with a few hand-picked entries; a mix-up needs particular pairs of nearly equal requests or particular eviction orders.",
 [ST,STH,C,S],[("lookup and circular replacement of cached tables",ST+": Data::Get, Data::Add"),("equality of projectile, material, configuration",S+" and "+C+": operator==")],
 state=[("cache of range, range straggling and angular variance tables","tables of the last calculations, reused on a match",STH+": Data::storage, Data::index")],
 observe=["every public calculation function"])

prop("C02","The energy left after a target matches the range difference",
 "For every projectile and target, the residual energy is the energy whose range equals the incoming range minus the target thickness, to 1e-5 g/cm2, and it lies between zero and the incoming energy. It is zero exactly when what is left of the range is not more than the range at 1 keV/u, and the reported energy loss is the mass of the projectile times the difference of incoming and outgoing energy per nucleon.",
 ["inputs","configurations"],
 "all projectiles, materials, configurations, energies from 1 keV/u to 10 TeV/u and thicknesses from zero to beyond the range",
 "Tests compare a few residual energies of a few projectiles; the iteration that finds the energy can fail to converge or overshoot only for particular energies and thicknesses.",
 [C,STH,SP],[("iterative inversion of the range table",C+": energy_out"),("energy loss",C+": calculate")],observe=["calculate","energy_out"])

prop("C03","The combined result agrees with the single-quantity functions",
 "Every field of a combined calculation is finite and non-negative (the survival probability being in [0,1], or -1 when it is not defined), and equals what the corresponding single-quantity function returns for the same arguments. Below 1 keV/u everything is zero (the survival probability one), a target of zero thickness leaves the particle unchanged, and a particle that stops reports zero residual energy, exit stopping power, energy straggling, angular straggling and time of flight.",
 ["inputs","configurations"],
 "all projectiles, materials, configurations, energies and thicknesses including the special cases zero thickness, stopped, and below the lowest energy",
 "Tests look at selected fields for selected beams; the fields are computed on separate code paths that can drift apart.",
 [C,"src/reactions.cpp"],[("assembly of the combined result",C+": calculate")],observe=["calculate and range, dedx_from_range, energy_out, range_straggling, energy_straggling_from_E, angular_straggling, calculate_tof_from_E, nonreaction_rate"])

prop("C04","Range and residual energy are monotonic, stopping power is positive",
 "For a fixed projectile, material and configuration the stopping power is positive and finite at every energy, and the range is non-negative and grows strictly with energy. The residual energy never increases when the target gets thicker and never decreases when the incoming energy grows.",
 ["inputs","configurations"],
 "all projectiles, materials, configurations, ordered pairs of energies between 1 keV/u and 10 TeV/u (also very close ones and across table points and regime boundaries) and ordered pairs of thicknesses",
 "No test compares neighbouring energies or thicknesses; an interpolation or regime-switch mistake shows only between particular points.",
 [C,K,SP,STH],[("stopping power in the three energy regimes",C+": dedx"),("interpolation of the range table",SP+": cspline_special"),("inversion",C+": energy_out")],observe=["dedx, range, energy_out, calculate"])

prop("C05","Cutting a target into slices does not change the outcome",
 "Passing through a slab gives the same outgoing energy, energy loss and, within the accuracy of the integration, time of flight and (with the default scattering option) angular straggling as passing through any sequence of slices of the same material with the same total thickness, one after the other or as a stack of layers, and the order of slices of different thickness does not matter. Equivalently the thickness needed to go from one energy to another is the difference of the ranges.",
 ["inputs","programs","configurations"],
 "all projectiles, materials, configurations, energies and partitions of a thickness into 2 to 12 slices, including slices of zero and of very small thickness",
 "Tests use two layers with fixed numbers; additivity over arbitrary cuts exercises the table inversion at arbitrary points.",
 [C],[("residual energy from range differences",C+": energy_out, calculate"),("stack of layers",C+": calculate for Layers")],observe=["calculate for Material and for Layers"])

prop("C06","The total over a layer stack combines the layers by the documented rules",
 "In a stack each layer starts with the energy leaving the previous one; energy losses and times of flight add, variances of energy and angle add, position variance and covariance are transported through each layer's thickness starting from the given initial phase space, survival probabilities multiply, and the total outgoing energy is that of the last layer. Each entry of the list equals the single-layer calculation; stacks built by adding materials, adding stacks or concatenating are equal and in order, total thickness is the sum of thicknesses, and an empty stack changes nothing.",
 ["inputs","programs","configurations"],
 "all stacks of 0 to 10 layers of arbitrary materials and thicknesses (also zero thickness and layers in which the particle stops), all initial phase spaces, all ways to build the stack",
 "Two or three fixed stacks are tested, none with a covariance in the initial phase space or with stopping in the middle.",
 [C,S,SH],[("accumulation over layers",C+": calculate(Projectile, Phasespace, Layers)"),("building stacks",S+": Layers::add, operator+, thickness")],observe=["MultiResult"])

prop("C07","Bethe stopping power follows its formula with every correction switch",
 "Above 30 MeV/u the electronic stopping power equals the Bethe formula with shell, Barkas, density-effect and Lindhard-Sorensen corrections for the effective charge and ionisation potential in use, plus pair production and bremsstrahlung above 50 GeV/u. Each correction can be switched off independently of the others, a user-given ionisation potential replaces the elemental one, and apart from that threshold the result is a continuous function of energy; the density correction is non-negative and sets in without a jump.",
 ["inputs","configurations"],
 "all projectiles Z 1-108, target elements Z 1-98, all combinations of the four correction switches and of the effective charge models, ionisation potential given or not, energies up to 10 TeV/u",
 "Tests compare a handful of stopping powers with looser tolerances and default corrections; a wrong coefficient or condition shows for particular elements, velocities or switches only.",
 [K,"include/catima/data_atima.h","include/catima/data_ionisation_potential.h","include/catima/generated_LS_coeff.h"],
 [("Bethe formula",K+": bethek_dedx_e"),("corrections",K+": bethek_barkas, bethek_density_effect, precalculated_lindhard, pair_production, bremsstrahlung")],observe=["bethek_dedx_e and its correction functions, dedx"])

prop("C08","Low-energy stopping power and the transition between energy regimes",
 "Below 10 MeV/u the electronic stopping power is the SRIM parametrisation (1985 or 1995 coefficients as configured) for protons, helium and heavy ions; between 10 and 30 MeV/u it moves linearly from that to the Bethe value and above it is the Bethe value, so it is continuous in energy. The nuclear stopping power of the universal screened potential is added at all energies, and the sum is the stopping power everywhere, zero for zero energy.",
 ["inputs","configurations"],
 "all projectiles Z 1-108, targets Z 1-98 and mixtures, both coefficient sets, energies from 1e-5 MeV/u to 1 TeV/u with emphasis on the regime boundaries",
 "A few energies and ions are tested; the parametrisation has many branches on projectile, target and velocity that particular combinations reach only.",
 ["src/srim.cpp",C,K],[("SRIM parametrisation","src/srim.cpp: srim_dedx_e, p_se, p_se85"),("nuclear stopping",K+": dedx_n"),("regimes",C+": dedx")],observe=["srim_dedx_e, sezi_dedx_e, dedx_n, dedx"])

prop("C09","Effective charge follows the selected model",
 "The effective charge is the one of the selected model (fixed charge state, Pierce-Blann, Anthony-Lanford, Hubert, Winger, Schiwietz, or the global model where it needs no external library) for the projectile charge, velocity and target charge. In the Pierce-Blann, Anthony-Lanford and Hubert models it never exceeds the projectile charge, rises with energy and approaches the projectile charge at high energy, and the charge state given by the user is used only when no model is selected and defaults to the nuclear charge.",
 ["inputs","configurations"],
 "all projectile charges 1-108, target charges 1-98, energies 1 keV/u to 10 TeV/u, all models",
 "Tests sample a few points per model; wrong coefficients or special cases for single target elements stay unseen.",
 [K,SH],[("models",K+": z_eff_* and z_effective")],observe=["z_effective, z_eff_*"])

prop("C10","Energy-loss straggling per length follows the selected theory",
 "The energy-straggling variance per unit thickness equals the Lindhard-Sorensen value for the effective charge, with the additional shell term only in the mode that asks for it, and below 30 MeV/u it is limited by the Firsov value. It is non-negative, and for a mixture it is the sum over elements weighted with the mass fractions.",
 ["inputs","configurations"],
 "all projectiles, target elements and mixtures, both straggling modes, all effective charge models, energies 1 keV/u to 10 TeV/u",
 "Only a few values are compared with reference numbers.",
 [K,C],[("straggling variance",K+": dedx_variance, precalculated_lindhard_X, energy_straggling_firsov"),("mixture",C+": domega2dx")],observe=["dedx_variance, domega2dx"])

prop("C11","A mixture is the mass-weighted sum of its elements, however it is written",
 "Stopping power, nuclear stopping, straggling and inverse radiation and scattering lengths of a material are the sums over its elements weighted by mass fraction. Every quantity, including ranges and reaction probability, is unchanged when elements are listed in another order, one element is split into several entries, all stoichiometric numbers are multiplied by a common factor, or the composition is given by mass fractions instead of stoichiometric numbers.",
 ["inputs","configurations","programs"],
 "all compositions of 1 to 6 elements with stoichiometric numbers or mass fractions, all rewritings of the composition, all projectiles, configurations, energies",
 "Tests use water and a few compounds in one notation.",
 [C,K,S,SH],[("weighting",SH+": weight_fraction, molar_fraction; "+K+": loops over elements")],observe=["dedx, dedx_n, domega2dx, radiation_length, scattering_length, calculate"])

prop("C12","Range and straggling are the integrals of the local quantities",
 "The range is the integral over energy, from 1 keV/u up, of mass number over stopping power; the range variance is the corresponding integral of straggling over the cube of stopping power; the stopping power recovered from the range is the local stopping power, all to the accuracy of the tables (about a tenth of a percent). The energy straggling behind a target is the exit stopping power times the square root of the difference of range variances between entrance and exit.",
 ["inputs","configurations"],
 "all projectiles, materials, configurations, energies and thicknesses",
 "Tests compare single ranges with looser tolerances and never with an independent integration.",
 [C,SP,STH],[("tables",C+": calculate_DataPoint"),("interpolation",SP),("energy straggling",C+": calculate, energy_straggling_from_E")],observe=["range, range_straggling, range_variance, domega2de, dedx_from_range, energy_straggling_from_E, calculate"])

prop("C13","Angular and lateral spread follow the selected scattering theory",
 "The scattering power, radiation length and scattering length have their documented values for every element and mixture, and the squared angular spread, the lateral spread and their covariance behind a target are the depth integrals of the scattering power (weighted with the remaining distance) along the slowing-down, for each of the four scattering options. They are finite and non-negative for every thickness, grow with thickness until the particle stops, and covariance squared never exceeds the product of the two variances.",
 ["inputs","configurations"],
 "all projectiles, materials, scattering options, energies and thicknesses from extremely thin to stopping",
 "Angular straggling is compared for a few beams with tolerances of 10% or more.",
 [C,K],[("scattering power and lengths",K+": angular_scattering_power*, radiation_length, scattering_length"),("integration over depth",C+": angular_variance, calculate")],observe=["da2dx, angular_scattering_power, radiation_length, angular_variance, angular_straggling, angular_straggling_from_E, calculate"])

prop("C14","Time of flight is the path divided by the velocity along the slowing-down",
 "The time of flight through a target is the integral of path length over velocity while the particle slows down, for the requested configuration and density. Hence it lies between the times for the entrance and the exit velocity over the same length, grows with thickness, and adds over consecutive targets.",
 ["inputs","configurations"],
 "all projectiles, materials, densities, configurations, energies and thicknesses",
 "A few flight times are compared for one configuration.",
 [C],[("time integral",C+": calculate_tof_from_E, calculate_tof, calculate")],observe=["calculate, calculate_tof_from_E, calculate_tof"])

prop("C15","Every function honours the configuration it is given, and only that one",
 "A calculation called with an explicit configuration uses that configuration throughout, whatever the global default is; called without one it equals the call with the global default passed explicitly. A configuration in which nothing was set, and the global default of a new process, select the Pierce-Blann charge, all corrections, the straggling without the shell term, the SRIM-85 coefficients and the default scattering with factor one. Changing an option changes only the quantities it is documented to affect: the scattering option and factor never change ranges, energies, energy straggling or times, and the straggling mode never changes ranges, energies, angles or times.",
 ["configurations","histories","inputs"],
 "all pairs of explicit and default configurations, all public functions taking a configuration, all projectiles, materials and energies",
 "Tests nearly always use the default configuration, so a function ignoring its argument is invisible.",
 [C,K,"src/reactions.cpp","include/catima/config.h"],[("configuration argument passed down",C+": all functions; "+K)],
 state=[("global default configuration","used when no configuration is given",C+": default_config")],observe=["all public functions with a configuration argument"])

prop("C16","A material is described consistently whichever way it is built",
 "Mass fractions, molar fractions, molar mass and number densities of a material follow from its composition, density and thickness by their definitions, for stoichiometric and for mass-fraction input, and a zero atomic mass means the natural atomic weight. Building by constructor or element by element gives equal materials, thickness in g/cm2 and cm convert with the density, setters change only what they name, and two materials compare equal exactly when composition, molar mass, ionisation potential and density (to 1e-6) agree; the thickness does not matter.",
 ["inputs","programs"],
 "all compositions of 1 to 8 elements in both notations, densities, thicknesses, ionisation potentials, orders of setter calls",
 "A few literal materials are tested.",
 [S,SH],[("definition of fractions and densities",SH+": Material"),("construction",S+": Material constructors, add_element, calculate, operator==")],observe=["Material accessors"])

prop("C17","Density only changes lengths and times",
 "For a thickness given in g/cm2 the energies, energy loss, range, stopping powers, energy, range and angular straggling and survival probability do not depend on the density of the material. Time of flight, lateral spread and angle-position covariance scale with the inverse density, so a target given in cm at some density equals the corresponding target in g/cm2.",
 ["inputs","configurations"],
 "all projectiles, materials, configurations, energies, thicknesses, pairs of densities from 1e-6 to 30 g/cm3",
 "Never tested across densities.",
 [C,SH],[("length conversion",C+": angular_variance, calculate_tof_from_E; "+SH+": thickness_cm")],observe=["calculate"])

prop("C18","Reaction probability and production rate follow the cross section",
 "The survival probability is the exponential of minus the Kox reaction cross section of all atoms of the material, averaged over the slowing-down, times the number of target molecules; it is 1 for no target, undefined (-1) when the particle enters or leaves below 30 MeV/u, decreases with thickness and multiplies over consecutive targets. The production rate is the solution of the production and loss equations for the given cross sections, continuous where both loss cross sections meet.",
 ["inputs","configurations"],
 "all projectiles, materials including compounds, energies around and above 30 MeV/u, thicknesses, cross sections from 0 to 1e4 mb",
 "Few values with elemental targets are tested.",
 ["src/reactions.cpp","include/catima/reactions.h","src/abundance_database.cpp"],[("cross section","src/reactions.cpp: SigmaR_Kox"),("rates","src/reactions.cpp: nonreaction_rate, production_rate; include/catima/reactions.h")],observe=["SigmaR_Kox, nonreaction_rate, reaction_rate, production_rate, Result.sp"])

prop("C19","The C interface returns what the C++ interface returns",
 "Every function of the C interface returns the value of the corresponding C++ calculation for the same projectile, energy and target, with the charge model selected in the C defaults and default scattering, whatever was called before through either interface. Targets are elements by charge (natural weight for mass 0) or compounds by number, and a non-positive density selects the tabulated one.",
 ["inputs","configurations","histories"],
 "all projectiles, elements and compounds of the database, energies, thicknesses, densities (also zero and negative), C defaults, sequences of C and C++ calls",
 "The C test calls a few functions for one beam.",
 ["src/cwrapper.cpp","include/catima/cwrapper.h"],[("argument and result translation","src/cwrapper.cpp")],observe=["catima_* functions, atomic_weight"])

prop("C20","Tabulated nuclear, element and compound data are right and safely indexed",
 "Atomic weights, densities, ionisation potentials, isotope abundances and compound compositions have their tabulated values for every element and compound; isotopes are ordered by falling abundance and their abundances sum to one, the average isotope mass agrees with the atomic weight, mass fractions of compounds sum to one. Any request outside of the tables (zero, negative or too large numbers) gives an empty answer: zero, or a material without components.",
 ["inputs"],
 "all integers as element charge, isotope index and material number",
 "A few entries are tested.",
 ["src/nucdata.cpp","include/catima/nucdata.h","src/abundance_database.cpp","src/material_database.cpp","include/catima/material_database.h","include/catima/data_ionisation_potential.h"],
 [("tables and bounds checks","all of the files")],observe=["element_atomic_weight, element_density, ipot, abundance::*, get_material, get_compound"])

prop("C21","The Lindhard-Sorensen tables agree with the direct calculation",
 "The tabulated and interpolated Lindhard-Sorensen corrections for energy loss and straggling agree with the direct phase-shift summation for every projectile within interpolation accuracy, also for isotopes lighter or heavier than the natural weight. Below the tabulated energies they keep the value of the first point (energy loss) or one (straggling), above them the value of the last point, and projectiles beyond the last tabulated element use the last one.",
 ["inputs"],
 "all projectile charges 1-130, masses around the stability line, energies 1 keV/u to 100 TeV/u",
 "The generated tables are tested at a few points of a few elements.",
 [K,"include/catima/generated_LS_coeff.h","generator.cpp"],[("interpolated tables",K+": precalculated_lindhard, precalculated_lindhard_X"),("direct summation",K+": bethek_lindhard, bethek_lindhard_X")],observe=["precalculated_lindhard, precalculated_lindhard_X, bethek_lindhard, bethek_lindhard_X"])

prop("C22","Tables interpolate with a cubic spline and exact indexing",
 "The table index of any value is the last table point not above it, -1 below the table and the last index at or above the end; interpolated values go through the table points, are the cubic spline between them with continuous first and second derivative, natural (no curvature at the ends) unless zero slope at the ends is asked for, the derivative function is the derivative of the value function, and outside of the table the extrapolation is linear. Piecewise linear interpolation is exact at table points and linear between, and zero outside.",
 ["inputs"],
 "all table ranges and sizes, arbitrary data values, arguments at, just below, just above and between table points and outside of the table",
 "Index and interpolation are tested for a few values.",
 [STH,SP],[("index",STH+": EnergyTable, LogVArray, LinearVArray"),("spline",SP+": cspline_special, tridiagonal_matrix")],observe=["index functions, Interpolator, EnergyTable_interpolate"])

prop("C23","Quadrature rules integrate with their nominal exactness",
 "The n-point Gauss-Legendre rule integrates every polynomial up to degree 2n-1 exactly on any interval, the n-point Gauss-Kronrod rule those up to degree (3n-1)/2, with the products of such polynomials in two dimensions, reversed or empty intervals giving the negative or zero. The listed points are the points the function is evaluated at, in increasing order, and the adaptive rules reach the requested precision for smooth and kinked functions, also when the interval is cut into parts.",
 ["inputs"],
 "all provided orders, random polynomials, smooth and kinked functions, intervals and precisions",
 "Tests integrate a few fixed functions with some of the orders.",
 ["include/catima/glq_integrator.h","include/catima/gkq_integrator.h","src/integrator.cpp"],[("nodes and weights","include/catima/glq_integrator.h, include/catima/gkq_integrator.h")],observe=["integrate, integrate_nonadaptive, integrate_adaptive, integrate_intervals, get_points"])

prop("C24","Kinematics and special functions satisfy their identities",
 "Relativistic gamma, beta and momentum as functions of kinetic energy satisfy their defining relations at all energies. The complex log-gamma function satisfies recurrence, reflection and conjugation, the confluent hypergeometric function its Kummer transformation, recurrence and known special cases, to the accuracy of the series.",
 ["inputs"],
 "all energies from 1e-6 MeV/u to 1e8 MeV/u and masses; complex arguments in both half planes",
 "A few arguments are tested.",
 [K,"include/catima/reactions.h"],[("kinematics",K+": gamma_from_T, beta_from_T, p_from_T"),("special functions",K+": lngamma, hyperg")],observe=["gamma_from_T, beta_from_T, p_from_T, Ecm_from_T, lngamma, hyperg, power, ipow"])

prop("C25","Vector and convenience calls equal element-wise single calls",
 "Functions taking a list of energies return, in order and with the same length, what the single-energy functions return for each energy, and zero for energies below 1 keV/u; every shortcut overload equals the full call it abbreviates. The magnification factors are the central differences, over one percent of the incoming energy, of outgoing energy and momentum, normalised; they are one without target and zero when the particle stops.",
 ["inputs","configurations"],
 "all lists of 0 to 30 energies in any order with duplicates and energies below the limit, all projectiles, materials, configurations",
 "One or two fixed lists are tested.",
 [C,"include/catima/catima.h"],[("vector overloads",C+": dedx_from_range, energy_out, w_magnification"),("inline overloads","include/catima/catima.h")],observe=["vector overloads, calculate overloads, w_magnification"])

prop("C26","The MOCADI export writes the beam and the layers it was given",
 "The exported input file contains the projectile energy, mass and charge, the widths and angles of both planes, and one matter block per layer in order with the element or database number, mass, density and thickness of that layer, to the printed precision. A compound of the database is written with its number whichever it is, any other compound with the number 0; around these stand the fixed lines of the format (options, number of particles, the four closing lines of a matter block, the end), and failure to open the file is reported.",
 ["inputs","programs"],
 "all projectiles, phase spaces, stacks of 0 to 40 layers of elements, database compounds and other materials",
 "Not tested at all.",
 ["include/catima/convert.h"],[("export","include/catima/convert.h: save_mocadi, materialdb_id")],observe=["the written file, materialdb_id"])

prop("C27","The calculator program prints the results of its configuration file",
 "For every valid configuration file the program prints, for each requested energy and each material in order, the results of the library for that projectile and material, and the totals of the stack. Energies given as number, text, list or range with step or count are all calculated, an explicit density overrides the tabulated one, and unusable files give a message instead of numbers.",
 ["inputs"],
 "all configuration files with 1 to 5 materials (elements and compounds, with and without mass, density and ionisation potential) and all notations of the energies; truncated and mutated files",
 "The program is neither built nor tested by the test suite.",
 ["bin/catima_calculator.cpp"],[("parsing and printing","bin/catima_calculator.cpp")],observe=["standard output of the program"])

prop("C28","No input makes the library read or write outside of its memory or hang",
 "Every public function returns, without reading or writing outside of its data, without undefined integer or enum arithmetic and without uninitialised reads, for every projectile with a charge from 1 to 300 and a positive mass up to 1e5, every non-empty material of valid elements, any configuration value, any energy and thickness (including zero, negative, huge and infinite ones), and any table index. After such a call ordinary calculations still give their ordinary results.",
 ["inputs","histories","configurations"],
 "all finite and extreme argument values of all public functions, in any sequence",
 "Tests use sane values and no sanitizer.",
 ["src/catima.cpp","src/calculations.cpp","src/srim.cpp","src/storage.cpp",STH,SP,"src/abundance_database.cpp","src/cwrapper.cpp"],
 [("bounds of table indices",K+", src/srim.cpp, "+STH),("iteration limits",C+": energy_out; "+K+": hyperg")],observe=["sanitizer reports, termination, values of a following calculation"])

prop("C29","Build options do not change results beyond their documented effect",
 "Whether splines are stored or rebuilt, whether the energies of the tables are stored or calculated, and whether table indices are calculated or searched, all results are the same. Without the thin-target approximation only the energy and angular straggling of targets taking less than a thousandth of the energy (and the sums of layers that follow from them) may differ, and then only slightly; without reactions everything but the survival probability is the same.",
 ["configurations","inputs","histories"],
 "the build options for cache, energy table, index, thin target and reactions, each one off and all off, random calculation sequences",
 "The tests run on one build only.",
 ["build_config.in",STH,ST,C],[("conditional code",STH+": STORE_SPLINES, ET_CALCULATED_INDEX; "+C+": THIN_TARGET_APPROXIMATION, REACTIONS")],observe=["all public calculation functions in each build"])

prop("C30","The table generator writes the Lindhard-Sorensen tables the library reads",
 "The generator program writes one header with four tables: both coefficients, each for the natural atomic weight and for five percent more. Every row belongs to its element, from hydrogen to the last element of the tables, every column to its energy on the logarithmic grid declared in the same file, and every entry is the value of the tabulated function for that element, mass and energy to six significant digits, whatever its size and sign. The declared number of energies, largest charge, mass step and energy limits are those of the tables, the syntax is valid and an older file is replaced.",
 ["inputs","programs"],
 "all functions of charge, mass and energy in place of the two tabulated coefficients (power laws over many orders of magnitude, both signs), with and without an older file",
 "The program is neither built nor run by the test suite.",
 ["utils/generator.cpp"],[("loops and printing","utils/generator.cpp: main")],observe=["the written header"])

prop("C31","The store keeps the tables of the latest requests, each under its own",
 "The store of calculated tables has a fixed number of places; a request (projectile with charge state, material, configuration) that is kept adds nothing and is answered from its place; a new one takes the next empty place and, when all are taken, replaces the oldest. Every kept entry names the request it was made for and holds the tables and splines calculated for exactly that request, unchanged until it is replaced; clearing empties all places, and different stores are independent. Two entries are equal exactly when projectile mass, charge and charge state, material and all configuration options are; energy and thickness do not matter.",
 ["histories","inputs"],
 "all histories of adding, asking (directly or through a calculation) and clearing, in the global store and in further ones, with requests differing in one input or in none that counts, up to one and a half times as many as there are places",
 "The tests fill the store in order once; they never look at the tables of an entry, at repeated requests after the store has wrapped or at requests that nearly agree.",
 ["src/storage.cpp","include/catima/storage.h","src/catima.cpp","src/structures.cpp"],[("ring of entries","src/storage.cpp: Data::Add, Data::Get"),("equality","src/storage.cpp: operator== of DataPoint; src/catima.cpp: operator== of Config; src/structures.cpp: operator== of Projectile and Material")],observe=["Data::Get, get_index, GetN, get_data, DataPoint"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
