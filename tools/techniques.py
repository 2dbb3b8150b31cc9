X = "Searched, not proven: "
TECH.update({
 "C02": ("property-based testing: random projectile/material/configuration/energy/thickness; round trip through the range function and comparison with an independent reference table", X + "round trip to the documented 1e-5 g/cm2; reference tables to 1e-8."),
 "C03": ("property-based testing: differential comparison of the combined calculation with every single-quantity function, invariants on all fields", X + "single functions are themselves judged by C02, C12-C14, C18."),
 "C04": ("property-based testing: metamorphic pairs of energies and thicknesses", X + "residual energies are compared up to the documented thickness tolerance."),
 "C05": ("property-based testing: metamorphic slicing, reordering and stacking of random targets", X + "time of flight within the accuracy of the quadrature."),
 "C06": ("property-based testing: reference combination of single-layer results; stateful model (plain list) for building stacks", X + "up to five layers per stack and 25 building operations."),
 "C07": ("property-based testing: independent reference implementation of the formula and its tables", X + "relative agreement 1e-9 away from the documented thresholds."),
 "C08": ("property-based testing: independent reference implementation and frozen coefficient tables; continuity at the borders", X + "relative agreement 1e-9."),
 "C09": ("property-based testing: independent reference implementation of each charge model plus bounds and limits", X + "relative agreement 1e-9."),
 "C10": ("property-based testing: independent reference implementation; bounds", X + "relative agreement 1e-9."),
 "C12": ("property-based testing: independent reference tables and quadrature over the library's own local functions", X + "tables 1e-8, free quadrature within interpolation accuracy."),
})
TECH.update({
 "C11": ("property-based testing: metamorphic rewriting of compositions (order, split, scale, fractions) and sums over single elements", X + "local quantities 1e-9, table quantities 1e-7."),
 "C13": ("property-based testing: independent reference formulas, depth integrals by own quadrature, invariants of the spread matrix", X + "integrals accept the library's eight-point rule or the true integral."),
 "C14": ("property-based testing: own quadrature of path over velocity, bounds and metamorphic splitting", X + "within the accuracy of the quadrature."),
 "C15": ("property-based testing: every public function differentially with explicit, default and perturbed global configurations", X + "all options, random energies and materials."),
 "C17": ("property-based testing: metamorphic change of density and of the unit of thickness", X + "1e-9 relative."),
 "C18": ("property-based testing: own Kox cross section and depth average, own solution of the production equations, metamorphic splitting", X + "averages within the spread of the cross section over depth."),
})
TECH.update({
 "C16": ("property-based testing: definitions of fractions, molar mass and number densities recomputed; stateful model of a material under random setters; equality against a model", X + "formulas 1e-12."),
 "C19": ("property-based testing: random call sequences of the C interface compared with the C++ calls they stand for", X + "sequences of up to a few calls with changing defaults."),
 "C20": ("property-based testing: random and exhaustive indices against frozen copies of the tables, invariants of abundances and fractions", X + "indices over the whole integer range are sampled; the tables themselves are covered completely."),
 "C21": ("property-based testing: differential comparison of the tables with the direct phase-shift sums", X + "within interpolation accuracy of the tables."),
 "C22": ("property-based testing: own natural cubic spline (tridiagonal solve in long double) and binary-search index as reference model", X + "random tables and the library's own tables."),
 "C23": ("property-based testing: random polynomials with exact integrals, recorded evaluation points, own adaptive recursion as reference", X + "adaptive rules up to what their error estimate can see."),
 "C24": ("property-based testing: identities and an independent long double implementation of the special functions", X + "to the accuracy of the series."),
})
TECH.update({
 "C01": ("property-based testing of histories: random sequences of calculations over near-identical keys in one process, each answer compared with a freshly forked process", X + "histories of up to 175 calculations and 150 keys."),
 "C25": ("property-based testing: differential comparison of list and shortcut calls with single full calls; own central differences", X + "lists of up to 700 energies."),
 "C26": ("property-based testing: random beams and layers exported, the file parsed back and compared", X + "to the printed precision of six decimals."),
 "C27": ("property-based testing: random and damaged configuration files, printed text parsed and compared with the library", X + "to the printed precision of six digits; the program runs with its main function renamed."),
 "C29": ("property-based testing: differential comparison of library builds without each option", X + "each option removed alone and all of them together; straggling of thin targets within a per cent plus rounding of the difference."),
})
TECH.update({
 "C28": ("property-based testing and fuzzing under address and undefined-behaviour sanitizers: random calls with extreme arguments, hang limit, ordinary results before and after; libFuzzer in the thorough tier", X + "uninitialised data are looked for by comparing two builds whose uninitialised variables and memory are filled differently."),
})
TECH.update({
 "C30": ("property-based testing: the generator program run on random functions in place of the tabulated ones, the written header parsed back and compared entry by entry", X + "the program runs with its main function and the two tabulated functions renamed; the written header is parsed, not compiled."),
 "C31": ("stateful property-based testing: random histories of requests against a model of the ring of places; tables of sampled entries calculated again", X + "histories of up to 200 requests over up to 100 different ones."),
})
