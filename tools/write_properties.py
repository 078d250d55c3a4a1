#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties; edit here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)
L = "libgrpp/"
MOL = "The tests compare 97 matrices of six fixed molecules (few contraction patterns, L<=4) at 1e-10 absolute with NaN equal to anything; "

p("C01", "Overlap integrals equal the exact Gaussian overlap",
  "For every pair of contracted Cartesian Gaussian shells (L up to 10, any number of primitives, any positive exponents, coefficients and centres, coinciding or not) the overlap matrix holds at row-major position (i,j) the exact integral of the product of function i of the first shell and function j of the second, each primitive carrying the factor (2a/pi)^(3/4)(4a)^(L/2). Zero coefficients contribute nothing, and the previous contents of the output do not matter.",
  ["inputs"], "all shells L_A,L_B<=10, all contraction lengths, all exponents/coefficients/centres",
  MOL + "they never reach L>4, and cannot quantify over exponents, centres or contraction lengths.",
  [L+"overlap.c", L+"norm_gaussian.c", L+"utils.c", L+"shell.c"],
  [("Obara-Saika 1D recurrences and contraction loop", L+"overlap.c")],
  ["libgrpp_overlap_integrals"])
p("C02", "Kinetic-energy integrals equal <A|-1/2 Laplacian|B>",
  "For every pair of contracted Cartesian Gaussian shells in the documented domain the kinetic-energy matrix holds at (i,j) the exact matrix element of minus one half of the Laplacian. The previous contents of the output do not matter.",
  ["inputs"], "all shells L_A,L_B<=10, all contraction lengths, all exponents/coefficients/centres",
  MOL + "kinetic-energy matrices of high-L or unusual centres are not among them.",
  [L+"kinetic.c", L+"norm_gaussian.c"], [("derivative of 1D overlaps, three-term sum", L+"kinetic.c")],
  ["libgrpp_kinetic_energy_integrals"])
p("C03", "Momentum integrals equal Im <A|-i d/dr|B> for x, y and z",
  "For every pair of contracted Cartesian Gaussian shells in the documented domain the three momentum matrices hold at (i,j) the imaginary parts of the exact matrix elements <A_i| -i d/dx |B_j>, <A_i| -i d/dy |B_j>, <A_i| -i d/dz |B_j>, that is -<A_i|d/dx|B_j> and so on. The previous contents of the outputs do not matter.",
  ["inputs"], "all shells L_A,L_B<=10, all contraction lengths, all exponents/coefficients/centres",
  MOL + "momentum matrices are compared for few shells only.",
  [L+"momentum.c", L+"norm_gaussian.c"], [("derivative of 1D overlaps", L+"momentum.c")],
  ["libgrpp_momentum_integrals"])
p("C04", "Local (type-1) pseudopotential integrals are exact",
  "For every shell pair and every local potential sum_k d_k r^(n_k-2) exp(-z_k r^2) with n_k in {0,1,2} centred at any point (including on one or both shell centres), the matrix equals the exact integral of bra times potential times ket, up to the accuracy of the auxiliary one-dimensional functions. A missing (NULL) potential gives the zero matrix, and the previous contents of the output do not matter.",
  ["inputs"], "all shells L<=10, all contractions, all n in {0,1,2}, all exponents, coefficients and centres",
  MOL + "type-1 terms with n=0, high L, coincident centres and vanishing coefficients are sampled at a few points only.",
  [L+"type1_integrals.c", L+"type1_mcmurchie_davidson.c"],
  [("McMurchie-Davidson E and R/G recurrences", L+"type1_mcmurchie_davidson.c")],
  ["libgrpp_type1_integrals"])
p("C05", "Nuclear attraction: point charge exact, finite models dispatched right",
  "For every shell pair the point-charge nuclear attraction matrix equals -Z times the exact 1/r integral, and the matrices of the charged-ball, Gaussian, Fermi, Fermi-bubble and numerical-point models equal the integral of that model's own electrostatic potential for the given charge and model parameters. Each model-specific entry point equals the general entry point called with that model and its parameters, in the order given (radius; c, a; c, a, k).",
  ["inputs", "configurations"], "all shells, all charges and model parameters, all six models",
  MOL + "finite-nucleus cases are few, one of them fails at baseline, and the wrappers are not tested.",
  [L+"nuclear_attraction.c", L+"type1_mcmurchie_davidson.c", L+"type1_integrals.c"],
  [("model dispatch and parameter packing", L+"nuclear_attraction.c")],
  ["libgrpp_nuclear_attraction_integrals and its model-specific variants"])
p("C06", "Semilocal (type-2) integrals equal <A|U_L(r) P_L|B>",
  "For every shell pair and semilocal potential (projector angular momentum L up to 10) the matrix equals the exact matrix element of U_L(r) times the projector onto spherical harmonics of angular momentum L about the potential's centre, for every placement of the three centres including coincidences, up to the radial quadrature accuracy and the documented screening thresholds. The previous contents of the output do not matter.",
  ["inputs"], "all shells, all L, all potentials, all placements of centres",
  MOL + "no test exercises high projector L, mixed coincidences or cancellation.",
  [L+"type2_integrals.c", L+"angular_integrals.c", L+"radial_type2_integral.c", L+"screening.c"],
  [("angular times radial assembly", L+"type2_integrals.c"), ("adaptive Log3 radial quadrature", L+"radial_type2_integral.c"), ("radial screening", L+"screening.c")],
  ["libgrpp_type2_integrals"])
p("C07", "Spin-orbit integrals equal <A|U_L(r) P_L l P_L|B>",
  "For every shell pair and spin-orbit potential (L from 1 to 10) the three matrices equal the matrix elements of U_L(r) P_L l_x P_L, U_L(r) P_L l_y P_L, U_L(r) P_L l_z P_L, where l is the angular momentum operator about the potential's centre with the imaginary unit removed (real antisymmetric representation), for every placement of the three centres. L=0 gives zero, and the previous contents of the outputs do not matter.",
  ["inputs"], "all shells, all L, all potentials, all placements of centres",
  MOL + "sign or component errors for high m or coincident centres are not sampled.",
  [L+"spin_orbit_integrals.c", L+"lmatrix.c", L+"angular_integrals.c"],
  [("angular x L-matrix x angular assembly", L+"spin_orbit_integrals.c")],
  ["libgrpp_spin_orbit_integrals"])
p("C08", "Outercore (non-local) integrals follow the GRPP projector formula",
  "For every list of outercore potentials U_nlj and outercore shells the scalar and spin-orbit outercore matrices equal the sum over all potentials and pairs of outercore shells with equal (l,j) prescribed by the GRPP operator (|f><f|U + U|f><f| - |f><f|U|f><f| with scalar weight (l+1)/(2l+1) for j=l+1/2 and l/(2l+1) for j=l-1/2, and spin-orbit weight +2/(2l+1) or -2/(2l+1)). The result does not depend on the centre stored in the outercore shells: they act as if centred on the pseudopotential's origin, and the caller's outercore shells are not changed.",
  ["inputs"], "any number of outercore shells/potentials, any l, j, any shells and centres",
  MOL + "at most a few fixed outercore sets are used.",
  [L+"outercore_integrals.c"], [("part 1 and part 2 assembly, rotation to RSH", L+"outercore_integrals.c")],
  ["libgrpp_outercore_potential_integrals"])
p("C09", "Full GRPP integrals are the sum of the four parts",
  "For every GRPP operator (with or without local part, any numbers of averaged, spin-orbit and outercore terms) the full-operator scalar matrix equals type-1 plus all type-2 plus outercore scalar parts, and the spin-orbit matrices equal the sum over spin-orbit terms of 2/(2L+1) times the spin-orbit matrix plus the outercore spin-orbit part.",
  ["inputs"], "all operators (any number of terms per part) and shell pairs",
  MOL + "operators with missing parts or unusual numbers of terms are not tested.",
  [L+"full_grpp_integrals.c"], [("accumulation with 2/(2L+1) factors", L+"full_grpp_integrals.c")],
  ["libgrpp_full_grpp_integrals"])
p("C10", "Overlap gradient is the derivative of the overlap",
  "For every shell pair and every point the overlap gradient equals the derivative of the overlap matrix with respect to moving all functions centred on that point: zero if neither shell sits there, zero if both do, otherwise the exact derivative. The input shells are the same after the call.",
  ["inputs"], "all shells L<=10, all centre/point coincidence patterns",
  MOL + "overlap gradients appear for few shell pairs.",
  [L+"overlap_gradient.c", L+"diff_gaussian.c"], [("differentiated shells and component lookup", L+"overlap_gradient.c")],
  ["libgrpp_overlap_integrals_gradient"])
p("C11", "Pseudopotential gradients are derivatives of the integrals",
  "For every shell pair, pseudopotential part (local, semilocal, spin-orbit, outercore, full) and point, the gradient matrices equal the derivative of the corresponding integrals with respect to moving everything centred on that point: basis functions on the point, the pseudopotential if it is centred there, both or neither. If all three centres coincide with the point, or none does, the gradient is zero.",
  ["inputs"], "all shells, potentials and all patterns of coinciding centres",
  MOL + "gradients are compared for two molecules, with few coincidence patterns.",
  [L+"grpp_integrals_gradient.c", L+"diff_gaussian.c"],
  [("product rule over differentiated bra/ket shells and translational invariance", L+"grpp_integrals_gradient.c")],
  ["libgrpp_type1_integrals_gradient", "libgrpp_type2_integrals_gradient", "libgrpp_spin_orbit_integrals_gradient", "libgrpp_outercore_potential_integrals_gradient", "libgrpp_full_grpp_integrals_gradient"])
p("C12", "Real spherical harmonics and angular integrals are exact",
  "The real spherical harmonics for l up to 40 are orthonormal on the sphere, are the conventional ones (m<0 sine-type, m>0 cosine-type, with a fixed sign convention), and depend only on the direction of the vector, with a zero vector giving only the l=0 value. The angular integrals of type 1 and 2 equal the exact integrals over the sphere of products of real spherical harmonics and monomials.",
  ["inputs"], "all l,m in the supported range, all directions, all monomial powers reachable from the documented L",
  "Matrix comparisons mix all harmonics and sample no l beyond about 6.",
  [L+"spherical_harmonics.c", L+"angular_integrals.c"],
  [("coefficient tables", L+"spherical_harmonics.c"), ("unitary sphere polynomials", L+"angular_integrals.c")],
  ["evaluate_real_spherical_harmonic", "angular_type1_integral", "angular_type2_integral"])
p("C13", "Angular-momentum matrices obey the algebra of l in the RSH basis",
  "For every L the three matrices produced for the angular momentum operator in the basis of real spherical harmonics are the exact matrices of l_x, l_y, l_z divided by the imaginary unit: real, antisymmetric, satisfying the commutation relations of angular momentum and having total square L(L+1).",
  ["inputs"], "all L up to 10",
  "Only reached indirectly through a few spin-orbit matrices.",
  [L+"lmatrix.c"], [("real/complex transformation of ladder matrices", L+"lmatrix.c")],
  ["construct_angular_momentum_matrices_rsh"])
p("C14", "Special functions equal their mathematical definitions",
  "The Boys function, the G_n function, Dawson's integral, the scaled modified spherical Bessel functions and the Fermi S_k integrals agree with their defining integrals or series within about 1e-12 (4e-11 for the Fermi S_k, 1e-10 for G_n next to its switch at 12) of the scale of the function for every order and argument reachable from the documented domain, on both sides of and across every switch between tables, series, recurrences and asymptotic forms.",
  ["inputs"], "all orders and all real arguments in the reachable range",
  "Tests never call the functions directly and reach a handful of arguments; table rows and switch points are not covered.",
  [L+"specfunc_boys.c", L+"specfunc_gfun.c", L+"specfunc_dawson.c", L+"specfunc_scaled_mod_sph_bessel.c", L+"specfunc_bessel_table.c", L+"specfunc_fermi_sk.c"],
  [("tables, Taylor expansions, recurrences", L+"specfunc_*.c")],
  ["boys_values", "gfun_values", "Dawsons_Integral", "modified_bessel_scaled", "specfunc_fermi_sk"])
p("C15", "Nuclear charge models are mutually consistent",
  "For each finite nuclear model (ball, Gaussian, Fermi, Fermi bubble) and all admissible parameters, the charge density integrates to the nuclear charge, the electrostatic potential solves the Poisson equation for that density and tends to -Z/r outside, it is continuous at every switch of formula, and the reported rms radius is that of the density. The estimated Fermi parameters reproduce the requested rms radius to leading orders and the radius estimates follow the published formulas.",
  ["inputs"], "all r>0, Z, c, a, k, rms radius",
  "Potential and density are never compared with each other by the tests.",
  [L+"nuclear_models.c"], [("closed formulas in S_k", L+"nuclear_models.c")],
  ["libgrpp_charge_density_*", "libgrpp_coulomb_potential_*", "libgrpp_rms_radius_*", "libgrpp_estimate_*"])
p("C16", "Shells are faithful private copies, created and destroyed cleanly",
  "A new shell or deep copy holds exactly the given L, centre, exponents and coefficients in storage of its own (later changes of the caller's arrays or of the source shell do not show), with (L+1)(L+2)/2 components. Shrinking removes exactly the primitives with |coefficient| at most 1e-14 and keeps order and pairing; normalising multiplies coefficient i by (2a_i/pi)^(3/4)(4a_i)^(L/2); deleting releases each block exactly once.",
  ["inputs", "histories"], "any number of primitives, any pattern of zero coefficients, any L<=11",
  "Tests use few shells, never with interior zero coefficients, and do not look at ownership.",
  [L+"shell.c", L+"norm_gaussian.c"], [("constructor, deep copy, shrink", L+"shell.c")],
  ["libgrpp_new_shell", "libgrpp_shell_deep_copy", "libgrpp_shell_shrink", "libgrpp_shell_mult_normcoef", "libgrpp_delete_shell"])
p("C17", "Potentials are faithful private copies with the stated value",
  "A new or shrunk potential holds, in order and in storage of its own, exactly the primitives (power, coefficient, exponent) of its source whose |coefficient| is above 1e-14 (one of exactly that size may be kept or dropped), with L and J kept, and leaves its source unchanged. Its value at r is the sum of c_i r^(n_i-2) exp(-a_i r^2), and deleting releases each block exactly once (NULL is accepted).",
  ["inputs", "histories"], "any number of primitives and any pattern of zero coefficients, all r>0",
  "Tests use few potentials and do not look at dropped terms or ownership.",
  [L+"potential.c"], [("filtering constructor", L+"potential.c")],
  ["libgrpp_new_potential", "libgrpp_shrink_potential", "libgrpp_potential_value", "libgrpp_delete_potential"])
p("C18", "The GRPP container keeps every term in order and owns it once",
  "After any sequence of set/add calls, with any number of terms of each kind, the GRPP object holds the latest local potential and all averaged, spin-orbit and outercore terms in the order added. Replacing the local potential releases the previous one, and deleting the object releases every potential, outercore shell and internal block exactly once.",
  ["histories"], "all sequences of constructor/adder/destructor calls, of any length",
  "Tests build two or three small operators and never check ownership or long sequences.",
  [L+"grpp.c"], [("adders and destructor", L+"grpp.c")],
  ["libgrpp_new_grpp", "libgrpp_grpp_*", "libgrpp_delete_grpp"])
p("C19", "Cartesian components are complete, unique and in the documented order",
  "For every L up to 11 and either built-in component order, a shell lists each (n,l,m) with n+l+m=L exactly once, in order of decreasing n and then decreasing l, and every integral routine indexes its matrices by that list. Selecting an order or a custom generator takes effect for shells created afterwards.",
  ["inputs", "configurations"], "all L<=11, all orders",
  "Tests use one order and L<=4.",
  [L+"parameters.c", L+"shell.c"], [("cartesian generators", L+"parameters.c")],
  ["libgrpp_generate_shell_cartesians", "libgrpp_set_cartesian_order", "libgrpp_set_cartesian_generator"])
p("C20", "No documented input reaches memory errors, leaks or aborts",
  "For basis shells up to L=10 and pseudopotentials up to L=10, any contraction lengths and any placement of centres, every public integral and gradient routine accesses only memory inside its own and its arguments' blocks, reads no uninitialised storage, releases everything it allocates, and never aborts or exits.",
  ["inputs"], "the whole documented domain of shells, potentials and centres",
  "The molecules stop at L=4 (i shells at most), so array limits and rarely taken paths are never reached.",
  [L+"overlap.c", L+"kinetic.c", L+"momentum.c", L+"type1_mcmurchie_davidson.c", L+"type2_integrals.c", L+"spin_orbit_integrals.c", L+"outercore_integrals.c", L+"factorial.c", L+"radial_type2_integral.c"],
  [("fixed-size arrays dimensioned by the documented limits", L+"*.c")],
  ["all public integral and gradient routines"])
p("C21", "Integral calls are pure: inputs and shared state unchanged, no history",
  "After initialisation every public integral and gradient routine writes only its output matrices: the shells, potentials, GRPP object, coordinates and all library-wide state are bitwise the same after the call as before and are not written at any moment during it, so that calls may run concurrently on shared inputs. The outputs depend only on the arguments, not on earlier calls or on what the output buffers held.",
  ["inputs", "histories", "schedules"], "all calls, all prior histories, any concurrent use of shared inputs",
  "The tests run single-threaded because of a known race, and never compare inputs before and after.",
  [L+"outercore_integrals.c", L+"overlap_gradient.c", L+"grpp_integrals_gradient.c", L+"spherical_harmonics.c"],
  [("local copies and buffers", L+"*.c")],
  ["all public integral and gradient routines"])
p("C22", "The Fortran interface is equivalent to the C interface",
  "Every Fortran-callable routine produces the same result as constructing the corresponding shells and potentials in C and calling the corresponding C routine, for all arguments, changes none of its input arguments, and releases every temporary object.",
  ["inputs"], "all Fortran entry points and all arguments",
  "The Fortran driver is compared with the same few molecules and calls only part of the interface.",
  [L+"fortran.c"], [("argument unpacking wrappers", L+"fortran.c")],
  ["all entry points with a trailing underscore"])
p("C23", "Factorials, double factorials, ratios and binomials are exact",
  "The factorial, double factorial, factorial ratio and binomial coefficient helpers return the exact value (correctly rounded to a few units in the last place where it exceeds 2^53) for every argument reachable from the documented domain, including 0, -1 and the first values beyond their tables, and never abort there.",
  ["inputs"], "all arguments reachable for L<=11 shells, L<=10 potentials and spherical harmonics up to l=40",
  "Tests never call them directly and stay below the ends of the tables.",
  [L+"factorial.c", L+"binomial.c"], [("pre-tabulated values and recursion", L+"factorial.c")],
  ["factorial", "double_factorial", "factorial_ratio", "binomial"])
p("C24", "Initialisation, finalisation and parameters behave as documented",
  "Initialising any number of times, or finalising and initialising again, leaves the library usable with the same results; it reports initialised exactly between an initialisation and the next finalisation. Each parameter setter changes exactly its own parameter to the given value and the default call restores all documented defaults.",
  ["histories"], "all sequences of init/finalise/set calls",
  "Every test calls initialise once and never sets parameters twice.",
  [L+"init_finalize.c", L+"parameters.c"], [("initialised flag and parameter block", L+"init_finalize.c")],
  ["libgrpp_init", "libgrpp_finalize", "libgrpp_is_initialized", "libgrpp_set_*"])
p("C25", "Radial quadrature tables hold the integrals they are labelled with",
  "For every pair of shells, potential and maximal orders, entry (lambda1,lambda2,n) or (lambda,n) of the radial tables is the radial integral of exactly that combination of Bessel orders and power of r over the contracted functions and the potential, computed on nested grids whose points and weights at each refinement are those of one Log3 rule. An entry is taken as converged only when two successive refinements agree within the tolerance or the finest grid is reached, or screening bounds it below the tolerance.",
  ["inputs"], "all orders, contractions, potentials and grids reachable from the documented domain",
  "Tests see only final matrices, and refinement beyond the first steps is rarely triggered.",
  [L+"radial_type2_integral.c", L+"radial_type1_integral.c", L+"screening.c"],
  [("nested Log3 grids, table layout, screening", L+"radial_type2_integral.c")],
  ["tabulate_radial_type2_integrals", "tabulate_radial_type1_integrals"])
p("C26", "Matrices have the symmetry and linearity of their operators",
  "Exchanging bra and ket transposes the overlap, kinetic, local, semilocal, nuclear-attraction and outercore scalar matrices and transposes and negates the momentum, spin-orbit and outercore spin-orbit matrices. All matrices are linear in the coefficients of either shell and of the potential.",
  ["inputs"], "all shell pairs and operators",
  "A relation between two runs is never checked by the tests.",
  [L+"overlap.c", L+"kinetic.c", L+"momentum.c", L+"type1_mcmurchie_davidson.c", L+"type2_integrals.c", L+"spin_orbit_integrals.c", L+"outercore_integrals.c"],
  [("bra/ket symmetric formulas", L+"*.c")],
  ["all public integral routines"])
p("C27", "Rounding errors stay near machine precision",
  "For every documented input the floating-point result differs from the exact mathematical value by no more than a small multiple of machine precision times the natural scale of the integral.",
  ["inputs"], "all documented inputs",
  "Tests compare to 1e-10 absolute at a few points.",
  [L+"type1_mcmurchie_davidson.c", L+"specfunc_boys.c"], [("recurrence direction, scaled functions", L+"*.c")],
  ["all public integral routines"])
p("C28", "Initialisation is race-free under concurrent first use",
  "When several threads initialise the library at the same time, exactly one builds the tables, no thread proceeds with partial tables, and all later results are the same as after a single-threaded initialisation.",
  ["schedules"], "all interleavings of concurrent initialisation and first use",
  "Tests run one thread.",
  [L+"init_finalize.c"], [("omp critical section", L+"init_finalize.c")],
  ["libgrpp_init"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
