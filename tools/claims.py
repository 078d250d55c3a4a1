BASE = 'Trusted: clang front end, the dv engine, real-number semantics for doubles, random-point identity testing (error < 2^-40). '
CLAIM.update({
 'C01': ('Postcondition of libgrpp_overlap_integrals (and all callees, inlined) discharged for all exponents, coefficients, centres and any number of primitives, for each (L_A,L_B) in 0..10 x 0..10, general and coinciding centres. ' + BASE, 'proof', None),
 'C02': ('As C01 for libgrpp_kinetic_energy_integrals. ' + BASE, 'proof', None),
 'C03': ('As C01 for libgrpp_momentum_integrals. ' + BASE, 'proof', None),
 'C04': ('As C01 for libgrpp_type1_integrals (all n in 0,1,2; potential with any number of terms; NULL potential; centre coincidences), the special functions by their contracts (C14). Inlined with symbolic numbers of primitives for L_A+L_B<=6, with one primitive plus modular contraction loops above. ' + BASE, 'proof', None),
 'C10': ('As C01 for libgrpp_overlap_integrals_gradient, for each (L_A,L_B) and each pattern of point/centre coincidence. ' + BASE, 'proof', None),
 'C12': ('Coefficients of S_lm for all l<=20 (40 in the thorough tier), values at any direction (symbolic) for l<=22 and l=40, sphere moments to degree 40, type-1 and type-2 angular integrals at symbolic directions / harmonic values for all small orders and sampled large ones; against independent exact formulas (Legendre recurrence, addition theorem, moments). ' + BASE, 'proof', None),
 'C13': ('Matrices for each L in 0..11 equal the exact ones built from l = -i r x grad on the polynomials; algebra of the produced values checked too. ' + BASE, 'proof', None),
 'C14': ('On every table cell the function is proved to be a polynomial of the stated degree whose node values agree with the exact function; asymptotic and recurrence branches proved as identities; switches and truncation depths sampled natively (bounded). One known finding (K_n just above 16). ' + BASE, 'proof', None),
 'C16': ('Contracts of new_shell, deep_copy, shrink, mult_normcoef, get_shell_size, delete_shell discharged for each L in 0..11 and any number of primitives (symbolic); mixed zero patterns exhaustively up to 6 primitives (bounded); native twins under AddressSanitizer. ' + BASE, 'proof', None),
 'C17': ('Contracts of new_potential, shrink_potential, potential_value, delete_potential for any number of non-zero primitives (symbolic); mixed zero patterns exhaustively up to 6 primitives (bounded); native twins under AddressSanitizer. ' + BASE, 'proof', None),
 'C18': ('each routine of grpp.c is proved against its contract for EVERY number of terms (CBMC verification conditions with loop invariants on the real loops of libgrpp_delete_grpp, decided by z3/cvc5): count, order and content of every earlier term, capacity invariant, frame, exactly-once release of every term, no leak; histories follow by induction and are additionally run in the dv engine (all of at most 4 operations, selected long ones). Assumes distinct terms, successful allocation, a contract of realloc, fewer than 2e9 terms.', 'proof', 'deductive verification: CBMC contracts and loop invariants on grpp.c with SMT back ends; native replay under AddressSanitizer'),
 'C19': ('Component lists enumerated completely (L<=12, both orders, default and a caller-supplied generator); every analytic integral routine is proved to index by the lists of its shells for a random permutation of the components. ' + BASE, 'proof', None),
 'C23': ('The whole reachable argument domain is enumerated: exact value modulo two 60-bit primes plus the floating-point result against exact rationals. ' + BASE, 'proof', None),
 'C20': ('Every access of every public integral and gradient routine carries an obligation (inside a live block, initialised), all angular momenta of the two-centre routines and a sample of the semilocal triples, any contraction length; leaks, frees and aborts likewise; helper routines carry theirs. Replay: address sanitizer, block counting, builds with two fills of uninitialised storage (bounded). ' + BASE, 'proof', None),
    'C21': ('Frame condition on the same symbolic runs: no write outside the output matrices and the routine\'s own blocks, no dependence on the previous contents of the outputs; library-wide state is never written. Histories, read-only pages and concurrent calls on the compiled library (bounded). ' + BASE, 'proof', None),
    'C24': ('Setters and defaults from an arbitrary (symbolic) parameter state; initialised-state for all histories up to 8 calls; results after re-initialisation on the compiled library (bounded). The table builders enter by contract. ' + BASE, 'proof', None),
 'C05': ('Point charge: postcondition of libgrpp_nuclear_attraction_integrals discharged against the Hermite/Boys formula (Boys function by contract C14); finite models: discharged against the partial-wave formula over the contracts of the radial type-1 tables (C25), the angular integrals (C12) and the model potentials (C15); every L pair up to total order 8, all coincidence patterns for small L; larger orders bounded. The compiled library is compared with an independent spherical quadrature at sampled inputs. ' + BASE, 'proof', None),
 'C06': ('Postcondition of libgrpp_type2_integrals over the contracts of the radial tables (C25) and angular integrals (C12), inlined for small L, modular contraction obligations for the rest, native replay against an independent projection quadrature. ' + BASE, 'proof', None),
 'C07': ('As C06 for libgrpp_spin_orbit_integrals (matrices of l from C13). ' + BASE, 'proof', None),
 'C08': ('Postcondition of libgrpp_outercore_potential_integrals (scalar and three spin-orbit matrices) discharged against the projector formula over the contracts of the overlap and local-potential integrals (C01, C04), any numbers of primitives, l<=10, all (l,j) patterns incl. several shells; small cases with everything inlined; one-centre radial integrals proved separately; native replay against a projection quadrature. The number of outercore terms is enumerated (0..4), not symbolic. ' + BASE, 'proof', None),
 'C09': ('Postcondition of libgrpp_full_grpp_integrals (four matrices = local + averaged + 2/(2l+1) spin-orbit + outercore of the same operator) discharged over the contracts of the four parts, for any operator contents: lists of averaged / spin-orbit terms of any (symbolic) length of one order, mixed lists of enumerated lengths to over 200 terms; native replay against independent quadrature of every part. ' + BASE, 'proof', None),
 'C11': ('Postconditions of the five pseudopotential gradient routines: equal to the formula for the derivative of every shell component (all L pairs 0..10, all coincidence patterns of point/centres), over the contracts of the integral routines (C04, C06-C09); native replay against derivatives of independent quadratures. ' + BASE, 'proof', None),
 'C15': ('Potential and density of each nuclear model (both branches) proved equal to the functions derived from the Poisson equation for symbolic charge and parameters; continuity, normalisation and rms radius as lemmas; radius estimates proved; the native library sampled. ' + BASE, 'proof', None),
 'C25': ('Grid rules, weights, nested refinement, convergence test and integrands of the radial type-1/type-2 tables discharged as contracts of their functions; accuracy of the adaptive result is BOUNDED (sampled against independent quadrature). ' + BASE, 'proof', None),
})
CLAIM.update({
 'C22': ('Every Fortran-callable wrapper: its outputs, after the call, equal the C routine\'s formula (or the call of the C routine with exactly the translated arguments, over its contract), for any numbers of primitives / potential terms (symbolic) and every pointer argument read through; leaks of the wrappers measured on the compiled library. ' + BASE, 'proof', None),
 'C26': ('Two-state lemmas over the contracts of the integral routines: I(A,B)=I(B,A)^T (antisymmetric for momentum, spin-orbit and odd gradients), linearity in the coefficients of shells and potentials, additivity over operator terms, translation invariance of the gradients; proved for symbolic primitives for each L pair and coincidence pattern of the kind, larger ones bounded. ' + BASE, 'proof', None),
})
NA.update({
 'C27': 'The verifier treats doubles as mathematical reals; no deductive tool for floating-point error of this code is available here (Frama-C WP and a float-capable prover are absent). The bounded native evaluations of C01-C11 compare with multiprecision values at 1e-9 relative but do not decide this property.',
 'C28': 'A property of thread schedules of OpenMP code; the contract verifier is sequential. C21 proves the absence of writes to shared state after initialisation only.',
})
