#!/usr/bin/env python3
"""writes properties.jsonl (single source of the property texts)"""
import json
EV, CO, TE, TV, OP, HP, PY = ["src/" + x for x in ("ami_base_evaluate.cpp", "ami_base_construct.cpp", "ami_base_terms.cpp", "ami_base_terms_evaluate.cpp", "ami_base_optimize.cpp", "ami_base.hpp")] + ["pyami_src/pyami_wrapper.cpp"]
TO = "src/ami_base_terms_optimize.cpp"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}})

DOM = ("coefficients of the summed frequencies and of the poles in {-1,0,1} throughout the elimination, each summed frequency present when its turn comes, "
       "no propagator that is identically zero, no pole with identically zero energy on an odd number of frequencies")
p("C01", "SPR result equals the exact Matsubara sum when all poles are simple",
  "For every product of propagators 1/(sum_j a_j i nu_j + E) whose poles are pairwise distinct, constructing the S, P, R arrays and evaluating them "
  "returns the exact T-weighted sum over all summed fermionic Matsubara frequencies (contour convention exp(i nu 0+)), for every number of summed frequencies, every number and order "
  "of lines, any temperature, any real or complex energies, and any complex values of the frequencies that are not summed. "
  "The result is finite and accurate to rounding relative to the size of its terms, also where exp(beta E) overflows.",
  ["inputs", "programs"], "all integrands in the domain (" + DOM + "), all energies, temperatures and external frequencies",
  "One stable test evaluates one second-order diagram at one point to a few digits and the others compare single helper calls; the space of integrands and numbers is unbounded.",
  [CO, EV, HP], [("residue elimination of one frequency for all products", CO + ": update_gprod_general, find_poles, simple_residue, update_G_pole"), ("S.f(P) combination and star product", EV + ": dot, cross, star, eval_gprod")],
  ["AmiBase::construct(parms, R0, R, P, S)", "AmiBase::evaluate(parms, R, P, S, external)"])
p("C02", "Repeated propagators (poles of any order) are summed exactly",
  "When propagators of the integrand coincide, or come to coincide during the elimination (also up to an overall sign of frequency and energy), the SPR result and the term-by-term result are still the exact Matsubara sum: "
  "each pole of order M contributes its full (M-1)-th derivative of statistical function times remaining propagators, divided by (M-1)!.",
  ["inputs", "programs"], "all integrands with coinciding poles, any multiplicity pattern, any line order and signs, any number of summed frequencies",
  "The derivative tests check one first derivative and two coefficient tables; nested derivatives, several multiple poles in one product, opposite signs and higher multiplicity are never evaluated.",
  [CO, TE, EV], [("multiplicity counting", CO + ": find_poles, pole_equiv"), ("residue of a multiple pole", CO + ": evaluate_general_residue, take_derivative_gprod, get_starting_sign; " + TE + ": terms_general_residue, take_term_derivative"), ("derivatives of the statistical functions", EV + ": fermi_bose, frk")],
  ["AmiBase::construct", "AmiBase::evaluate"])
p("C03", "The term-by-term construction gives the exact sum, term by term",
  "The list of terms built for an integrand evaluates to the exact Matsubara sum, equal to the SPR result; every term on its own evaluates to its sign times its statistical factors times its propagators times the prefactor; and the value of a list is the sum of the values of its terms, "
  "so that concatenating, splitting or reordering lists of terms adds, splits or keeps the value.",
  ["inputs", "programs"], "all integrands in the domain, all numerical points, all ways of cutting, merging and permuting the list of terms",
  "No test evaluates the term-by-term form at all; the tests compare a few terms after one step.",
  [TE, TV, CO], [("elimination on terms", TE + ": integrate_step, terms_general_residue"), ("evaluation", TV + ": evaluate, evaluate_term, eval_fprod")],
  ["AmiBase::construct(N, R0, terms)", "AmiBase::evaluate(parms, terms, external)", "AmiBase::evaluate_term"])
p("C04", "Factorized evaluation equals the unfactorized evaluation",
  "Factorizing the final products of a solution (S, P, R arrays or terms) and evaluating with the factorized form gives the same value as the evaluation without it, for every integrand, numerical point and overall prefactor, "
  "also for lists of terms merged from several diagrams, products without any propagator, and an empty factorization.",
  ["inputs", "programs"], "all solutions of integrands in the domain, merged lists of terms, all prefactors and numerical points",
  "The factorization tests compare sizes of one list; no test evaluates a factorized form.",
  [OP, TO, EV, TV], [("unique propagators and references", OP + ": factorize_Rn, reduce_rref, pair_v_equiv, g_struct_equiv"), ("evaluation from the factorized form", EV + ": evaluate, optimized_star; " + TV + ": evaluate")],
  ["AmiBase::factorize_Rn", "AmiBase::factorize_terms", "AmiBase::evaluate with unique_g, Rref, Eval_list"])
p("C05", "Factorization is lossless and as small as it can be",
  "The list of unique propagators contains no two that are equal or opposite and each one occurs in the input; every product of the input appears exactly once in the evaluation list, in a group whose stored product equals it up to exactly the stored sign; and products that are equal up to sign share one group. "
  "The output depends on the input list only, never on previous contents of the output containers.",
  ["inputs"], "all lists of products of propagators: any lengths (also empty products), repeated factors, any order of factors, opposite propagators, different species",
  "The tests count entries of the factorization of one integrand.",
  [OP, TO], [("equality up to sign", OP + ": g_struct_equiv"), ("comparison of products as multisets", OP + ": pair_v_equiv"), ("grouping", OP + ": reduce_rref")],
  ["AmiBase::factorize_Rn", "AmiBase::factorize_terms"])
p("C06", "Statistics follow the declared kind of external line",
  "With a fermionic graph type the external frequency counts as a fermionic Matsubara frequency in the periodicity of every statistical factor, with a bosonic type (particle-hole and particle-particle bubbles, double occupancy, force) as a bosonic one; the result is the exact sum of the corresponding kind. "
  "For a double-occupancy diagram, or a diagram of any bosonic type with the bosonic-external switch, whose last frequency is summed too, that sum is bosonic and the result is minus the exact sum; where that last sum is absent the switch changes nothing.",
  ["inputs", "configurations"], "all graph types and switch settings, all integrands in the domain, all numerical points, in all evaluation forms",
  "Only the default fermionic type is evaluated by a test.",
  [EV, HP], [("periodicity sign of a pole", EV + ": fermi_pole")], ["AmiBase::evaluate"], [("TYPE_", "kind of external line", HP + ": ami_parms"), ("bosonic_external", "last sum is bosonic", HP)])
p("C07", "Fermi and Bose functions and all their derivatives are exact and never spill",
  "The statistical function 1/(sigma exp(beta E)+1) and its m-th derivative with respect to E equal the exact values for real and complex E, both signs of sigma, all m in the supported range, and all sizes of beta E; "
  "for large |beta E| they approach their limits (0, 1 and 0 for derivatives) without becoming NaN or infinite, including where exp(beta E) overflows or underflows. A pole is evaluated at the sum of its energies times their coefficients plus, for a spectral pole, the sum of the frequencies times its x_alpha_, with the sign of the statistics given by the number of fermionic frequencies in it.",
  ["inputs"], "all m, both statistics, all temperatures and energies off the poles",
  "The tests compare a few values of m at a single moderate energy.",
  [EV], [("derivative formula", EV + ": fermi_bose, frk, binomialCoeff")], ["AmiBase::fermi_bose", "AmiBase::fermi_pole"])
p("C08", "The result does not depend on the order of elimination or on labelling",
  "Listing the propagators in any order, reversing frequency and energy of a propagator (one factor -1), and permuting the list of energies together with the coefficients leave the value unchanged; and for sums that converge absolutely, so do eliminating the summed frequencies in any order, relabelling them, and reversing the sign of a summed frequency.",
  ["inputs", "schedules", "programs"], "all permutations of elimination order, of lines, of frequencies and energies, all sign choices, for all integrands in the domain",
  "The tests only ever sum in the stored order on fixed labels.",
  [CO, TE], [("elimination of any chosen frequency", CO + ": update_gprod_general(int_index, array_index); " + TE + ": integrate_step")], ["AmiBase::construct", "AmiBase::integrate_step", "AmiBase::update_gprod_general", "AmiBase::evaluate"])
p("C09", "Results depend on the arguments only, not on the history of the object",
  "Every public operation gives the same result on a fresh object with fresh containers as after any sequence of other operations on the same object and with output containers that already hold other results; no operation changes its inputs; repeating an operation repeats its result bit by bit; printing and verbose output change nothing; "
  "and the configuration switches keep the values the user gave them.",
  ["histories"], "all sequences of operations up to the explored depth over a set of interfering integrands, points and options, reusing one object and its containers",
  "Each test makes one object and one call sequence.",
  [CO, EV, OP, TE, TV], [("outputs are cleared on entry", CO + ": construct; " + OP + ": factorize_Rn"), ("no state besides the switches", HP)], ["all public operations"], [("overflow_detected", "only state that operations write", HP)])
p("C10", "Independent evaluators may run concurrently",
  "Two threads, each with an evaluator object of its own, may construct, factorize and evaluate at the same time, also on the same shared (unchanging) solution, parameters and external variables: under every interleaving each thread obtains exactly the values and indicators that it obtains alone.",
  ["schedules"], "all interleavings of the two threads up to the preemption bound, for all pairs of operations",
  "No test starts a thread.",
  [CO, EV, OP, TE, TV], [("no shared mutable state", HP + ": members only, no globals")], ["construct, factorize, evaluate on two objects"])
p("C11", "On-the-fly evaluation is exact for energies that coincide numerically",
  "When numerical energies make poles coincide that are symbolically different (also with opposite signs, in several groups, or only after the first elimination steps), the on-the-fly evaluation returns the finite exact sum, where plain evaluation may divide by zero; "
  "without coincidences it equals plain evaluation; and it leaves the given solution unchanged. Excluded are coincidences that put a pole on a Matsubara frequency of a variable still to be summed (documented approximation: such poles are dropped).",
  ["inputs"], "all assignments of energies from an alphabet with equal, opposite, zero and mutually dependent values to all integrands in the domain",
  "No test calls the on-the-fly evaluation.",
  [EV, CO], [("detection of coincidences", EV + ": get_triggers, find_equal_values"), ("reconstruction from the affected step", EV + ": detect_otf_trigger")], ["AmiBase::evaluate_otf"])
p("C12", "Each option does exactly what it documents",
  "The regulator moves the argument of every statistical function away from zero by its value in the direction of the real part of the energy and changes nothing else; dropping derivatives removes exactly the terms with differentiated statistical functions; dropping bosonic divergences sets exactly those Bose functions to zero whose energy is zero; "
  "and dropping Matsubara poles skips exactly the poles of identically zero energy on an odd number of frequencies. Options at their neutral values change nothing.",
  ["configurations", "inputs"], "all combinations of the options with all integrands and numerical points of the bounded families, in all evaluation forms",
  "No test sets an option.",
  [EV, CO, HP], [("regulator, divergence and derivative switches", EV + ": fermi_pole"), ("Matsubara poles", CO + ": find_poles")], ["AmiBase::construct", "AmiBase::evaluate"])
p("C13", "The overflow indicator never misses a bad result and never sticks",
  "After every evaluation, in each of the evaluation forms, the overflow indicator is set if the returned value is not finite or if one of its contributions (a term, a group of terms of the factorized forms, or a derivative of a statistical function) exceeds the precision cutoff in force; the indicator describes the last evaluation only, whatever happened before on the same object; "
  "and it stays clear for results in general position whose contributions are of ordinary size.",
  ["histories", "inputs"], "all sequences of good and bad evaluations on one object, all forms of evaluation, cutoffs chosen by the user",
  "No test looks at the indicator.",
  [EV, TV, HP], [("reset and comparison with the cutoff", EV + ": evaluate, star, optimized_star; " + TV + ": evaluate, evaluate_term")], ["AmiBase::evaluate*", "AmiBase::overflow_detected"], [("overflow_detected", "indicator", HP), ("precision_cutoff", "cutoff", HP)])
p("C14", "The derivative of a factorized solution is the exact frequency derivative",
  "Applying the derivative operation k times to a factorized solution and evaluating it gives the exact k-th derivative of the (analytically continued) sum with respect to the external frequency (zero where the sum does not depend on it), for S, P, R solutions and lists of terms.",
  ["inputs", "programs"], "all integrands in the domain, k from 0 to the explored bound, all numerical points",
  "No test calls the derivative operation.",
  [OP, EV, TV], [("product rule on the references", OP + ": derivative_opt")], ["AmiBase::derivative_opt", "AmiBase::evaluate with unique_g, Rref, Eval_list"])
p("C15", "The Python module computes exactly what the C++ library computes",
  "Every class, constructor, attribute and operation of the Python module has the meaning of its C++ counterpart: constructor arguments reach the fields of the same name, attributes read back what was written, containers passed for output are filled in place, and all construct, factorize and evaluate operations return bit-identical results.",
  ["inputs", "programs"], "all operation forms of the module on all integrands and points of the bounded family; all attributes and constructors",
  "The test suite never imports the module.",
  [PY, "pyami_src/pyami.cpp", HP], [("bindings", PY + ": init_pyami_wrapper")], ["module pyami"])
p("C16", "The multiprecision build computes the same sums, at least as accurately",
  "Built with the multiprecision option, every construction, factorization and evaluation gives the exact sum as in the standard build, to the accuracy of the double-precision statistical factors, including prefactors, all evaluation forms and the overflow indicator; the term-by-term and factorized forms evaluate, multiply and add up the propagators in quadruple precision, so that cancellation among energies in a denominator, or among contributions with the same statistical factor, does not degrade them.",
  ["configurations", "inputs"], "all integrands, points and evaluation forms of the bounded families",
  "The test programs are only built in the standard configuration.",
  [EV, TV, HP], [("quadruple-precision products", EV + ": eval_gprod_mp, optimized_star; " + TV + ": evaluate_term_mp")], ["AmiBase compiled with BOOST_MP"])
p("C17", "Each elimination step is an exact algebraic identity",
  "One step of elimination, applied to any product of propagators or any list of terms, produces exactly the residue decomposition of it: replacing the statistical function by an arbitrary rational test function, the sum of all produced terms equals the sum of the residues of that product exactly, with no rounding, "
  "and the propagators that do not contain the frequency are carried along unchanged.",
  ["inputs", "programs"], "all products with coefficients in {-1,0,1}, arbitrary integer energies and multiplicities, every choice of the eliminated frequency, checked in exact arithmetic",
  "The tests compare the fields of a few outputs.",
  [CO, TE], [("one step", CO + ": update_gprod_general; " + TE + ": integrate_step")], ["AmiBase::update_gprod_general", "AmiBase::integrate_step"])
p("C18", "No undefined behaviour: memory-safe, deterministic, no dependence on garbage",
  "On all well-formed inputs, including empty products, more sums than lines, unused energies, default-constructed parameter and pole objects, and large solutions, every public operation stays within its containers and defined arithmetic, and its result is the same whatever the memory it is given contained before.",
  ["inputs", "histories"], "all operations on the bounded families and size sweeps, under all explored initial contents of memory",
  "The tests run without instrumentation on a few inputs.",
  [CO, EV, OP, TE, TV, HP], [("bounds and initialisation", HP + ": default member values; " + CO + ": find_poles")], ["all public operations"])
p("C19", "Results scale and transform as the sum does",
  "The overall prefactor multiplies the result exactly once in every evaluation form; conjugating the energies and the external frequencies conjugates the result; multiplying energies and external frequencies by x and dividing beta by x multiplies the result by x to the power of summed frequencies minus lines; "
  "and a propagator without summed frequencies multiplies the result by its own value.",
  ["inputs"], "all integrands in the domain, all prefactors, scale factors and numerical points, all evaluation forms",
  "No test varies a prefactor, a temperature or a frequency.",
  [EV, TV], [("prefactor", EV + ": eval_gprod, optimized_star; " + TV + ": evaluate")], ["AmiBase::evaluate*"])
p("C20", "Species and line data travel with their propagators",
  "Every propagator of a solution carries the species of the line of the integrand it descends from, poles name the frequency they belong to, and propagators of different species are never identified with each other by the factorization, while the value of the result does not depend on species labels.",
  ["inputs", "programs"], "all assignments of species to the lines of all integrands of the bounded families, all steps of elimination",
  "No test sets a species.",
  [CO, TE, OP, HP], [("substitution of a pole", CO + ": update_G_pole"), ("comparison of propagators", OP + ": g_struct_equiv")], ["AmiBase::construct", "AmiBase::factorize_Rn"], [("species_", "label of the line", HP + ": g_struct")])
p("C21", "Solutions are well formed, complete and truthful",
  "The S, P and R arrays fit together (as many lists of signs and poles as products, one product of the next step for every pole, one step per sum, the integrand first, all coefficient lists of unchanged length, no summed frequency left), and every record says what it is: "
  "a pole names its frequency, its order, all the lines it comes from, and a derivative below its order. Each distinct pole of each product is taken, none twice, and the terms of a pole are exactly those of its residue, with exact factors and none of factor zero; "
  "the list of terms holds one pole of every summed frequency per term and is, in some order, term by term the list of paths through the arrays.",
  ["inputs", "programs"], "all integrands with coefficients in {-1,0,1}, every order of elimination, both settings for Matsubara poles",
  "The tests compare a few fields of small outputs.",
  [CO, TE], [("poles and their origin", CO + ": find_poles"), ("one step", CO + ": update_gprod_general, evaluate_general_residue, take_derivative_gprod"), ("terms", TE + ": integrate_step, terms_general_residue, take_term_derivative")],
  ["AmiBase::construct", "AmiBase::update_gprod_general", "AmiBase::integrate_step", "the arrays themselves"],
  [("multiplicity_, which_g_, der_, index_", "record of a pole", HP + ": pole_struct")])
p("C22", "Evaluation means its formula for any arrays, not only constructed ones",
  "For any conformal S, P, R arrays, lists of terms and factorizations, also stored, merged, edited or hand-written ones, evaluation returns what the documented formula says: the sum over all paths of the product of signs and statistical functions times the propagators of the final product times the prefactor, and with a factorization the sum over its groups of (sum of factor times path) times the referenced propagators; "
  "the single operators (fermi, dot, cross, star, products of propagators, single terms) do likewise, and the derivative operation on any factorization gives its exact derivative.",
  ["inputs"], "all shapes of arrays (also with products without poles), all signs, derivative orders, references and factors",
  "The tests evaluate one constructed solution.",
  [EV, TV, OP], [("paths", EV + ": evaluate, fermi, dot, cross, star"), ("groups", EV + ": optimized_star; " + TV + ": evaluate")], ["AmiBase::evaluate*", "AmiBase::fermi", "AmiBase::dot", "AmiBase::cross", "AmiBase::star", "AmiBase::optimized_star", "AmiBase::eval_gprod", "AmiBase::eval_fprod", "AmiBase::derivative_opt"])
p("C23", "What is printed is the solution, and messages change nothing",
  "Every printing function shows all entries of its argument, in order and with their values (coefficients, energies, spectral frequencies, derivative order, species, signs, sizes), leaves its argument and the format of the stream as they were, and evaluation prints nothing unless messages are switched on, "
  "in which case constructions, results and the overflow indicator are the same bit by bit.",
  ["inputs", "configurations"], "all solutions of the bounded families and hand-written arrays of any shape, all printing functions, all evaluation forms",
  "No test calls a printing function or sets verbose.",
  [EV, OP, TE], [("arrays", EV + ": print_final, print_S, print_P, print_R"), ("records", OP + ": print_g_struct_info, print_pole_struct_info"), ("terms", TE + ": print_term, print_terms")], ["AmiBase::print_*"], [("verbose", "messages during evaluation", HP)])
p("C24", "The building blocks do what they are defined to do",
  "The public helper operations mean their definitions for all arguments: factorials, binomial coefficients and derivative coefficients (frk) are the exact integers; poles and propagators compare equal exactly if all their coefficients are (for the factorization: equal or opposite with one common sign, of the same species, and that sign is reported), and lists of references exactly if they hold the same references in any order, with the products of their signs; "
  "the energy of a pole or propagator is the sum of its coefficients times the energies; the signs of a product are the coefficients of the frequency in the lines that hold it; "
  "and the detection of coincidences reports exactly the propagators whose energy vanishes numerically but not symbolically, and exactly the pairs of propagators of one product whose energies are numerically but not symbolically equal or opposite (with that sign), of the first level that has any.",
  ["inputs"], "all argument values of the helper operations in the bounded spaces",
  "The tests call single helpers with one or two arguments.",
  [CO, EV, OP, HP], [("comparisons", CO + ": pole_equiv, g_equiv; " + OP + ": g_struct_equiv, pair_v_equiv; " + HP + ": isEqual, sgn"), ("numbers", CO + ": factorial, find_signs, get_simple_sign; " + EV + ": frk, binomialCoeff, get_energy_from_pole, get_energy_from_g"), ("detection", EV + ": get_triggers, find_equal_values")],
  ["the public helper operations of AmiBase"])
open(__file__.rsplit("/", 2)[0] + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
