"""The checks: which explorer decides which property, how it is built, and what space it enumerates."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc"))
import c10_build
import c15_build
import c18_build

CHECKS = {}
REFERENCE = ("the reference is an own recursion over numeric lines in 33- and 110-digit arithmetic (mc/ref.hpp), itself checked against the "
             "truncated-sum definition by the setup command")
DOMAIN = ("integrands are explored inside the documented domain (mc/diag.hpp: coefficients of summed frequencies and of poles in {-1,0,1} in every branch, the summed frequency occurs, "
          "no line vanishes identically, no pole on a Matsubara frequency of a remaining sum); the others are skipped and counted")
ROUND = "values are compared relative to the size of the terms (1e-9; known ill-conditioned points excluded by the reference's own error estimate)"
MIX = ("the mixed family (mc/fams.hpp): all products of 0-3 lines with one sum and all set partitions of their energies, 2-4 lines with two sums, "
       "4-5 lines with three, 5 with four, repeated lines with all sign alternations, the published integrands of orders 2-5")


def check(pid, **kw):
    CHECKS[pid] = kw


check("C01", src=["c01.cpp"], min_comparisons=1000, assumptions=[REFERENCE, DOMAIN, ROUND],
      space={"quick": "every product over {-1,0,1} of 1-4 (ordered) and 5 lines with one sum, 2-3 (ordered) and 4 lines with two, standard base plus 1-2 arbitrary lines with three and four sums, plus 1 with five, the standard base with six; no external / three external frequencies; energies as combinations and unused energies; long products (40 lines), long frequency and energy lists; published orders 2,3,5,6; each at 2-9 points (beta 0.05..1000, real and complex energies and frequencies)",
             "thorough": "as quick, with 6 lines/one sum, 4 ordered and 5 lines/two sums, 3 extra lines/three sums, 2 extra/four, six sums, published order 9"})
check("C02", src=["c02.cpp"], min_comparisons=1000, assumptions=[REFERENCE, DOMAIN, ROUND, "values at multiple poles come from splitting the energies in 110 digits; multiplicities 11 and more are outside the accuracy of double-precision evaluation and are not enumerated"],
      space={"quick": "all set partitions of the energies over all products of 2-3 (ordered) and 4 lines with one sum, over base + 1 and base + 2 lines with two sums, six partition types with three; explicit multiplicities up to 7 (10 alone) times up to 4, with and without alternating signs; all 2^m sign patterns of up to 4 repeated lines; S,P,R and term form",
             "thorough": "as quick, with 5 lines, base + 3 lines with two sums, multiplicities up to 9 x 5"})
check("C03", src=["c03.cpp"], min_comparisons=1000, assumptions=[REFERENCE, DOMAIN, ROUND],
      space=MIX + "; per integrand: both ways to build the terms, every single term against its own product, all cuts of the list into two, all rotations, reversal, duplication")
check("C04", src=["c04.cpp"], min_comparisons=1000, assumptions=[DOMAIN, "the unfactorized evaluation is the oracle (its exactness is C01-C03)"],
      space=MIX + "; every list of 1-3 merged solutions from a pool of nine (with empty products) in three orders; prefactors +-, empty factorization; published order 6")
check("C05", src=["c05.cpp"], min_comparisons=1000, assumptions=["the oracle is an own normal form of products up to sign (multisets), no library code"],
      space={"quick": "every list of up to 3 products (5 over two propagators) of up to 4 propagators from alphabets of 5-13 propagators with equal, opposite, almost opposite and differently labelled members, outputs fresh and pre-filled; pairs of long products (5 to 300 factors: permuted, reversed, one factor different, one dropped); all final products of " + MIX,
             "thorough": "as quick with lists of 4, products of 4 in pairs, five products over three propagators"})
check("C06", src=["c06.cpp"], min_comparisons=1000, assumptions=[REFERENCE, DOMAIN, ROUND],
      space=MIX + " with every graph type and the bosonic_external switch; closed bosonic lines: all products of 3-5 lines with 1-4 sums whose last frequency is summed; five evaluation forms, the on-the-fly form also at energies that coincide")
check("C07", src=["c07.cpp"], min_comparisons=1000, assumptions=["110-digit evaluation of the exact derivative polynomials is the oracle", "orders up to 11; Bose derivatives of order > 4 within |beta E| < 0.04 of their pole are ill-conditioned and excluded"],
      space={"quick": "orders 0-11, both statistics, 7 temperatures, 53 sizes of beta E from -1e5 to 1e5 around all overflow thresholds and down to 1e-12 next to the pole, 5 imaginary parts; the same through fermi_pole with energy combinations, spectral poles (nine patterns of x_alpha_) and all patterns of frequencies",
             "thorough": "as quick on a grid of about 200 sizes and 10 temperatures"})
check("C08", src=["c08.cpp"], min_comparisons=1000, assumptions=[DOMAIN, "order of elimination, relabelling and sign reversal of a sum are required only of absolutely convergent sums (power counting over all subspaces); elsewhere the contour convention depends on them", ROUND],
      space=MIX + " and a dense set of convergent 5-6 line integrands: all permutations of elimination, of lines, of energies, of labels, all sign reversals of sums and lines")
check("C09", src=["c09.cpp"], min_comparisons=1000, assumptions=["a fresh process executing the same operation on the same contents is the oracle (bit by bit)"],
      space={"quick": "all sequences of 4 operations from an alphabet of 40 (constructions of five integrands, factorizations, derivative, 15 evaluations, single steps, configurations, printing, verbose) on one object and one set of containers, from 2 start states; the answers of a fresh process are taken from one that never called the library before; all pairs of calls of the number functions (fermi_bose, factorial, frk, binomialCoeff, orders 0-12) and their exact values",
             "thorough": "all sequences of 5 operations"})
check("C10", build=c10_build.build, mem=0, min_comparisons=1000,
      assumptions=["sequentially consistent interleavings at the granularity of control-flow edges and conflicting loads and stores; weaker memory orders are left to the ThreadSanitizer pass over the same pairs",
                   "code inside libc and libstdc++.so is not interleaved"],
      space={"quick": "30 pairs of operations of two threads (own objects; own or identical parameters; shared solution); every schedule with one preemption at every edge of the library's control flow and before every access to memory that both touch and one writes, for both orders; every schedule with two preemptions at such accesses; every pair free-running under ThreadSanitizer; every schedule in a pristine process",
             "thorough": "all 196 pairs of operations, four shared solutions"})
check("C11", src=["c11.cpp"], min_comparisons=1000, assumptions=[REFERENCE, DOMAIN, ROUND, "assignments that put a pole on a Matsubara frequency of a remaining sum are excluded (documented approximation)"],
      space={"quick": "all assignments of energies from alphabets of 3-7 values (equal, opposite, zero, sums) to all products of 2-3 lines with one sum (4-6 in groups), 3-4 with two, 4-5 with three, published orders 3-5; energies that are close but not equal",
             "thorough": "larger alphabets throughout"})
check("C12", src=["c12.cpp"], min_comparisons=1000, assumptions=[REFERENCE, DOMAIN, ROUND],
      space={"quick": "all combinations of regulator (3 values), drop_der, drop_bosonic_diverge, drop_matsubara_poles on products of 1-5 lines with 0-3 sums, with all set partitions of energies and lines of zero energy, two graph types, multiplicities to 5, in all forms; energies that are small but not zero (2^-12 to 2^-38)",
             "thorough": "as quick with all energy patterns of four lines and two sums"})
check("C13", src=["c13.cpp"], min_comparisons=1000, assumptions=["contributions are computed by own code in double precision; values within a factor 1.5 of the cutoff, and products close to integers (the library's heuristic), are left unspecified and counted"],
      space={"quick": "all histories of three evaluations (five forms, good/singular/large/tiny points, four cutoffs) on one object; single evaluations with every pair of energies made equal, opposite or nearly so on the mixed family; contributions that are large in their real or imaginary part only, in every power of i",
             "thorough": "as quick on the whole family"})
check("C14", src=["c14.cpp"], min_comparisons=1000, assumptions=[REFERENCE, DOMAIN, ROUND, "derivatives of the reference by 110-digit difference formulas of the analytically continued sum"],
      space={"quick": "derivatives 1-3 (4 for selected) of " + MIX + ", integrands without external frequency, empty products; S,P,R and term form",
             "thorough": "derivatives 1-4 on the full family"})
check("C15", build=c15_build.build, min_comparisons=1000, assumptions=["the C++ side is read by a probe module compiled against the same headers; Python 3.12 and the pybind11 shipped with the repository"],
      space={"quick": "every attribute of every class with several values, every constructor, enumeration and container method; all products over {-1,0,1} of 1-3 lines with 0-2 sums and selected larger ones through all operations of the module, with fresh and reused containers, at several points, types and prefactors; bit-identical comparison",
             "thorough": "as quick with larger products"})
check("C16", src=["c16.cpp"], libflags=["-std=c++11", "-O2", "-DBOOST_MP"], hflags=["-std=gnu++17", "-O2", "-DBOOST_MP"], min_comparisons=1000,
      assumptions=[REFERENCE, DOMAIN, "the plain S,P,R form multiplies in double precision also in this build (checked to double accuracy only)"],
      space=MIX + ", all five forms, several prefactors (also without a short binary expansion); products with energies that cancel to 1e-6..1e-11 relative, exact to quadruple precision in the term-by-term and factorized forms; histories of the indicator and its value at singular and nearly singular points")
check("C17", src=["c17.cpp"], min_comparisons=1000, assumptions=["exactness is decided in the field of integers modulo 2^61-1 at fixed pseudo-random points (an identity of rational functions that fails there is wrong; one that holds there is wrong with probability below 1e-15)"],
      space={"quick": "all products of 2-4 lines with two frequencies and set partitions of energies, 3-5 with three, 5 with four, multiplicities to 7 with all sign patterns, every choice and order of eliminated frequencies, published orders 2-6; S,P,R and term steps; the building blocks (derivative of a product, of a term, statistics coefficients) on their own",
             "thorough": "as quick with all partitions and all orders of four frequencies, published order 9"})
check("C18", build=c18_build.build, mem=0, passes=2, workers=11, min_comparisons=1000,
      assumptions=["address, undefined-behaviour and container checks by clang's sanitizers and libstdc++ assertions, uninitialised memory by valgrind; each enumerated case runs under both"],
      space={"quick": "all public operations on: no lines with 0-4 sums, one to three identical or repeated lines whose frequencies may not occur, a quarter of the mixed family also outside the domain, all products of 2-3 lines over {-1,0,1}^2, long products (24; 9-257 lines without sanitizer-heavy evaluation), more sums than frequencies, long frequency lists (20), energy lists up to 200, 1-5 sums, published orders 2-5, default-constructed and empty objects, statistics of order 0-12 at extreme arguments",
             "thorough": "as quick with the whole family, products of 48, six sums, order 6"})
check("C19", src=["c19.cpp"], min_comparisons=1000, assumptions=[DOMAIN, ROUND, "the library's own value at the untransformed point is the oracle (its exactness is C01-C06)"],
      space=MIX + "; prefactors (0, +-, large, small), conjugation, five scale factors (2^-56 to 2^40), spectator propagators, in five evaluation forms")
check("C20", src=["c20.cpp"], min_comparisons=1000, assumptions=["descent of every propagator and all residues of a product are recomputed by an own elimination on labelled lines; residues that occur several times are added up before they are compared"],
      space={"quick": "all assignments of 2-3 species to the lines of products of 2-5 lines with 0-3 sums, repeated and opposite lines, published orders 2-5 (16 assignments); every elimination step, both constructions, factorization, all evaluation forms",
             "thorough": "all assignments, order 5 with 128"})
check("C21", src=["c21.cpp"], min_comparisons=1000, assumptions=["the oracle is an own symbolic elimination (Leibniz rule by multi-indices); terms that occur several times are added up before they are compared, so the check does not prescribe how derivative terms are listed"],
      space={"quick": MIX + ", in every order of elimination (up to three sums), keeping and dropping Matsubara poles; all products of 4 lines with two sums, 3 lines with three, lines with combined, opposite and absent energies (also in lists of up to nine), multiplicities to 6 x 4 with bystanders, published order 6",
             "thorough": "as quick with all set partitions and all orders, published order 9"})
check("C22", src=["c22.cpp"], min_comparisons=1000, assumptions=["statistical functions of the oracle in 110 digits, everything else in double precision along every path; compared relative to the sum of the absolute values of the paths (1e-11)"],
      space={"quick": "hand-written conformal arrays, lists of terms and factorizations that no construction produces: one sum with 1-5 poles (8 poles of order 0-3 x 6 signs x product lengths x 12 rotations of the other contents), all shapes of two sums with up to 3 and of three sums with up to 2 poles per product (also none), references with repeated and unused propagators and integer factors, derivatives 1-3 of them; every evaluation form and every operator (fermi, dot, cross, star, optimized_star, eval_gprod, eval_fprod, evaluate_term); three points",
             "thorough": "as quick with 5-8 times the rotations of contents"})
check("C23", src=["c23.cpp"], min_comparisons=1000, assumptions=["the output is read by an own parser for the marked items (Eps, Alpha, X_Alpha, Der, Species, Sign, SIZE, Term, array names, brackets); words between them are free; numbers are compared to the six digits that are printed"],
      space={"quick": MIX + ", with species labels: all fourteen printing functions on every array, product, propagator, pole and term of both forms of the solution; five evaluation forms and both constructions with messages on and off; hand-written arrays with 0-4 sums, 0-6 rows, coefficient lists of 0-5 entries with extreme values, spectral poles, empty rows",
             "thorough": "as quick with five times the contents and the larger mixed family"})
check("C24", src=["c24.cpp"], min_comparisons=1000, assumptions=["the definitions are restated by own code in integers; energies are binary fractions, so that sums have no rounding"],
      space={"quick": "factorial to 20, binomial coefficients to 29, derivative coefficients to order 12; all pairs of 761 propagators and poles (coefficients in -2..2, two species, different lengths, long lists and coefficients to 65537); all pairs of 571 lists of references with 0-8 entries; energies and signs of all small coefficient lists; detection of coincidences in 553 arrays of 1-3 levels at 9 sets of energies",
             "thorough": "as quick with 729 further propagators, more lists, all pairs of levels"})
check("selftest", src=["selftest.cpp"], space="reference model against the truncated-sum definition", min_comparisons=400)
