import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
def h(start):
    r = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + start)]
    assert len(r) == 1, (start, r)
    return r[0]
F = [
 (["C04", "C19"], "apply the overall prefactor once", "the prefactor was applied twice in the factorized S,P,R and term evaluations (any prefactor other than 1 or 0)"),
 (["C04", "C05"], "keep empty products", "factorize_Rn skipped products without propagators, so that the evaluation list referred to the wrong terms (e.g. terms of N_INT=1 with the single line (1,0))"),
 (["C05"], "merge factorized products", "products with a repeated propagator were never recognised as equal ({G,G} and {G,G} stayed two groups)"),
 (["C14"], "evaluate the factorized form that is given", "factorized evaluation silently fell back to the unfactorized one when derivative_opt left no products or as many as terms (derivative of one term evaluated to the undifferentiated value)"),
 (["C20"], "propagate the species", "update_G_pole dropped species_: every propagator after one elimination had species 0"),
 (["C02"], "factorial overflowed", "factorial(13) and higher overflowed int for poles of order 14"),
 (["C18"], "initialise the members", "ami_parms() and pole_struct() left members undefined"),
 (["C13"], "raise overflow_detected", "NaN and infinite results left overflow_detected clear, and the on-the-fly and several plain forms never set it (e.g. one line with energy 0 and frequency 0)"),
 (["C11"], "evaluate_otf did not notice", "evaluate_otf divided by zero when two propagators of opposite frequency had opposite numerical energies (N_INT=1 lines (1,0) E and (-1,0) -E)"),
 (["C18", "C05"], "find_poles read beyond", "find_poles on an empty product read g_prod[0]"),
 (["C18", "C05"], "g_struct_equiv read", "g_struct_equiv read the first sign of an empty list for propagators without coefficients"),
 (["C14"], "derivative_opt of a constant", "derivative_opt of a solution that does not depend on the frequency left an empty factorization, which is evaluated as undifferentiated"),
 (["C15"], "register the enumerations", "the Python module did not register graph_type, int_type, disp_type, stat_type: reading TYPE_ or using the constructor with a graph type raised TypeError"),
 (["C07"], "fermi_pole used only", "a spectral pole (x_alpha_ with several entries) was shifted by the last frequency only instead of the sum of all"),
 (["C18"], "detect_otf_trigger compared", "detect_otf_trigger branched on levels that were never assigned when only one kind of coincidence occurs"),
]
o = []
for props, start, what in F:
    c = h(start)
    for p in props:
        o.append({"property": p, "status": "fixed", "commit": c, "match": "", "what": f"fixed: property={p} {c} {what}"})
json.dump({"findings": o}, open(H + "/known_findings.json", "w"), indent=1)
