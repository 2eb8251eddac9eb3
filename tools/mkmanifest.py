import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
T = {
 "default": "bounded exhaustive enumeration of integrands and numbers on the real code against a reference model",
 "C05": "bounded exhaustive enumeration of lists of products on the real code against a normal form",
 "C09": "exhaustive enumeration of operation sequences on the real object, bit-exact against fresh processes",
 "C10": "stateless exploration of two real threads under a controlled scheduler with a preemption bound, plus ThreadSanitizer",
 "C13": "exhaustive enumeration of evaluation histories and singular inputs against a model of the indicator",
 "C15": "bounded exhaustive enumeration of module operations, bit-exact against the C++ library",
 "C17": "bounded exhaustive enumeration of elimination steps, decided in exact finite-field arithmetic",
 "C21": "bounded exhaustive enumeration of integrands and elimination orders, structures compared with an own symbolic elimination",
 "C22": "bounded exhaustive enumeration of array shapes and contents on the real code against the documented formula",
 "C23": "bounded exhaustive enumeration of printed outputs of the real code, read back and compared with the printed object",
 "C24": "bounded exhaustive enumeration of arguments of the real operations against their definitions",
 "C18": "bounded exhaustive enumeration of operations on instrumented builds (sanitizers, valgrind)",
}
m = {"version": 1, "setup_cmd": "python3 run.py selftest", "checks": [], "not_applicable": []}
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in CHECKS:
        m["not_applicable"].append({"property": p, "reason": "no check yet"})
        continue
    c = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} --tier thorough",
                        "evidence_file": f"evidence/{p}.json", "technique": T.get(p, T["default"]), "level": "model_checking",
                        "level_note": "Holds for every case of the enumerated space (see coverage.space in the evidence), on the real code. Assumes: " + "; ".join(c.get("assumptions", ["nothing further"])) + "."})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
