"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("For each program of the corpus the solver decides over all messages (and, for soundness, all prover hints) of the stated lengths; "
        "regexes outside the corpus and longer messages are not covered. Trusted: lib/circom.py's reading of circom and circomlib, lib/rref.py's reading of regexes, z3. "
        "Every counterexample is re-run over the BN254 field before it is reported.")
CIRC = "symbolic execution of the emitted circom + SAT (z3), translation validation per program"
TECH = {
    "C01": CIRC, "C02": CIRC, "C03": CIRC, "C04": CIRC, "C05": CIRC, "C06": CIRC, "C08": CIRC, "C09": CIRC, "C18": CIRC,
    "C07": "symbolic execution of the shipped circom + SAT (z3), composites through proved summaries of their parts",
    "C10": "SAT over a lockstep run of the emitted table and the reference automaton",
    "C16": "symbolic execution of the helper templates + SAT (z3), per arity",
}
LEVELS = {}
NOTES = {
    "C07": NOTE.replace("For each program of the corpus", "For each shipped circuit"),
    "C10": "For each program of the corpus the solver decides over all byte strings up to the stated length (at least the number of reference states). Trusted: lib/rref.py, z3.",
    "C16": "The solver decides over all inputs, and all prover hints, for each arity listed in the evidence; larger arities are not covered. Trusted: lib/circom.py, z3.",
}
NA = {}
if os.path.exists(os.path.join(V, "tools", "more.py")):
    exec(open(os.path.join(V, "tools", "more.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
man = {
    "version": 1,
    "setup_cmd": "python3-vt check.py setup",
    "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick python3-vt check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}",
                "technique": TECH[i], "level": LEVELS.get(i, "translation_validation"), "level_note": NOTES.get(i, NOTE)} for i in ids if i in TECH],
    "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in TECH],
    "notes": "python3-vt is the tooling venv's interpreter (z3-solver). check.py <id> rebuilds the driver from /repo's working tree into /verif/build (ignored by git).",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
