#!/usr/bin/env python3
"""writes MANIFEST.json (run by hand, after editing)"""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "symbolic execution of the package's code with Z3 deciding every path's assertions, counterexamples replayed on the real code"
NOTE = ("bounded: decided by Z3 for all inputs within the bounds of the jobs (see DESIGN.md and the evidence), held to the real code by "
        "running a model of every path on the uninstrumented package; trusts the symbolic engine in symx/, Z3, CPython, and the stubs "
        "listed in the evidence's assumptions; says nothing outside the bounds")
EXTRA = {
    **{k: "solve() of one sequence is replaced by an arbitrary function (C01-C06 decide it); time by a symbolic clock" for k in
       ("C07", "C08", "C09", "C10", "C25", "C26", "C28")},
    **{k: "processes are coroutines under a symbolic scheduler; array accesses are atomic; operating system and pickling are not modelled" for k in
       ("C11", "C12")},
    "C03": "floats are exact rationals in the symbolic run, compared with a tolerance of 1e-6",
    "C06": "floats are exact rationals in the symbolic run, compared with a tolerance of 1e-6",
    "C18": "plotly, kaleido and the file system are stand-ins with symbolic versions and facts; code points 0..255",
    "C23": "plotly is a recording stand-in",
    "C24": "random.randint returns any number of its range",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": T,
        "level": "model_checking",
        "level_note": NOTE + (("; " + EXTRA[p["id"]]) if p["id"] in EXTRA else ""),
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks in /repo. known_findings.json lists the repaired defects. Deciding method, bounds and limits: DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
