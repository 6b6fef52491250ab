"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "contract-based deductive verification: obligations generated from the current source (engine/), discharged by normal form, z3 and cvc5; bounded run-time contracts replay and stand in where the verifier does not reach"
PROOF = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"}
NOTE = {}
NA = {"C23": "force evaluation is not implemented in the repository (translation.get_vl1l2_force is missing, finiteT.force() raises); there is no code a contract could be attached to",
      "C24": "accuracy of adaptive quadrature, truncated multipole sums and truncated continued fractions is a quantitative convergence statement about scipy.integrate.quad and analytic tails; no contract on this code within reach of SMT expresses the remainders"}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
for i in ids:
    if i in NA:
        continue
    lv = "proof" if i in PROOF else "other"
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=TECH, level=lv, level_note=NOTE.get(i, "Contracts on the functions listed in the evidence file, for all inputs, with real arithmetic in place of floating point; functions marked bounded there are only exercised.")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, mpmath' && /opt/venv/bin/python -c 'import numpy, Cython, mpmath'", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
