"""Writes MANIFEST.json from the units that exist."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from contracts.all import UNITS, units_of   # noqa: E402

NA = {"G01": "the statement is about the example application's Gio event loop: its functions depend on the graphics library (callbacks, goroutines, "
             "channels and layout state of gioui.org), none of which is within reach of the verifier, and no contract over the library packages implies it"}
EVAL = {"K10": "deductive verification of the derivation functions, plus evaluation of the package initialisation on the real code",
        "K11": "lemma over the serialization contract and the evaluated registry: monotonicity of base58 on the 82-byte strings of one version",
        "C01": "evaluation of the package initialisation by the verifier, and a deductively verified contract of Coin.IsValid for all coins",
        "B06": "evaluation of the package initialisation by the verifier against the official lists"}
checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    us = units_of(p) if p not in NA else []
    if not us:
        na.append({"property": p, "reason": NA.get(p, "no check yet")})
        continue
    b = sorted({u.bounded for u in us if u.bounded})
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py " + p,
        "thorough_cmd": "python3-vt check.py %s --thorough" % p,
        "technique": "contract-based deductive verification of the Go source (SSA of the current tree, weakest-precondition style symbolic execution "
                     "with contracts and loop invariants, obligations discharged by z3): " + EVAL.get(p, "contracts of " + ", ".join(sorted({f.replace("github.com/mearaj/bips/", "") for u in us for f in u.funcs}))[:300]),
        "level": "proof",
        "level_note": "All obligations of the units %s hold for every input meeting the stated preconditions, no bound on input size or iterations%s. "
                      "Trusted: the SSA front end, the verification-condition generator in /verif/engine, z3, and the contracts assumed for the standard "
                      "library, math/big, the elliptic curve and the hash functions (listed in the evidence)."
                      % (", ".join(u.id for u in us), "" if not b else " except (bounded): " + "; ".join(b))})
m = {"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and name the functions they specify; the verified text is the SSA of /repo's current sources, dumped on every run."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
