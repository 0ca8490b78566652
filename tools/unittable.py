#!/usr/bin/env python3
"""Writes UNITS.md: every unit under contract with its pre- and postcondition."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import contracts.all                      # noqa: E402,F401
from contracts.lib import UNITS           # noqa: E402

out = ["# Units under contract", "",
       "Generated by `python3-vt tools/unittable.py` from `contracts/*.py`.", "",
       "kind: *contract* = pre/postcondition of functions of the code; *lemma* = a statement over such functions (or their contracts);",
       "*evaluation* = the package initialisation of the current source executed by the verifier, its final state compared with the reference.", "",
       "| unit | kind | properties | functions | precondition | postcondition | callee contracts used |", "|---|---|---|---|---|---|---|"]
for u in UNITS.values():
    fs = u.funcs if isinstance(u.funcs, (list, tuple)) else str(u.funcs).split(",")
    fs = [f.split("/")[-1].replace("Key)", "(Key)").replace("Path)", "(Path)") for f in fs]
    c = lambda s: str(s).replace("|", "\\|")
    out.append("| %s | %s | %s | %s | %s | %s | %s |" % (u.id, u.kind, " ".join(u.props), c(", ".join(fs)), c(u.pre), c(u.post), " ".join(u.uses)))
open(os.path.join(HERE, "UNITS.md"), "w").write("\n".join(out) + "\n")
