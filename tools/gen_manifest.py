#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl, vdv/props.py (what is claimed) and the reasons below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "vdv"))
import props
NA = {
    "C26": "the property is a numerical error bound on compositions of Fourier transforms; no contract over real arithmetic "
           "with uninterpreted transforms can state the accuracy of the approximation (the parts that are exact are C08-C12)",
}
NOTE = ("All obligations generated from the current source are discharged for all inputs and all iterations (no bound). "
        "Assumes real arithmetic for floating point, mathematical integers, sequential loop order, valid non-overlapping "
        "arrays; trusts the clang front end, the verification-condition generator in vdv/ and Z3.")
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i,
                       "thorough_cmd": "python3-vt check.py %s --thorough" % i,
                       "technique": P.get("technique", "deductive verification of function contracts over the code's LLVM IR "
                                          "(custom VC generator, Z3)"),
                       "level": "proof", "level_note": P.get("note", "") + NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract for these functions is discharged yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
