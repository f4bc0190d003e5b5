#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "N01": "convergence of Newton's method from every starting point is a statement about an unbounded iteration of a transcendental map; a solver can decide single steps and exits "
           "(C05) but not convergence within 20/50 steps over all reals, and it is false for long hyperbolic arcs (alpha=-1, r0=1, dt=80)",
    "N02": "the integrator is third-party adaptive code (diffrax) whose step count grows with the input; its global error bound is not encodable within reach. C17 decides that the problem handed to it is the stated one",
}
TECH = {"C22": "bit-exact SMT (z3 floating-point theory) over the symbolically executed loop start of the real solver",
        "C17": "symbolic execution of the real propagators with the integrator replaced by a recording stub, SMT equality of the recorded problem"}
DEF = "symbolic execution of the real code (jaxpr interpreter) with SMT (z3) deciding every obligation, counterexamples replayed on the real code"
NOTE = ("Holds for every real input within the stated bounds (real arithmetic, not floating point); trusts JAX tracing, the jaxpr interpreter (validated per path against the real code), "
        "polynomial normalisation and z3. Obligations the solver cannot decide are printed as UNDECIDED and never counted as discharged.")
NOTES = {"C22": "Bit-exact for the float32 operations of the loop start; library functions (sin, log, asinh, sinh, cosh) are replaced by any value allowed by their range and an error margin, so the verdict does not depend on the math library."}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason="check not built yet"))
    else:
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % i, thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % i,
                           technique=TECH.get(i, DEF), level="other", level_note=NOTES.get(i, NOTE)))
m = dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Engine in vlib/, one harness module per property in checks/. Replay a violation with: /opt/venv/bin/python run.py --replay FILE")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
