#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
SYM = "symbolic execution of the compiled library through its element type, assertions decided by SMT (z3)"
KANI = " + bounded model checking of the library's MIR over symbolic shapes and indices (Kani/CBMC)"
KP = {"C01", "C02", "C03", "C21", "C22", "C25"}
OPEN = {}
NOTE = ("Every element value is a symbolic real: within the stated shapes, programs and histories the solver decides all values. "
        "Assumes real arithmetic and the tanh axioms; trusts z3, rustc, the symbolic element type and the reference model. "
        "Shapes, windows, programs and histories beyond the bounds in DESIGN.md are outside.")
NOTEK = NOTE + " The Kani harnesses add all machine-word shapes, indices and ranges within their element counts."
SCHED = ("symbolic execution of the compiled library under a scheduler whose choices (who runs next, which task a worker takes) are "
         "symbolic inputs, with symbolic element values; assertions decided by SMT (z3)")
NOTES = ("Threads switch at every operation on the library's locks, threads, channels and pool, which are stand-ins for std, rayon and "
         "crossbeam with their ordering guarantees; larger programs are bounded by the number of departures from the default order. "
         "Trusts the stand-ins, z3, rustc, the symbolic element type and the reference model.")
SPECIAL = {"C14": (SCHED, NOTES), "C26": (SCHED, NOTES), "C27": (SCHED, NOTES), "C15": (SCHED, NOTES + " Real thread pools of several sizes are run as well, with symbolic values.")}
EXT = ("Every element is a symbolic real, infinity or NaN; exp, cosh and sinh overflow and underflow where f64 does. Rounding and other overflow are outside. "
       "Trusts z3, rustc, the symbolic element type and the reference model; every path is also replayed with f64.")
INTS = ("Every element is a symbolic number in the type's range, and element arithmetic leaving it panics. Eight-bit types stand for all widths. "
        "Trusts z3, rustc, the symbolic element type and the reference model; every path is also replayed with checked eight-bit integers.")
RND = ("Every element has a symbolic magnitude and a given sign; each carries a first-order bound of its rounding error, compared with that of the definition "
       "(violated beyond a factor 65536). Overflow and underflow are outside. Trusts z3, rustc, the symbolic element type and the reference model; "
       "a counterexample counts when f64 beside 24-digit arithmetic shows the excess, and every instance is replayed that way.")
SPECIAL.update({"C28": (SYM, EXT), "C29": (SYM, INTS), "C30": (SYM, RND)})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in OPEN:
        na.append({"property": i, "reason": OPEN[i]})
        continue
    tech, note = (SYM + (KANI if i in KP else ""), NOTEK if i in KP else NOTE)
    tech, note = SPECIAL.get(i, (tech, note))
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "model_checking", "level_note": note})
doc = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
       "notes": "run.py PROPERTY quick|thorough decides one property; see DESIGN.md"}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
