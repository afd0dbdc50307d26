#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: not decided (build failure, solver gave up, ...)."""
import glob, json, os, sys, time, traceback
from vlib import *
import symxrun, kanirun

BUDGET = {"quick": 780, "thorough": 4 * 3600}
COMMON = [
    "elements are exact real numbers (rounding of floating point is outside)",
    "tanh is an uninterpreted function with range, sign, monotonicity and oddness axioms; abs and relu fork at zero",
    "trusted: z3, rustc, the symbolic element type (symx/src/sym.rs) and the reference model (symx/src/refmodel.rs)",
]
ENCODED = {
    "C01": ["RawTensor::get", "RcTensor::get", "Index", "get_first_elem", "global_index"],
    "C02": ["RawTensor::new", "RcTensor::new", "From<Vec>", "From<[U; N]>", "scalar", "new_with_filler"],
    "C03": ["RcTensor::view", "TensorLike::slice", "TensorView::{new,get,index,sum,to_tensor,count,shape}", "global_index"],
    "C04": ["TensorView::reshape", "TensorView::get", "to_tensor"],
    "C05": ["Add", "Sub", "add_raw", "generic_binop_raw", "max_shape"],
    "C06": ["Mul", "left_scalar_multiplication", "right_scalar_multiplication", "element_wise_multiplication"],
    "C07": ["bmm", "bmm_rc", "bmm_raw"],
    "C08": ["sum", "dot", "dot_raw", "dot_no_derivative"],
    "C09": ["neg", "abs", "relu", "tanh", "generic_unary_op"],
    "C10": ["backward", "compute_jvp", "generic_binop_jvp", "generic_unary_jvp", "jvp_from_diagonal_broadcast"],
    "C11": ["backward", "bmm_jvp", "SplitArrayWriter", "dot_jvp", "sum's jvp", "ones"],
    "C12": ["backward", "compute_jvp and every operation's recorded derivative"],
    "C13": ["update_grad", "zero_grad", "grad", "backward"],
    "C14": ["RawTensor::update_grad", "RawTensor::zero_grad", "RcTensor::grad", "backward"],
    "C15": ["bmm_raw", "bmm_jvp"],
    "C16": ["Linear::forward", "Mlp::forward"],
    "C17": ["params", "update_params"],
    "C18": ["sgd_step"],
    "C19": ["sgd_step", "forward", "backward"],
    "C20": ["all public operations", "deep_clone"],
    "C21": ["PartialEq impls of RawTensor, RcTensor, TensorView"],
    "C22": ["iter_indices", "IndexIterator", "ElementIterator", "increment_index"],
    "C24": ["every operation when it is refused or an element operation in it fails", "update_params", "sgd_step", "update_grad", "backward"],
    "C25": ["shape", "count", "is_scalar", "elem", "get_first_elem", "same_shape", "broadcastable", "tensor", "to_tensor", "SliceRange::new"],
    "C26": ["RawTensor::update_grad", "RawTensor::zero_grad", "RcTensor::grad", "backward"],
    "C27": ["Linear::forward", "Mlp::forward", "backward", "update_grad", "sgd_step", "update_params"],
    "C28": ["every forward operation", "PartialEq", "update_grad", "sgd_step", "Linear::forward", "tanh's jvp"],
    "C29": ["Add", "Sub", "Mul", "bmm", "dot", "sum", "PartialEq", "update_grad"],
    "C30": ["every arithmetic operation", "bmm", "dot", "sum", "backward", "update_grad", "sgd_step", "forward"],
    "C23": ["Add", "Sub", "Mul", "dot", "bmm", "slice", "backward (refusals)"],
}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    deadline = t0 + BUDGET[tier]
    viol, problems, notes = [], [], []
    for f in glob.glob(os.path.join(VERIF, "evidence", f"{prop}.violation*.json")):
        os.remove(f)
    cov = dict(functions_encoded=ENCODED[prop])
    assumptions = list(COMMON)
    states = trans = validated = 0
    samples = []
    if prop not in ("C14", "C15", "C26", "C27"):
        t, v, p = symxrun.run(prop, tier, min(deadline, t0 + (500 if tier == "quick" else 7200)))
        viol += v
        problems += p
        cov["symbolic_execution"] = {k: x for k, x in t.items() if k != "samples"}
        samples += t.get("samples", [])
        states += t.get("paths", 0)
        trans += t.get("assertions", 0) + t.get("forks", 0)
        validated += t.get("validated", 0)
        if not viol and not t.get("complete", False) and not p:
            if tier == "quick":
                problems.append("the exploration ran out of time")
            else:
                notes.append("the exploration stopped at its time limit; counts are of what was explored")
        if not viol and t.get("truncated", 0):
            notes.append(f"{t['truncated']} instances hit the path limit")
        if not viol and not p and (validated == 0 or not t.get("paths")):
            problems.append("nothing was explored (vacuous)")
        if tier == "thorough" and not viol and not p:
            # the same queries once more with another solver, on the quick bounds
            t2, v2, p2 = symxrun.run(prop, "quick", min(deadline, time.time() + 1800), solver="cvc5", tag="-cvc5")
            viol += v2
            cov["second_solver"] = dict(solver="cvc5", paths=t2.get("paths", 0), unsat=t2.get("unsat", 0),
                                        unknown=t2.get("unknown", 0), solver_s=t2.get("solver_s", 0), notes=p2[:5])
    else:
        import conc
        c, v, p, n = conc.run(prop, tier, min(deadline, t0 + (300 if tier == "quick" else 7200)))
        viol += v
        problems += p
        notes += n
        for name, t in c.items():
            states += t.get("paths", 0)
            trans += t.get("assertions", 0) + t.get("forks", 0)
            validated += t.get("validated", 0)
            samples += t.get("samples", [])[:4]
            if not viol and not p and not t.get("complete", False):
                notes.append(f"{name}: the exploration stopped at its time limit; counts are of what was explored")
            if t.get("truncated", 0):
                notes.append(f"{name}: {t['truncated']} instances hit the path limit")
            cov[name] = {k: x for k, x in t.items() if k != "samples"}
        assumptions += [
            "schedules: the library's locks, threads, channels and thread pool are stand-ins that switch threads at every operation "
            "on them, with the ordering guarantees of std, rayon and crossbeam; switches in between are not explored",
            "readers wait behind waiting writers, as std's RwLock does on Linux",
        ]
        if not viol and not p and (validated == 0 or states == 0):
            problems.append("nothing was explored (vacuous)")
    if prop in kanirun.QUICK and not viol:
        k, v, p, gaps = kanirun.run(prop, tier, deadline)
        viol += v
        problems += p
        if k:
            cov["bit_precise"] = k
            states += len(k["verified"])
            trans += k["checks_decided"]
            samples.append(f"kani: {', '.join(k['verified'])}: verified for all shapes, indices and ranges within their bounds")
            assumptions.append("Kani/CBMC harnesses: machine words, u8 elements, element counts as in kani/src/lib.rs")
        for g in gaps:
            notes.append("bit-precise harness not decided: " + g)

    listed = known(prop)
    fresh, old = [], []
    for v in viol:
        key = f"{v.get('scenario')}|{','.join(map(str, v.get('params', [])))}|{v.get('label')}"
        k = next((k for k in listed if k["match"] in key), None)
        (old if k else fresh).append((v, k))
    for what in sorted({k["what"] for _, k in old}):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for n in notes:
        print("NOTE:", n)
    cov.update(states=states, transitions=trans, traces_validated_against_impl=validated, samples=samples[:12] or ["none"],
               notes=notes)
    if fresh:
        cov["violating"] = [f"{v.get('scenario')} {v.get('params')} {v.get('label')}" for v, _ in fresh[:10]]
    write_evidence(prop, tier, cov, assumptions, time.time() - t0, len(fresh))
    if fresh:
        path = None
        for n, (v, _) in enumerate(fresh[:5]):
            v = dict(v)
            v["replay"] = replay_command(prop, tier, v)
            q = write_replay(prop, n, v)
            path = path or q
        v = fresh[0][0]
        print(f"{v.get('scenario')} {v.get('params')}: {v.get('label')}: observed {v.get('observed')}, expected {v.get('expected')}; "
              f"inputs {v.get('inputs') or v.get('values')}")
        print(f"{len(fresh)} violating instance(s) in total")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problems:
        print(f"{prop}: not decided")
        for p in problems[:10]:
            print("  ", p)
        return 2
    print(f"{prop}: held on {states} paths/harnesses, {trans} assertions and decisions, {validated} paths replayed natively, "
          f"{time.time() - t0:.1f} s")
    return 0


def replay_command(prop, tier, v):
    if v.get("harness"):
        return f"/verif/.build/kani/release/kanih {v['harness']} {' '.join(map(str, v['values']))}"
    ins = ",".join(f"{k}={x}" for k, x in (v.get("inputs") or {}).items())
    ps = ",".join(map(str, v.get("params", [])))
    return (f"{v.get('binary', '/verif/.build/symx/release/symx')} one --prop {prop} --tier {tier} --scenario {v.get('scenario')} "
            f"--params '{ps}' --inputs '{ins}'")


if __name__ == "__main__":
    try:
        code = main()
    except Inconclusive as e:
        print("not decided:", e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
