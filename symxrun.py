"""Runs the symbolic execution engine (symx) for one property over several processes."""
import json, os, shutil, time
from vlib import *


def run(prop, tier, deadline, solver="z3-new", threads=2, tag="", validate=None, binary=None, pin=False):
    """Returns (report, violations, problems)."""
    build_s = 0
    if binary is None:
        binary, build_s = cargo_build("symx", "symx")
    work = os.path.join(BUILD, f"run-{prop}{tag}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "claims"))
    n = max(2, CORES)
    secs = max(30, int(deadline - time.time()))
    stuck = 60 if tier == "quick" else 200
    tmo = 30_000 if tier == "quick" else 120_000
    # schedule exploration has long instances; elsewhere a long instance is put off until the others are done
    share = None if pin else (20 if tier == "quick" else 240)
    val = validate if validate is not None else (1 if tier == "quick" else 3)
    cmds = [[binary, "run", "--prop", prop, "--tier", tier, "--claims", f"{work}/claims", "--out", f"{work}/{k}.json",
             "--secs", str(secs), "--solver", solver, "--timeout-ms", str(tmo), "--threads", str(threads),
             "--validate", str(val), "--stuck", str(stuck), *(["--share", str(share)] if share else [])] for k in range(n)]
    res = run_group(cmds, secs + stuck + 60, pin=pin)
    tot = {}
    viol, problems = [], []
    for k, (rc, out) in enumerate(res):
        path = f"{work}/{k}.json"
        if rc == 0 and os.path.exists(path):
            doc = json.load(open(path))
            merge(tot, doc)
            viol += doc["violations"]
            problems += ["undecided: " + u for u in doc["undecided"]]
            continue
        if rc == 2 or (out or "").startswith("ENGINE-ERROR"):
            problems.append((out or "engine error").strip()[:600])
            continue
        # killed by a signal, hung, or ended from inside: the instance it was working on is on disk
        inst = None
        try:
            l = open(path + ".now").read().splitlines()
            inst = (l[0], l[1] if len(l) > 1 else "")
        except (OSError, IndexError):
            pass
        how = "hung" if rc in (3, None) else f"ended the process (status {rc})"
        if inst is None:
            problems.append(f"shard {k} {how} before its first instance: {out[:300]}")
            continue
        if any(x.get("inputs") == {} for x in viol):
            continue  # one of them has been confirmed already
        v = native(binary, prop, tier, inst[0], inst[1], {}, timeout=60, only=True)
        if v in ("hung", "crashed"):
            viol.append(dict(property=prop, scenario=inst[0], params=[int(x) for x in inst[1].split(",") if x],
                             label="the operation finishes", observed=how, expected="a result", inputs={}))
        else:
            problems.append(f"shard {k} {how} in {inst[0]} {inst[1]}, not reproduced on its own ({v})")
    shutil.rmtree(work, ignore_errors=True)
    tot["build_s"] = round(build_s, 2)
    tot["shards"] = n
    return tot, viol, problems


def native(binary, prop, tier, scenario, params, inputs, timeout=120, only=False):
    """Replays one instance against the real code: 'reproduced', 'no', 'hung' or 'crashed'. only: just whether the
    native run ends."""
    ins = ",".join(f"{k}={v}" for k, v in inputs.items())
    (rc, out), = run_group([[binary, "one", "--prop", prop, "--tier", tier, "--scenario", scenario,
                             "--params", params, "--inputs", ins] + (["--native", "1"] if only else [])], timeout)
    if rc is None:
        return "hung"
    if rc == 1 and "REPRODUCED" in out:
        return "reproduced"
    if rc == 0:
        return "no"
    if rc == 2:
        return "engine: " + out.strip()[:300]
    return "crashed"


def merge(t, d):
    for k, v in d.items():
        if k == "scenarios":
            s = t.setdefault("scenarios", {})
            for x in v:
                y = s.setdefault(x["name"], dict(about=x["about"], instances=0, paths=0))
                y["instances"] += x["instances"]
                y["paths"] += x["paths"]
        elif k == "max_query_s":
            t[k] = max(t.get(k, 0), v)
        elif k == "complete":
            t[k] = t.get(k, True) and v
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            t[k] = round(t.get(k, 0) + v, 3)
        elif isinstance(v, list) and k == "samples":
            t.setdefault(k, [])
            t[k] = (t[k] + v)[:12]
