"""Runs the Kani (bounded model checking) harnesses of one property and replays counterexamples natively."""
import os, re, subprocess, time
from vlib import *

QUICK = {
    "C01": ["c01_get_rank1", "c01_get_rank2", "c01_get_rank3", "c01_length_rank1", "c01_length_rank2"],
    "C02": ["c02_accepted_rank1", "c02_accepted_rank2", "c02_accepted_rank3",
            "c02_refused_rank1", "c02_refused_rank2", "c02_refused_rank3"],
    "C03": ["c03_slice_rank1", "c03_slice_rank2", "c03_slice_rank3", "c03_slice_of_slice",
            "c03_refused_rank1", "c03_refused_rank2"],
    "C21": ["c21_equal_1_1", "c21_equal_2_1", "c21_equal_2_2"],
    "C22": ["c22_iterate_rank1", "c22_iterate_rank2", "c22_iterate_rank3"],
    "C25": ["c25_broadcasts_1_1", "c25_broadcasts_2_1", "c25_broadcasts_2_2", "c25_broadcasts_1_3", "c25_broadcasts_4_4",
            "c25_shapes_1_1", "c25_shapes_2_2", "c25_shapes_2_1", "c25_shapes_0_1", "c25_range", "c25_refused_range"],
}
DEEP = {
    "C01": ["c01_get_rank4", "c01_length_rank3", "c01_get_rank2_deep", "c01_get_rank3_deep", "c01_get_rank5_deep"],
    "C03": ["c03_slice_rank2_deep", "c03_slice_rank3_deep", "c03_slice_rank4_deep", "c03_slice_of_slice_deep"],
    "C21": ["c21_equal_3_3", "c21_equal_3_2"],
    "C25": ["c25_broadcasts_3_2", "c25_broadcasts_3_3", "c25_broadcasts_4_5", "c25_shapes_3_3"],
    "C22": ["c22_iterate_rank2_deep", "c22_iterate_rank3_deep", "c22_iterate_rank4_deep"],
}
REFUSE = re.compile(r"_refused_")
DIR = os.path.join(VERIF, "kani")


def kani(args, timeout):
    target = os.path.join(BUILD, "kani")
    os.makedirs(target, exist_ok=True)
    e = env(CARGO_TARGET_DIR=target)
    e.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "unstable-options", *args]
    (rc, out), = run_group([cmd], timeout, cwd=DIR, environ=e)
    return rc, out


def parse(out):
    """harness -> dict(ok, failed=[descriptions], covers=(k, n), s)"""
    on, res, cur = {}, {}, None
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): ?)?Checking harness (\S+?)\.\.\.", line)
        if m:
            on[m.group(1)] = m.group(2)
            cur = m.group(2)
            continue
        m = re.match(r"Thread (\d+): *$", line)
        if m:
            cur = on.get(m.group(1))
            continue
        if cur is None:
            continue
        r = res.setdefault(cur, dict(ok=None, failed=[], covers=None, checks=0, s=None, why=""))
        m = re.match(r"Failed Checks: (.*)", line)
        if m:
            r["failed"].append(m.group(1))
        m = re.match(r" \*\* (\d+) of (\d+) failed", line)
        if m:
            r["checks"] = int(m.group(2))
        m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["covers"] = (int(m.group(1)), int(m.group(2)))
        if line.startswith("VERIFICATION:-"):
            r["ok"] = "SUCCESSFUL" in line
        if "timed out" in line or "CBMC failed" in line:
            r["why"] = "timed out"
        m = re.match(r"Verification Time: ([\d.]+)s", line)
        if m:
            r["s"] = float(m.group(1))
    return {k: v for k, v in res.items() if v["ok"] is not None}


def replay_binary():
    b, _ = cargo_build("kani", "kanih")
    return b


def native(binary, harness, values):
    (rc, out), = run_group([[binary, harness, *map(str, values)]], 60)
    return rc == 1 and "VIOLATED" in out, (out or "").strip()[:300]


def counterexamples(harness, timeout):
    rc, out = kani(["-Z", "concrete-playback", "--concrete-playback=print", "--exact", "--harness", harness], timeout)
    sets = []
    for t in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d,\s]*)\]", t)]
        sets.append([int.from_bytes(bytes(v), "little") for v in vals])
    return sets


def run(prop, tier, deadline):
    """Returns (report, violations, problems, unexplored)."""
    names = list(QUICK.get(prop, []))
    if not names:
        return None, [], [], []
    if tier == "thorough":
        names += DEEP.get(prop, [])
    t0 = time.time()
    left = max(60, int(deadline - t0))
    sel = [a for n in names for a in ("--harness", n)]
    rc, out = kani(["--exact", "--harness-timeout", f"{left}s", "-j", str(min(CORES, len(names))),
                    "--output-format", "terse", *sel], left + 120)
    res = parse(out)
    viol, problems, gaps = [], [], []
    if not res:
        tail = "\n".join([l for l in out.splitlines() if l.strip()][-25:])
        return None, [], [f"kani did not run: {tail}"], []
    done, solver_s, checks = [], 0.0, 0
    binary = None
    for n in names:
        r = res.get(n)
        if r is None or r["why"]:
            gaps.append(f"{n}: {r['why'] if r else 'no result'}")
            continue
        solver_s += r["s"] or 0
        checks += r["checks"]
        refuse = bool(REFUSE.search(n))
        if refuse:
            bad = (r["covers"] or (0, 0))[0] > 0
            if not bad and not r["ok"] and any("unwinding" in f or "unsupported" in f.lower() for f in r["failed"]):
                gaps.append(f"{n}: {r['failed'][0]}")
                continue
            # a refusal that is not a panic (say, an overflow) is not a violation, but not a proof either
            if not bad and not r["ok"]:
                bad = True
        else:
            real = [f for f in r["failed"] if "unwinding assertion" not in f and "unsupported" not in f.lower()
                    and "not currently supported" not in f]
            if not real and not r["ok"]:
                gaps.append(f"{n}: {(r['failed'] or ['not decided'])[0]}")
                continue
            bad = bool(real)
            if not bad and (r["covers"] or (1, 1))[0] == 0:
                problems.append(f"{n}: nothing it should reach is reachable (vacuous)")
                continue
        if not bad:
            done.append(n)
            continue
        if viol and tier == "quick":
            continue
        binary = binary or replay_binary()
        hit = None
        for values in counterexamples(n, max(60, int(deadline - time.time())) + 60):
            ok, text = native(binary, n, values)
            if ok:
                hit = dict(property=prop, harness=n, label="accepts what it has to refuse" if refuse else r["failed"][0],
                           values=values, observed=text, scenario="kani:" + n, params=[])
                break
        if hit:
            viol.append(hit)
        else:
            problems.append(f"{n}: Kani reports {r['failed'][:3]} but no counterexample was reproduced natively")
    report = dict(harnesses=len(names), verified=done, checks_decided=checks, solver_s=round(solver_s, 2),
                  wall_s=round(time.time() - t0, 2), not_decided=gaps)
    return report, viol, problems, gaps
