"""Shared machinery of the checks: building, running shards, evidence, verdicts."""
import json, os, shutil, subprocess, sys, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = os.cpu_count() or 4


class Inconclusive(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", VERIF_SEED=str(SEED))
    e.update(kw)
    return e


def cargo_build(crate, name, timeout=840, extra=(), **ekw):
    """Builds /verif/<crate> in release mode into its own target dir and returns the binary's path."""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    t = time.time()
    try:
        r = subprocess.run(
            ["cargo", "build", "--release", "--offline", "--quiet", *extra],
            cwd=os.path.join(VERIF, crate), env=env(CARGO_TARGET_DIR=target, **ekw),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"building {crate} took more than {timeout} s")
    if r.returncode != 0:
        tail = "\n".join([l for l in r.stdout.splitlines() if l.strip()][-40:])
        raise Inconclusive(f"{crate} does not build against /repo:\n{tail}")
    return os.path.join(target, "release", name), time.time() - t


def run_group(cmds, timeout, cwd=None, environ=None, pin=False):
    """Runs commands side by side; returns [(returncode or None on timeout, stdout)]. pin: one processor each."""
    if pin:
        cpus = sorted(os.sched_getaffinity(0))
        cmds = [["taskset", "-c", str(cpus[k % len(cpus)]), *c] for k, c in enumerate(cmds)] if shutil.which("taskset") else cmds
    procs = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              cwd=cwd, env=environ or env(), start_new_session=True) for c in cmds]
    end = time.time() + timeout
    out = []
    for p in procs:
        try:
            o, _ = p.communicate(timeout=max(1, end - time.time()))
            out.append((p.returncode, o))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, _ = p.communicate()
            out.append((None, o))
    for p in procs:
        # solver processes of a crashed shard
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    return out


def known(prop):
    """Known findings of a property: list of dicts with 'match' (substring of 'scenario|params|label') and 'what'."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def write_evidence(prop, tier, coverage, assumptions, wall, violations, level="model_checking"):
    os.makedirs(EVID, exist_ok=True)
    doc = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=coverage,
               assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def write_replay(prop, n, doc):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, f"{prop}.violation{n}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path
