"""C14, C15, C26, C27: symbolic exploration of schedules (conc/), on rust_light compiled against scheduler-driven stand-ins."""
import hashlib, json, os, shutil, subprocess, time
from vlib import *
import symxrun

HERE = os.path.join(VERIF, "conc")
TARGET = os.path.join(BUILD, "conc")


def stamp():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(HERE)):
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".py")) and "/weave/" not in d + "/":
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def cargo(args, timeout, **kw):
    try:
        return subprocess.run(["cargo", "build", "--release", "--offline", *args], cwd=HERE,
                              env=env(CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER=os.path.join(HERE, "rustc-wrap.py"), **kw),
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"building conc took more than {timeout} s")


def build():
    """The harness, with the library compiled against the stand-ins. Raises Inconclusive if that does not work."""
    t = time.time()
    mark = os.path.join(TARGET, "standins.stamp")
    now = stamp()
    if os.path.exists(TARGET) and (not os.path.exists(mark) or open(mark).read() != now):
        shutil.rmtree(TARGET)
    os.makedirs(TARGET, exist_ok=True)
    r = cargo(["-p", "vrayon", "-p", "vcrossbeam", "-p", "vstd", "--message-format=json", "--quiet"], 600)
    if r.returncode:
        raise Inconclusive("the stand-ins do not build:\n" + r.stderr[-2000:])
    libs = {}
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("vstd", "vrayon", "vcrossbeam"):
            libs[m["target"]["name"]] = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    open(mark, "w").write(now)
    stand = f"std={libs['vstd']}:rayon={libs['vrayon']}:crossbeam={libs['vcrossbeam']}"
    r = cargo(["-p", "weave", "--quiet"], 600, VERIF_STANDINS=stand)
    if r.returncode:
        tail = "\n".join([l for l in r.stderr.splitlines() if l.strip()][-40:])
        raise Inconclusive("the library does not build against the stand-ins:\n" + tail)
    return os.path.join(TARGET, "release", "weave"), time.time() - t


def run(prop, tier, deadline):
    """Returns (coverage, violations, problems, notes)."""
    cov, viol, problems, notes = {}, [], [], []
    try:
        binary, build_s = build()
    except Inconclusive as e:
        if prop != "C15":
            raise
        # the library uses something the stand-ins lack: the real pool still decides its part
        notes.append("no schedule exploration: " + str(e).strip()[-400:])
        binary = None
    if binary:
        t, v, p = symxrun.run(prop, tier, deadline, binary=binary, pin=True)
        t["build_s"] = round(build_s, 2)
        for x in v:
            x["binary"] = binary
        cov["schedules"] = t
        viol += v
        problems += p
    if prop == "C15" and not viol and not problems:
        for n in (2, 1, 3, 8) if tier == "quick" else (2, 1, 3, 4, 5, 8, 16):
            t, v, p = symxrun.run(prop, tier, deadline, threads=n, tag=f"-t{n}")
            cov[f"real_pool_{n}_threads"] = t
            viol += v
            problems += p
            if viol or problems:
                break
    return cov, viol, problems, notes
