#!/usr/bin/env python3
"""RUSTC_WRAPPER: compiles rust_light against the stand-ins named in VERIF_STANDINS (name=rlib:name=rlib...)."""
import os, sys
args = sys.argv[1:]
subst = os.environ.get("VERIF_STANDINS", "")
if subst and "--crate-name" in args and args[args.index("--crate-name") + 1] == "rust_light":
    new = dict(x.split("=", 1) for x in subst.split(":"))
    out, k = [], 0
    while k < len(args):
        if args[k] == "--extern" and k + 1 < len(args) and args[k + 1].split("=")[0] in new:
            k += 2
            continue
        out.append(args[k])
        k += 1
    for n, p in new.items():
        out += ["--extern", f"{n}={p}"]
    args = out
os.execvp(args[0], args)
