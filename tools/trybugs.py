#!/usr/bin/env python3
"""Applies planted bugs to /repo one at a time and runs checks on them.

usage: trybugs.py [--all] [--props P,Q] [id ...]     default: the check of the property each bug is planted against"""
import json, os, subprocess, sys, time

V, R = "/verif", "/repo"
args = sys.argv[1:]
everything = "--all" in args
props = None
if "--props" in args:
    i = args.index("--props")
    props = args[i + 1].split(",")
    del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(f"{V}/seeded"))
man = json.load(open(f"{V}/MANIFEST.json"))
cmds = {c["property_id"] if "property_id" in c else c["property"]: c["quick"] if "quick" in c else c["quick_cmd"] for c in man["checks"]}
for b in ids:
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    fam = {"sp": "SX", "sr": "RX", "au": "AX", "xb": "X"}[b[:2]]
    ps = props or ([p for p in sorted(cmds) if p[0] in fam] if everything else [meta["property"]])
    assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", R, "apply", f"{V}/seeded/{b}/patch.diff"], check=True)
    try:
        for p in ps:
            t = time.time()
            r = subprocess.run(cmds[p], shell=True, cwd=V, capture_output=True, text=True)
            hit = any(l.startswith(f"VIOLATION property={p}") for l in r.stdout.splitlines())
            s = "caught" if hit and r.returncode == 1 else "quiet" if r.returncode == 0 else f"ODD rc={r.returncode} {r.stdout[-300:]}{r.stderr[-300:]}"
            print(f"{b} {p}{'*' if p == meta['property'] else ''} {s} {time.time() - t:.0f}s", flush=True)
    finally:
        subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
