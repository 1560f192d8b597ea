#!/usr/bin/env python3
"""Turns planted bugs described in a Python file into seeded/<id>/ and confirms each one.

usage: mkseed.py DEFS.py [id ...]      DEFS.py defines BUGS, a list of dicts with
  id, property, needs, breaks, edits = [(file, old, new), ...], main (Rust source), aucpace (prepend the helpers)

Kept only if it compiles, passes the stable tests, and its demonstration passes without and fails with it.
Works in /repo itself and undoes every change (as its build and test scripts insist on that place)."""
import json, os, runpy, shutil, subprocess, sys

REPO, SEEDED, HERE = "/repo", "/verif/seeded", os.path.dirname(os.path.abspath(__file__))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh("git", "-C", REPO, "checkout", "--", ".")


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in bugs:
        if want and b["id"] not in want:
            continue
        d = f"{SEEDED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        src = b["main"]
        if b.get("aucpace"):
            src = open(f"{HERE}/demo/aucpace.rs").read() + src
        open(f"{d}/main.rs", "w").write(src)
        demo = open(f"{HERE}/demo/demo.sh").read()
        for old, new in b.get("demo", []):
            assert old in demo, old
            demo = demo.replace(old, new)
        open(f"{d}/demo.sh", "w").write(demo)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        why = None
        r = sh("bash", f"{d}/demo.sh", cwd=REPO)
        if r.returncode:
            why = "demo fails on the clean tree: " + (r.stdout + r.stderr)[-1500:]
        try:
            if not why:
                for f, old, new in b["edits"]:
                    t = open(f"{REPO}/{f}").read()
                    if t.count(old) != 1:
                        why = f"{f}: {t.count(old)} places match {old!r}"
                        break
                    open(f"{REPO}/{f}", "w").write(t.replace(old, new))
            if not why:
                p = sh("git", "-C", REPO, "diff").stdout
                open(f"{d}/patch.diff", "w").write(p)
                r = sh("bash", "/opt/vp/build.sh", cwd=REPO)
                if r.returncode:
                    why = "does not build: " + r.stderr[-1500:]
            if not why:
                sh("bash", "/opt/vp/test.sh", "/tmp/mkseed.json", cwd=REPO)
                res = json.load(open("/tmp/mkseed.json"))
                bad = sorted(stable - set(res["passed"]))
                if bad:
                    why = f"tests fail: {str(bad)[:300]}"
            if not why:
                r = sh("bash", f"{d}/demo.sh", cwd=REPO)
                if r.returncode in (0, 2):
                    why = f"demo says {r.returncode} with the change " + (r.stdout + r.stderr)[-1000:]
        finally:
            clean()
        if why:
            shutil.rmtree(d)
        print(b["id"], "DROPPED " + why if why else "kept: " + r.stdout.strip()[:100], flush=True)
    sh("bash", "/opt/vp/build.sh", cwd=REPO)


main()
