#!/usr/bin/env python3
"""Behaviour-preserving edits of MPS-Basic on which every check has to stay quiet.

edits.py [--build] [id-prefix ...] [-- Sxx ...]     applies each edit to a scratch copy and runs the checks on it
"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/engine", HERE + "/rules"]
from edittable import EDITS


def run(e, checks, build):
    t = tempfile.mkdtemp(prefix="edit", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", t], check=True)
        for f, old, new in e["edits"]:
            p = t + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches in %s of\n%s" % (e["id"], s.count(old), f, old)
            open(p, "w").write(s.replace(old, new))
        if build:
            r = subprocess.run("for f in $(git diff --name-only); do case $f in *.cpp) fs=$f;; *) fs='src/main.cpp src/mps.cpp src/simulation.cpp src/loader.cpp src/saver.cpp';; esac; for g in $fs; do g++ -std=gnu++17 -w -fopenmp -fsyntax-only -Isrc -I/usr/include/eigen3 -I/usr/include/libfccp $g || exit 1; done; done",
                               shell=True, cwd=t, capture_output=True, text=True)
            if r.returncode:
                return "%s: DOES NOT COMPILE\n%s" % (e["id"], r.stderr[-1500:])
        env = dict(os.environ, MPS_REPO=t)
        r = subprocess.run([sys.executable, HERE + "/check.py"] + checks, env=env, capture_output=True, text=True)
        bad = [l[:int(os.environ.get("W", "300"))] for l in r.stdout.split("\n") if l and not l.startswith("OK ")]
        return "%s: %s" % (e["id"], "quiet (%d)" % r.stdout.count("OK property") if r.returncode == 0 else "NOISY rc=%d\n   " % r.returncode + "\n   ".join(bad[:int(os.environ.get("L", "12"))]))
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    a = sys.argv[1:]
    build = "--build" in a
    a = [x for x in a if x != "--build"]
    checks = []
    if "--" in a:
        k = a.index("--")
        a, checks = a[:k], a[k + 1:]
    if not checks:
        import registry
        checks = sorted(registry.RULES)
    import concurrent.futures
    todo = [e for e in EDITS if not a or any(e["id"].startswith(x) for x in a)]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for s in ex.map(lambda e: run(e, checks, build), todo):
            print(s, flush=True)
