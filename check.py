#!/usr/bin/env python3
"""Static check of one property (or several) of MPS-Basic.   usage: check.py SETUP | Sxx [Syy ...]

exit 0: every obligation of the property is discharged on /repo's current source
exit 1: an obligation fails (line VIOLATION property=<id> replay=<path>)
exit 2: the analysis cannot decide (construct outside the modelled subset, or an anchor of the property vanished)
"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MPS_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "rules"))
sys.setrecursionlimit(200000)

EXTRACT = os.path.join(HERE, "build", "extract")
FLAGS = ["-std=gnu++17", "-DNDEBUG", "-O2", "-fopenmp", "-I" + os.path.join(HERE, "extract", "shim"),
         "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3", "-I/usr/include/libfccp"]


def setup():
    """build the AST extractor (clang LibTooling) if it is missing or older than its source"""
    src = os.path.join(HERE, "extract", "extract.cpp")
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(EXTRACT), exist_ok=True)
    cxx = subprocess.run(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"], capture_output=True, text=True, check=True).stdout
    cxx = [x for x in cxx.split() if not x.startswith("-std=")]
    tmp = EXTRACT + ".%d" % os.getpid()
    subprocess.run(["clang++", "-std=c++17", "-O1", "-fno-rtti"] + cxx + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
                    "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-lLLVM-18"], check=True)
    os.replace(tmp, EXTRACT)


class ExtractError(Exception):
    pass


def sources():
    out = []
    for d in ("src", "generator"):
        out += glob.glob(os.path.join(REPO, d, "**", "*.cpp"), recursive=True)
    return sorted(out)


def extract(dst):
    def one(f):
        o = os.path.join(dst, os.path.relpath(f, REPO).replace("/", "_") + ".json")
        r = subprocess.run([EXTRACT, REPO, o, f, "--"] + FLAGS, capture_output=True, text=True)
        return f, o, r
    res = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f, o, r in ex.map(one, sources()):
            if r.returncode or not os.path.exists(o):
                raise ExtractError("cannot parse %s\n%s" % (f, (r.stderr or r.stdout)[-2000:]))
            res.append(o)
    return res


def load_db():
    import db
    setup()
    dst = tempfile.mkdtemp(prefix="mpsast")
    try:
        return db.DB(extract(dst))
    finally:
        shutil.rmtree(dst, ignore_errors=True)


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                d = dict(x.split("=", 1) for x in l[7:].split(" | ") if "=" in x)
                out.append(d)
    return out


def run_property(pid, D, tier, seed):
    import core
    import registry
    from base import Report
    t = time.time()
    rep = Report(pid, D)
    try:
        registry.RULES[pid](rep)
    except core.Finding as ex:
        if ex.pid == pid:
            rep.fail(ex.name, ex.where, ex.detail)
        else:
            rep.undecided("analysis", "the program cannot be analysed further: " + str(ex)[:600])
    except MemoryError:
        rep.undecided("analysis", "out of memory")
    except Exception as ex:
        rep.undecided("analysis", "%s: %s" % (type(ex).__name__, str(ex)[:600]), trace=traceback.format_exc()[-3000:])
    known = known_findings()
    viol, kn = [], []
    for o in rep.failed():
        k = [d for d in known if d.get("property") == pid and d.get("what") == o.key()]
        (kn if k else viol).append(o)
    und = rep.undecidable()
    wall = time.time() - t
    evidence(pid, rep, tier, seed, wall, viol, kn, und)
    for o in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, o.key()))
    for o in und:
        print("UNDECIDED property=%s %s: %s" % (pid, o.name, o.detail))
        if o.trace and os.environ.get("MPS_TRACE"):
            print(o.trace)
    if viol:
        path = replay(pid, viol)
        for o in viol:
            print("  %s: %s [%s] %s" % (pid, o.name, o.where, o.detail[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if und:
        return 2
    if not rep.obls:
        print("UNDECIDED property=%s no obligation was generated" % pid)
        return 2
    print("OK property=%s obligations=%d wall=%.1fs" % (pid, len(rep.obls), wall))
    return 0


def evidence(pid, rep, tier, seed, wall, viol, kn, und):
    import registry
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    ok = [o for o in rep.obls if o.status == "ok"]
    cov = {
        "explanation": registry.EXPLAIN.get(pid, "") or registry.EXPLAIN["*"],
        "rule": registry.RULES[pid].__doc__ or "",
        "obligations": len(rep.obls),
        "discharged": len(ok),
        "undecided": len(und),
        "analysed": rep.analysed(),
        "samples": [o.record() for o in (viol + kn + und + ok)[:60]],
    }
    e = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
         "assumptions": registry.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viol)}
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(pid, viol):
    d = os.path.join(HERE, "build", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p, "w") as f:
        json.dump({"property": pid, "rerun": "python3 check.py " + pid, "violations": [o.record(full=True) for o in viol]}, f, indent=1)
    return p


def main():
    args = sys.argv[1:]
    if args == ["SETUP"]:
        setup()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        D = load_db()
    except ExtractError as ex:
        print("UNDECIDED " + str(ex))
        return 2
    rc = 0
    for pid in args:
        rc = max(rc, run_property(pid, D, tier, seed), key=lambda x: (0, 2, 1).index(x) if x in (0, 1, 2) else 9)
    return rc


if __name__ == "__main__":
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def go():
        try:
            out.append(main())
        except BaseException:
            traceback.print_exc()
            out.append(2)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(out[0])
