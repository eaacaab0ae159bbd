#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from a table of source edits (the edits live in bugtable.py)."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugtable import BUGS
HERE = os.path.dirname(os.path.abspath(__file__))


def make(b):
    d = os.path.join("/verif/seeded", b["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="bug", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in b["edits"]:
            p = t + "/r/" + f
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches in %s of\n%s" % (b["id"], s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "py" in b:
        shutil.copy(HERE + "/demo/refsim.py", d + "/refsim.py")
        open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom refsim import *\n\n" + b["py"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    elif "cpp" in b:
        open(d + "/demo.cpp", "w").write(b["cpp"].strip() + "\n")
        open(d + "/demo.sh", "w").write(CPP.replace("${DEMO_FLAGS--fopenmp}", b.get("flags", "-fopenmp")).replace(" ${DEMO_LIBS}", ""))
    else:
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + b["sh"].strip() + "\n")
    for n, s in b.get("files", {}).items():
        open(d + "/" + n, "w").write(s)


CPP = r'''#!/bin/bash
# compiles demo.cpp with the sources of /repo/src (all but main.cpp) in a scratch directory and runs it there
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
srcs=$(find "$repo/src" -name '*.cpp' ! -name main.cpp)
g++ -std=gnu++17 -O1 -w ${DEMO_FLAGS--fopenmp} -I"$repo/src" -I/usr/include/eigen3 -I/usr/include/libfccp "$here/demo.cpp" $srcs -o "$t/demo" -lyaml-cpp ${DEMO_LIBS} || exit 2
cd "$t" && timeout 120 ./demo
'''

if __name__ == "__main__":
    want = sys.argv[1:]
    for b in BUGS:
        if not want or b["id"] in want:
            make(b)
            print(b["id"])
