#!/usr/bin/env python3
"""Scratch laboratory: runs commands with a patched copy of /repo mounted over /repo in a private mount namespace.

lab.py bug ID [check ids...]     build, tests, demo (clean and patched) and checks for /verif/seeded/ID
lab.py edit FILE.diff [ids...]   build, tests and checks for a behaviour-preserving edit
"""
import json, os, shutil, subprocess, sys, tempfile
NS = r'''
set -e
mount --bind "$LAB" /repo
cd /repo
[ -z "$PATCH" ] || git apply "$PATCH"
if [ -n "$BUILD" ]; then bash /opt/vp/build.sh >"$LAB.build" 2>&1 || { echo BUILD-FAILED; tail -20 "$LAB.build"; exit 3; }; fi
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh "$LAB.test" >/dev/null 2>&1; python3 - "$LAB.test" <<'P'
import json,sys
p=set(json.load(open(sys.argv[1]))["passed"]); s=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
print("TESTS", "ok" if s<=p else "FAILED %s" % sorted(s-p))
P
fi
if [ -n "$DEMO" ]; then set +e; timeout 300 bash "$DEMO" >"$LAB.demo" 2>&1; echo "DEMO $?"; tail -4 "$LAB.demo"; set -e; fi
for c in $CHECKS; do set +e; timeout 900 python3 /verif/check.py $c >"$LAB.chk" 2>&1; echo "CHECK $c rc=$?"; grep -v "^OK" "$LAB.chk" | cut -c1-${WIDTH:-420} | tail -${LINES_:-4}; set -e; done
'''


def run(patch, demo, checks, build=True, tests=True):
    lab = tempfile.mkdtemp(prefix="lab", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", lab], check=True)
        env = dict(os.environ, LAB=lab, PATCH=patch or "", BUILD="1" if build else "", TESTS="1" if tests else "", DEMO=demo or "", CHECKS=" ".join(checks))
        r = subprocess.run(["unshare", "-rm", "bash", "-c", NS], env=env, capture_output=True, text=True)
        return r.stdout + r.stderr[-2000:]
    finally:
        shutil.rmtree(lab)
        for s in (".build", ".test", ".demo", ".chk"):
            if os.path.exists(lab + s):
                os.remove(lab + s)


def main():
    k = sys.argv[1]
    if k == "bug":
        i = sys.argv[2]
        d = "/verif/seeded/" + i
        checks = sys.argv[3:]
        if not checks:
            checks = [json.load(open(d + "/meta.json"))["property"]]
        if checks == ["-"]:
            checks = []
        t = tempfile.mkdtemp(prefix="demo", dir="/tmp")
        try:
            for f in os.listdir(d):
                if not f.endswith((".diff", ".patch")) and f != "meta.json":
                    shutil.copy(d + "/" + f, t)
            print("== %s clean" % i)
            print(run(None, t + "/demo.sh", [], build=True, tests=False))
            print("== %s patched" % i)
            print(run(d + "/patch.diff", t + "/demo.sh", checks))
        finally:
            shutil.rmtree(t)
    elif k == "edit":
        print("== " + sys.argv[2])
        print(run(os.path.abspath(sys.argv[2]), None, sys.argv[3:]))


if __name__ == "__main__":
    main()
