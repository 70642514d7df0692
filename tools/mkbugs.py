#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/bugs/*.py (each defines BUGS, a list of dicts)."""
import glob, json, os, subprocess, sys, tempfile, shutil, runpy

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"

SH = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds, 1: it is broken.
R=$(pwd)
export PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 REPO="$R"
H=$(mktemp -d)
export HOME="$H"
timeout -k 5 200 python3 "$(dirname "$0")/demo.py"
rc=$?
rm -rf -- "$H"
[ $rc -eq 0 ] && exit 0
exit 1
'''

PRE = '''import os, sys, subprocess, tempfile, time, signal, textwrap
os.chdir(os.environ["HOME"])          # scratch directory made by demo.sh
W = os.getcwd()

def put(path, text):
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

def get(path):
    with open(path) as f:
        return f.read()

def run(script, *args, timeout=60, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run([sys.executable, script] + list(args), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)

def check(ok, text):
    if not ok:
        print("BROKEN:", text)
        sys.exit(1)

'''

def main(only):
    for f in sorted(glob.glob(HERE + "/bugs/*.py")):
        for b in runpy.run_path(f)["BUGS"]:
            if only and b["id"] not in only:
                continue
            d = os.path.join(ROOT, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            t = tempfile.mkdtemp(prefix="mkbug")
            try:
                files = sorted({e[0] for e in b["edits"]})
                for side in "ab":
                    for x in files:
                        p = os.path.join(t, side, x)
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        shutil.copy(os.path.join(REPO, x), p)
                for x, old, new in b["edits"]:
                    p = os.path.join(t, "b", x)
                    s = open(p).read()
                    if s.count(old) != 1:
                        print("!!", b["id"], x, "occurrences:", s.count(old)); sys.exit(1)
                    open(p, "w").write(s.replace(old, new))
                diff = ""
                for x in files:
                    r = subprocess.run(["diff", "-u", "--label", "a/" + x, "--label", "b/" + x,
                                        "a/" + x, "b/" + x], cwd=t, capture_output=True, text=True)
                    diff += "diff --git a/%s b/%s\n" % (x, x) + r.stdout
                open(d + "/patch.diff", "w").write(diff)
            finally:
                shutil.rmtree(t)
            open(d + "/demo.sh", "w").write(SH)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            print("wrote", b["id"])

main(set(sys.argv[1:]))
