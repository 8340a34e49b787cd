#!/usr/bin/env python3
"""plant.py SPEC.py : build a planted bug from a spec in a scratch clone, confirm it (demo passes/fails, tests pass,
only original lines changed), store it in /verif/seeded/<id>/ and say which check catches it.
Spec: id, property, edits=[(file, old, new[, nth])], needs, breaks, demo (C++ source), optional demo_flags, checks."""
import sys, os, subprocess, json, shutil, re
PL = os.environ.get("PL_DIR", "/tmp/pl"); R = PL + "/repo"; S = "/verif/seeded"; ORIG = "2facd71"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for b in ns["bugs"]:
        if ids and b["id"] not in ids: continue
        one(b)
def one(b):
    sh("git -C %s fetch -q && git -C %s reset -q --hard origin/main && git -C %s clean -qfd" % (R, R, R)) if 0 else sh("cd %s && git checkout -q -- . && git pull -q" % R)
    d = os.path.join(PL + "/new", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.cpp", "w").write(b["demo"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository; exit 0 = the property held\nset -u\nD="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap \'rm -rf "$T"\' EXIT\ng++ -std=c++17 -O1 -w %s -I include "$D/demo.cpp" %s -o "$T/demo" || exit 99\ntimeout 60 "$T/demo"\n' % (b.get("demo_flags", ""), b.get("demo_link", "")))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode: print(b["id"], "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-500:], r.stderr[-1500:]); return
    for e in b["edits"]:
        f = os.path.join(R, e[0]); s = open(f).read(); n = e[3] if len(e) > 3 else 0
        parts = s.split(e[1])
        if len(parts) < n + 2: print(b["id"], "EDIT NOT FOUND", e[1]); return
        s = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:]); open(f, "w").write(s)
    diff = sh("git -C %s diff" % R).stdout; open(d + "/patch.diff", "w").write(diff)
    # removed lines must be original ones
    base = {}
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = l[6:]; base[cur] = set(sh("git -C %s show %s:%s" % (R, ORIG, cur)).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in base[cur]: print(b["id"], "LINE NOT ORIGINAL:", l)
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode == 0: print(b["id"], "DEMO PASSES WITH BUG"); sh("git -C %s checkout -- ." % R); return
    if r.returncode == 99: print(b["id"], "DEMO DOES NOT COMPILE WITH BUG", r.stderr[:500]); return
    t = sh("bash %s/opt/test.sh %s/t.json" % (PL, PL))
    if "727 passed, 1 failed" not in t.stdout: print(b["id"], "TESTS FAIL", t.stdout[-300:], [l for l in t.stdout.splitlines() if "Failed" in l or "***" in l][:6]); sh("git -C %s checkout -- ." % R); return
    shutil.rmtree(os.path.join(S, b["id"]), ignore_errors=True); shutil.copytree(d, os.path.join(S, b["id"]))
    print(b["id"], "ok: demo rc", r.returncode, r.stdout.strip()[-160:])
    for c in b.get("checks", [b["property"]]):
        if not os.path.exists("/verif/checks/%s.cpp" % c): print("   no check", c); continue
        r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=%s VERIF_BUILD=%s/build python3 run.py %s" % (R, PL, c))
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print("   ", c, "rc", r.returncode, lines[:1]); 
        if r.returncode == 1: print("      ", " | ".join(r.stdout.splitlines()[:3])[:400])
    sh("git -C %s checkout -- ." % R)
main()
