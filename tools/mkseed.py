#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID..]: builds seeded/<id>/ from the specifications in SPEC.py
and confirms them in a scratch copy: the patch builds, the stable tests pass with
it, and the demonstration passes without and fails with it."""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = {}
def seed(id, prop, edits, pkg, demo, needs, breaks, race=False, env=""):
    seeds[id] = dict(prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, race=race, env=env)
exec(open(sys.argv[1]).read())
want = sys.argv[2:] or list(seeds)
def sh(cmd, cwd=None, t=600):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True)
    return p.returncode, p.stdout
ENV = ". /opt/vp/env.sh 2>/dev/null; "
DEMO = r'''#!/bin/bash
# Runs a small test against the library in the current directory.
dir="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"
echo "{\"Replace\":{\"$PWD/%(pkg)s/zz_demo_test.go\":\"$dir/demo_test.go.txt\"}}" > "$tmp/overlay.json"
%(env)s
timeout 200 go test -vet=off -count=1%(race)s -overlay "$tmp/overlay.json" -run '^TestZzDemo$' ./%(pkg)s
rc=$?
rm -rf "$tmp"
exit $rc
'''
for id in want:
    s = seeds[id]
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh("cp -a /repo/. %s/ && git -C %s checkout -q -- ." % (w, w))
        d = os.path.join(here, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo_test.go.txt", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], race=" -race" if s["race"] else "", env=s["env"]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc0, out0 = sh("bash %s/demo.sh" % d, cwd=w)
        bad = False
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) < 1: print(id, "EDIT NOT FOUND", f, repr(old[:60])); bad = True; break
            if t.count(old) > 1: print(id, "EDIT AMBIGUOUS", f, repr(old[:60])); bad = True; break
            open(p, "w").write(t.replace(old, new))
        if bad: shutil.rmtree(d); continue
        rc, diff = sh("git diff", cwd=w)
        open(d + "/patch.diff", "w").write(diff)
        rcb, outb = sh(ENV + "go build ./... && go vet ./... 2>&1 | head -3; go build ./...", cwd=w)
        rct, outt = sh(ENV + "go test ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'", cwd=w)
        rc1, out1 = sh("bash %s/demo.sh" % d, cwd=w)
        base = [l for l in outt.splitlines() if "--- FAIL" in l]
        ok = rc0 == 0 and rcb == 0 and not base and rc1 != 0 and "build failed" not in out1
        print(id, "OK" if ok else "BAD", "demo0=%d build=%d demo1=%d fails=%s" % (rc0, rcb, rc1, base[:3]))
        if not ok:
            print("   ", out0[-600:] if rc0 else "", outb[-600:] if rcb else "", out1[-600:] if rc1 == 0 or "build failed" in out1 else "")
    finally:
        shutil.rmtree(w, ignore_errors=True)
