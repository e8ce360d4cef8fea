#!/usr/bin/env python3
"""refcheck.py SPEC.py [ID..]: applies behaviour-preserving edits (format: ref(id,
props, edits), edits as in mkseed.py) in scratch copies and runs the checks of the
properties on them; every one of them has to stay quiet."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
refs = {}
def ref(id, props, edits): refs[id] = (props, edits)
exec(open(sys.argv[1]).read())
want = sys.argv[2:] or list(refs)
bin_ = os.environ.get("BIN", "/tmp/vc")
def sh(c, cwd=None, t=1000):
    p = subprocess.run(["bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def one(id):
    props, edits = refs[id]
    w, v = tempfile.mkdtemp(prefix="ref"), tempfile.mkdtemp(prefix="refv")
    out = []
    try:
        sh("cp -a /repo/. %s/ && git -C %s checkout -q -- ." % (w, w))
        for f, old, new in edits:
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) < 1: return id + " EDIT NOT FOUND " + f + " " + repr(old[:70])
            open(p, "w").write(t.replace(old, new))
        sh(". /opt/vp/env.sh; gofmt -w vtdxml", cwd=w)
        rc, o = sh(". /opt/vp/env.sh; go vet ./... && go test ./...", cwd=w)
        if rc: return id + " BUILD/TEST\n" + "\n".join(l for l in o.splitlines() if "no test files" not in l and not l.startswith("ok"))[-700:]
        sh("cp /verif/known_findings.txt %s/" % v)
        for p in os.environ.get("PROPS", "").split() or props:
            rc, o = sh("VERIF_LIMIT=%s %s -prop %s -repo %s -verif %s %s" % (os.environ.get("LIMIT", "840s"), bin_, p, w, v, os.environ.get("ARGS", "")))
            out.append("%s %s rc=%d %s" % (id, p, rc, o.strip().split("\n")[0][:230] if rc else ""))
    finally:
        shutil.rmtree(w); shutil.rmtree(v)
    return "\n".join(out)
with ThreadPoolExecutor(int(os.environ.get("P", "4"))) as ex:
    for r in ex.map(one, want): print(r, flush=True)
