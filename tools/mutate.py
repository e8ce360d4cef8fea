#!/usr/bin/env python3
"""mutate.py PROP FILE...: small source mutations of FILEs (paths in the
repository), each analysed in a scratch copy; prints what the check says.
Development aid: shows the places a check does not look at."""
import re, subprocess, sys, os, shutil, tempfile, itertools
from concurrent.futures import ThreadPoolExecutor
prop, files = sys.argv[1], sys.argv[2:]
bin_ = os.environ.get("BIN", "/tmp/vc")
OPS = [(r' >= ', ' > '), (r' > ', ' >= '), (r' < ', ' <= '), (r' <= ', ' < '),
       (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\+\+', '--'), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r' == ', ' != '), (r'if err != nil', 'if err == nil && err != nil')]
jobs = []
for f in files:
    src = open('/repo/' + f).read()
    lines = src.split('\n')
    for i, l in enumerate(lines):
        if l.strip().startswith('//'):
            continue
        for pat, rep in OPS:
            for m in re.finditer(pat, l):
                n = l[:m.start()] + rep + l[m.end():]
                jobs.append((f, i + 1, '\n'.join(lines[:i] + [n] + lines[i+1:]), l.strip(), n.strip()))
        if re.match(r'^\s+[\w.]+(\[.*\])? [+-]?= .*$', l) or re.match(r'^\s+[\w.]+(\+\+|--)$', l):
            jobs.append((f, i + 1, '\n'.join(lines[:i] + ['\t_ = 0'] + lines[i+1:]), l.strip(), '(deleted)'))
def one(j):
    f, ln, txt, a, b = j
    d = tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        open(d + '/' + f, 'w').write(txt)
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
        t = subprocess.run(['go', 'vet', './...'], cwd=d, env=env, capture_output=True)
        t = subprocess.run(['go', 'test', './...'], cwd=d, env=env, capture_output=True)
        tests = 'pass' if t.returncode == 0 else ('nobuild' if b'build failed' in t.stdout + t.stderr else 'fail')
        if tests == 'nobuild':
            return None
        v = tempfile.mkdtemp(prefix='mutv')
        try:
            r = subprocess.run([bin_, '-prop', prop, '-repo', d, '-verif', v], env=env, capture_output=True, text=True, timeout=900)
            out = r.stdout.strip().split('\n')
            return (f, ln, a, b, tests, r.returncode, out[0][:150])
        finally:
            shutil.rmtree(v)
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(int(os.environ.get('P', '4'))) as ex:
    for r in ex.map(one, jobs):
        if r:
            f, ln, a, b, tests, rc, out = r
            print(f'{"CAUGHT" if rc == 1 else "quiet "} tests={tests} {os.path.basename(f)}:{ln} {a[:70]} => {b[:70]} | {out if rc==1 else ""}', flush=True)
