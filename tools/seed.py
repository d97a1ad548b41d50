#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/bugs.py and confirms each planted bug:
builds, passes the stable tests, demo passes without and fails with it, and only
lines of the original repository are changed. Works in a scratch copy."""
import json, os, shutil, subprocess, sys, importlib.util
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location('bugs', os.path.join(here, 'bugs.py'))
bugs = importlib.util.module_from_spec(spec); spec.loader.exec_module(bugs)
BASE = 'c0a7583'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off',
           PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
DEMO = '''#!/bin/bash
# Runs demo.go.txt as an in-package test of %(pkg)s (through an overlay).
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
o=$(mktemp -d) || exit 1
trap 'rm -r "$o"' EXIT
printf '{"Replace":{%(hide)s"%%s/%(dir)szz_demo_test.go":"%%s/demo.go.txt"}}' %(hidearg)s"$PWD" "$d" > "$o/overlay.json"
go test -vet=off -count=1 -timeout 250s -overlay "$o/overlay.json" -run '^TestSeededDemo$' %(pkg)s
'''
stable = None
def sh(cmd, cwd, env=ENV, **k): return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **k)
want = sys.argv[1:]
stable = json.load(open('/opt/vp/BASELINE.json'))
for b in bugs.BUGS:
    if want and b['id'] not in want: continue
    out = '/verif/seeded/' + b['id']; os.makedirs(out, exist_ok=True)
    w = '/tmp/seedwork'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    ok = True
    for f, a, n in b['edits']:
        p = w + '/' + f; s = open(p).read()
        if s.count(a) != 1:
            print(b['id'], 'PATTERN occurs', s.count(a), 'times:', a[:60]); ok = False; break
        open(p, 'w').write(s.replace(a, n))
    if not ok: continue
    sh(['gofmt', '-w'] + sorted({e[0] for e in b['edits']}), w)
    diff = sh(['git', 'diff'], w).stdout
    open(out + '/patch.diff', 'w').write(diff)
    # every removed line must stem from the original repository
    for f in sorted({e[0] for e in b['edits']}):
        bl = sh(['git', 'blame', '-s', 'HEAD', '--', f], w).stdout.splitlines()
        num = sh(['git', 'diff', '-U0', '--', f], w).stdout
        removed = 0
        for l in num.splitlines():
            if l.startswith('@@'):
                o = l.split()[1][1:].split(','); st = int(o[0]); ct = int(o[1]) if len(o) > 1 else 1
                for i in range(st, st + ct):
                    removed += 1
                    if not bl[i-1].startswith('^') and not bl[i-1].startswith(BASE[:7]): print(b['id'], 'NOT ORIGINAL:', bl[i-1])
        if removed == 0: print(b['id'], f, 'note: only adds lines')
    d = b['dir']; pkg = './' + d if d else '.'
    hide = '"%s/main_test.go":"",' if not d else ''
    open(out + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg.rstrip('/'), dir=d, hide=hide, hidearg='"$PWD" ' if hide else ''))
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.go.txt', 'w').write(b['demo'].lstrip())
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    r = sh(['go', 'build', './...'], w)
    if r.returncode: print(b['id'], 'BUILD', r.stderr[:500]); continue
    r1 = sh(['bash', out + '/demo.sh'], '/repo'); r2 = sh(['bash', out + '/demo.sh'], w)
    t = open('/opt/vp/test.sh').read().replace('cd /repo ', 'cd ' + w + ' ')
    open('/tmp/seedtest.sh', 'w').write(t)
    r = sh(['bash', '/tmp/seedtest.sh', '/tmp/seedtest.json'], w)
    res = json.load(open('/tmp/seedtest.json'))
    passed = set(res.get('passed', []))
    st = stable.get('stable') or stable.get('passed') or stable.get('tests')
    missing = [x for x in st if x not in passed]
    good = r1.returncode == 0 and r2.returncode != 0 and not missing
    print(b['id'], b['property'], 'OK' if good else 'BAD', 'demo clean', r1.returncode, 'bug', r2.returncode, 'missing tests', missing[:3])
    if r1.returncode: print(r1.stdout[-600:], r1.stderr[-600:])
    if r2.returncode and ('build failed' in r2.stdout or 'panic: test timed' in r2.stdout): print(r2.stdout[-800:], r2.stderr[-600:])
    shutil.rmtree(w, ignore_errors=True)
