#!/usr/bin/env python3
"""Plant bugs: for every entry, make patch.diff, demo.sh, demo_test.go and meta.json in
/verif/seeded/<id>/ after confirming in a scratch copy that the change builds, passes the
repository's tests, and that the demonstration passes without it and fails with it.

  python3 tools/mkbugs.py [-j N] [-n] [ID ...]      (-n: only confirm, write nothing)
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS

DEMO = r'''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken; cwd is the repository
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}\n' "$PWD" "$d" > "$t/overlay.json"
timeout 200 go test -vet=off -overlay "$t/overlay.json" -count=1 -timeout 120s -v -run '^TestDemo$' . > "$t/out" 2>&1
rc=$?
tail -15 "$t/out"
[ $rc -eq 0 ] && grep -q '^--- PASS: TestDemo' "$t/out"
'''

ENV = None
def env():
    global ENV
    if ENV is None:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True).stdout.decode()
        ENV = dict(l.split('=', 1) for l in out.split('\0') if '=' in l)
    return ENV

def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, text=True, timeout=timeout)

def go(body, imports):
    imps = sorted(set(imports + ['testing']))
    return 'package btc\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in imps) + ')\n\n' + body.strip('\n') + '\n'

def one(bid, write):
    b = BUGS[bid]
    tmp = tempfile.mkdtemp(prefix='bug.', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        d = os.path.join(tmp, 'd'); os.mkdir(d)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo_test.go'), 'w').write(go(b['demo'], b.get('imports', [])))
        sh(['gofmt', '-w', os.path.join(d, 'demo_test.go')], d)
        r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
        if r.returncode != 0:
            return bid, 'BAD demo fails on the clean tree: ' + r.stdout[-600:]
        for f, old, new in b['edits']:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) < 1: return bid, 'BAD edit not found: ' + old[:60]
            if s.count(old) > 1 and not b.get('first'): return bid, 'BAD edit ambiguous: ' + old[:60]
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        for f in sorted(set(e[0] for e in b['edits'])):
            if f != 'wordlists.go':
                sh(['gofmt', '-w', f], repo)
        r = sh(['go', 'build', './...'], repo)
        if r.returncode: return bid, 'BAD build: ' + r.stderr[-400:]
        r = sh(['go', 'test', '-vet=off', '-count=1', './...'], repo)
        if r.returncode: return bid, 'BAD tests: ' + r.stdout[-500:]
        r = sh(['bash', os.path.join(d, 'demo.sh')], repo)
        if r.returncode == 0: return bid, 'BAD demo passes with the change'
        why = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith(('---', 'FAIL', '==='))]
        diff = sh(['git', 'diff'], repo).stdout
        if not write: return bid, 'ok ' + (why[0].strip()[:120] if why else '')
        out = os.path.join(VERIF, 'seeded', bid)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for n in ('demo.sh', 'demo_test.go'): shutil.copy(os.path.join(d, n), out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return bid, 'ok ' + (why[0].strip()[:120] if why else '')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]; j = 4; write = True; ids = []
    while a:
        x = a.pop(0)
        if x == '-j': j = int(a.pop(0))
        elif x == '-n': write = False
        else: ids.append(x)
    ids = ids or sorted(BUGS)
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for bid, res in ex.map(lambda i: one(i, write), ids):
            print('%-28s %s %s' % (bid, BUGS[bid]['property'], res), flush=True)
            bad += res.startswith('BAD')
    sys.exit(1 if bad else 0)

main()
