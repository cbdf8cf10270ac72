#!/usr/bin/env python3
"""Run the analyzer on every planted bug and print which checks report it.
  python3 tools/catch.py [-j N] [-v] [ID ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True).stdout.decode()
ENV = dict(l.split('=', 1) for l in out.split('\0') if '=' in l)
def one(bid):
    d = os.path.join(VERIF, 'seeded', bid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='catch.', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=repo, capture_output=True, text=True)
        if r.returncode: return bid, meta['property'], 'PATCH FAILS', ''
        r = subprocess.run([os.environ.get('BTCCHECK', os.path.join(VERIF, '.build/btccheck')), '-repo', repo, '-all'], env=ENV, cwd=VERIF, capture_output=True, text=True, errors='replace', timeout=900)
        m = re.findall(r"^(VIOLATED|undecided|ERROR)\s+(C\d+)", r.stdout, re.M)
        v = [b for a, b in m if a == 'VIOLATED']; u = [b for a, b in m if a != 'VIOLATED']
        s = 'CAUGHT' if meta['property'] in v else ('undecided' if meta['property'] in u else 'MISSED')
        return bid, meta['property'], s, 'V=' + ','.join(v) + ' u=' + ','.join(u), r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
a = sys.argv[1:]; j = 3; ids = []; verbose = False
while a:
    x = a.pop(0)
    if x == '-j': j = int(a.pop(0))
    elif x == '-v': verbose = True
    else: ids.append(x)
ids = ids or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ids):
        print('%-28s %s %-10s %s' % r[:4], flush=True)
        if verbose: print(r[4])
