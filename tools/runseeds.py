#!/usr/bin/env python3
"""runseeds.py [id-substr ...]: run the owning check (or -a all checks) on every planted bug in scratch clones."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
allc = '-a' in sys.argv
pat = [a for a in sys.argv[1:] if a != '-a']
table = json.load(open(V + '/rules/table.json'))

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(i):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        sh('git clone -q /repo %s/r' % d)
        r = sh('git apply %s/seeded/%s/patch.diff' % (V, i), cwd=d + '/r')
        if r.returncode: return i, m['property'], 'DOES NOT APPLY', ''
        out = []
        for p in ([m['property']] if not allc else list(table)):
            if p not in table: out.append((p, 'no check', '')); continue
            r = sh('python3 check.py %s' % p, cwd=V, env=dict(os.environ, SODA_REPO=d + '/r', VERIF_EVIDENCE_DIR=d))
            out.append((p, {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, 'BROKEN'), [l for l in r.stdout.split('\n') if l.startswith('violated')][:1]))
        if allc:
            return i, m['property'], ' '.join(p for p, x, _ in out if x == 'CAUGHT') + ' / broken: ' + ' '.join(p for p, x, _ in out if x == 'BROKEN'), ''
        return i, m['property'], out[0][1], str(out[0][2])[:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)

ids = [i for i in sorted(os.listdir(V + '/seeded')) if os.path.exists('%s/seeded/%s/patch.diff' % (V, i)) and (not pat or any(p in i for p in pat))]
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, ids):
        print('%-28s %s %-8s %s' % r); sys.stdout.flush()
