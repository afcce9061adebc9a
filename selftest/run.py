#!/usr/bin/env python3
"""Self test of the checks: every entry of cases_*.py is a small edit of the sources.
kind 'bug': the named properties must report a violation; kind 'same': behaviour is
preserved and the named properties (or all of the component) must stay quiet.
usage: run.py [-k substr] [-p PROP] [-f PROP: on every 'same' case]; edits are made in scratch copies of /repo only."""
import glob
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SELF_REPO', '/repo')


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, 'cases_*.py'))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.CASES
    import json
    ids = list(json.load(open(os.path.join(VERIF, 'rules', 'table.json'))))
    res = []
    for c in out:
        pr = c[2].split() if isinstance(c[2], str) else c[2]
        ex = []
        for q in pr:
            ex += [i for i in ids if i.startswith(q[:-1])] if q.endswith('*') else [q]
        res.append((c[0], c[1], ex, c[3]))
    return res


def one(case, props=None):
    name, kind, pr, edits = case
    if isinstance(pr, str):
        pr = pr.split()
    d = tempfile.mkdtemp(prefix='soda-self-')
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', 'build*'))
        for f, a, b in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if a in s:
                s = s.replace(a, b, 1)
            else:
                # white space in the case's text is free
                rx = re.compile(r'(?:\s|//[^\n]*\n)+'.join(re.escape(x) for x in a.split()))
                if not rx.search(s):
                    return name, kind, 'EDIT-FAILED', '%s: text not found: %r' % (f, a[:60])
                s = rx.sub(lambda mo: ' ' + b.strip('\n') + '\n', s, count=1)
            open(p, 'w').write(s)
        res = []
        for q in pr:
            if props and q not in props:
                continue
            e = dict(os.environ, SODA_REPO=r, VERIF_EVIDENCE_DIR=os.path.join(d, 'ev'))
            try:
                x = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), q], env=e, cwd=VERIF,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=880)
                rc, outp = x.returncode, x.stdout
            except subprocess.TimeoutExpired:
                rc, outp = 99, 'TIMEOUT'
            und = [l for l in outp.splitlines() if l.startswith('UNDECIDED')]
            first = [l for l in outp.splitlines() if l.startswith('violated') or 'BROKEN' in l or 'Error' in l]
            good = (rc == 1) if kind == 'bug' else (rc == 0)
            res.append((q, rc, good, (first or und or [''])[0][:230], len(und)))
        return name, kind, 'ok' if all(x[2] for x in res) else 'WRONG', res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    k = p = None
    a = sys.argv[1:]
    sub = a[a.index('-k') + 1] if '-k' in a else ''
    props = a[a.index('-p') + 1].split(',') if '-p' in a else None
    force = a[a.index('-f') + 1].split(',') if '-f' in a else None
    if force:
        # the named properties on every behaviour-preserving case
        runs = [(c[0], c[1], force, c[3]) for c in load() if c[1] == 'same' and sub in c[0]]
        props = None
    cases = runs if force else [c for c in load() if sub in c[0] and (not props or set(props) & set(c[2].split() if isinstance(c[2], str) else c[2]))]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for name, kind, verdict, res in ex.map(lambda c: one(c, props), cases):
            if verdict != 'ok':
                bad += 1
            if verdict != 'ok' or '-v' in a:
                print('%-8s %-5s %s' % (verdict, kind, name))
                if isinstance(res, str):
                    print('     ', res)
                else:
                    for q, rc, good, first, nu in res:
                        if not good or '-v' in a:
                            print('      %s rc=%s und=%d %s' % (q, rc, nu, first))
    print('%d cases, %d wrong' % (len(cases), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
