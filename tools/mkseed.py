#!/usr/bin/env python3
"""mkseed.py spec.py [id ...]: materialise planted bugs into /verif/seeded and confirm them in a scratch copy.

spec.py defines SEEDS: {id: dict(property, needs, what, edits=[(file, old, new)], demo=C++ text, [props=True], [files={name: text}])}"""
import json, os, subprocess, sys, shutil, importlib.util
W = os.environ.get('SEED_COPY', '/tmp/w/sd')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo after its build
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -O1 -I include -I _build %s-o "$t/demo" "$here/demo.cxx" %s_build/src/libsodautils.a %s-pthread || exit 4
cp "$here"/*.yaml "$t" 2>/dev/null
cd "$t" && timeout -s KILL %d ./demo
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build():
    r = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DDISABLE_DOXYGEN=ON >/dev/null && ninja -C _build', cwd=W)
    if r.returncode: print(r.stdout[-1500:])
    return r.returncode == 0

def main():
    sp = importlib.util.spec_from_file_location('spec', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.SEEDS)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    if not os.path.isdir(W) or sh('git rev-parse HEAD', cwd=W).stdout.strip() != head:
        shutil.rmtree(W, ignore_errors=True)
        sh('git clone -q /repo ' + W)
    for i in ids:
        s = m.SEEDS[i]
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        sh('git checkout -q -- .', cwd=W)
        if not build(): print(i, 'BASE BUILD FAILED'); return
        props = s.get('props')
        open(d + '/demo.cxx', 'w').write(s['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(SH % ('', '_build/src/libsodaprops.a ' if props else '', '-lyaml-cpp ' if props else '', s.get('timeout', 60)))
        os.chmod(d + '/demo.sh', 0o755)
        for n, t in s.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        if s.get('demo_sh'):
            open(d + '/demo.sh', 'w').write(s['demo_sh'])
            if not s.get('demo'): os.remove(d + '/demo.cxx')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=W)
        ok = True
        for f, a, b in s['edits']:
            p = os.path.join(W, f); t = open(p).read()
            if t.count(a) != 1: print(i, 'EDIT', f, t.count(a), repr(a[:60])); ok = False; break
            open(p, 'w').write(t.replace(a, b))
        if not ok: continue
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
        if not build(): print(i, 'PATCHED BUILD FAILED'); continue
        r1 = sh('bash %s/demo.sh' % d, cwd=W)
        a = sh('ctest --test-dir _build -j8 --timeout 180 2>&1 | tail -12', cwd=W) if not os.environ.get('NOTEST') else None
        print(i, s['property'], 'base', r0.returncode, 'patched', r1.returncode, r1.stdout.strip()[-80:].replace('\n', ' ; '), '' if a is None else [l for l in a.stdout.split('\n') if 'tests passed' in l or 'Failed' in l], 'OK' if r0.returncode == 0 and r1.returncode not in (0, 3, 4) else '**** NOT CONFIRMED ' + r0.stdout[-300:])
        sys.stdout.flush()
    sh('git checkout -q -- .', cwd=W)
main()
