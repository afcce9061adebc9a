"""V01: the strings reported by UtilsBase are those of the build configuration."""
import json
import re
import shutil
import subprocess
import tempfile
import frontend
from .common import *


def traced(ctx):
    """values CMake itself gives the version variables, from its expanded execution trace"""
    d = tempfile.mkdtemp(prefix='soda-ver-')
    try:
        t = os.path.join(d, 'trace')
        r = subprocess.run(['cmake', '-S', frontend.REPO, '-B', os.path.join(d, 'b'), '-G', 'Ninja', '-DDISABLE_DOXYGEN=ON',
                            '--trace-expand', '--trace-format=json-v1', '--trace-redirect=' + t],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Undecided('cmake: ' + r.stdout[-300:])
        vals, conf = {}, None
        for l in open(t, errors='replace'):
            try:
                x = json.loads(l)
            except ValueError:
                continue
            c = x.get('cmd', '').lower()
            a = x.get('args', [])
            if c == 'set' and len(a) >= 2 and a[0].startswith('SoDaUtils_'):
                vals[a[0]] = a[1]
            if c == 'configure_file' and any('ersion.hxx' in y for y in a):
                conf = dict(vals)
                conf['#out'] = a[1] if os.path.isabs(a[1]) else os.path.join(d, 'b', a[1])
        if conf is None:
            raise Undecided('no configured version header')
        conf['#text'] = open(conf['#out']).read()
        return conf
    finally:
        shutil.rmtree(d, ignore_errors=True)


def git_id():
    def g(*a):
        r = subprocess.run(['git'] + list(a), cwd=frontend.REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return r.stdout.strip() if r.returncode == 0 else None
    if not os.path.isdir(os.path.join(frontend.REPO, '.git')):
        return None
    b, h = g('rev-parse', '--abbrev-ref', 'HEAD'), g('log', '-1', '--format=%h')
    return '%s:%s' % (b, h) if b and h else None


def lit(v):
    if v is not None and v[0] == 's' and all(p[0] == 'lit' for p in v[1]):
        return ''.join(p[1] for p in v[1])
    return None


def V01(ctx):
    P = ctx.P
    base = 'SoDa::UtilsBase'
    if base not in P.records:
        raise Anchor(base)
    conf = traced(ctx)
    want = {'getVersion': conf.get('SoDaUtils_VERSION'), 'getGitID': conf.get('SoDaUtils_GIT_ID')}
    parts = [conf.get('SoDaUtils_VERSION_' + x) for x in ('MAJOR', 'MINOR', 'PATCH')]
    if all(parts):
        ctx.check(want['getVersion'] == '.'.join(parts), 'configured-version', 'CMakeLists.txt', 'version %s is not %s' % (want['getVersion'], '.'.join(parts)))
    gid = git_id()
    if gid:
        ctx.check(want['getGitID'] == gid, 'configured-source-id', 'CMakeLists.txt', 'the configured source identification %s is not %s' % (want['getGitID'], gid))
    macros = dict(re.findall(r'#[ \t]*define[ \t]+(\w+)[ \t]+(.*)', conf['#text']))
    for x, p in zip(('MAJOR', 'MINOR', 'PATCH'), parts):
        m = macros.get('SoDaUtils_VERSION_' + x)
        if p is not None and m is not None:
            ctx.check(m.strip() == p, 'configured-header', 'SoDaUtils_VERSION_' + x, 'the header says %s, the configuration %s' % (m, p))
    reported(ctx, ctx, want)
    # the same code built under other configurations
    for ver, gid in OTHERS:
        major, minor, patch = ver.split('.')
        other = {'SoDaUtils_VERSION': '"%s"' % ver, 'SoDaUtils_GIT_ID': '"%s"' % gid, 'SoDaUtils_VERSION_MAJOR': major,
                 'SoDaUtils_VERSION_MINOR': minor, 'SoDaUtils_VERSION_PATCH': patch}
        missing = [k for k in ('SoDaUtils_VERSION', 'SoDaUtils_GIT_ID') if k not in macros]
        if missing:
            ctx.unk('reports-configured', ver, 'the configured header does not define %s' % missing[0])
            break
        try:
            P2 = frontend.load(conf=other)
        except frontend.FrontError as e:
            ctx.unk('reports-configured', 'configured as %s, %s' % (ver, gid), str(e)[-200:])
            continue
        reported(ctx, Ctx(P2, 'V01'), {'getVersion': ver, 'getGitID': gid})


OTHERS = (('2.1.7-rc1', 'main:1'), ('10.22.333', 'feature/a-b_c:0abcdef'), ('0.0.1', 'UNKNOWN'), ('4.10.0', ''),
          ('123456.0.98765', 'release/%s:0123456789abcdef' % '-'.join('a long branch name no %d' % i for i in range(12))))


def reported(ctx, cx, want):
    """what the library's objects report, with the program of cx, is what is wanted"""
    P, base = cx.P, 'SoDa::UtilsBase'
    classes = [c for c in P.records if c == base or base in P.records[c]['pubanc'] or any(strip(b['t']) == base for b in P.records[c]['bases'])]
    for name in ('getVersion', 'getGitID'):
        fs = [f for c in classes for f in cx.fns_of(c, name)]
        ctx.need([f for f in fs if f['cls'] == base], base + '::' + name)
        for f in fs:
            if f['params']:
                continue

            def one():
                I_, ps = cx.run(f)
                for p in ps:
                    v = lit(p.val) if p.kind == 'ret' else None
                    if p.kind != 'ret':
                        ctx.bad('reports-configured', ctx.loc(f), 'throws %s' % p.st.exc, p)
                    elif want[name] is None:
                        ctx.unk('reports-configured', ctx.loc(f), 'configuration value not found')
                    elif v is None:
                        ctx.check(None if p.st.imprecise or p.val[0] != 's' else False, 'reports-configured', ctx.loc(f), 'reports %s, not the constant %s' % (pv(p.val), want[name]), p)
                    else:
                        ok = v == want[name] or (name == 'getGitID' and same_id(v, want[name]))
                        ctx.check(ok, 'reports-configured', ctx.loc(f), 'reports "%s" but was configured as "%s"' % (v, want[name]), p)
            guarded(ctx, 'reports-configured', ctx.loc(f), one)


def same_id(a, b):
    return a == b
