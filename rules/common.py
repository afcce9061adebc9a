"""Shared plumbing of the rules: obligations, violations, path helpers."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from terms import *           # noqa
import absint                 # noqa
from absint import Interp, Undecided, Path   # noqa
import pretty                 # noqa
from pretty import pv, ploc, pe, pp   # noqa

THIS = ('obj', 'this')


class Ctx:
    def __init__(self, P, prop):
        self.P, self.prop = P, prop
        self.viol = []          # dict(rule, where, what, path)
        self.und = []
        self.obls = []          # (rule, where, ok)
        self.fns = set()
        self.paths = 0
        self.loops = 0
        self.sites = 0
        self.cache = {}

    # ---- recording
    def ok(self, rule, where):
        self.obls.append((rule, where, True))

    def bad(self, rule, where, what, path=None, line=None):
        self.obls.append((rule, where, False))
        d = dict(rule=rule, where=where, what=what)
        if path is not None:
            d['path'] = self.show(path) if not isinstance(path, list) else path
        if not any(v['rule'] == rule and v['where'] == where and v['what'] == what for v in self.viol):
            self.viol.append(d)

    def unk(self, rule, where, why):
        self.obls.append((rule, where, None))
        if (rule, where, why) not in self.und:
            self.und.append((rule, where, why))

    def check(self, cond, rule, where, what, path=None):
        """cond True/False/None"""
        if cond is True:
            self.ok(rule, where)
        elif cond is False:
            if path is not None and getattr(path, 'st', None) is not None and imprecise(path):
                self.unk(rule, where, what + ' (imprecise: %s)' % (imprecise(path)[:2],))
            else:
                self.bad(rule, where, what, path)
        else:
            self.unk(rule, where, what)
        return cond

    def show(self, p):
        out = ['exit: %s %s' % (p.kind, p.st.exc or '')]
        for c, pol, ln in p.st.F.pc[-25:]:
            out.append('assume@%s %s%s' % (ln, '' if pol else 'not ', pv(c)))
        for e in p.ev:
            if e[0] not in ('rd', 'deref', 'bound'):
                try:
                    out.append(pe(e))
                except Exception:
                    out.append(str(e[:3]))
        return [x[:300] for x in out][:80]

    # ---- lookup
    def loc(self, f):
        return '%s (%s:%s)' % (f['qn'], os.path.basename(f.get('file') or '?'), f.get('line'))

    def fns_of(self, cls, name=None, access=None):
        r = [f for f in self.P.funcs.values() if f.get('cls') == cls and (name is None or f['name'] == name)
             and not f.get('implicit') and not f.get('deflt') and not f.get('deleted') and f['has']]
        if access:
            r = [f for f in r if f['access'] == access]
        return sorted(r, key=lambda f: (f.get('line') or 0, f['key']))

    def need(self, fs, what):
        if not fs:
            raise Anchor(what)
        return fs

    # ---- running
    def run(self, fn, key=None, **kw):
        k = (fn['key'], key)
        if key is not None or not kw:
            if k in self.cache:
                return self.cache[k]
        ikw = {x: kw.pop(x) for x in ('opaque', 'shared', 'hooks') if x in kw}
        I = Interp(self.P, **ikw)
        ps = I.run(fn, **kw)
        for p in ps:
            p.I = I
            p.fn = fn
        self.fns |= I.analysed
        self.paths += len(ps)
        self.loops += len(I.loops)
        self.sites += I.sites
        self.cache[k] = (I, ps)
        return I, ps


class Anchor(Exception):
    """a public name the rule is about is gone"""


def guarded(ctx, rule, where, fn):
    """run one rule instance; an unexpected shape leaves it undecided, never a verdict"""
    try:
        return fn()
    except (Anchor, KeyboardInterrupt, MemoryError):
        raise
    except Undecided as e:
        ctx.unk(rule, where, 'not analysable: %s' % e)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        ctx.unk(rule, where, 'analysis gave up: %r at %s:%s' % (e, os.path.basename(tb.filename), tb.lineno))
    return None


# ---------------------------------------------------------------- events
def all_events(ev, seen=None):
    """events of a path, descending into loop iterations and exits"""
    seen = set() if seen is None else seen
    for e in ev:
        yield e
        if e[0] == 'loop':
            rec = e[2]
            if id(rec) in seen:
                continue
            seen.add(id(rec))
            for k, h, b, bk in rec.iters:
                for x in all_events(b.ev, seen):
                    yield x
            for k, kind, s, v in rec.exits:
                for x in all_events(s.ev, seen):
                    yield x


def imprecise(p):
    """what the analysis does not model on a path or in the loops it goes through"""
    out = tuple(p.st.imprecise)
    for rec in loops_of(p.ev):
        for k, h, b, bk in rec.iters:
            out += tuple(b.imprecise)
    return out


def loops_of(ev, seen=None):
    seen = [] if seen is None else seen
    for e in ev:
        if e[0] == 'loop' and e[2] not in seen:
            seen.append(e[2])
            for k, h, b, bk in e[2].iters:
                loops_of(b.ev, seen)
            for k, kind, s, v in e[2].exits:
                loops_of(s.ev, seen)
    return seen


def written_fields(P, cls):
    """fields of a class assigned or mutated anywhere outside its constructors and destructor"""
    out = set()
    fields = {f['n']: f['t'] for f in P.records[cls]['fields']}

    def walk(x, inw=False):
        if isinstance(x, list):
            for y in x:
                walk(y)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        t = None
        if k == 'asg':
            t = x['a']
        elif k == 'un' and x.get('op') in ('++', '--', 'post++', 'post--'):
            t = x['e']
        elif k == 'call' and x.get('obj') is not None and not x.get('const'):
            t = x['obj']
        if t is not None:
            hit(t)
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v)

    def hit(t):
        while isinstance(t, dict):
            if t.get('k') == 'mem' and t.get('n') in fields:
                out.add(t['n'])
                return
            if t.get('k') in ('mem',):
                t = t.get('b')
            elif t.get('k') in ('ld', 'tmp', 'cast', 'un'):
                t = t.get('e')
            elif t.get('k') == 'call':
                t = t.get('obj')
            elif t.get('k') == 'idx':
                t = t.get('b')
            else:
                return
    for f in P.funcs.values():
        if not f['has'] or f.get('cls') is None:
            continue
        if f['cls'] != cls and not f['cls'].startswith(cls + '::'):
            continue
        if f['kind'] in ('ctor', 'dtor') and f['cls'] == cls:
            continue
        walk(f.get('body'))
        # references to fields handed around (auto & q = field)
        def refs(x):
            if isinstance(x, dict):
                if x.get('k') == 'decl':
                    for v in x['v']:
                        if v.get('ref') and v.get('init'):
                            hit(v['init'])
                if x.get('k') == 'rfor':
                    hit(x['r'])
                for y in x.values():
                    refs(y)
            elif isinstance(x, list):
                for y in x:
                    refs(y)
        refs(f.get('body'))
    bad = ('std::mutex', 'std::recursive_mutex', 'std::condition_variable', 'std::condition_variable_any', 'std::shared_mutex', 'std::timed_mutex')
    return {n: fields[n] for n in out if strip(fields[n]) not in bad}


def mutexes(P, cls):
    return [f['n'] for f in P.records[cls]['fields'] if 'mutex' in f['t']]


def owner(loc):
    """(object, field) a location belongs to, or None"""
    while loc[0] in ('f', 'e', 'pf', 'idx'):
        if loc[0] == 'f' and loc[1][0] in ('obj', 'd', 'h'):
            return loc[1], loc[2]
        loc = loc[1]
    return None


def exc_is(P, t, anc):
    t = strip(t)
    if t == anc:
        return True
    r = P.records.get(t)
    if r is not None:
        return anc in r['pubanc'] or any(anc in absint.STD_EXC.get(a, ()) for a in r['pubanc'])
    return anc in absint.STD_EXC.get(t, ())


def where(P, line, fn=None):
    return '%s line %s' % (fn, line)


def cuts(ctx, rule, w, ps, of, into=None):
    """texts that may hold any character are not passed on as texts ending at the first NUL; of(value) -> the text is such a text"""
    hit = False
    for p in ps:
        for e in all_events(p.ev):
            if e[0] == 'cut0' and not hit and of(e[2]) and (into is None or into(e[3])):
                ctx.bad(rule, w, 'the text is passed on as a pointer: everything after a NUL character in it is lost (line %s)' % e[1], p)
                hit = True
    if not hit:
        ctx.ok(rule, w)


def free_text(v):
    """a text made of strings given from outside or held in objects"""
    if not isinstance(v, tuple):
        return False
    if v[:1] == ('w',) and v[1][0] == 'sym':
        return True
    if v[:1] == ('sym',):
        return len(v) > 2 and strip(v[2]) == 'std::string'
    if v[:1] == ('s',):
        return any(free_text(q) for q in v[1])
    if v[:1] == ('sub',):
        return free_text(v[1])
    return False


def is_static(l):
    while isinstance(l, tuple) and l and l[0] in ('f', 'e', 'pf', 'idx'):
        l = l[1]
    return isinstance(l, tuple) and len(l) > 1 and l[0] == 'g' and isinstance(l[1], str) and not l[1].startswith('std::')


def rootloc(l):
    while isinstance(l, tuple) and l and l[0] in ('f', 'e', 'pf', 'idx'):
        l = l[1]
    return l


def mentions(t, g, memo=None):
    """does a term depend on what the variable g held before"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ('sym', 'L') and any(isinstance(x, tuple) and rootloc(x) == g for x in t[1:]):
        return True
    return any(mentions(x, g) for x in t if isinstance(x, tuple))


def carried(ctx, rule, f, ps, w=None):
    """what a call leaves in a variable that outlives it does not come back in a later call"""
    w = w or ctx.loc(f)
    wr, vis = {}, {}
    for p in ps:
        for e in all_events(p.ev):
            if e[0] == 'wr' and is_static(e[2]):
                wr.setdefault(rootloc(e[2]), e[1])
            if e[0] == 'loop':
                for m in e[2].M:
                    if is_static(m):
                        wr.setdefault(rootloc(m), e[2].line)
    for g in wr:
        hit = soft = None
        for p in ps:
            # values the call hands out or stores
            outs = [p.val] + [v for l, v in p.st.env.items() if rootloc(l) != g and rootloc(l)[0] not in ('v', 't')]
            outs += [e[3] for e in all_events(p.ev) if e[0] == 'wr' and rootloc(e[2]) != g and rootloc(e[2])[0] not in ('v', 't')]
            if p.kind == 'throw':
                outs.append(getattr(p.st.exc, 'val', None))
            if any(mentions(v, g) for v in outs if v is not None) and not reset_before(p, g):
                hit = hit or p
            elif any(mentions(c, g) for c, pol, ln in p.st.F.pc):
                soft = soft or p
        name = str(g[1]).replace('static:', '')
        if hit is not None:
            ctx.bad(rule, w, 'what an earlier call left in %s (line %s) becomes part of the result of a later one' % (name.split(':')[0], wr[g]), hit)
        elif soft is not None:
            ctx.unk(rule, w, 'the result may depend on %s, which outlives the call' % name.split(':')[0])
        else:
            ctx.ok(rule, w)
    if not wr:
        ctx.ok(rule, w)


def reset_before(p, g):
    """the variable has a value of this call before anything reads it"""
    for e in p.ev:
        if e[0] == 'wr' and rootloc(e[2]) == g and not mentions(e[3], g):
            return True
        if e[0] == 'rd' and rootloc(e[2]) == g:
            return False
        if e[0] == 'loop' and any(rootloc(m) == g for m in e[2].M):
            v = e[2].entry.env.get(g)
            return v is not None and not mentions(v, g)
    return False
