"""G01: every element access, iterator dereference, pointer dereference and failed lookup of the
library, judged at the access with the facts of the path that reaches it.

Entry points are all functions of the library a caller can name.  An access whose condition
follows from the facts holds; one contradicted by them is a violation; one left open is a
violation when the classes of the inputs hold a member that satisfies every condition of the path
and not the one of the access, and undecided otherwise."""
import itertools
import os
import re
import frontend
from .common import *
from .samples import Unknown
from .words import Env, Follow, Stop, NPOS, pv_safe


def opaque_for(f):
    def opq(g):
        if g is f:
            return False
        if g['qn'] in ('SoDa::split', 'SoDa::squashSpaces', 'SoDa::splitVec'):
            return True
        c = g.get('cls') or ''
        if c == 'SoDa::Format' and g.get('access') == 'public':
            return True
        return c.startswith('SoDa::Options') and c != 'SoDa::Options'
    return opq


def declared(P):
    """text of the headers users include"""
    t = ''
    d = os.path.join(frontend.REPO, 'include')
    for n in sorted(os.listdir(d)):
        if n.endswith(('.hxx', '.h', '.hpp', '.in', '.hh')):
            t += open(os.path.join(d, n), errors='replace').read()
    return t


def entries(P):
    """the functions of the library a caller can name"""
    hdr = declared(P)
    for k, f in sorted(P.funcs.items()):
        if not f.get('cls') and not re.search(r'\b%s\s*\(' % re.escape(f['name']), hdr):
            continue
        if f['has'] and not f.get('implicit') and not f.get('deflt') and f['qn'].startswith('SoDa::') \
                and f.get('access') in ('public', None, 'none', ''):
            yield f


TEXTS = ['', ' ', 'x', '%', '-', '=', ',', '  ', 'x ', ' x', 'xy', '--', '-x', 'x=', '%%', '%0', '%a', '{0', '--x', 'x=y', '   ', 'x y', 'T', 'F', '0']
NUMS = [0, 1, 2, 3, 7, 64, -1, 9, 10]
UNUMS = [0, 1, 2, 3, 7, 20, 64, NPOS, 9, 10]


def classes(t):
    """representatives of the values of an argument type, as lists of (term, value) seeds"""
    t = t.replace('const ', '').replace('&', '').strip()
    if t in ('std::string', 'string') or t.startswith('std::basic_string'):
        return TEXTS
    if t in ('bool', '_Bool'):
        return [0, 1]
    if t in ('int', 'long', 'short', 'char', 'signed char'):
        return NUMS
    if t in ('unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'size_t', 'std::size_t'):
        return UNUMS
    if t.startswith(('std::vector<std::string', 'std::list<std::string', 'std::vector<std::basic_string', 'std::list<std::basic_string')):
        return [(), ('',), ('x',), ('x', ''), ('x', 'y', 'z')]
    if t.startswith(('std::vector<', 'std::list<')):
        return [(), (0,), (0, 1)]
    return [None]


def base_loc(l):
    while l[0] in ('f', 'e') and l[1] != THIS:
        l = l[1]
    return l


def fresh(ctx, cls):
    """(fields that a fresh object of the class holds empty, fields of maps some public member
    leaves with an element that holds an empty container)"""
    k = ('fresh', cls)
    if k in ctx.cache:
        return ctx.cache[k]
    out, elems = None, set()
    names = {x['n'] for r in ctx.P.records.values() if r['key'] == cls or r.get('qn') == cls for x in r['fields']}
    for f in ctx.fns_of(cls):
        if f.get('kind') == 'dtor' or f.get('access') not in ('public', None, 'none', ''):
            continue
        try:
            I_, ps = ctx.run(f, key='g01', opaque=opaque_for(f))
        except Exception:
            if f.get('kind') == 'ctor':
                out = set()
            continue
        touched = set()
        for p in ps:
            if p.kind != 'ret':
                continue
            for l, v in p.st.env.items():
                if l[0] == 'e' and l[1][0] == 'f' and l[1][1] == THIS and v == ('c', 'empty'):
                    elems.add(l[1][2])
            for e in all_events(p.ev):
                if e[0] in ('wr', 'init') and base_loc(e[2])[0] == 'f':
                    v = e[3]
                    if not (e[2] == base_loc(e[2]) and v in (('c', 'empty'), ('s', ()))):
                        touched.add(base_loc(e[2])[2])
        if f.get('kind') == 'ctor':
            out = names - touched if out is None else out & (names - touched)
    ctx.cache[k] = (names if out is None else out, elems)
    return ctx.cache[k]


def atoms(c, out):
    """the parts of a condition that are not arithmetic"""
    k = c[0]
    if k in ('le0', 'eq0', 'not'):
        atoms(c[1], out)
    elif k == 'lin':
        for a, n in c[2]:
            atoms(a, out)
    elif k != 'i':
        out.add(c)
    return out


def mentions(t, subs):
    if t in subs:
        return True
    return isinstance(t, tuple) and any(mentions(x, subs) for x in t if isinstance(x, tuple))


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
        if r != t and r[0] == 'op' and r[1] == 'size':
            return clen(r[3])
        if r != t and r[0] == 'lin':
            out = I(r[1])
            for a, n in r[2]:
                out = add(out, mulc(a, n))
            return out
        if r != t and r[0] in ('le0', 'eq0'):
            return le0(r[1]) if r[0] == 'le0' else eq0(r[1])
        if r != t and r[0] == 'not':
            return negate(r[1])
        return r
    return t


def bases(t, out):
    """what a term is about: arguments, fields, loop values, results of calls"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'sym' and isinstance(t[1], tuple):
            if t[1][0] in ('arg', 'f', 'L', 'res'):
                out.add(t)
            if t[1][0] != 'E':
                return out
        if t and t[0] == 'L':
            out.add(t)
            return out
        for x in t:
            bases(x, out)
    return out


def state_of(ctx, f, a):
    """fresh() of the class whose object an atom is about"""
    for y in subterms(a):
        if len(y) == 3 and y[0] == 'sym' and isinstance(y[1], tuple) and y[1][0] == 'f':
            o = y[1][1]
            if o == THIS:
                return fresh(ctx, f['cls']) if f.get('cls') and f.get('kind') in ('fn', 'dtor') else (set(), set())
            if o[0] == 'd' and o[1][0] == 'sym' and len(o[1]) == 3 and isinstance(o[1][2], str) and o[1][2].rstrip().endswith('*'):
                t = o[1][2].rstrip()[:-1].strip()
                if t in ctx.P.records and 'SoDa::MailBox' in t:
                    return fresh(ctx, t)
    return set(), set()


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def owned_by(y):
    return y[0] == 'sym' and y[1][0] == 'f' and (y[1][1] == THIS or y[1][1][0] == 'd')


def domain(ctx, f, a):
    """the values an atom may take whatever the rest does, or None if that is not known"""
    empties, elems = state_of(ctx, f, a)
    if a[0] == 'sym' and a[1][0] == 'arg':
        return [0, 1, 2, 3, NPOS] if 'unsigned' in a[2] else [0, 1, 2, 3, -1]
    if a[0] == 'op' and a[1] in ('size', 'len'):
        x = a[3]
        while x[0] in ('c', 's', 'w') and (x[1] == 'sym' if x[0] == 'c' else True):
            x = x[2] if x[0] == 'c' else (x[1][0] if x[0] == 's' and len(x[1]) == 1 else x[1] if x[0] == 'w' else None)
            if x is None:
                return None
        if x[0] != 'sym':
            return None
        if x[1][0] == 'arg':
            return [0, 1, 2, 3]
        if owned_by(x) and x[1][2] in empties - elems:
            return [0]
        if owned_by(x) and x[1][2] in elems:
            return [0, 1, 2, 3]
        if x[1][0] == 'E':
            b = bases(x[1][1], set())
            if all(y[1][0] == 'arg' for y in b if y[0] == 'sym') and not any(y[0] == 'L' for y in b) and 'string' in x[2]:
                return [0, 1, 2, 3]
            y = x[1][1]
            if y[0] == 'c' and y[1] == 'sym':
                y = y[2]
            if owned_by(y) and y[1][2] in elems:
                return [0, 1, 2]
        return None
    if a[0] == 'eqt' and ('null',) in a[1:]:
        b = bases(a, set())
        if len(b) and all(x[0] == 'sym' and (x[1][0] == 'arg' or x[1][0] == 'f' and (x[1][1] != THIS or x[1][2] in elems)) for x in b):
            return [0, 1]
        return None
    if a[0] == 'op' and a[1] == 'has':
        y = a[3]
        if y[0] == 'c' and y[1] == 'sym':
            y = y[2]
        if y[0] == 'sym' and (y[1][0] == 'arg' or owned_by(y) and y[1][2] in empties - elems):
            return [0]
        if owned_by(y) and y[1][2] in elems:
            return [0, 1]
        return None
    return None


def first_round(rec):
    """the values the loop variables have in the first iteration"""
    h = rec.heads.get(rec.entry_key)
    m = {}
    for l in rec.M:
        if h is None or l not in h.env or l not in rec.entry.env:
            continue
        hv, ev = h.env[l], rec.entry.env[l]
        if hv[0] == 's' and len(hv[1]) == 1 and hv[1][0][0] == 'w' and ev[0] == 's' and len(ev[1]) == 1 and ev[1][0][0] == 'w':
            m[hv[1][0][1]] = ev[1][0][1]
        elif hv[0] == 'c' and hv[1] == 'sym' and ev[0] == 'c' and ev[1] == 'sym':
            m[hv[2]] = ev[2]
        elif hv[0] == 'c' and hv[1] == 'sym' and ev[0] == 'c':
            m[hv] = ev
        elif hv[0] in ('L', 'sym'):
            m[hv] = ev
    return m


def literals(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'lit' and isinstance(t[1], str):
            out.add(t[1])
        for x in t:
            literals(x, out)


def text_leaves(a, out):
    """the texts given by the caller that a condition is about, or None if it is about more"""
    def go(t):
        if not isinstance(t, tuple):
            return True
        if len(t) == 3 and t[0] == 'sym' and isinstance(t[1], tuple):
            if 'string' in str(t[2]) or t[2] == '?':
                y = t
                if y[1][0] == 'E' and y[1][2][0] == 'i' and y[1][1][0] == 'sym':
                    y = y[1][1]
                if y[1][0] == 'arg' and ('string' in str(y[2])):
                    if y is t and ('list' in y[2] or 'vector' in y[2]):
                        return False
                    out.add(t)
                    return True
            return False
        if t and t[0] == 'L':
            return False
        if t and t[0] == 'op' and t[1] == 'size':
            return False
        return all(go(x) for x in t)
    return out if go(a) and out else None


def counter(ctx, f, cond, pcs, enclosing):
    """a choice of free quantities under which the path is taken and the access is outside"""
    m = {}
    for rec in enclosing:
        m.update(first_round(rec))
    for i in range(4):
        cond = subst(cond, m)
        pcs = [(subst(c, m), pol) for c, pol in pcs]
    rel = atoms(cond, set())
    if not rel:
        return None
    used = []
    rest = list(pcs)
    while True:
        b = set()
        for a in rel:
            bases(a, b)
        more = [x for x in rest if atoms(x[0], set()) & rel or bases(x[0], set()) & b]
        if not more:
            break
        for x in more:
            rest.remove(x)
            used.append(x)
            rel |= atoms(x[0], set())
    doms = {}
    lits = set()
    literals((cond, tuple(c for c, pol in used)), lits)
    for a in sorted(rel, key=str):
        ls = text_leaves(a, set())
        if ls is not None:
            for l in ls:
                doms[l] = TEXTS[:20] + sorted(lits) + sorted(x + 'x' for x in lits)
            continue
        d = domain(ctx, f, a)
        if d is None:
            return None
        doms[a] = d
    n = 1
    for d in doms.values():
        n *= len(d)
    if n > 60000:
        return None
    ks = list(doms)
    for vals in itertools.product(*[doms[k] for k in ks]):
        env = Env(dict(zip(ks, vals)))
        if any(v == 0 and k[0] == 'op' and k[1] == 'size' and any(h[0] == 'op' and h[1] == 'has' and env.m[h] and h[3] == k[3] for h in ks) for k, v in zip(ks, vals)):
            continue            # an empty container holds nothing
        try:
            if not env.cond(cond) and all(env.cond(c) == pol for c, pol in used):
                return dict(zip([pv_safe(k) for k in ks], vals))
        except Unknown:
            return None
    return None


class Watch(Follow):
    """a representative followed along a path up to the access that fails for it"""

    def __init__(self):
        Follow.__init__(self, 30)
        self.hit = None

    def walk(self, ev, pcs, env):
        for e in ev:
            if e[0] == 'bound' and e[5] is not True and self.hit is None:
                try:
                    if all(env.cond(c) == pol for c, pol, ln in e[4].pc) and not env.cond(e[3]):
                        self.hit = e
                        raise Stop()
                except Unknown:
                    pass
            if e[0] == 'loop':
                rec, key, kind = e[2], e[3], e[4]
                if not all(env.cond(c) == pol for c, pol, ln in rec.entry.F.pc):
                    return False
                if not self.loop(rec, key, kind, env, pcs):
                    return False
        return all(env.cond(c) == pol for c, pol, ln in pcs)


def seeds(f):
    doms, names = [], []
    for i, p in enumerate(f['params']):
        c = classes(p['t'])
        if c == [None]:
            continue
        names.append((i, p['t'].replace('const ', '').replace('&', '').strip()))
        doms.append(list(c))
    while True:
        n = 1
        for d in doms:
            n *= len(d)
        if n <= 3000:
            break
        j = max(range(len(doms)), key=lambda x: len(doms[x]))
        doms[j] = doms[j][:max(2, len(doms[j]) // 2)]
    for vals in itertools.product(*doms):
        m = {}
        for (i, t), v in zip(names, vals):
            T = ('sym', ('arg', i), t)
            m[T] = v
            if isinstance(v, str):
                m[('s', (('w', T),))] = v
            if isinstance(v, tuple):
                m[('c', 'sym', T)] = v
            if isinstance(v, int):
                m[('not', ('eq0', T))] = v != 0
                m[('eq0', T)] = v == 0
        yield m, ', '.join('%s=%r' % (f['params'][i]['n'] or i, v) for (i, t), v in zip(names, vals))


def witness(f, ps):
    """an input class for which an open access is outside"""
    for m, label in seeds(f):
        for p in ps:
            if p.st.imprecise:
                continue
            w = Watch()
            try:
                w.walk(p.ev, p.st.F.pc, Env(m))
            except Stop:
                pass
            except Unknown:
                pass
            except Exception:
                pass
            if w.hit is not None:
                return w.hit, label, p
    return None


def with_loops(ev, inside=(), seen=None):
    seen = set() if seen is None else seen
    for e in ev:
        yield e, inside
        if e[0] == 'loop':
            rec = e[2]
            if id(rec) in seen:
                continue
            seen.add(id(rec))
            for k, h, b, bk in rec.iters:
                yield from with_loops(b.ev, inside + (rec,), seen)
            for k, kind, s, v in rec.exits:
                yield from with_loops(s.ev, inside + (rec,), seen)


def member_value(F, v):
    """is v the value a map holds for a key known to be in it"""
    if v[0] != 'sym' or v[1][0] != 'E':
        return False
    c, k = v[1][1], v[1][2]
    if F.decide(('op', 'has', 'bool', c, k)) is True or F.decide(('op', 'has', 'bool', ('c', 'sym', c), k)) is True:
        return True
    return "'elt'" in str(k) or "'pos'" in str(k)


def G01(ctx):
    n = 0
    for f in entries(ctx.P):
        n += guarded(ctx, 'inside', ctx.loc(f), lambda: one(ctx, f)) or 0
    if not n:
        raise Anchor('no public operation of the library')


def one(ctx, f):
    I_, ps = ctx.run(f, key='g01', opaque=opaque_for(f))
    marks, opened = {}, []
    for p in ps:
        for e, inside in with_loops(p.ev):
            if e[0] == 'bound':
                k = ('inside', '%s line %s: %s' % (f['qn'], e[1], e[2]))
                if e[5] is True:
                    marks.setdefault(k, True)
                elif p.st.imprecise:
                    marks.setdefault(k, None)
                    marks[k] = marks[k] and None
                elif e[5] is False:
                    marks[k] = False
                    ctx.bad(k[0], k[1], 'the access is outside on every run of this path: needs %s' % pv_safe(e[3]), p)
                else:
                    if marks.get(k) is not False:
                        marks[k] = None
                    opened.append((k, e, inside, p))
            elif e[0] == 'dangling':
                k = ('follow', '%s line %s: %s' % (f['qn'], e[1], e[2]))
                if marks.get(k) is False:
                    continue
                marks[k] = False
                ctx.bad(k[0], k[1], '%s refers to an element that was removed at line %s' % (e[2], e[3]), p)
            elif e[0] == 'deref':
                v = e[2]
                k = ('follow', '%s line %s: %s' % (f['qn'], e[1], pv_safe(v)[:100]))
                if e[4] is not True and v[0] == 'sym' and v[1][0] in ('arg', 'f'):
                    continue        # given by the caller or by the owner of the object, not looked up
                if v[0] == 'ptr' or e[4] is False or member_value(e[3], v):
                    marks.setdefault(k, True)
                elif p.st.imprecise:
                    marks[k] = None
                elif e[4] is True or v[0] == 'null':
                    marks[k] = False
                    ctx.bad(k[0], k[1], 'a pointer that is null on this path is followed', p)
                else:
                    marks[k] = None
    hit = None
    if opened:
        for k, e, inside, p in opened:
            if marks[k] is False:
                continue
            w = counter(ctx, f, e[3], [(c, pol) for c, pol, ln in e[4].pc], inside)
            if w:
                marks[k] = False
                ctx.bad(k[0], k[1], 'nothing on the path excludes an access outside: needs %s, fails for %s' % (pv_safe(e[3]), w), p)
        if any(marks[k] is None for k, e, i, p in opened):
            h = witness(f, ps)
            if h:
                e, label, p = h
                k = ('inside', '%s line %s: %s' % (f['qn'], e[1], e[2]))
                marks[k] = False
                ctx.bad(k[0], k[1], 'the access is outside for %s: needs %s' % (label, pv_safe(e[3])), p)
    for k, v in sorted(marks.items()):
        if v is True:
            ctx.ok(*k)
        elif v is None:
            ctx.unk(k[0], k[1], 'not shown to be inside')
    return 1
