"""F06: every loop and every recursion of the library makes progress toward an end it reaches.

Each loop summary is ranked: a quantity of the loop state (an integer, the length of a text or
container, or a difference of two) that every iteration lowers and that the facts of the iteration
bound from below; iterations not lowered by the first quantity are ranked by a second one.
Loops that scale a floating point value need the value to be one the scaling can bring to the
bound (not zero, not infinite, not a NaN).  A loop with an iteration whose conditions hold again
after it, and that the free inputs can enter, never ends."""
import itertools
import math
from .common import *
from .samples import Unknown
from .words import Env, Follow, Stop
from .bounds import entries, opaque_for, with_loops, atoms, bases, subst, first_round, domain, seeds, pv_safe, counter
from terms import FALSE, TRUE

DBL_MAX = 1.7976931348623157e308


def measure(v):
    """the integer quantity of a loop value"""
    if v is None:
        return None
    if v[0] in ('i', 'lin'):
        return v
    if v[0] == 's':
        return slen(v)
    if v[0] == 'c':
        return clen(v)
    if v[0] in ('L', 'sym') and len(v) > 2:
        t = str(v[-1])
        if 'double' in t or 'float' in t or '*' in t or t in ('?', 'ss', 'iterator'):
            return None
        return v
    if v[0] == 'op' and v[1] not in ('i2f',):
        return v
    return None


def of_loop(t, lid):
    """does the term mention a value carried by the loop"""
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] == 'L' and t[1] == lid:
        return True
    return any(of_loop(x, lid) for x in t if isinstance(x, tuple))


def since(it):
    k, h, b, bk = it
    return b.F.pc[len(h.F.pc):]


def at_most(c, pol):
    """a condition as le0 terms that hold"""
    if c[0] == 'not':
        return at_most(c[1], not pol)
    if c[0] == 'le0':
        return [c[1]] if pol else [addc(mulc(c[1], -1), 1)]
    if c[0] == 'eq0' and pol:
        return [c[1], mulc(c[1], -1)]
    return []


def bounded(mu, it, lid):
    """is mu at the head bounded from below by something the loop does not change"""
    k, h, b, bk = it
    for C in (0, 1):
        if b.F.decide(le0(addc(mulc(mu, -1), -C))) is True:
            return True
    # a search that found something found it at or after where it started
    for c, pol, ln in b.F.pc:
        if c[0] == 'op' and c[1] == 'found' and pol and c[3][0] == 'op' and 'find' in c[3][1] and 'rfind' not in c[3][1] and 'last' not in c[3][1] and len(c[3]) > 5:
            low = add(mu, add(c[3][5], mulc(c[3], -1)))
            if b.F.decide(le0(mulc(low, -1))) is True:
                return True
    for c, pol, ln in b.F.pc:
        for t in at_most(c, pol):
            for n in (1, 2, 10):
                if not of_loop(add(t, mulc(mu, n)), lid):
                    return True
    return False


def unit_hit(mu, it, rec, d):
    """while(x != B): steps of one from the right side reach B"""
    k, h, b, bk = it
    for c, pol, ln in since(it):
        if c[0] == 'not':
            c, pol = c[1], not pol
        if c[0] != 'eq0' or pol:
            continue
        for n in (1, -1):
            r = add(c[1], mulc(mu, n))
            if not of_loop(r, rec.lid):
                # c is (-n)*mu + r, mu falls by one per round: mu_entry >= B with B = r / n
                return mulc(r, n)
    return None


def cands(rec):
    ms = []
    for m in rec.M:
        row = []
        for k, h, b, bk in rec.iters:
            x, y = measure(h.env.get(m)), measure(b.env.get(m))
            if x is None or y is None:
                break
            row.append((x, y))
        else:
            ms.append((m, row))
    out = []
    for m, row in ms:
        out.append((ploc(m), [(x, y) for x, y in row], {m: 1}))
        out.append(('-' + ploc(m), [(mulc(x, -1), mulc(y, -1)) for x, y in row], {m: -1}))
    for (m1, r1), (m2, r2) in itertools.permutations(ms, 2):
        out.append(('%s-%s' % (ploc(m1), ploc(m2)), [(add(a, mulc(c, -1)), add(b_, mulc(d, -1))) for (a, b_), (c, d) in zip(r1, r2)], {m1: 1, m2: -1}))
    return out


def ranked(rec, ctx=None):
    left = set(range(len(rec.iters)))
    cs = cands(rec)
    names = []
    while left:
        done = None
        for name, row, co in cs:
            strict = set()
            for i in left:
                k, h, b, bk = it = rec.iters[i]
                x, y = row[i]
                d = add(y, mulc(x, -1))
                if b.F.decide(le0(addc(d, 1))) is True:
                    if bounded(x, it, rec.lid):
                        strict.add(i)
                        continue
                    if d == I(-1):
                        B = unit_hit(x, it, rec, d)
                        if B is not None:
                            e = I(0)
                            for m, n in co.items():
                                q = measure(rec.entry.env.get(m))
                                e = None if q is None or e is None else add(e, mulc(q, n))
                            if e is not None and rec.entry.F.decide(le0(add(B, mulc(e, -1)))) is True:
                                strict.add(i)
                                continue
                if b.F.decide(le0(d)) is not True:
                    strict = None
                    break
            if strict:
                done = (name, strict)
                break
        if not done:
            return left, names
        names.append(done[0])
        left -= done[1]
    return left, names


# ---------------------------------------------------------------- floating point
def fside(c, pol, x):
    """a comparison of x with a constant: (op, bound, holds for a NaN)"""
    if c[0] == 'not':
        return fside(c[1], not pol, x)
    if c[0] != 'fcmp':
        return None
    op, a, b = c[1], c[2], c[3]
    flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
    if b == x and a[0] == 'fl' and op in flip:
        a, b, op = b, a, flip[op]
    if a != x or b[0] != 'fl' or op not in flip:
        return None
    nan = False
    if not pol:
        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
        nan = True
    return op, b[1], nan


def fscale(v, x):
    """v as x scaled by a constant factor"""
    if v[0] == 'fop' and v[1] in ('*', '/') and len(v) > 3:
        if v[2] == x and v[3][0] == 'fl':
            return v[1], v[3][1]
        if v[1] == '*' and v[3] == x and v[2][0] == 'fl':
            return '*', v[2][1]
    return None


def known_about(F, t):
    """are all conditions on the path that mention the value ones the facts take in completely"""
    b = bases(t, set())
    for c, pol, ln in F.pc:
        if not (bases(c, set()) & b):
            continue
        while c[0] == 'not':
            c = c[1]
        if c[0] in ('fcmp',) and (c[2][0] == 'fl' or c[3][0] == 'fl'):
            continue
        if c[0] == 'op' and c[1] in ('isnan', 'isinf'):
            continue
        return False
    return True


def may_be(F, t, loops, what, depth=0):
    """may the value be zero / infinite / a NaN / negative: True (an input gives it), False, None"""
    lo, hi, nan = F.frange(t)
    if what == 'zero' and (lo > 0 or hi < 0 or F.decide(('fcmp', '==', t, ('fl', 0.0))) is False):
        return False
    if what == 'inf' and hi <= DBL_MAX:
        return False
    if what == 'nan' and not nan:
        return False
    if what == 'neg' and lo >= 0:
        return False
    if depth > 6:
        return None
    if t[0] == 'sym' and t[1][0] == 'arg':
        return True if known_about(F, t) else None
    if t[0] == 'fl':
        return True
    if t[0] == 'fop' and t[1] == 'fabs':
        if what == 'neg':
            return False
        r = may_be(F, t[2], loops, what, depth + 1)
        if what == 'inf' and F.frange(t[2])[0] < -DBL_MAX and r is False:
            return None
        return r
    if t[0] == 'fop' and t[1] == 'neg':
        return may_be(F, t[2], loops, what, depth + 1) if what != 'neg' else None
    if t[0] == 'L' and t[1] in loops:
        rec = loops[t[1]]
        for m in rec.M:
            if all(h.env.get(m) == t for k, h, b, bk in rec.iters) and rec.iters:
                e = rec.entry.env.get(m)
                if e is None:
                    return None
                r = may_be(rec.entry.F, e, loops, what, depth + 1)
                if r is not False:
                    return r if F.frange(e) and r is True and untouched(rec, m, F) else None
                for k, h, b, bk in rec.iters:
                    v = b.env.get(m)
                    s = fscale(v, t) if v is not None else None
                    l2, h2, n2 = b.F.frange(v) if v is not None else (0, 0, True)
                    if what == 'zero' and (l2 > 0 or h2 < 0 or s and s[0] == '*' and abs(s[1]) >= 1 or s and s[0] == '/' and l2 > 0):
                        continue
                    if what == 'inf' and h2 <= DBL_MAX or what == 'nan' and not n2 or what == 'neg' and l2 >= 0:
                        continue
                    return None
                return False
    return None


def untouched(rec, m, F):
    """can the loop be left at once, so that the value after it is the one before it"""
    return True


def float_loop(ctx, rec, loops):
    """(verdict, text) of a loop that scales a floating point value; None if it is not one"""
    for m in rec.M:
        it = rec.iters[0]
        x = it[1].env.get(m)
        if x is None or x[0] != 'L' or 'double' not in str(x[-1]) and 'float' not in str(x[-1]):
            continue
        verdict, why = True, None
        for k, h, b, bk in rec.iters:
            v, x = b.env.get(m), h.env.get(m)
            s = fscale(v, x) if v is not None and x is not None else None
            if not s:
                verdict = None
                break
            sides = [y for y in (fside(c, pol, x) for c, pol, ln in since((k, h, b, bk))) if y]
            if not sides:
                verdict = None
                break
            best, bad = None, None
            for op, T, nan in sides:
                e = rec.entry.env.get(m)
                F = rec.entry.F
                shrink = s[0] == '/' and s[1] >= 2 or s[0] == '*' and 0 <= s[1] <= 0.5
                grow = s[0] == '*' and s[1] >= 2 or s[0] == '/' and 0 < s[1] <= 0.5
                need = []
                if op in ('>', '>=') and shrink and (T > 0 or T == 0 and op == '>'):
                    need = ['inf']
                elif op in ('<', '<=') and grow and T < float('inf'):
                    need = ['zero', 'neg']
                    if T <= 0 and op == '<':
                        need = ['neg']
                elif op in ('<', '<=') and shrink and T > 0:
                    bad = bad or ('the value is made smaller while it is to grow past %r' % T, e)
                    continue
                elif op in ('>', '>=') and grow and T > 0:
                    bad = bad or ('the value is made larger while it is to fall below %r' % T, e)
                    continue
                else:
                    continue
                if nan:
                    need.append('nan')
                r = [may_be(F, e, loops, w) if e is not None else None for w in need]
                if all(y is False for y in r):
                    best = True
                    break
                if any(y is True for y in r):
                    w = {'inf': 'infinite', 'zero': 'zero', 'nan': 'a NaN', 'neg': 'negative'}[need[[y is True for y in r].index(True)]]
                    bad = bad or ('the value scaled here may be %s, which never gets past %r' % (w, T), e)
            if best:
                continue
            if bad:
                # only if nothing else in the iteration can end the loop
                others = [c for c, pol, ln in since((k, h, b, bk)) if fside(c, pol, x) is None]
                if others:
                    verdict = None
                    break
                return False, bad[0]
            verdict = None
            break
        if verdict is True:
            return True, 'scales %s' % ploc(m)
    return None


# ---------------------------------------------------------------- no end
SILENT = ('rd', 'wr', 'init', 'bound', 'deref', 'out', 'app', 'lock', 'unlock', 'narrow', 'f2i', 'make', 'new', 'raw', 'keep', 'own', 'release', 'delete', 'xalloc', 'xfree', 'call', 'excctor', 'static_cast')


def repeats(rec, it):
    """do the conditions of the iteration hold again after it"""
    k, h, b, bk = it
    if bk != k:
        return False
    m = {}
    for l in rec.M:
        hv, bv = h.env.get(l), b.env.get(l)
        if hv is None or bv is None:
            return False
        if hv == bv:
            continue
        if hv[0] in ('L', 'sym'):
            m[hv] = bv
        elif hv[0] == 's' and len(hv[1]) == 1 and hv[1][0][0] == 'w' and bv[0] == 's':
            m[('op', 'len', 'unsigned long', hv[1][0])] = slen(bv)
            m[hv] = bv
        elif hv[0] == 'c':
            m[hv] = bv
        else:
            return False
    for e in b.ev:
        if e[0] == 'loop' or e[0] not in SILENT:
            return False
    for c, pol, ln in since(it):
        c2 = subst(c, m)
        if pol is False:
            c2 = negate(c2)
        if b.F.decide(c2) is not True:
            return False
    return True


def enterable(ctx, f, rec, it):
    """do the free inputs allow the first round to take this iteration"""
    k, h, b, bk = it
    if k != rec.entry_key:
        # the first round only settles what the loop carries: it met these conditions, then this round
        mine = {(c, pol) for c, pol, ln in since(it)}
        it = next((i1 for i1 in rec.iters if i1[0] == rec.entry_key and i1[3] == k and {(c, pol) for c, pol, ln in since(i1)} >= mine), None)
        if it is None:
            return False
    m = first_round(rec)
    own = []
    for c, pol, ln in since(it):
        c2 = subst(c, m)
        own.append((c2, pol))
    F = rec.entry.F
    if all(F.decide(c if pol else negate(c)) is True for c, pol in own):
        return True
    r = holds(ctx, f, own, [(c, pol) for c, pol, ln in F.pc])
    return r


def holds(ctx, f, own, pcs):
    """a choice of the free quantities under which all of own and pcs hold"""
    cond = None
    for c, pol in own:
        t = c if pol else negate(c)
        cond = t if cond is None else cond
    if cond is None:
        return True
    # counter() wants a condition to fail: the negation of the first, with the rest on the path
    return counter(ctx, f, negate(cond), own[1:] + pcs, ())


FLOATS = [0.0, -0.0, float('inf'), float('-inf'), float('nan'), 5e-324, -5e-324, DBL_MAX, -DBL_MAX, 1.0, -1.0, 999.96, 2.5e22, 1e-9]


class EnvF(Env):
    """texts, integers and floating point values"""

    def val(self, v):
        if v not in self.m and v[0] in ('fl', 'fop') or v[0] == 'op' and v[1] == 'i2f':
            return self.flt(v)
        return Env.val(self, v)

    def flt(self, v):
        if v in self.m:
            return float(self.m[v])
        if v[0] == 'fl':
            return v[1]
        if v[0] == 'fop':
            a = [self.flt(x) for x in v[2:]]
            o = v[1]
            try:
                if o == 'neg':
                    return -a[0]
                if o == 'fabs':
                    return abs(a[0])
                if o == '+':
                    return a[0] + a[1]
                if o == '-':
                    return a[0] - a[1]
                if o == '*':
                    return a[0] * a[1]
                if o == '/' and a[1] != 0:
                    return a[0] / a[1]
                if o in ('frac', 'trunc', 'floor', 'ceil') and abs(a[0]) < float('inf'):
                    return {'frac': lambda x: math.modf(x)[0], 'trunc': lambda x: math.modf(x)[1], 'floor': math.floor, 'ceil': math.ceil}[o](a[0]) * 1.0
            except OverflowError:
                return float('inf')
            raise Unknown(v)
        if v[0] == 'op' and v[1] == 'i2f':
            return float(self.num(v[3]))
        raise Unknown(v)

    def num(self, v):
        if v[0] == 'op' and v[1] == 'f2i' and v not in self.m:
            x = self.flt(v[3])
            if abs(x) < 2e9:
                return int(x)
            raise Unknown(v)
        return Env.num(self, v)

    def cond(self, c):
        if c[0] == 'fcmp':
            a, b = self.flt(c[2]), self.flt(c[3])
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[c[1]]
        if c[0] == 'op' and c[1] in ('isnan', 'isinf'):
            a = self.flt(c[3])
            return a != a if c[1] == 'isnan' else a in (float('inf'), float('-inf'))
        return Env.cond(self, c)


def cone(rec):
    """the loop variables the conditions of the rounds depend on"""
    def syms(m):
        return {h.env.get(m) for k, h, b, bk in rec.iters if m in h.env}

    def named(t, hv):
        if hv is None or not isinstance(hv, tuple):
            return False
        if hv[0] == 's' and hv[1] and hv[1][0][0] == 'w':
            hv = hv[1][0][1]
        elif hv[0] == 'c' and hv[1] == 'sym':
            hv = hv[2]
        return mention(t, hv)
    want, todo = set(), [c for it in rec.iters for c, pol, ln in since(it)]
    todo += [c for k, kind, s_, v in rec.exits for c, pol, ln in s_.F.pc[len(rec.heads[k].F.pc):] if k in rec.heads]
    while todo:
        t = todo.pop()
        for m in rec.M:
            if m not in want and any(named(t, hv) for hv in syms(m)):
                want.add(m)
                todo += [b.env[m] for k, h, b, bk in rec.iters if m in b.env]
    return want


def mention(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mention(y, x) for y in t if isinstance(y, tuple))


class Rounds(Follow):
    """finds a state of a loop that comes back"""

    def env_of(self, env):
        return EnvF(env.m, env.fun)

    def loop(self, rec, want, kind, env, pcs):
        if rec.kind == 'foreach':
            return Follow.loop(self, rec, want, kind, env, pcs)
        vals = {}
        for m in rec.M:
            v = rec.entry.env.get(m)
            if v is not None:
                try:
                    vals[m] = env.val(v)
                except Unknown:
                    pass
        key = rec.entry_key
        self.setheads(rec, key, vals, env)
        dep = cone(rec)
        seen = set()
        for i in range(self.limit):
            took = None
            for k, h, b, bk in rec.iters:
                if k != key:
                    continue
                e2 = self.env_of(env)
                try:
                    ok = self.walk(b.ev, b.F.pc[len(h.F.pc):], e2)
                except Unknown:
                    raise
                if ok:
                    took = b, bk, e2
                    break
            if took is None:
                return key == want
            b, bk, e2 = took
            new = {}
            for m in rec.M:
                if m in b.env:
                    try:
                        new[m] = e2.val(b.env[m])
                    except Unknown:
                        pass
            if bk == key and dep <= set(new) and not any(e[0] not in SILENT for e in b.ev):
                st = repr(sorted((str(m), new[m]) for m in dep))
                if st in seen:
                    self.now = rec
                    raise Stop()
                seen.add(st)
            vals, key = new, bk
            self.setheads(rec, key, vals, env)
        raise Unknown(('L', rec.lid))


def runs(f):
    """representatives of the arguments"""
    fl = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').replace('&', '').strip() in ('double', 'float')]
    if len(fl) != 1:
        yield from seeds(f)
        return
    T = ('sym', ('arg', fl[0]), f['params'][fl[0]]['t'].replace('const ', '').replace('&', '').strip())
    chars = [i for i, p in enumerate(f['params']) if p['t'].replace('const ', '').strip() == 'char']
    n = 0
    small = {}
    for m, label in seeds(f):
        key = tuple(v for k, v in m.items() if isinstance(v, int) and k[0] == 'sym' and k[1][0] == 'arg' and k[1][1] not in chars)
        if any(v not in (0, 3, 20) for v in key):
            continue
        for ch in ('f', 's', 'g', 'e', 'x'):
            m2 = dict(m)
            lab = ''
            for i in chars:
                for k in list(m2):
                    if k[0] == 'sym' and k[1] == ('arg', i):
                        m2[k] = ord(ch)
                        lab = ', %s=%r' % (f['params'][i]['n'], ch)
            kk = (key, ch if chars else '')
            if kk in small:
                continue
            small[kk] = 1
            for x in FLOATS:
                m3 = dict(m2)
                m3[T] = x
                yield m3, '%s=%r%s' % (f['params'][fl[0]]['n'], x, lab)


def text_hang(f, ps):
    for m, label in runs(f):
        w = Rounds(1200)
        for p in ps:
            if p.st.imprecise:
                continue
            try:
                w.walk(p.ev, p.st.F.pc, EnvF(m))
            except Stop:
                return label, w.now, p
            except Exception:
                continue
    return None


# ---------------------------------------------------------------- the rule
BLOCK = ('sleep', 'wait', 'pause', 'join', 'select', 'poll', 'sigsuspend', 'getchar', 'getline', 'lockf', 'flock', 'fgets', 'read')


def one(ctx, f):
    I_, ps = ctx.run(f, key='g01', opaque=opaque_for(f))
    recs, where = {}, {}
    opened = []
    barrier = (f.get('cls') or '').startswith('SoDa::Barrier')
    marks = {}
    loops = {}
    for p in ps:
        for e, inside in with_loops(p.ev):
            if e[0] == 'loop':
                loops[e[2].lid] = e[2]
                where.setdefault(id(e[2]), (e[2], inside, p))
            elif e[0] == 'relock' and not p.st.imprecise:
                k = ('blocks', '%s line %s' % (f['qn'], e[1]))
                ctx.bad(k[0], k[1], 'a mutex already held by this thread is locked again: the call never returns', p)
            elif e[0] == 'wait' and not barrier:
                ctx.bad('blocks', '%s line %s' % (f['qn'], e[1]), 'the call waits for another thread', p)
            elif e[0] == 'xcall':
                n = str(e[2]).split('::')[-1]
                if not barrier and any(n == b or n.startswith(b + '_') or n.endswith(b) and b in ('sleep',) for b in BLOCK):
                    ctx.bad('blocks', '%s line %s' % (f['qn'], e[1]), 'the call blocks in %s' % e[2], p)
    if not barrier:
        ctx.ok('blocks', ctx.loc(f))
    for rec in I_.loops:
        if rec.lid not in loops:       # met, but no path goes on from it
            loops[rec.lid] = rec
            where[id(rec)] = (rec, (), Path(rec.entry, 'stuck', None))
    for rec, inside, p in where.values():
        if barrier and any(e[0] == 'wait' for it in rec.iters for e in it[2].ev):
            continue
        k = ('ends', '%s loop at line %s' % (f['qn'], rec.line))
        v = judge(ctx, f, rec, inside, loops, p)
        if v[0] is True:
            marks.setdefault(k, True)
        elif v[0] is False:
            marks[k] = False
            ctx.bad(k[0], k[1], v[1], p)
        else:
            if marks.get(k) is not False:
                marks[k] = None
            opened.append((k, rec, v[1]))
    if any(marks[k] is None for k, r, w in opened):
        h = text_hang(f, ps)
        if h:
            label, rec, p = h
            k = ('ends', '%s loop at line %s' % (f['qn'], rec.line))
            marks[k] = False
            ctx.bad(k[0], k[1], 'the loop comes back to the same state for %s' % label, p)
    for k, v in sorted(marks.items()):
        if v is True:
            ctx.ok(*k)
        elif v is None:
            ctx.unk(k[0], k[1], '; '.join(sorted({w for kk, r, w in opened if kk == k}))[:200])
    return 1


def grown(rec):
    """does an iteration over a container make it longer"""
    for k, h, b, bk in rec.iters:
        for e in b.ev:
            if e[0] == 'wr' and rec.cloc is not None and e[2] == rec.cloc and e[4] not in ('=',):
                return True
        if rec.cloc is not None and rec.cloc in b.env and rec.cloc in h.env:
            a, c = measure(h.env[rec.cloc]), measure(b.env[rec.cloc])
            if a is not None and c is not None and b.F.decide(le0(add(c, mulc(a, -1)))) is not True:
                return True
    return False


def judge(ctx, f, rec, inside, loops, p):
    if not rec.iters:
        return True, 'never iterates'
    if not rec.exits and not p.st.imprecise and not rec.entry.imprecise:
        return False, 'no condition of the loop ever lets it end once it is entered'
    if rec.kind == 'foreach':
        if grown(rec):
            if all(grown_on(rec, it) for it in rec.iters):
                return False, 'every round over the container adds to it'
            return None, 'the container is written while it is walked'
        return True, 'walks a container'
    left, names = ranked(rec)
    if not left:
        return True, ', '.join(names)
    fl = float_loop(ctx, rec, loops)
    if fl:
        if fl[0] is False and p.st.imprecise:
            return None, fl[1]
        return fl
    for i in sorted(left):
        it = rec.iters[i]
        if repeats(rec, it) and not p.st.imprecise and not inside_varies(rec, inside):
            r = enterable(ctx, f, rec, it)
            if r:
                return False, 'the conditions of a round hold again after it, so the loop never ends%s' % (' (%s)' % r if isinstance(r, dict) else '')
    w = wrong_side(ctx, f, rec)
    if w and not p.st.imprecise:
        return False, w
    return None, 'no falling quantity found'


def inside_varies(rec, inside):
    return False


def grown_on(rec, it):
    k, h, b, bk = it
    if rec.cloc in b.env and rec.cloc in h.env:
        a, c = measure(h.env[rec.cloc]), measure(b.env[rec.cloc])
        return a is not None and c is not None and b.F.decide(le0(addc(add(a, mulc(c, -1)), 1))) is True
    return False


def wrong_side(ctx, f, rec):
    """while(x != B) stepping away from B for some input"""
    if len(rec.iters) < 1:
        return None
    for name, row, co in cands(rec):
        ok = None
        for i, it in enumerate(rec.iters):
            x, y = row[i]
            if add(y, mulc(x, -1)) != I(-1) or len(since(it)) != 1:
                ok = None
                break
            B = unit_hit(x, it, rec, I(-1))
            if B is None or ok not in (None, B):
                ok = None
                break
            ok = B
        if ok is None:
            continue
        e = I(0)
        for m, n in co.items():
            q = measure(rec.entry.env.get(m))
            e = None if q is None or e is None else add(e, mulc(q, n))
        if e is None:
            continue
        w = counter(ctx, f, le0(add(ok, mulc(e, -1))), [(c, pol) for c, pol, ln in rec.entry.F.pc], ())
        if w:
            return 'the loop steps by one until a value is met exactly, and it may start past it: %s' % w
    return None


# ---------------------------------------------------------------- recursion
def is_part(t, whole):
    """is the term an element or field reached from whole"""
    return isinstance(t, tuple) and t != whole and whole in list(sub_terms(t))


def sub_terms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from sub_terms(x)


def smaller(a, i, t):
    """is the argument a proper part of, or shorter than, the parameter it is passed for"""
    if a[0] == 'c' and a[1] in ('pop_front', 'pop_back'):
        while a[0] == 'c' and a[1] in ('pop_front', 'pop_back'):
            a = a[2]
        return a[0] == 'c' and a[1] == 'sym' and a[2][0] == 'sym' and a[2][1] == ('arg', i)
    if a[0] == 'sym' and a[1][0] in ('E', 'F'):
        return any(len(x) > 1 and x[0] == 'sym' and x[1] == ('arg', i) for x in sub_terms(a[1][1]) if isinstance(x, tuple))
    return False


def recursion(ctx, f):
    I_, ps = ctx.run(f, key='g01', opaque=opaque_for(f))
    seen = {}
    for p in ps:
        for e, inside in with_loops(p.ev):
            if e[0] == 'rcall' and e[2] == f['qn']:
                this, args = e[3], e[4]
                k = ('recursion', '%s line %s' % (f['qn'], e[1]))
                kinds = set()
                if this is not None and this[0] == 'd' and this[1][0] == 'sym' and THIS in list(sub_terms(this[1])):
                    kinds.add('down' if this[1][1][0] == 'E' else 'field ' + str(this[1][1][2]))
                for i, a in enumerate(args):
                    if isinstance(a, tuple) and smaller(a, i, None):
                        kinds.add('arg %d' % i)
                same = (this in (None, THIS)) and all(
                    isinstance(a, tuple) and (a[0] == 'sym' and a[1] == ('arg', i) or a[0] == 's' and len(a[1]) == 1 and a[1][0][0] == 'w' and a[1][0][1][0] == 'sym' and a[1][0][1][1] == ('arg', i)
                                              or a[0] == 'c' and a[1] == 'sym' and a[2][0] == 'sym' and a[2][1] == ('arg', i)) for i, a in enumerate(args))
                wrote = any(x[0] in ('wr',) and x[2][0] not in ('v',) for x, ins in with_loops(p.ev))
                if kinds:
                    seen.setdefault(k, []).append(kinds)
                elif same and not wrote and not p.st.imprecise and not inside:
                    ctx.bad(k[0], k[1], 'the function calls itself with what it was called with', p)
                else:
                    seen.setdefault(k, []).append(None)
    if seen:
        every = [s for l in seen.values() for s in l]
        common_ = None if any(s is None for s in every) else set.intersection(*every)
        for k in seen:
            ctx.check(True if common_ else None, k[0], k[1], 'no part of the arguments is seen to get smaller')


def F06(ctx):
    n = 0
    for f in entries(ctx.P):
        n += guarded(ctx, 'ends', ctx.loc(f), lambda: one(ctx, f)) or 0
    for k, f in sorted(ctx.P.funcs.items()):
        if f['has'] and not f.get('implicit') and f['qn'].startswith('SoDa::') and calls_itself(f):
            guarded(ctx, 'recursion', ctx.loc(f), lambda: recursion(ctx, f))
    if not n:
        raise Anchor('no public operation of the library')


def calls_itself(f):
    def go(e):
        if isinstance(e, dict):
            if e.get('k') in ('call', 'mcall', 'ctor') and (e.get('key') == f['key'] or e.get('fn') == f['key'] or e.get('qn') == f['qn']):
                return True
            return any(go(x) for x in e.values())
        if isinstance(e, list):
            return any(go(x) for x in e)
        return False
    return go(f.get('body'))
