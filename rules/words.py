"""Deciding what a text function computes, by classes of texts.

The summaries of a text function (paths, loop iterations, loop exits) only look at a text through
its length, its characters and searches in it.  Texts are partitioned by the characters the
summaries distinguish; every class representative is pushed through the summarised transitions
(conditions decided and terms folded for the representative), and the length of the
representatives grows until no transition of the summary is used in a way not seen before: then
longer texts only repeat transitions already judged."""
import itertools
from .common import *
from .samples import CT, FUN, NPOS, parse_int, sch, Unknown


class Stop(Exception):
    pass


class Env:
    def __init__(self, m, fun=None):
        self.m = dict(m)
        self.fun = FUN if fun is None else fun

    def get(self, v):
        if v in self.m:
            return self.m[v]
        raise Unknown(v)

    def val(self, v):
        if v in self.m:
            return self.m[v]
        if v[0] == 's':
            return self.text(v)
        if v[0] == 'c':
            return self.lst(v)
        if v[0] == 'sym' and v[1][0] == 'res' and v[1][1] in self.fun:
            return self.fun[v[1][1]](*[self.val(x) for x in v[1][-1]])
        if v[0] == 'sym' and v[1][0] == 'E':
            i = self.num(v[1][2])
            l = self.val(v[1][1])
            if 0 <= i < len(l):
                return l[i]
            raise Unknown(v)
        if v[0] in ('sym', 'L'):
            raise Unknown(v)
        return self.num(v)

    def text(self, v):
        if v in self.m:
            r = self.m[v]
            if isinstance(r, str):
                return r
            raise Unknown(v)
        if v[0] != 's':
            r = self.val(v)
            if isinstance(r, str):
                return r
            raise Unknown(v)
        out = ''
        for p in v[1]:
            k = p[0]
            if k == 'lit':
                out += p[1]
            elif k == 'w':
                out += self.text(p[1])
            elif k == 'chr':
                out += chr(self.num(p[1]) & 255)
            elif k == 'sub':
                s = self.text(p[1] if p[1][0] == 's' else ('s', tuple(p[1])))
                a, n = self.num(p[2]), self.num(p[3])
                if a < 0 or a > len(s):
                    raise Unknown(p)
                out += s[a:a + n] if 0 <= n < NPOS // 2 else s[a:]
            elif k == 'rep':
                out += self.text(('s', tuple(p[1]))) * max(0, self.num(p[2]))
            elif k == 'rev':
                out += self.text(p[1] if p[1][0] == 's' else ('s', tuple(p[1])))[::-1]
            else:
                raise Unknown(p)
        return out

    def lst(self, v):
        if v in self.m:
            return self.m[v]
        if v[0] != 'c':
            r = self.val(v)
            if isinstance(r, (list, tuple)):
                return r
            raise Unknown(v)
        k = v[1]
        if k == 'sym':
            return self.lst(v[2])
        if k == 'empty':
            return ()
        if k == 'push_back':
            return tuple(self.lst(v[2])) + (self.val(v[3]),)
        if k == 'push_front':
            return (self.val(v[3]),) + tuple(self.lst(v[2]))
        if k == 'pop_front' and self.lst(v[2]):
            return tuple(self.lst(v[2]))[1:]
        if k == 'pop_back' and self.lst(v[2]):
            return tuple(self.lst(v[2]))[:-1]
        if k == 'cat':
            return tuple(self.lst(v[2])) + tuple(self.lst(v[3]))
        raise Unknown(v)

    def num(self, v):
        if v in self.m:
            r = self.m[v]
            if isinstance(r, int):
                return int(r)
            raise Unknown(v)
        k = v[0]
        if k == 'i':
            return v[1]
        if k == 'lin':
            return v[1] + sum(n * self.num(a) for a, n in v[2])
        if k in ('le0', 'eq0', 'not', 'eqt') or k == 'op' and v[1] in CT:
            return int(self.cond(v))
        if k == 'op':
            o = v[1]
            if o in ('len', 'size'):
                a = v[3]
                if a[0] in ('w', 'sub', 'lit', 'chr', 'rep', 'rev'):
                    a = ('s', (a,))
                return len(self.val(a))
            if o == 'at':
                s, i = self.text(v[3]), self.num(v[4])
                if i == len(s):
                    return 0
                if not 0 <= i < len(s):
                    raise Unknown(v)
                return sch(s[i])
            if 'find' in o:
                s = self.text(v[3])
                n = v[4]
                try:
                    pat = self.text(n)
                except Unknown:
                    pat = chr(self.num(n) & 255)
                pos = self.num(v[5]) if len(v) > 5 else (0 if o in ('find', 'find_first_of', 'find_first_not_of') else NPOS)
                if o == 'find':
                    r = s.find(pat, pos) if pos <= len(s) else -1
                elif o == 'rfind':
                    r = s.rfind(pat, 0, min(pos, len(s)) + len(pat))
                elif o in ('find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
                    ins = 'not' not in o
                    idx = [i for i, c in enumerate(s) if (c in pat) == ins]
                    idx = [i for i in idx if i >= pos] if 'first' in o else [i for i in idx if i <= pos]
                    r = (idx[0] if 'first' in o else idx[-1]) if idx else -1
                else:
                    raise Unknown(v)
                return NPOS if r < 0 else r
            if o == 'max0':
                return max(0, self.num(v[3]))
        r = self.val(v) if v[0] == 'sym' else None
        if isinstance(r, int):
            return r
        raise Unknown(v)

    def cond(self, c):
        k = c[0]
        if c in self.m and isinstance(self.m[c], (bool, int)):
            return bool(self.m[c])
        if k == 'i':
            return c[1] != 0
        if k == 'not':
            return not self.cond(c[1])
        if k == 'le0':
            return self.num(c[1]) <= 0
        if k == 'eq0':
            return self.num(c[1]) == 0
        if k == 'eqt':
            return self.val(c[1]) == self.val(c[2])
        if k == 'op' and c[1] in CT:
            return CT[c[1]](self.num(c[3]) & 255)
        if k == 'op' and c[1] == 'found':
            return self.num(c[3]) != NPOS
        return bool(self.num(c))


def feasible(env, pcs):
    for c, pol, ln in pcs:
        if env.cond(c) != pol:
            return False
    return True


class Follow:
    """push one representative through the summaries of a function"""

    def __init__(self, limit=60):
        self.limit = limit
        self.fixed = ()
        self.used = set()        # (loop line, iteration index, class of the head values)

    def env_of(self, env):
        return Env(env.m, env.fun)

    def outcomes(self, ps, m, fun=None):
        out = []
        for n, p in enumerate(ps):
            env = Env(m, fun)
            try:
                ok = self.walk(p.ev, p.st.F.pc, env)
            except Stop:
                out.append((p, env, 'loops'))
                continue
            if not ok:
                continue
            out.append((p, env, p.kind))
        return out

    def walk(self, ev, pcs, env):
        """ev: events in order with their loops; pcs: every condition to hold at the end"""
        for e in ev:
            if e[0] != 'loop':
                continue
            rec, key, kind = e[2], e[3], e[4]
            if not feasible(env, rec.entry.F.pc):
                return False
            if not self.loop(rec, key, kind, env, pcs):
                return False
        return feasible(env, pcs)

    def setheads(self, rec, key, vals, env):
        h = rec.heads.get(key)
        for m in rec.M:
            if h is None or m not in h.env or m not in vals:
                continue
            hv = h.env[m]
            sym = hv
            if hv[0] == 's' and len(hv[1]) == 1 and hv[1][0][0] == 'w':
                sym = hv[1][0][1]
            elif hv[0] == 'c' and hv[1] == 'sym':
                sym = hv[2]
            elif hv[0] == 'it' and hv[2] == 'L':
                sym = hv[3]
            if sym[0] == 'L' and sym[1] == rec.lid or sym[0] == 'sym' and sym[1][0] == 'L':
                env.m[sym] = vals[m]
                if hv != sym:
                    env.m[hv] = vals[m]

    def loop(self, rec, want, kind, env, pcs):
        vals = {}
        for m in rec.M:
            v = rec.entry.env.get(m)
            if v is not None:
                try:
                    vals[m] = env.val(v)
                except Unknown:
                    pass
        key = rec.entry_key
        seq = None
        if rec.kind == 'foreach':
            seq = env.val(rec.cont)
        self.setheads(rec, key, vals, env)
        i = 0
        while True:
            if rec.kind == 'foreach':
                env.m[('elt', rec.lid)] = i
                env.m[('op', 'ix', 'unsigned long', ('elt', rec.lid))] = i
                if i >= len(seq):
                    return key == want and kind == 'cond'
            took = None
            for n, (k, h, b, bk) in enumerate(rec.iters):
                if k != key:
                    continue
                e2 = self.env_of(env)
                if self.walk(b.ev, b.F.pc[len(h.F.pc):], e2):
                    took = (n, b, bk, e2)
                    break
            if took is None:
                return key == want and not (rec.kind == 'foreach' and kind == 'cond')
            n, b, bk, e2 = took
            self.used.add((rec.line, rec.lid, n, shapes(vals, self.fixed)))
            new = {}
            for m in rec.M:
                if m in b.env:
                    try:
                        new[m] = e2.val(b.env[m])
                    except Unknown:
                        pass
            if new == vals and bk == key and rec.kind != 'foreach':
                raise Stop()
            vals, key = new, bk
            self.setheads(rec, key, vals, env)
            i += 1
            if i > self.limit:
                raise Stop()


def seg(w):
    return (w[0] == ' ', w[-1] == ' ', min(len(w), 2)) if w else ()


def shapes(vals, fixed):
    """class of a loop state: every text cut at the positions held, each part by its ends"""
    cuts = sorted({v for v in vals.values() if isinstance(v, int) and v != NPOS})
    out = []
    for m, v in sorted(vals.items(), key=lambda x: str(x[0])) + [(None, x) for x in fixed]:
        if isinstance(v, str):
            c = [0] + [min(x, len(v)) for x in cuts if x > 0] + [len(v)]
            out.append((str(m), tuple(seg(v[i:j]) for i, j in zip(c, c[1:]))))
        elif isinstance(v, (tuple, list)):
            out.append((str(m), len(v) > 0))
        elif v == NPOS:
            out.append((str(m), 'none'))
    return tuple(out)


def ref_split(w, delims, no_empty):
    out, cur = [], ''
    for ch in w:
        if ch in delims:
            if cur or not no_empty:
                out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return tuple(out)


def squash(s):
    return ' '.join(x for x in s.split(' ') if x)


def alphabet(ps, base):
    """the characters the summaries distinguish"""
    cs, big = set(), set()

    def go(t):
        if not isinstance(t, tuple):
            return
        if t and t[0] == 'lit' and isinstance(t[1], str):
            cs.update(t[1])
        if t and t[0] == 'lin' and any(a[0] == 'op' and a[1] == 'at' for a, n in t[2]):
            if 0 < abs(t[1]) < 128:
                cs.add(chr(abs(t[1])))
        elif t and t[0] == 'lin' and 3 < abs(t[1]) < NPOS // 2:
            big.add(abs(t[1]))
        if t and t[0] == 'op' and 'find' in str(t[1]) and len(t) > 4 and t[4][0] == 'i':
            cs.add(chr(t[4][1] & 127))
        for x in t:
            go(x)
    seen = set()

    def evs(ev):
        for e in ev:
            if e[0] == 'loop' and e[2].lid not in seen:
                seen.add(e[2].lid)
                for k, h, b, bk in e[2].iters:
                    go(tuple(c for c, pol, ln in b.F.pc))
                    go(tuple(b.env.get(m) for m in e[2].M))
                    evs(b.ev)
    for p in ps:
        go(tuple(c for c, pol, ln in p.st.F.pc))
        go(p.val)
        evs(p.ev)
    for c in base:
        if len(cs) < 4 or c in ' x':
            cs.add(c)
    return sorted(cs), big


def decide(ctx, rule, where, ps, inputs, ref, what, limit=7):
    """inputs(n): the representatives of size n, as (label, map of the inputs, expected)"""
    F = Follow()
    quiet, n = 0, 0
    done = 0
    unknown = None
    while n <= limit and quiet < 2:
        before = len(F.used)
        if os.environ.get('DBGW'): print('n', n, before)
        for label, m, expect in inputs(n):
            done += 1
            try:
                outs = F.outcomes(ps, m)
            except Unknown as e:
                unknown = unknown or ('%s: %s' % (label, pv_safe(e.args[0])), n)
                continue
            got = set()
            for p, env, kind in outs:
                if kind == 'ret':
                    try:
                        got.add(env.val(p.val))
                    except Unknown as e:
                        unknown = unknown or ('%s: %s' % (label, pv_safe(e.args[0])), n)
                        got = None
                        break
                else:
                    got.add(kind)
            if got is None or got == set():
                unknown = unknown or ('%s: no path' % label, n)
                continue
            wrong = [g for g in got if g != expect]
            if wrong and len(got) == 1:
                p = outs[0][0]
                if p.st.imprecise:
                    unknown = unknown or ('%s: imprecise' % label, n)
                    continue
                g = wrong[0]
                ctx.bad(rule, where, '%s: for %s the summarised paths give %s instead of %r'
                        % (what, label, 'an exception' if g == 'throw' else 'no end' if g == 'loops' else repr(g), expect), p)
                return done
            if wrong:
                unknown = unknown or ('%s: paths disagree' % label, n)
        quiet = quiet + 1 if len(F.used) == before and n > 2 else 0
        n += 1
    if unknown:
        ctx.unk(rule, where, '%s: %s' % (what, unknown[0]))
    elif quiet < 2 and F.used:
        ctx.unk(rule, where, what + ': transitions still new at the longest class')
    else:
        ctx.ok(rule, where)
    return done


def pv_safe(v):
    try:
        return pv(v)[:120]
    except Exception:
        return str(v)[:120]


def arg(f, i, t):
    return ('sym', ('arg', i), t)


def find_fn(ctx, qn):
    fs = [f for f in ctx.P.funcs.values() if f['qn'] == qn and f['has']]
    if not fs:
        raise Anchor(qn)
    return fs


def U02(ctx):
    for f in find_fn(ctx, 'SoDa::squashSpaces'):
        I_, ps = ctx.run(f)
        cs, big = alphabet(ps, [' ', 'x', '\t'])
        T = arg(f, 0, 'std::string')
        top = 11 if len(cs) <= 3 else 6
        if big:
            ctx.unk('squash', ctx.loc(f), 'lengths are compared with %s' % sorted(big))

        def inputs(n):
            for w in itertools.product(cs if n < 6 else [' ', 'x'], repeat=n):
                w = ''.join(w)
                yield repr(w), {T: w, ('s', (('w', T),)): w}, squash(w)
        guarded(ctx, 'squash', ctx.loc(f), lambda: decide(ctx, 'squash', ctx.loc(f), ps, inputs, None, 'exactly the redundant spaces are removed', top))
        throws(ctx, f, ps)


def throws(ctx, f, ps):
    cuts(ctx, 'whole-text', ctx.loc(f), ps, free_text)
    carried(ctx, 'nothing-carried-over', f, ps)
    """every path that returns does so with a value of its own; every access looked at is inside"""
    for p in ps:
        for e in all_events(p.ev):
            if e[0] == 'bound':
                ctx.check(True if e[5] is True else None, 'access', '%s line %s' % (f['qn'], e[1]), 'access not shown to be inside: %s' % (e[2],))


def U01(ctx):
    for qn in ('SoDa::split', 'SoDa::splitVec'):
        for f in find_fn(ctx, qn):
            I_, ps = ctx.run(f, key='sq', opaque=lambda g: g['qn'] in ('SoDa::squashSpaces', 'SoDa::split') and g['qn'] != qn)
            ts = [p['t'] for p in f['params']]
            if len(ts) < 3:
                ctx.unk('split', ctx.loc(f), 'unexpected parameters')
                continue
            T, D, N = arg(f, 0, 'std::string'), arg(f, 1, 'std::string'), arg(f, 2, 'bool')
            throws(ctx, f, ps)
            cs, big = alphabet(ps, [',', ';', ' ', 'x'])
            if big:
                ctx.unk('split', ctx.loc(f), 'lengths are compared with %s' % sorted(big))
            for delims in (',', ',;', '', 'x '):
                for ne in (False, True):
                    def inputs(n):
                        small = [' ', 'x', delims[0]] if delims[:1] not in ('', ' ', 'x') and n < 6 else [delims[0] if delims[:1] not in ('', 'x') else ' ', 'x']
                        for w in itertools.product(cs if n < 4 else small, repeat=n):
                            w = ''.join(w)
                            yield '%r cut at %r%s' % (w, delims, ' without empty pieces' if ne else ''), \
                                {T: w, D: delims, N: int(ne), ('not', ('eq0', N)): ne, ('eq0', N): not ne}, ref_split(squash(w), delims, ne)
                    guarded(ctx, 'split', ctx.loc(f), lambda: decide(ctx, 'split', '%s cut at %r no_empty=%s' % (ctx.loc(f), delims, ne), ps, inputs, None,
                                                                     'the pieces between the delimiters', 9))


FUN2 = dict(FUN)
FUN['SoDa::split'] = lambda w, d, n=0: ref_split(squash(w), d, bool(n))
