"""F01-F05, F07-F09: the format class."""
import re
from .common import *
from . import scan

FMT = 'SoDa::Format'
BIG = 2 ** 31 - 1
ADDS = ('addI', 'addU', 'addF', 'addS', 'addC', 'addB')


class Shape:
    """which members play which part, found from what the code does with them"""
    segs = elem = kindf = valf = idxf = counter = orig = None
    lit = hole = None


def container_elem(t):
    t = strip(t)
    m = re.match(r'std::(?:list|vector|deque)<(.*)>$', t)
    if not m:
        return None
    a, d = '', 0
    for ch in m.group(1):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == ',' and d == 0:
            break
        a += ch
    return strip(a)


def adds(ctx):
    out = []
    for n in ADDS:
        out += ctx.need(ctx.fns_of(FMT, n), '%s::%s' % (FMT, n))
    return out


def shape(ctx):
    """which members play which part, from what the constructor pushes for text and for placeholders"""
    if 'shape' not in ctx.cache:
        try:
            ctx.cache['shape'] = shape_(ctx)
        except Undecided as e:
            ctx.cache['shape'] = e
    r = ctx.cache['shape']
    if isinstance(r, Undecided):
        raise r
    return r


def shape_(ctx):
    P = ctx.P
    if FMT not in P.records:
        raise Anchor(FMT)
    s = Shape()
    r = P.records[FMT]
    cs = [(f['n'], container_elem(f['t'])) for f in r['fields']]
    cs = [(n, t) for n, t in cs if t in P.records]
    if len(cs) != 1:
        raise Undecided('no single container of format pieces')
    s.segs, s.elem = cs[0]
    s.cloc = ('f', THIS, s.segs)
    ef = {f['n']: strip(f['t']) for f in P.records[s.elem]['fields']}
    sv = [n for n, t in ef.items() if t == 'std::string']
    nf = [n for n, t in ef.items() if t != 'std::string']
    if len(sv) != 1 or len(nf) != 2:
        raise Undecided('pieces have members that were not recognised')
    s.valf = sv[0]
    text, num = set(), set()
    for p in ctor_paths(ctx):
        for ev in all_events(p.ev):
            if ev[0] == 'wr' and ev[2] == s.cloc and ev[3] and ev[3][0] == 'c' and ev[3][1] == 'push_back' and ev[3][3][0] == 'obj':
                d = dict(ev[3][3][2])
                c = {n: d[n] for n in nf if n in d and d[n][0] == 'i'}
                if d.get(s.valf, ('?',))[0] == 's' and any(q[0] != 'w' or q[1][0] != 'sym' for q in d[s.valf][1]):
                    text.add(tuple(sorted(c.items())))
                else:
                    v = [n for n in nf if d.get(n) is not None and d[n][0] in ('L', 'lin', 'op')]
                    if len(v) == 1:
                        num.add((v[0], tuple(sorted(c.items()))))
    idx = {n for n, c in num}
    if len(idx) != 1:
        raise Undecided('how a placeholder is represented was not recognised')
    s.idxf = list(idx)[0]
    s.kindf = [n for n in nf if n != s.idxf][0]
    hk = {dict(c).get(s.kindf) for n, c in num}
    lk = {dict(c).get(s.kindf) for c in text}
    if len(hk) != 1 or len(lk) != 1 or None in hk | lk or hk == lk:
        raise Undecided('kinds of pieces not recognised')
    s.hole, s.lit = list(hk)[0][1], list(lk)[0][1]
    moved = set()
    for f in adds(ctx)[-1:] + adds(ctx)[-2:-1]:
        for p in ctx.run(f, key='full')[1]:
            for n in [f['n'] for f in r['fields'] if is_int(f['t'])]:
                v = p.st.env.get(('f', THIS, n))
                if v is not None and v != ('sym', ('f', THIS, n), strip(dict((q['n'], q['t']) for q in r['fields'])[n])):
                    moved.add(n)
    if len(moved) != 1:
        raise Undecided('counter of values not recognised')
    s.counter = list(moved)[0]
    so = [f['n'] for f in r['fields'] if strip(f['t']) == 'std::string']
    if len(so) == 1:
        s.orig = so[0]
    return s


def ctors(ctx):
    return [f for f in ctx.P.funcs.values() if f.get('cls') == FMT and f['kind'] == 'ctor' and f['has'] and not f.get('implicit')
            and not f.get('deflt') and len(f['params']) >= 1 and strip(f['params'][0]['t']) == 'std::string']


def ctor_paths(ctx):
    out = []
    for f in ctx.need(ctors(ctx), FMT + ' constructor'):
        out += ctx.run(f, key='full')[1]
    return out


def fills(s, p):
    """loops of a path over the pieces that change pieces"""
    out = []
    for e in p.ev:
        if e[0] == 'loop' and e[2].cloc == s.cloc:
            if any(elem_writes(s, e[2], h, b) for k, h, b, bk in e[2].iters):
                out.append(e[2])
    return out


def elem_writes(s, rec, h, b):
    """locations of piece fields written in one iteration"""
    out = []
    for e in b.ev:
        if e[0] in ('wr',) and e[2][0] == 'f' and e[2][1][0] == 'e' and e[2][1][1] == s.cloc and e[2] not in out:
            out.append(e[2])
    return out


def counter_at(s, st):
    v = st.env.get(('f', THIS, s.counter))
    return v if v is not None else ('sym', ('f', THIS, s.counter), 'unsigned int')


def is_fill(ctx, s, f):
    """a member that does nothing but fill the next placeholder with its string argument"""
    if f.get('cls') != FMT or len(f['params']) != 1 or strip(f['params'][0]['t']) != 'std::string' or f['kind'] != 'fn' or f['name'] in ADDS:
        return False
    try:
        I_, ps = ctx.run(f, key='full')
    except Undecided:
        return False
    for p in ps:
        if p.kind != 'ret' or len(fills(s, p)) != 1 or delta(s, p) != 1:
            return False
        r = fills(s, p)[0]
        for k, h, b, bk in r.iters:
            for l in elem_writes(s, r, h, b):
                if l[2] == s.valf and b.get(l) != ('s', (('w', ('sym', ('arg', 0), 'std::string')),)):
                    return False
    return True


def delta(s, p):
    v = p.st.env.get(('f', THIS, s.counter))
    if v is None:
        return 0
    d = sub(v, ('sym', ('f', THIS, s.counter), 'unsigned int'))
    return d[1] if d[0] == 'i' else None


def fillers(ctx, s):
    k = 'fillers'
    if k not in ctx.cache:
        ctx.cache[k] = [f['key'] for f in ctx.fns_of(FMT) if is_fill(ctx, s, f)]
    return ctx.cache[k]


def insertions(ctx, s, f, **kw):
    """[(path, [inserted values], numbers used)] of an add method"""
    fl = fillers(ctx, s)
    I_, ps = ctx.run(f, key='ins' + ''.join(kw), opaque=lambda g: g['key'] in fl, **kw)
    out = []
    for p in ps:
        vals, d = [], delta(s, p)
        n = 0
        for e in p.ev:
            if e[0] in ('call', 'vcall') and e[5] in fl and e[3] == THIS:
                vals.append(strval(p, e[4][0]))
                n += 1
            elif e[0] == 'loop' and e[2].cloc == s.cloc and e[2] in fills(s, p):
                vs = set()
                for k, h, b, bk in e[2].iters:
                    for l in elem_writes(s, e[2], h, b):
                        if l[2] == s.valf:
                            vs.add(b.get(l))
                vals.append(list(vs)[0] if len(vs) == 1 else None)
        inloop = sum(1 for e in all_events(p.ev) if e[0] in ('call', 'vcall') and e[5] in fl) - n
        if inloop:
            vals.append('in-loop')
        out.append((p, vals, None if d is None else d + n))
    return out


def strval(p, v):
    if v is None:
        return None
    if v[0] == 'loc':
        x = p.st.env.get(v[1])
        return x if x is not None else ('s', (('w', ('sym', v[1], 'std::string')),))
    return v


# ------------------------------------------------------------------ F01
def fill_loop(ctx, s, rec, p, where):
    """every iteration fills the piece exactly when it is a placeholder carrying the current number"""
    if rec.kind not in ('foreach', 'index') or rec.elem is None:
        ctx.unk('fills-matching-placeholders', where, 'the loop over the pieces has an unusual form')
        return
    for k, kind, st, v in rec.exits:
        if kind != 'cond':
            ctx.bad('fills-every-occurrence', where, 'the loop over the pieces stops early (line %s)' % rec.line)
            return
    ctx.ok('fills-every-occurrence', where)
    for k, h, b, bk in rec.iters:
        kv, iv = piece_field(s, rec, b, s.kindf), piece_field(s, rec, b, s.idxf)
        F = b.F
        hole = F.decide(eq0(addc(kv, -s.hole))) if kv is not None else None
        cn = ('sym', ('f', THIS, s.counter), 'unsigned int')
        same = F.decide(eq0(sub(iv, cn))) if iv is not None else None
        w = {l[2]: b.get(l) for l in elem_writes(s, rec, h, b)}
        old = {n: piece_field(s, rec, b, n) for n in w}
        w = {n: v for n, v in w.items() if v is None or v != old[n]}
        if ('f', THIS, s.counter) in rec.M:
            ctx.bad('number-fixed-while-filling', where, 'the number of the next value changes for each piece visited')
            continue
        ctx.ok('number-fixed-while-filling', where)
        if not w:
            r = True if hole is False or same is False else (False if hole is True and same is True else None)
            if r is None and scan.only_about(F, len(h.F.pc), [x for x in (kv, iv, cn) if x is not None]):
                r = False
            ctx.check(r, 'fills-matching-placeholders', where, 'a placeholder with the current number may be left as it is (line %s): %s' % (rec.line, pretty.pc(F)[-3:]), p)
        else:
            r = hole is True and same is True
            if not r and not (hole is False or same is False) and not simple(F, h):
                r = None
            ctx.check(r, 'fills-only-matching', where, 'a piece that is not a placeholder with the current number may be filled (line %s): %s' % (rec.line, pretty.pc(F)[-3:]), p)
            ctx.check(w.get(s.kindf) == I(s.lit) if s.kindf in w else False, 'filled-becomes-literal', where, 'a filled placeholder stays a placeholder (line %s)' % rec.line, p)
            ctx.check(s.valf in w, 'value-stored', where, 'a placeholder is marked filled without its value', p)
            extra = set(w) - {s.kindf, s.valf, s.idxf}
            ctx.check(not extra, 'value-stored', where, 'also changes %s' % extra, p)


def simple(F, h):
    """the conditions of an iteration are plain comparisons the domain handles"""
    return all(c[0] in ('eq0', 'le0', 'not', 'sym', 'op') for c, pol, ln in F.pc[len(h.F.pc):])


def F01(ctx):
    s = shape(ctx)
    # numbers are held in types that keep apart as many placeholders as a format text can have
    for rec, n, what in ((s.elem, s.idxf, 'number of a placeholder'), (FMT, s.counter, 'number of the next value')):
        ft = strip(dict((q['n'], q['t']) for q in ctx.P.records[rec]['fields'])[n])
        ctx.check(None if ft not in RANGES else RANGES[ft][1] >= BIG, 'numbers-kept-apart', '%s::%s' % (rec, n), 'the %s is kept in %s: numbers that differ by %d are mixed up' % (what, ft, RANGES[ft][1] - RANGES[ft][0] + 1 if ft in RANGES else 0))
    for f in ctx.fns_of(FMT):
        if f['key'] in fillers(ctx, s):
            def one(f=f):
                I_, ps = ctx.run(f, key='full')
                seen = set()
                for p in ps:
                    for rec in fills(s, p):
                        if id(rec.node) not in seen:
                            seen.add(id(rec.node))
                            fill_loop(ctx, s, rec, p, ctx.loc(f))
            guarded(ctx, 'fills-matching-placeholders', ctx.loc(f), one)
    for f in adds(ctx):
        def one(f=f):
            w = ctx.loc(f)
            carried(ctx, 'value-of-its-own', f, ctx.run(f, key='full')[1])
            for p, vals, d in insertions(ctx, s, f):
                if p.kind != 'ret':
                    continue
                ctx.check(len(vals) == 1 and 'in-loop' not in vals, 'one-insertion', w, 'the value is inserted %d times' % len(vals), p)
                ctx.check(None if d is None else d == 1, 'one-number-used', w, 'the number of the next value advances by %s' % d, p)
                for rec in fills(s, p):
                    fill_loop(ctx, s, rec, p, w)
        guarded(ctx, 'one-insertion', ctx.loc(f), one)
    # nothing but adding and resetting moves the number or changes the pieces
    fl = fillers(ctx, s)
    for f in ctx.fns_of(FMT):
        if f['name'] in ADDS or f['kind'] in ('ctor', 'dtor') or f['access'] != 'public' or f['name'] == 'reset':
            continue

        def one(f=f):
            I_, ps = ctx.run(f, key='full')
            for p in ps:
                ch = [e for e in all_events(p.ev) if e[0] == 'wr' and root(e[2]) in (s.cloc, ('f', THIS, s.counter))]
                ctx.check(not ch, 'others-change-nothing', ctx.loc(f), 'changes the pieces or the number of the next value (line %s)' % (ch and ch[0][1]), p)
        guarded(ctx, 'others-change-nothing', ctx.loc(f), one)


def root(l):
    while l[0] in ('f', 'e', 'pf', 'idx'):
        if l[0] == 'f' and l[1] == THIS:
            return l
        l = l[1]
    return l


# ------------------------------------------------------------------ F02
def scanners(ctx, s):
    """(function, paths) pairs to judge: the constructor with everything it calls"""
    return [(f, ctx.run(f, key='full')[1]) for f in ctx.need(ctors(ctx), FMT + ' constructor')]


def F02(ctx):
    s = shape(ctx)
    for f, ps in scanners(ctx, s):
        guarded(ctx, 'scan-reads-as-documented', ctx.loc(f), lambda: transduce(ctx, s, f, ps))


TEXT, PERC, NUM = 'text', 'after %', 'number'


def segments(s, v, base):
    """pieces pushed onto base to reach v -> list of ('lit', pieces) / ('num', term), or None"""
    out = []
    while v != base:
        if v[0] != 'c' or v[1] not in ('push_back',):
            return None
        o = v[3]
        if o[0] != 'obj':
            return None
        d = dict(o[2])
        k = d.get(s.kindf)
        if k == I(s.lit):
            if d[s.valf][0] != 's':
                return None
            out.append(('lit', d[s.valf][1]))
        elif k == I(s.hole):
            out.append(('num', d[s.idxf]))
        else:
            return None
        v = v[2]
    return out[::-1]


def transduce(ctx, s, f, ps):
    w = ctx.loc(f)
    recs = []
    for p in ps:
        for e in p.ev:
            if e[0] == 'loop' and e[2] not in recs:
                recs.append(e[2])
    src = ('s', (('w', ('sym', ('arg', 0), 'std::string')),))
    main = [r for r in recs if r.kind in ('foreach', 'index') and any(scan_pushes(s, r))]
    if len(main) != 1 or len(recs) != 1:
        ctx.unk('scan-reads-as-documented', w, 'the scanner is not a single loop over the characters')
        return
    rec = main[0]
    if rec.cont != src and rec.cont != ('s', (('w', ('sym', ('f', THIS, s.orig), 'std::string')),)):
        ctx.unk('scan-reads-as-documented', w, 'scans %s' % pv(rec.cont))
        return
    bufs = [m for m in rec.M if any(h.env.get(m, ('?',))[0] == 's' for k, h, b, bk in rec.iters)]
    if len(bufs) > 1:
        ctx.unk('scan-reads-as-documented', w, 'several text buffers')
        return
    buf = bufs[0] if bufs else None

    def bufval(st):
        if buf is None:
            return ()
        v = st.env.get(buf)
        return v[1] if v is not None and v[0] == 's' else None
    # assign reference modes to head variants by simulation from the entry
    back_into = {}
    modes = {}
    heads = {}
    for k, h, b, bk in rec.iters:
        heads[k] = h
    entry_modes = {}
    start = [k for k in heads if is_entry(rec, k, heads[k], s, buf)]
    if not start:
        ctx.unk('scan-reads-as-documented', w, 'start of the scan not recognised')
        return
    work = []
    for k in start:
        modes.setdefault(k, set()).add(TEXT)
        work.append((k, TEXT))
    segl = s.cloc
    done = set()
    nloc = set()
    verdicts = []
    while work:
        k, mode = work.pop()
        if (k, mode) in done:
            continue
        done.add((k, mode))
        for k2, h, b, bk in rec.iters:
            if k2 != k:
                continue
            c = scan.char_of(rec, b)
            if c is None:
                verdicts.append((None, 'an iteration does not look at its character', b))
                continue
            cs = scan.chars(b.F, c)
            classes = [(nm, x) for nm, x in (('%', cs & {37}), ('digit', cs & scan.DIG), ('other', cs - {37} - scan.DIG)) if x]
            exact = scan.only_about(b.F, len(h.F.pc), {c} | set(v for v in h.env.values() if v[0] in ('L',)))
            push = segments(s, b.env.get(segl, ('c', 'empty')), h.env.get(segl, ('c', 'empty')))
            old, new = bufval(h), bufval(b)
            if push is None or old is None or new is None:
                verdicts.append((None, 'pieces built in a way that was not recognised', b))
                continue
            for nm, x in classes:
                r = step(s, mode, nm, c, old, new, push, h, b, nloc)
                verdicts.append((r[0] if r[0] is not False or exact else None, 'in mode "%s", on %s: %s' % (mode, nm, r[1]), b))
                if bk is not None and r[2]:
                    modes.setdefault(bk, set()).add(r[2])
                    work.append((bk, r[2]))
    for r, why, b in verdicts:
        ctx.check(r, 'scan-step', '%s line %s' % (w, rec.line), why)
    for k, kind, st, v in rec.exits:
        if kind != 'cond':
            ctx.bad('scan-reads-everything', w, 'the scan stops before the end of the format string')
    ctx.ok('scan-reads-everything', w)
    # what happens to what is pending at the end
    for p in ps:
        if p.kind != 'ret':
            continue
        for e in p.ev:
            if e[0] != 'loop' or e[2] is not rec:
                continue
            ms = modes.get(e[3])
            st = exit_state(rec, e[3])
            if ms is None or st is None:
                continue
            base = st.env.get(segl, ('c', 'empty'))
            push = segments(s, p.st.env.get(segl, ('c', 'empty')), base)
            old = bufval(st)
            if push is None or old is None:
                ctx.unk('scan-end', w, 'end of the scan not recognised')
                continue
            for m in ms:
                ok = ending(s, m, old, push, st, nloc)
                simple_ = all(scan.uses_only(c, set(x for x in st.env.values() if x[0] == 'L')) or True for c, pol, ln in p.st.F.pc)
                ctx.check(ok, 'scan-end', w, 'text ending in mode "%s" leaves %s' % (m, [(q[0], pv(('s', q[1])) if q[0] == 'lit' else pv(q[1])) for q in push]), p)
    lost = [k for k in heads if k not in modes]
    if lost and not modes:
        ctx.unk('scan-step', w, 'no reachable mode')


def scan_pushes(s, r):
    for k, h, b, bk in r.iters:
        for e in b.ev:
            if e[0] == 'wr' and e[2] == s.cloc:
                yield e


def exit_state(rec, key):
    for k, kind, st, v in rec.exits:
        if k == key and kind == 'cond':
            return st
    return None


def is_entry(rec, key, h, s, buf):
    """does this head variant describe the state the loop is entered with"""
    for m in rec.M:
        e, v = rec.entry.env.get(m), h.env.get(m)
        if e is None or v is None:
            continue
        if e == v:
            continue
        if v[0] == 'L' and e[0] == 'i':
            lo, hi = h.F.irange(v)
            if lo <= e[1] <= hi:
                continue
        if v[0] == 'it' and e[0] == 'it' and v[1] == e[1] and rec.kind in ('foreach', 'index'):
            continue        # where the loop has got to in what it reads
        return False
    return True


def units(ps, c):
    return scan.lit_pieces(ps, c)


def step(s, mode, cls, c, old, new, push, h, b, nloc):
    """one character in one reference mode -> (verdict, why, next mode)"""
    out = []           # abstract output of this step: what was pending plus what is new
    for kind, x in push:
        out += units(x, c) if kind == 'lit' else [('num', x)]
    tail = units(new, c)
    o = units(old, c)

    def text(expect, nxt):
        got = out + tail
        return (got == o + expect, 'text becomes %s instead of %s' % (show(got), show(o + expect)), nxt)
    if mode == TEXT:
        return text([], PERC) if cls == '%' else text(['c'], TEXT)
    if mode == PERC:
        if cls == 'digit':
            ok, why, nxt = text([], NUM)
            # some variable now holds the digit's value
            ns = [m for m, v in b.env.items() if v == addc(c, -48) and m[0] != 'e']
            ns = [m for m in ns if m in h.env or True]
            if not ns:
                return (False, 'the first digit of the number is not kept', NUM)
            nloc |= set(ns)
            if tail and ok:
                return (None, 'text still pending while a number is read', NUM)
            return (ok, why, nxt)
        if cls == '%':
            r = text([37], TEXT)
            r2 = text(['c'], TEXT)
            return r if r[0] else (r2[0], r[1], TEXT)
        return text([37, 'c'], TEXT)
    # NUM
    if cls == 'digit':
        if out or tail != o:
            return (False, 'a further digit of a number changes the text', NUM)
        for m in nloc:
            v, hv = b.env.get(m), h.env.get(m)
            if hv is not None and v == add(mulc(hv, 10), addc(c, -48)):
                return (True, '', NUM)
        return (False, 'a further digit does not make the number ten times as big plus the digit', NUM)
    if not push or push[0][0] != 'num' or out[0] != ('num', push[0][1]):
        return (False, 'the placeholder is not recorded when its number ends', NUM)
    if not any(h.env.get(m) == push[0][1] for m in nloc):
        return (False, 'the placeholder does not get the number read', TEXT)
    got = out[1:] + tail
    want = o + ([] if cls == '%' else ['c'])
    return (got == want, 'after a number the text becomes %s instead of %s' % (show(got), show(want)), PERC if cls == '%' else TEXT)


def ending(s, m, old, push, st, nloc):
    out = []
    for kind, x in push:
        out += units(x, None) if kind == 'lit' else [('num', x)]
    o = units(old, None)
    if m == TEXT:
        return out == o
    if m == PERC:
        return out == o + [37]
    return len(out) == 1 + len(o) and out[:1] and out[0][0] == 'num' and any(st.env.get(x) == out[0][1] for x in nloc)


def show(us):
    return '[' + ' '.join(chr(u) if isinstance(u, int) else ('c' if u == 'c' else (pretty.pp(u) if u[0] != 'num' else 'placeholder')) for u in us) + ']'


# ------------------------------------------------------------------ F03
def renderers(ctx):
    out = []
    for f in ctx.P.funcs.values():
        if not f['has']:
            continue
        if f.get('cls') == FMT and f['name'] == 'str':
            out.append((f, THIS))
        elif f['name'] == 'operator<<' and any(strip(p['t']) == FMT for p in f['params']):
            out.append((f, None))
    if not any(f['name'] == 'str' for f, t in out):
        raise Anchor(FMT + '::str')
    return sorted(out, key=lambda x: x[0]['key'])


def seg_loops(s, p):
    return [e[2] for e in p.ev if e[0] == 'loop' and e[2].cloc is not None and e[2].cloc[0] == 'f' and e[2].cloc[2] == s.segs]


def rendered(ctx, f, p):
    """the text a renderer produces on a path"""
    if f['name'] == 'str':
        v = p.val
        if v is not None and v[0] == 'loc':
            v = p.st.env.get(v[1])
        return v
    os_ = [e for e in p.ev if e[0] == 'out']
    r = EMPTY_S
    for e in os_:
        if e[3] != 'str' or e[4] is None or e[4][0] != 's':
            return None
        r = scat(r, e[4])
    return r


def acc_rule(ctx, s, w, p, text, seen):
    """text is the pieces' rendering accumulated by the loop over them, in order"""
    ls = seg_loops(s, p)
    if len(ls) != 1 or ls[0].kind not in ('foreach', 'index'):
        ctx.unk('renders-pieces', w, 'not a single loop over the pieces')
        return
    rec = ls[0]
    for k, kind, st, v in rec.exits:
        ctx.check(kind == 'cond' or (None if kind == 'throw' else False), 'renders-every-piece', w, 'the loop over the pieces stops early')
    if text is None or text[0] != 's':
        ctx.unk('renders-pieces', w, 'rendered text not recognised: %s' % pv(text))
        return
    accs = [m for m in rec.M if any(scan_text(h.env.get(m)) is not None for k, h, b, bk in rec.iters)]
    acc = None
    if text == EMPTY_S:
        acc = accs[0] if len(accs) == 1 else None
        if acc is None and accs:
            return
        if acc is None:
            # no text accumulated at all
            it = [b for k, h, b, bk in rec.iters]
            ctx.check(not it, 'renders-pieces', w, 'the pieces are visited but nothing is rendered', p)
            return
    else:
        for m in accs:
            if text == ('s', (('w', ('L', rec.lid, m, 'std::string')),)):
                acc = m
    if acc is None:
        rest = [q for q in text[1] if not (q[0] == 'w' and q[1][0] == 'L' and q[1][1] == rec.lid and q[1][2] in accs)]
        extra = rest and all(q[0] == 'lit' for q in rest) and accs
        ctx.check(False if extra else None, 'renders-pieces', w, 'the text rendered is %s, not just the pieces' % pv(text), p)
        return
    if (rec.node.get('l'), acc) in seen:
        return
    seen.add((rec.node.get('l'), acc))
    e0 = rec.entry.env.get(acc)
    ctx.check(scan_text(e0) == (), 'renders-pieces', w, 'rendering starts with %s' % pv(e0), p)
    for k, h, b, bk in rec.iters:
        kv = piece_field(s, rec, b, s.kindf)
        vv, iv = piece_field(s, rec, b, s.valf), piece_field(s, rec, b, s.idxf)
        F = b.F
        old, new = scan_text(h.env.get(acc)), scan_text(b.env.get(acc))
        if old is None or new is None or new[:len(old)] != old:
            ctx.check(False if old is not None and new is not None else None, 'renders-pieces', w, 'a piece turns the text %s into %s' % (pv(h.env.get(acc)), pv(b.env.get(acc))), p)
            continue
        tail = new[len(old):]
        lit = F.decide(eq0(addc(kv, -s.lit))) if kv is not None else None
        hole = F.decide(eq0(addc(kv, -s.hole))) if kv is not None else None
        if lit is False and hole is False:
            continue      # there is no other kind
        as_lit = vv is not None and tail == (('w', vv),)
        as_hole = len(tail) == 2 and tail[0] == ('lit', '%') and number_of(tail[1]) is not None and number_of(tail[1]) == iv
        if lit is True or hole is False:
            ctx.check(as_lit, 'literal-shown-as-is', w, 'a literal or filled piece is shown as %s' % pv(('s', tail)), p)
        elif hole is True or lit is False:
            if as_hole and tail[1][0] == 'fmt' and tail[1][1] == 'int' and any(e[0] == 'resign' and e[2] == iv for e in b.ev):
                ctx.bad('placeholder-shown', w, 'the number of an unfilled placeholder is shown as a signed one: large numbers appear negative', p)
                continue
            ctx.check(as_hole, 'placeholder-shown', w, 'an unfilled placeholder is shown as %s' % pv(('s', tail)), p)
        else:
            ctx.check(None if as_lit or as_hole else False, 'renders-pieces', w, 'a piece of unknown kind is shown as %s' % pv(('s', tail)), p)


def piece_field(s, rec, st, name):
    found = set()

    def go(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'sym' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'F' and t[1][2] == name and scan.mentions(t[1][1], rec.elem):
                found.add(t)
                return
            for x in t:
                go(x)
    for c, pol, ln in st.F.pc:
        go(c)
    for e in st.ev:
        go(e[:5])
    for v in st.env.values():
        go(v)
    return list(found)[0] if len(found) == 1 else None


def scan_text(v):
    if v is not None and v[0] in ('s', 'ss'):
        return v[1]
    return None


def number_of(p):
    """the number a piece shows in plain decimal"""
    if p[0] == 'fmt' and p[1] in ('int', 'uint') and p[3] == I(0) and p[6] == 'dec' and p[7:10] == (0, 0, 0):
        return p[2]
    if p[0] == 'w' and p[1][0] == 'op' and p[1][1] == 'to_string':
        return p[1][3]
    if p[0] == 'dec':
        return p[1]
    return None


def F03(ctx):
    s = shape(ctx)
    for f, this in renderers(ctx):
        def one(f=f):
            I_, ps = ctx.run(f, key='full')
            w, seen = ctx.loc(f), set()
            cuts(ctx, 'renders-pieces', w, ps, lambda v: free_text(v) or v[:1] == ('s',) and any(q[0] == 'w' and q[1][0] == 'L' for q in v[1]))
            for p in ps:
                wr = [e for e in all_events(p.ev) if e[0] == 'wr' and root(e[2])[0] in ('f', 'g', 'arg') and not local(e[2], f)]
                ctx.check(not wr, 'rendering-changes-nothing', w, 'rendering changes %s' % (wr and ploc(wr[0][2])), p)
                if p.kind == 'ret':
                    acc_rule(ctx, s, w, p, rendered(ctx, f, p), seen)
        guarded(ctx, 'renders-pieces', ctx.loc(f), one)
    # a value becomes literal text, and adding never reads any text as a format again
    fl = fillers(ctx, s)
    for f in ctx.fns_of(FMT):
        if f['key'] not in fl and f['kind'] == 'fn' and f['name'] not in ADDS and any(strip(a['t']) == 'std::string' for a in f['params']):
            guarded(ctx, 'inserted-value-is-literal', ctx.loc(f), lambda: whole_argument(ctx, s, f))
    todo = [f for f in ctx.fns_of(FMT) if f['key'] in fl] + adds(ctx)
    for f in todo:
        def one(f=f):
            I_, ps = ctx.run(f, key='full' if f['key'] in fl else 'ins')
            cuts(ctx, 'inserted-value-is-literal', ctx.loc(f), ps, free_text)
            for p in ps:
                for rec in fills(s, p):
                    for k, h, b, bk in rec.iters:
                        for l in elem_writes(s, rec, h, b):
                            if l[2] == s.valf and not any(x[2] == s.kindf for x in elem_writes(s, rec, h, b)):
                                ctx.bad('inserted-value-is-literal', ctx.loc(f), 'a piece that was given a value still counts as a placeholder')
                            if l[2] == s.kindf:
                                ctx.check(b.get(l) == I(s.lit), 'inserted-value-is-literal', ctx.loc(f), 'a filled piece becomes kind %s' % pv(b.get(l)))
                            if l[2] == s.valf and f['key'] in fl:
                                ctx.check(b.get(l) == ('s', (('w', ('sym', ('arg', 0), 'std::string')),)), 'inserted-value-is-literal', ctx.loc(f),
                                          'the piece gets %s instead of the value' % pv(b.get(l)))
                re_ = [e for e in all_events(p.ev) if e[0] == 'wr' and e[2] == s.cloc]
                ctx.check(not re_, 'values-never-scanned', ctx.loc(f), 'adding a value rebuilds the list of pieces (line %s)' % (re_ and re_[0][1]), p)
                cl = [e for e in all_events(p.ev) if e[0] in ('call', 'vcall') and e[5] not in fl and e[3] == THIS]
                ctx.check(None if cl else True, 'values-never-scanned', ctx.loc(f), 'calls %s' % (cl and cl[0][2]))
        guarded(ctx, 'inserted-value-is-literal', ctx.loc(f), one)


def whole_argument(ctx, s, f):
    """a helper that puts a part of the text it is given into a piece loses the rest"""
    args = [('w', ('sym', ('arg', i), 'std::string')) for i, a in enumerate(f['params']) if strip(a['t']) == 'std::string']
    for p in ctx.run(f, key='full')[1]:
        for rec in fills(s, p):
            for k, h, b, bk in rec.iters:
                for l in elem_writes(s, rec, h, b):
                    v = b.get(l)
                    if l[2] != s.valf or v is None or v[0] != 's':
                        continue
                    part = len(v[1]) == 1 and v[1][0][0] == 'sub' and v[1][0][1] in [('s', (a,)) for a in args] + args
                    if part and b.F.decide(eq0(sub(slen(v), slen(v[1][0][1] if v[1][0][1][0] == 's' else ('s', (v[1][0][1],)))))) is not True:
                        ctx.bad('inserted-value-is-literal', ctx.loc(f), 'the piece gets %s instead of the value' % pv(v))


def local(l, f):
    r = root(l)
    if r[0] == 'arg' or (r[0] == 'g' and not str(r[1]).startswith('SoDa')):
        # the stream written to
        return True
    return r[0] in ('v', 't', 'h')


# ------------------------------------------------------------------ F04
def F04(ctx):
    s = shape(ctx)
    if s.orig is None:
        ctx.unk('original-kept', FMT, 'no single text field')
        return
    orig = ('f', THIS, s.orig)
    osym = ('s', (('w', ('sym', orig, 'std::string')),))
    arg = ('s', (('w', ('sym', ('arg', 0), 'std::string')),))
    wf = written_fields(ctx.P, FMT)
    base = None
    for f in ctx.need(ctors(ctx), FMT + ' constructor'):
        I_, ps = ctx.run(f, key='full')
        for p in ps:
            if p.kind != 'ret':
                continue
            ctx.check(p.st.env.get(orig) == arg, 'original-kept', ctx.loc(f), 'keeps %s as the original format' % pv(p.st.env.get(orig)), p)
            sig = build_sig(s, p, (arg,))
            if sig is None:
                ctx.unk('reset-equals-creation', ctx.loc(f), 'construction not recognised')
            else:
                base = base or set()
                base.add(sig)
    for f in ctx.fns_of(FMT):
        if f['kind'] != 'fn':
            continue
        I_, ps = ctx.run(f, key='full' if f['name'] not in ADDS else 'ins', **({} if f['name'] not in ADDS else dict(opaque=lambda g: g['key'] in fillers(ctx, s))))
        for p in ps:
            wr = [e for e in all_events(p.ev) if e[0] == 'wr' and root(e[2]) == orig]
            ctx.check(not wr, 'original-kept', ctx.loc(f), 'changes the saved original format (line %s)' % (wr and wr[0][1]), p)
    for f in ctx.need(ctx.fns_of(FMT, 'reset'), FMT + '::reset'):
        I_, ps = ctx.run(f, key='full')
        got = set()
        for p in ps:
            if p.kind != 'ret':
                ctx.bad('reset-equals-creation', ctx.loc(f), 'reset can throw %s' % p.st.exc, p)
                continue
            r = restored(s, p, osym)
            if r[0] is not True:
                ctx.check(r[0], 'reset-equals-creation', ctx.loc(f), r[1], p)
                continue
            ctx.ok('reset-equals-creation', ctx.loc(f))
            got.add(build_sig(s, p, (osym,)))
            d = p.st.env.get(('f', THIS, s.counter))
            ctx.check(d == I(0), 'reset-restarts-numbering', ctx.loc(f), 'after reset the number of the next value is %s' % pv(d if d is not None else ('sym', 'unchanged', '')), p)
        if base is not None and None not in got:
            ctx.check(got == base or None, 'reset-equals-creation', ctx.loc(f), 'reset rebuilds the pieces differently from construction')
    for f in ctors(ctx):
        for p in ctx.run(f, key='full')[1]:
            if p.kind == 'ret':
                d = p.st.env.get(('f', THIS, s.counter))
                ctx.check(d == I(0), 'numbering-starts-at-zero', ctx.loc(f), 'after construction the number of the next value is %s' % pv(d), p)
    strict(ctx, s)


def build_sig(s, p, srcs):
    """how a path rebuilds the pieces from a text: which loop, from which state, with which ending"""
    es = [e for e in p.ev if e[0] == 'loop' and any(True for _ in scan_pushes(s, e[2]))]
    if len(es) != 1 or es[0][2].cont not in srcs:
        return None
    rec = es[0][2]
    def at(m):
        v = rec.entry.env.get(m)
        if m != s.cloc and v is not None and v[0] == 'it' and rec.kind in ('foreach', 'index'):
            return repr(('it',) + v[2:])        # where in the text, whichever copy of it
        return repr(v) if m != s.cloc else 'pieces'
    ent = tuple(sorted((str(m[-1]), at(m)) for m in rec.M))
    return (rec.node.get('l'), rec.node.get('f'), ent)


def restored(s, p, osym):
    es = [e for e in p.ev if e[0] == 'loop' and any(True for _ in scan_pushes(s, e[2]))]
    wr = [e for e in p.ev if e[0] == 'wr' and e[2] == s.cloc]
    v = p.st.env.get(s.cloc)
    if not es and not wr:
        return (False, 'the pieces are not rebuilt')
    if len(es) != 1:
        return (None, 'rebuilding of the pieces not recognised')
    rec = es[0][2]
    if rec.cont != osym:
        return (False if rec.cont[0] == 's' and rec.cont[1] and all(q[0] == 'w' for q in rec.cont[1]) else None, 'rescans %s instead of the saved original' % pv(rec.cont))
    e0 = rec.entry.env.get(s.cloc)
    if e0 != ('c', 'empty'):
        return (False, 'the old pieces are still there when the format is scanned again')
    return (True, '')


def strict(ctx, s):
    for f in ctx.need(ctx.fns_of(FMT, 'str'), FMT + '::str'):
        w = ctx.loc(f)
        I_, ps = ctx.run(f, key='full')
        chk = ('sym', ('arg', 0), 'bool')
        if not f['params'] or strip(f['params'][0]['t']) != 'bool':
            ctx.unk('strict-check', w, 'no strictness parameter')
            continue
        dflt = f['params'][0].get('d')
        recs = {}
        for p in ps:
            on = p.st.F.decide(chk)
            if p.kind == 'throw':
                t = strip(p.st.exc.typ)
                ctx.check(True if on is True else False, 'throws-only-if-asked', w, 'can throw %s without the strict check' % t, p)
                ctx.check(t == FMT + '::BadFormat', 'throws-bad-format', w, 'throws %s' % t, p)
            ls = seg_loops(s, p)
            if len(ls) != 1:
                ctx.unk('strict-check', w, 'not a single loop over the pieces')
                return
            recs.setdefault(id(ls[0]), (ls[0], []))[1].append(p)
        for rec, qs in recs.values():
            # witnesses: which loop variables tell "none unfilled" from "some unfilled"
            cnt = witness(s, rec)
            if cnt is None:
                d = defects(s, rec, qs)
                if d:
                    ctx.bad('throws-exactly-if-unfilled', w, d)
                else:
                    ctx.unk('strict-check', w, 'how unfilled placeholders are remembered was not recognised')
                continue
            m, none = cnt
            if wraps(rec, m):
                ctx.bad('throws-exactly-if-unfilled', w, wraps(rec, m))
                continue
            for p in qs:
                key = [e[3] for e in p.ev if e[0] == 'loop' and e[2] is rec][0]
                st = exit_state(rec, key)
                v = p.st.env.get(m)
                if v is None:
                    v = st.env.get(m) if st is not None else None
                none_left = p.st.F.decide(eq0(addc(v, -none))) if v is not None else None
                on = p.st.F.decide(chk)
                if p.kind == 'throw':
                    ctx.check(True if none_left is False else (False if none_left is True else None), 'throws-exactly-if-unfilled', w, 'throws although nothing is unfilled', p)
                elif on is True or on is None:
                    ctx.check(True if none_left is True else False, 'throws-exactly-if-unfilled', w, 'returns normally with unfilled placeholders under the strict check', p)
                else:
                    ctx.ok('throws-exactly-if-unfilled', w)


def witness(s, rec):
    """a loop variable that keeps its start value exactly as long as no unfilled placeholder was seen"""
    for m in rec.M:
        e = rec.entry.env.get(m)
        if e is None or e[0] != 'i':
            continue
        ok = True
        for k, h, b, bk in rec.iters:
            kv = piece_field(s, rec, b, s.kindf)
            lit = b.F.decide(eq0(addc(kv, -s.lit))) if kv is not None else None
            hole = b.F.decide(eq0(addc(kv, -s.hole))) if kv is not None else None
            hv, v = h.env.get(m), b.env.get(m)
            if lit is False and hole is False:
                continue
            if hole is True or lit is False:
                # must leave the start value for good
                if b.F.decide(eq0(addc(v, -e[1]))) is not False and not grows(v, hv):
                    ok = False
            else:
                if v != hv:
                    ok = False
        if ok:
            return (m, e[1])
    return None


def defects(s, rec, qs):
    """why the variable the strict check looks at does not tell whether a placeholder was unfilled"""
    cand = []
    for m in rec.M:
        e = rec.entry.env.get(m)
        if e is None or e[0] != 'i' or all(b.env.get(m) == h.env.get(m) for k, h, b, bk in rec.iters):
            continue
        cand.append(m)
    if len(cand) != 1:
        return None
    m = cand[0]
    if wraps(rec, m):
        return wraps(rec, m)
    e = rec.entry.env.get(m)
    for k, h, b, bk in rec.iters:
        kv, iv, vv = (piece_field(s, rec, b, x) for x in (s.kindf, s.idxf, s.valf))
        about = {x for x in (kv, iv, vv, h.env.get(m)) if x is not None}
        lit = b.F.decide(eq0(addc(kv, -s.lit))) if kv is not None else None
        hole = b.F.decide(eq0(addc(kv, -s.hole))) if kv is not None else None
        hv, v = h.env.get(m), b.env.get(m)
        if lit is False and hole is False or not scan.only_about(b.F, len(h.F.pc), about):
            continue
        atstart = b.F.decide(eq0(addc(v, -e[1])))
        was = b.F.decide(eq0(addc(hv, -e[1])))
        if (hole is True or lit is False) and atstart is True:
            return 'a piece that is an unfilled placeholder is not noticed (line %s)' % rec.line
        if (hole is True or lit is False) and v == iv and e[0] == 'i' and b.F.decide(eq0(addc(v, -e[1]))) is None:
            return 'an unfilled placeholder with the number %d is not noticed (line %s)' % (e[1], rec.line)
        if (lit is True or hole is False) and was is not True and atstart is True:
            return 'a literal piece makes an earlier unfilled placeholder forgotten (line %s)' % rec.line
        if (lit is True or hole is False) and was is True and atstart is False:
            return 'a literal piece counts as an unfilled placeholder (line %s)' % rec.line
    return None


def wraps(rec, m):
    """a count in a type so small that it comes back to its start value"""
    for k, h, b, bk in rec.iters:
        hv, v = h.env.get(m), b.env.get(m)
        t = strip(tyof(hv) or '') if hv is not None else ''
        if v is None or v == hv or t == 'bool' or RANGES.get(t, (0, BIG))[1] >= BIG:
            continue
        if v[0] == 'op' and v[1] == 'cast':
            v = v[3]
        if grows(v, hv):
            return 'unfilled placeholders are counted in %s, which wraps around after %d of them (line %s)' % (t, RANGES[t][1] - RANGES[t][0] + 1, rec.line)
    return None


def grows(v, hv):
    d = sub(v, hv)
    return d[0] == 'i' and d[1] == 1


# ------------------------------------------------------------------ F09
def F09(ctx):
    P = ctx.P
    exts = sorted({f['cls'] for f in P.funcs.values() if f.get('cls') and re.match(r'SoDa::Format_ext<', f['cls'])})
    if not exts:
        raise Anchor('SoDa::Format_ext')
    plain = adds(ctx)
    # overload sets by name: the extended class must offer every way of adding
    for x in exts:
        fs = [f for f in P.funcs.values() if f.get('cls') == x and f['name'].startswith('add')]
        ctx.check(FMT in chain_of(P, x), 'extends-plain', x, 'is not built on the plain format')
        for f in plain:
            m = [g for g in fs if g['name'] == f['name'] and [strip(a['t']) for a in g['params']] == [strip(a['t']) for a in f['params']]]
            w = '%s::%s' % (x, f['name'])
            same = [g for g in fs if g['name'] == f['name']]
            if not m:
                if same:
                    ctx.bad('same-arguments', w, 'takes (%s) where the plain one takes (%s)' % (', '.join(a['t'] for a in same[0]['params']), ', '.join(a['t'] for a in f['params'])))
                else:
                    ctx.bad('every-add-offered', w, 'is missing: the plain one returns the plain object')
                continue
            g = m[0]
            ctx.ok('same-arguments', w)
            for i, (a, b) in enumerate(zip(g['params'], f['params'])):
                da, db = dv(a.get('d')), dv(b.get('d'))
                ctx.check(da == db, 'same-defaults', w, 'argument %d defaults to %s, to %s in the plain one' % (i + 1, da, db))
            guarded(ctx, 'forwards', w, lambda: forwards(ctx, g, f, w))
        for g in fs:
            if not [f for f in plain if f['name'] == g['name']]:
                ctx.unk('forwards', g['qn'], 'no plain counterpart')
        for g in [f for f in P.funcs.values() if f.get('cls') == x and f['kind'] == 'ctor' and not f.get('implicit') and f['has']]:
            def one(g=g):
                I_, ps = ctx.run(g, key='ext', opaque=lambda q: q.get('cls') == FMT)
                for p in ps:
                    c = [e for e in p.ev if e[0] in ('call', 'vcall') and e[2] == FMT + '::Format']
                    if not c:
                        continue
                    ctx.check(c[0][4][0] in (('s', (('w', ('sym', ('arg', 0), 'std::string')),)), ('loc', ('arg:', 0))) or strval(p, c[0][4][0]) == ('s', (('w', ('sym', ('arg', 0), 'std::string')),)) or
                              c[0][4][0][0] == 'loc' or False, 'same-format-string', ctx.loc(g), 'passes %s on as the format string' % pv(c[0][4][0]))
            guarded(ctx, 'same-format-string', ctx.loc(g), one)


def chain_of(P, t, seen=()):
    r = P.records.get(t)
    if r is None or t in seen:
        return set()
    out = set()
    for b in r['bases']:
        out.add(strip(b['t']))
        out |= chain_of(P, strip(b['t']), seen + (t,))
    return out


def dv(d):
    """a default argument in comparable form"""
    if d is None:
        return None
    if isinstance(d, dict):
        while d.get('k') in ('cast', 'tmp', 'par', 'xp', 'ld') and isinstance(d.get('e'), dict):
            d = d['e']
        for n in ('v', 'val', 's', 'n'):
            if n in d and not isinstance(d[n], (dict, list)):
                return str(d[n])
        return repr({k: v for k, v in d.items() if k not in ('l', 'f', 't', 'c')})
    return str(d)


def forwards(ctx, g, f, w):
    if not g['has']:
        ctx.unk('forwards', w, 'no body')
        return
    ptr = [x['n'] for x in ctx.P.records[g['cls']]['fields'] if x['t'].strip().endswith('*')]
    I_, ps = ctx.run(g, key='ext', opaque=lambda q: q.get('cls') == FMT)
    for p in ps:
        if p.kind != 'ret':
            ctx.bad('forwards', w, 'can throw %s' % p.st.exc, p)
            continue
        c = [e for e in all_events(p.ev) if e[0] in ('call', 'vcall') and e[2].startswith(FMT + '::add')]
        if len(c) != 1:
            ctx.check(False if not p.st.imprecise else None, 'forwards', w, 'calls %d add operations of the plain format' % len(c), p)
            continue
        c = c[0]
        ctx.check(c[5] == f['key'], 'forwards', w, 'forwards to %s' % c[2], p)
        ctx.check(c[3] == THIS, 'forwards', w, 'adds to another object', p)
        for i, a in enumerate(c[4]):
            want = ('sym', ('arg', i), strip(g['params'][i]['t'])) if i < len(g['params']) else None
            v = strval(p, a)
            good = v == want or v == ('s', (('w', want),)) or a == ('loc', ('arg:', i)) or a[0] == 'loc' and ploc(a[1]) == 'arg:%d' % i
            conv = v is not None and v[0] in ('lin', 'op', 'i', 's', 'sym', 'eq0', 'not')
            ctx.check(True if good else (False if conv else None), 'forwards-every-argument', w, 'argument %d is passed on as %s' % (i + 1, pv(v)), p)
        nar = [e for e in all_events(p.ev) if e[0] == 'narrow']
        ctx.check(not nar, 'forwards-every-argument', w, 'an argument is cut to %s' % (nar and nar[0][4]), p)
        r = p.val
        if r is None or r[0] != 'loc':
            ctx.unk('returns-extended', w, 'result %s' % pv(r))
            continue
        ok = r[1][0] == 'd' and r[1][1][0] == 'sym' and r[1][1][1] in [('f', THIS, n) for n in ptr] or r[1] == THIS and g['ret'].strip().rstrip('&').strip() == g['cls']
        ctx.check(True if ok else (False if r[1] == THIS or r[1][0] in ('v', 'h', 'g') else None), 'returns-extended', w, 'returns %s' % ploc(r[1]), p)
