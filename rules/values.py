"""F05, F07, F08: what text an added value becomes."""
from .common import *
from . import scan
from .format import FMT, adds, shape, insertions, strval

SP = I(32)
DIG = frozenset(range(48, 58))


def argsym(f, i):
    return ('sym', ('arg', i), strip(f['params'][i]['t']))


def argtext(f, i):
    return ('w', argsym(f, i))


# ------------------------------------------------------------------ digit grouping loops
class Group:
    """a loop that copies a number's text character by character, adding separators"""
    rec = acc = src = None       # src: the text read, in the order it is shown
    back = False                 # from the last character to the first
    sep = None                   # term of the separator
    seps = ()                    # [(iteration, character term)] that add one
    plain = ()


def find_group(p, sym):
    """sym: ('L', lid, loc, type) the accumulated text"""
    for rec in loops_of(p.ev):
        if rec.lid == sym[1]:
            break
    else:
        return None
    g = Group()
    g.rec, g.acc = rec, sym[2]
    if rec.kind not in ('foreach', 'index') or rec.elem is None or rec.cont is None or rec.cont[0] != 's':
        return None
    if any(kind != 'cond' for k, kind, st, v in rec.exits):
        return None
    dirs = set()
    seps, plain = [], []
    if rec.entry.env.get(g.acc) != EMPTY_S:
        return None
    for k, h, b, bk in rec.iters:
        o, n = h.env.get(g.acc), b.env.get(g.acc)
        c = scan.char_of(rec, b)
        if o is None or n is None or o[0] != 's' or n[0] != 's' or c is None:
            return None
        ch = ('chr', c)
        if o == EMPTY_S:
            new, d = n[1], None
        elif n[1][-len(o[1]):] == o[1]:
            new, d = n[1][:-len(o[1])], 'pre'
        elif n[1][:len(o[1])] == o[1]:
            new, d = n[1][len(o[1]):], 'app'
        elif any(n[1][i:i + len(o[1])] == o[1] for i in range(len(n[1]))):
            return ('bad', 'a separator goes to the other end of the text than its digit (line %s)' % rec.line)
        else:
            return None
        if d:
            dirs.add(d)
        if new.count(ch) != 1:
            return ('bad', 'a character of the number is copied %d times (line %s)' % (new.count(ch), rec.line))
        rest = [x for x in new if x != ch]
        if rest:
            at = new.index(ch)
            seps.append((h, b, c, rest, o == EMPTY_S, at))
        else:
            plain.append((h, b, c, o == EMPTY_S))
    if len(dirs) > 1 or not rec.iters:
        return None
    d = list(dirs)[0] if dirs else 'app'
    g.dir = d
    src = rec.cont
    if d == 'pre':
        src = rev(src)
    g.src, g.seps, g.plain = src, seps, plain
    return g


def rev(s):
    if len(s[1]) == 1 and s[1][0][0] == 'rev':
        r = s[1][0][1]
        return r if r[0] == 's' else ('s', tuple(r))
    return ('s', (('rev', s),))


def srcpieces(s):
    return s[1]


class Val:
    """what is known of an inserted text"""

    def __init__(self):
        self.cores, self.widths, self.pads, self.groups, self.problem, self.unknown = [], [], [], [], None, None


def analyse(p, v, out=None, at='core'):
    out = out or Val()
    if v is None or v[0] != 's':
        out.unknown = 'text %s' % pv(v)
        return out
    return pieces(p, v[1], out)


def pieces(p, ps, out):
    pend = []      # padding before the core
    seen = len(out.cores)
    for q in ps:
        k = q[0]
        had = len(out.cores) > seen
        if k == 'fmt':
            w = q[3]
            if q[1] == 'str':
                pieces(p, q[2][1], out)
            else:
                out.cores.append(q)
            if w != I(0):
                out.widths.append(w)
                out.pads.append(('right' if q[5] == 'left' else 'left', q[4], w))
        elif k == 'w' and q[1][0] == 'L':
            g = find_group(p, q[1])
            if isinstance(g, tuple):
                out.problem = g[1]
                out.cores.append(q)
            elif g is None:
                out.unknown = 'text %s' % pv(('s', (q,)))
            else:
                group(p, g, out)
        elif k == 'rev':
            inner = q[1] if q[1][0] == 's' else ('s', tuple(q[1]))
            if len(inner[1]) == 1 and inner[1][0][0] == 'w' and inner[1][0][1][0] == 'L':
                g = find_group(p, inner[1][0][1])
                if g is None:
                    out.unknown = 'text %s' % pv(('s', (q,)))
                elif isinstance(g, tuple):
                    out.problem = g[1]
                    out.cores.append(q)
                else:
                    g.src = rev(g.src)
                    g.flipped = True
                    group(p, g, out)
            else:
                out.unknown = 'text %s' % pv(('s', (q,)))
        elif k == 'w':
            out.cores.append(q)
        elif k == 'lit':
            if set(q[1]) == {' '}:
                out.pads.append(('right' if had else 'left', SP, I(len(q[1]))))
            elif q[1] == '0x' and not had:
                out.prefix = q
            else:
                out.cores.append(q)
        elif k == 'rep' and len(q[1]) == 1 and q[1][0][0] in ('lit', 'chr'):
            r = q[1][0]
            fill = I(ord(r[1])) if r[0] == 'lit' and len(r[1]) == 1 else (r[1] if r[0] == 'chr' else None)
            if fill is None:
                out.unknown = 'padding %s' % pv(('s', (q,)))
            else:
                out.pads.append(('right' if had else 'left', fill, q[2]))
        elif k == 'chr':
            out.cores.append(q)
        elif k == 'sub' and (q[1][0] == 's' or isinstance(q[1], tuple)):
            src = q[1] if q[1] and q[1][0] == 's' else ('s', tuple(q[1]))
            cut = p.st.F.decide(le0(addc(sub(q[3], slen(src)), 1)))
            if cut is True and not all(x[0] in ('lit', 'rep') for x in src[1]):
                out.problem = 'only part of the text %s is used' % pv(src)
                out.cores.append(q)
            elif cut is False and q[2] == I(0):
                pieces(p, src[1], out)
            else:
                out.unknown = 'text %s' % pv(('s', (q,)))
        else:
            out.unknown = 'text %s' % pv(('s', (q,)))
    return out


def group(p, g, out):
    out.groups.append(g)
    n = len(out.cores)
    pieces(p, g.src[1], out)


# ------------------------------------------------------------------ F05
def feasible(F, conds):
    G = F.copy()
    for c, pol in conds:
        if not G.assume(c, pol):
            return None
    return G


def F05(ctx):
    s = shape(ctx)
    for f in adds(ctx):
        if f['name'] in ('addI', 'addU', 'addS'):
            guarded(ctx, 'whole-value', ctx.loc(f), lambda: padding(ctx, s, f))


def least(ctx, rule, w, f, paths):
    """no step takes the negative of a given value that may be the least of its type"""
    args = [argsym(f, 0)]
    hit = None
    for p in paths:
        for e in all_events(p.ev):
            if e[0] == 'minneg' and e[2] in args and hit is None:
                hit = (p, e)
    if hit:
        ctx.bad(rule, w, 'the negative of a given %s is taken (line %s), which the least %s does not have' % (hit[1][3], hit[1][1], hit[1][3]), hit[0])
    else:
        ctx.ok(rule, w)


def padding(ctx, s, f):
    w = ctx.loc(f)
    least(ctx, 'every-value', w, f, [p for p, vals, d in insertions(ctx, s, f)])
    for rec in ctx.run(f, key='full')[0].loops:
        if rec.iters and not rec.exits and not rec.entry.imprecise:
            ctx.bad('pad-amount', w, 'for some widths the loop at line %s never ends, so nothing is inserted' % rec.line, Path(rec.entry, 'stuck', None))
    wi = {'addI': 1, 'addU': 2, 'addS': 1}[f['name']]
    W = argsym(f, wi)
    for p, vals, d in insertions(ctx, s, f):
        if p.kind != 'ret' or len(vals) != 1:
            continue
        v = vals[0]
        if v is None or v == 'in-loop':
            ctx.unk('whole-value', w, 'inserted text not recognised')
            continue
        a = analyse(p, v)
        if a.problem:
            ctx.bad('whole-value', w, a.problem, p)
            continue
        if a.unknown:
            ctx.unk('whole-value', w, a.unknown)
            continue
        F = p.st.F
        # the whole value, once
        if f['name'] == 'addS':
            full = a.cores == [argtext(f, 0)]
            if not full and a.cores == [] and F.decide(eq0(slen(('s', (argtext(f, 0),))))) is True:
                full = True
            ctx.check(full or (False if known(a.cores) else None), 'whole-value', w, 'the inserted text is %s' % pv(v), p)
        else:
            num = [q for q in a.cores if q[0] == 'fmt' and q[1] in ('int', 'uint')]
            full = len(a.cores) == 1 and num and num[0][2] == argsym(f, 0)
            if num and num[0][2] != argsym(f, 0) and p.st.F.decide(eq0(sub(num[0][2], argsym(f, 0)))) is True:
                full = True
            ctx.check(full or (False if known(a.cores) else None), 'whole-value', w, 'the inserted text is %s' % pv(v), p)
            nar = [e for e in all_events(p.ev) if e[0] == 'narrow' and e[2] == argsym(f, 0)]
            ctx.check(not nar, 'whole-value', w, 'the value is cut to %s (line %s)' % (nar and nar[0][4], nar and nar[0][1]), p)
        # at least the width
        cases = [([], W)] if f['name'] != 'addS' else [([(le0(W), False)], W), ([(le0(addc(W, 1)), True)], mulc(W, -1)), ([(eq0(W), True)], I(0))]
        for conds, need in cases:
            G = feasible(F, conds)
            if G is None:
                continue
            ok = G.decide(le0(need))
            ok = ok is True or any(G.decide(le0(sub(need, x))) is True for x in a.widths) or G.decide(le0(sub(need, slen(v)))) is True
            if not ok and a.groups and len(a.groups) == 1:
                ok = G.decide(le0(sub(need, slen(a.groups[0].src)))) is True
            short = G.decide(le0(sub(need, slen(v)))) is False or (not ok and not a.widths and not a.groups and exact(v))
            ctx.check(True if ok else (False if short or not ok and plainwidths(a, G, need) else None), 'at-least-the-width', w,
                      'the inserted text %s may be shorter than the width %s' % (pv(v), pv(need)), p)
            # on the right side, with the right character
            side = 'left'
            if f['name'] == 'addS' and conds and conds[0][1] is True and conds[0][0][0] == 'le0':
                side = 'right'
            for sd, fill, n in a.pads:
                none = G.decide(le0(n)) is True
                if none:
                    ctx.ok('pad-side', w)
                    continue
                if f['name'] == 'addS' and full and a.cores and len(a.pads) == 1 and n in a.widths:
                    # a field width pads up to it
                    ctx.check(True if G.decide(le0(sub(n, need))) is True else False if G.decide(le0(sub(n, need))) is False else None, 'pad-amount', w,
                              'pads up to %s where the width asks for less' % pv(n), p)
                elif f['name'] == 'addS' and full and a.cores and len(a.pads) == 1:
                    over = addc(sub(n, sub(need, slen(('s', (argtext(f, 0),))))), 0)      # beyond what the width asks for
                    ctx.check(True if G.decide(le0(over)) is True else False if G.decide(le0(over)) is False else None, 'pad-amount', w,
                              'pads with %s where the width asks for less' % pv(n), p)
                ctx.check(True if sd == side else False, 'pad-side', w, 'pads on the %s where the %s is asked for' % (sd, side), p)
                if f['name'] == 'addI':
                    fc = argsym(f, 3)
                    given = G.decide(eq0(fc))
                    if given is not True:
                        ctx.check(True if fill == fc else False, 'fill-character', w, 'pads with %s where a fill character is given' % pv(fill), p)
                    else:
                        ctx.check(True if fill == SP or fill == fc and False else False, 'fill-character', w, 'pads with %s where no fill character is given' % pv(fill), p)
                elif f['name'] == 'addS':
                    ctx.check(True if fill == SP else False, 'fill-character', w, 'pads with %s' % pv(fill), p)


def known(cores):
    """every part of the text is understood"""
    return all(q[0] in ('fmt', 'lit', 'chr', 'w', 'sub', 'rev') for q in cores)


def exact(v):
    return all(q[0] in ('lit', 'w', 'rep', 'chr', 'fmt') for q in v[1])


def plainwidths(a, G, need):
    """every width applied is a plain expression of the arguments, so that not matching is a real mismatch"""
    cut = lambda x: x[0] == 'op' and x[1] == 'cast' and simple_term(x[3])
    return bool(a.widths) and all(simple_term(x) or cut(x) for x in a.widths) or not a.widths and not a.unknown


def simple_term(x):
    return x[0] in ('i', 'sym') or x[0] == 'lin' and all(simple_term(q) or q[0] == 'op' and q[1] in ('len', 'size') for q, k in x[2])


# ------------------------------------------------------------------ F08
def F08(ctx):
    s = shape(ctx)
    for f in adds(ctx):
        if f['name'] in ('addI', 'addU'):
            guarded(ctx, 'removing-separators', ctx.loc(f), lambda: grouping(ctx, s, f))


def grouping(ctx, s, f):
    w = ctx.loc(f)
    si = 2 if f['name'] == 'addI' else 3
    sep = argsym(f, si)
    size = I(3) if f['name'] == 'addI' else argsym(f, 4)
    least(ctx, 'every-value', w, f, [p for p, vals, d in insertions(ctx, s, f)])
    plain, grouped = [], []
    for p, vals, d in insertions(ctx, s, f):
        if p.kind != 'ret' or len(vals) != 1:
            continue
        v = vals[0]
        a = analyse(p, v) if v is not None and v != 'in-loop' else None
        if a is None:
            ctx.unk('removing-separators', w, 'inserted text not recognised')
            continue
        on = p.st.F.decide(eq0(sep))
        if a.problem:
            ctx.bad('removing-separators', w, a.problem, p)
        elif a.groups:
            grouped.append((p, v, a))
        elif on is False:
            if a.unknown:
                ctx.unk('removing-separators', w, a.unknown)
            else:
                ctx.bad('groups', w, 'no separators although one is given: %s' % pv(v), p)
        else:
            plain.append((p, v, a))
    if not grouped:
        ctx.unk('groups', w, 'digit grouping not recognised')
        return
    seen = set()
    for p, v, a in grouped:
        g = a.groups[0]
        # the same text with the separators left out
        F = p.st.F
        for q, qv, qa in plain:
            if not compatible(p, q, sep, f):
                continue
            same = cores(a) == cores(qa)
            ctx.check(same or (False if not a.unknown and not qa.unknown else None), 'removing-separators', w,
                      'grouped, %s; ungrouped, %s' % (show(a), show(qa)), p)
        k = (g.rec.lid, id(g.rec.node))
        if k in seen:
            continue
        seen.add(k)
        one_group(ctx, w, f, p, g, a, sep, size)


def cores(a):
    out = []
    for q in a.cores:
        out.append(q[:3] + (q[6:] if q[0] == 'fmt' and len(q) > 6 else ()) if q[0] == 'fmt' else q)
    return out, getattr(a, 'prefix', None)


def show(a):
    return pv(('s', tuple(a.cores)))


def compatible(p, q, sep, f):
    """can the same call, but for the separator, take both paths"""
    args = [argsym(f, i) for i in range(len(f['params'])) if argsym(f, i) != sep]
    G = absint.Facts() if hasattr(absint, 'Facts') else None
    G = type(p.st.F)()
    for P_ in (p, q):
        for c, pol, ln in P_.st.F.pc:
            if scan.uses_only(c, set(args)) and args_only(c, args):
                if not G.assume(c, pol):
                    return False
    return True


def args_only(c, args):
    if c in args:
        return True
    k = c[0]
    if k in ('i', 'type'):
        return True
    if k == 'lin':
        return all(args_only(a, args) for a, n in c[2])
    if k in ('le0', 'eq0', 'not'):
        return args_only(c[1], args)
    return False


def digits_only(F, c, prefix):
    cs = scan.chars(F, c)
    return cs


def one_group(ctx, w, f, p, g, a, sep, size):
    rec = g.rec
    line = rec.line
    num = a.cores[-1] if a.cores else None
    if num is None or num[0] != 'fmt' or num[1] not in ('int', 'uint'):
        ctx.unk('between-digits', w, 'what is grouped is not the text of a number')
        return
    # positions are counted from the least significant digit when the text is read backwards
    back = g.dir == 'pre' and not getattr(g, 'flipped', False) or g.dir == 'app' and getattr(g, 'flipped', False)
    if not back:
        ctx.unk('groups', w, 'the number is not read from its last digit on (line %s)' % line)
        return
    # what is copied is the separator, between the character and those before it
    for h, b, c, rest, first, at in g.seps:
        ok = rest == [('chr', sep)]
        ctx.check(True if ok else False, 'only-separators-added', w, '%s is added to the number' % pv(('s', tuple(rest))))
        pos_ok = at == 0 if g.dir == 'pre' else at == 1
        if first:
            sz = b.F.decide(le0(size))
            ctx.check(True if sz is True else False, 'between-digits', w, 'a separator before the first digit (line %s)' % line)
            continue
        ctx.check(True if pos_ok else False, 'between-digits', w, 'the separator goes to the wrong side of its digit (line %s)' % line)
    neg = num[1] == 'int'
    cnt = counters(rec)
    for h, b, c, rest, first, at in g.seps:
        if first:
            continue
        r = is_digit(b, h, c, num, g, a)
        ctx.check(r, 'between-digits', w, 'a separator may stand next to something that is not a digit (line %s)' % line)
    # when a separator is due
    sel = [x for x in cnt if any(mentions_atom(cc, h.env.get(x)) for h, b, c, rest, first, at in g.seps for cc, pol, ln in b.F.pc[len(h.F.pc):] if h.env.get(x) is not None)]
    good = None
    why = 'how digits are counted was not recognised'
    for x in sel:
        r = counts(rec, g, x, size, num, a)
        if r[0] is True:
            good = True
            break
        if r[0] is False and good is None:
            good, why = False, r[1]
    if not sel and g.seps:
        good = None
    if not g.seps:
        good, why = False, 'no separator is ever added'
    ctx.check(good, 'groups', w, '%s (line %s)' % (why, line))


def mentions_atom(c, x):
    return x[0] not in ('i',) and scan.mentions(c, x)


def counters(rec):
    out = []
    for m in rec.M:
        e = rec.entry.env.get(m)
        if e is not None and e[0] == 'i':
            out.append(m)
    return out


def is_digit(b, h, c, num, g, a):
    """the character a separator is put in front of is a digit of the number"""
    F = b.F
    cs = scan.chars(F, c)
    alpha = set(DIG)
    if num[6] == 'hex':
        alpha |= set(range(97, 103)) | set(range(65, 71))
    prefix = getattr(a, 'prefix', None)
    padded = num[3] != I(0) and num[4] != I(48)
    if prefix is None and not padded and num[1] == 'int':
        # only digits and the sign can occur
        bad = cs & {45}
        return False if bad else True
    if prefix is None and not padded:
        return True
    if not prefix and cs <= alpha:
        return True
    # by position
    lim = limits(F, h, g)
    for l in lim:
        d = beyond(l, num, g, a)
        if d is not None:
            return d <= 0
    if padded and not (cs & {32}) and not prefix and num[1] == 'uint':
        return True
    return False if scan.only_about(F, len(h.F.pc), {c} | {v for v in h.env.values() if v[0] == 'L'} | {('sym', ('arg', 4), 'unsigned int')}) else None


def limits(F, h, g):
    """terms t with position < t known on the path, where position counts the characters copied so far"""
    out = []
    pos = [h.env.get(m) for m in g.rec.M]
    pos = [v for v in pos if v is not None and v[0] == 'L']
    if g.rec.kind == 'index':
        pos.append(g.rec.elemkey)
    for c, pol, ln in F.pc[len(h.F.pc):]:
        if c[0] != 'le0':
            continue
        t = c[1] if pol else addc(mulc(c[1], -1), 1)
        k, d = lin(t)
        for v in pos:
            if d.get(v) == 1 and steps(g.rec, v):
                out.append(mulc(sub(t, v), -1))     # v + r <= 0, so v <= -r, v < -r+1
    return [addc(x, 1) for x in out]


def steps(rec, v):
    """does the variable count the characters from 0"""
    m = v[2]
    return rec.entry.env.get(m) == I(0) and all(sub(b.env.get(m), h.env.get(m)) == I(1) for k, h, b, bk in rec.iters)


def beyond(t, num, g, a):
    """t minus the number of digits, where that is a constant"""
    k, d = lin(t)
    blanks = [x for x, n in d.items() if n == -1 and x[0] == 'op' and x[1] == 'find_first_not_of']
    if len(d) == 2 and len(blanks) == 1:
        # without the blanks in front of the first character
        x, = [x for x in d if x not in blanks]
        if d[x] != 1 or x[:2] != ('op', 'len') or x[3] != num or num not in blanks[0][3][1] or blanks[0][4] != ('s', (('lit', ' '),)) or blanks[0][5] != I(0):
            return None
        if num[3] != I(0) and num[4] == SP and (getattr(a, 'prefix', None) or num[5] == 'left'):
            return None
        return k
    if len(d) != 1:
        return None
    (x, n), = d.items()
    if n != 1 or x[0] != 'op':
        return None
    prefix = getattr(a, 'prefix', None)
    pl = len(prefix[1]) if prefix else 0
    spaces = num[3] != I(0) and num[4] == SP
    if x[1] == 'find_last_not_of':
        # of the reversed text: the last character that is not padding
        return k - 1 + pl if not spaces else (k - 1 if not prefix else None)
    if x[1] in ('len', 'size'):
        return (k if x[3] == num else k + pl) if not spaces else None
    return None


def counts(rec, g, x, size, num, a):
    """x counts the digits since the last separator (or since the start)"""
    e = rec.entry.env.get(x)
    if e != I(0):
        return (False if e[0] == 'i' and simple_reset(rec, g, x) else None, 'counting starts at %s' % pv(e))
    mod = None
    for h, b, c, rest, first, at in g.seps:
        hv, bv = h.env.get(x), b.env.get(x)
        if first:
            continue
        eq = b.F.decide(eq0(sub(hv, size)))
        if eq is True:
            if bv != I(1):
                if sub(bv, hv) == I(1):
                    return (False, 'the count goes on past a separator')
                return (False if bv[0] == 'i' else None, 'after a separator counting restarts at %s' % pv(bv))
            continue
        m = modfact(b.F, h, hv, size)
        if m and sub(bv, hv) == I(1):
            mod = True
            continue
        for cc, pl, ln in b.F.pc[len(h.F.pc):]:
            if cc[0] == 'eq0' and pl is True and cc[1][0] == 'op' and cc[1][1] in ('i_mod', 'mod') and cc[1][3] == hv and sub(cc[1][4], size)[0] == 'i':
                return (False, 'a separator is put after every %s digits instead of %s' % (pv(cc[1][4]), pv(size)))
        if bv == I(1) or bv[0] == 'i':
            return (False, 'a separator is put after %s digits' % fact(b.F, h, hv))
        return (None, 'how digits are counted was not recognised')
    for h, b, c, first in g.plain:
        hv, bv = h.env.get(x), b.env.get(x)
        if sub(bv, hv) != I(1):
            return (False if bv[0] == 'i' else None, 'a digit is not counted')
        if first:
            continue
        if mod:
            if modfact(b.F, h, hv, size, False):
                continue
        elif b.F.decide(eq0(sub(hv, size))) is False:
            continue
        # left out although due: only where no digit follows
        cs = scan.chars(b.F, c)
        if not cs & (DIG | (set(range(97, 103)) | set(range(65, 71)) if num[6] == 'hex' else set())):
            continue
        r = None
        for l in nolimits(b.F, h, g):
            d = beyond(l, num, g, a)
            if d is not None:
                r = d >= (-1 if num[6] == 'oct' else 0)
        if r is True:
            continue
        if r is None:
            r = False if scan.only_about(b.F, len(h.F.pc), {c} | {v for v in h.env.values() if v[0] == 'L'} | {size}) else None
        return (r, 'a separator that is due may be left out')
    return (True, '')


def nolimits(F, h, g):
    """terms t with position >= t known on the path"""
    out = []
    pos = [v for v in (h.env.get(m) for m in g.rec.M) if v is not None and v[0] == 'L' and steps(g.rec, v)]
    if g.rec.kind == 'index':
        pos.append(g.rec.elemkey)
    for c, pol, ln in F.pc[len(h.F.pc):]:
        if c[0] != 'le0':
            continue
        t = c[1] if pol else addc(mulc(c[1], -1), 1)
        k, d = lin(t)
        for v in pos:
            if d.get(v) == -1:
                out.append(add(t, v))
    return out


def modfact(F, h, hv, size, pol=True):
    for c, pl, ln in F.pc[len(h.F.pc):]:
        if c[0] == 'eq0' and pl is pol and c[1][0] == 'op' and c[1][1] in ('i_mod', 'mod') and c[1][3] == hv and c[1][4] == size:
            return True
    return False


def simple_reset(rec, g, x):
    return any(b.env.get(x) == I(1) for h, b, c, rest, first, at in g.seps)


def fact(F, h, hv):
    r = [pv(c) for c, pol, ln in F.pc[len(h.F.pc):] if scan.mentions(c, hv)]
    return r[0] if r else 'any number of'


# ------------------------------------------------------------------ F07
RADIX = 'SoDa::Format::separator'


def F07(ctx):
    s = shape(ctx)
    for f in adds(ctx):
        if f['name'] == 'addF':
            guarded(ctx, 'exponent', ctx.loc(f), lambda: engineering(ctx, s, f))


def flat(S):
    """pieces of a text with strings printed through a stream opened up"""
    out = []
    for q in S[1]:
        if q[0] == 'fmt' and q[1] == 'str':
            inner = q[2] if q[2][0] == 's' else ('s', tuple(q[2]))
            out += flat(inner)
        elif q[0] == 'lit':
            out += [('lit', ch) for ch in q[1]]
        elif q[0] == 'chr' and q[1][0] == 'i' and 0 < q[1][1] < 128:
            out.append(('lit', chr(q[1][1])))
        else:
            out.append(q)
    return out


def is_radix(t):
    return t[0] == 'sym' and t[1] == ('g', RADIX) or t == ('g', RADIX)


DOT = (('s', (('lit', '.'),)), ('s', (('chr', I(46)),)))


def unwrap(v):
    """(pieces, replaced): the text before '.' is turned into the radix character"""
    if len(v[1]) == 1 and v[1][0][0] == 'repl':
        q = v[1][0]
        return q[1], (q[2], q[3])
    if len(v[1]) == 1 and v[1][0][0] == 'setat':
        # the one '.' a number has, found and overwritten
        q = v[1][0]
        k = q[2]
        if k[0] == 'op' and k[1] == 'find' and k[3] == q[1] and k[4] in DOT and k[5] == I(0):
            return q[1], (I(46), q[3])
    return v, None


def neg_of(F, V):
    lo, hi, nan = F.frange(V)
    zero = F.decide(('fcmp', '==', V, ('fl', 0.0)))
    if hi < 0 or hi == 0 and zero is False:
        return True
    if lo >= 0:
        return False
    for c, pol, ln in F.pc:
        if c[0] == 'op' and c[1] == 'signbit' and c[3] == V:
            return pol
    return None


def straddles(F, V):
    """the value is only known to lie in an interval with numbers of both signs, whose magnitudes are possible"""
    lo, hi, nan = F.frange(V)
    if not lo < 0 < hi:
        return False
    for c, pol, ln in F.pc:
        if not signed_use(c, V):
            continue
        if c[0] != 'fcmp' or not (c[2] == V and c[3][0] == 'fl' or c[3] == V and c[2][0] == 'fl'):
            return False
    M = [0.0, min(-lo, hi)]
    for c, pol, ln in F.pc:
        if c[0] == 'fcmp' and c[1] in ('<', '<='):
            a, b = c[2], c[3]
            if a[:2] == ('fop', 'fabs') and a[2] == V and b[0] == 'fl':
                M[1 if pol else 0] = (min if pol else max)(M[1 if pol else 0], b[1])
            if b[:2] == ('fop', 'fabs') and b[2] == V and a[0] == 'fl':
                M[0 if pol else 1] = (max if pol else min)(M[0 if pol else 1], a[1])
    return M[0] < M[1]


SIGNFREE = ('isnan', 'isinf', 'fabs', 'ffabs', 'abs', 'isfinite')
ZERO = ('fl', 0.0)


def signed_use(c, V):
    """does the condition look at the value other than through its magnitude"""
    if c == V:
        return True
    if not isinstance(c, tuple):
        return False
    if len(c) > 2 and c[0] in ('op', 'fop') and c[1] in SIGNFREE:
        return False
    if len(c) > 2 and c[0] == 'fcmp' and c[1] == '==' and V in c and ZERO in c:
        return False
    if c and c[0] == 'L':
        return False
    return any(signed_use(x, V) for x in c[1:])


def engineering(ctx, s, f):
    w = ctx.loc(f)
    V, N = argsym(f, 0), argsym(f, 1)
    for p, vals, d in insertions(ctx, s, f):
        if p.kind != 'ret' or len(vals) != 1:
            continue
        v = vals[0]
        F = p.st.F
        if v is None or v == 'in-loop' or v[0] != 's':
            ctx.unk('radix', w, 'inserted text not recognised')
            continue
        nan = any(c[0] == 'op' and c[1] == 'isnan' and pol for c, pol, ln in F.pc)
        if nan:
            continue
        inf = [pol for c, pol, ln in F.pc if c[0] == 'op' and c[1] == 'isinf' and c[3] == V]
        fin = [pol for c, pol, ln in F.pc if c[0] == 'op' and c[1] == 'isfinite' and c[3] == V]
        S, rep = unwrap(v)
        if rep is None and any(c[0] == 'op' and c[1] == 'found' and not pol and c[3][1] == 'find' and c[3][3] == v and c[3][4] in DOT for c, pol, ln in F.pc):
            ctx.ok('radix', w)      # looked for a '.' and found none
            continue
        T = flat(S)
        if True in inf:
            infinite(ctx, w, p, T, V)
            continue
        if not (False in inf or True in fin):
            # NaN and infinity not told apart: only the plain notations may do that
            pass
        radix(ctx, w, p, T, rep)
        if F.decide(eq0(addc(N, -101))) is True:
            expo(ctx, w, p, T, V)


def infinite(ctx, w, p, T, V):
    text = ''.join(q[1] if q[0] == 'lit' else '?' for q in T).strip(' ')
    if not text.rstrip('?'):
        flts = [q for q in T if q[0] == 'fmt' and q[1] == 'flt' and q[2] == V]
        ctx.check(True if flts else None, 'infinity-sign', w, 'text of an infinity not recognised')
        return
    minus = text.startswith('-')
    n = neg_of(p.st.F, V)
    if n is None:
        free = not any(signed_use(c, V) for c, pol, ln in p.st.F.pc)
        ctx.check(False if free else None, 'infinity-sign', w, 'an infinity of either sign is shown as %s' % text.rstrip('?'), p)
    else:
        ctx.check(n == minus, 'infinity-sign', w, '%s infinity is shown as %s' % ('minus' if n else 'plus', text.rstrip('?')), p)


def radix(ctx, w, p, T, rep):
    good = rep is not None and rep[0] == I(46) and is_radix(rep[1])
    if rep is not None and not good and rep[0] == I(46):
        ctx.bad('radix', w, 'the radix point is replaced by %s, not by the configured separator' % pv(rep[1]), p)
        return
    for q in T:
        dot = q[0] == 'lit' and q[1] == '.' or q[0] == 'fmt' and q[1] == 'flt'
        if dot and rep is None:
            ctx.bad('radix', w, "a floating point text keeps the '.', whatever the configured separator", p)
            return
        if dot and not good:
            ctx.unk('radix', w, 'replacement not recognised')
            return
        if q[0] not in ('lit', 'chr', 'fmt', 'rep') and not good:
            ctx.unk('radix', w, 'text %s' % pv(('s', (q,))))
            return
    ctx.ok('radix', w)


def clipped(F, X):
    """an exponent (up to 308 one way and 324 the other) of which only a part is shown"""
    while X[0] == 'lin' and len(X[2]) == 1 and X[1] == 0:
        X = X[2][0][0]
    if X[0] != 'op' or len(X) < 4:
        return None
    Y = X[3]
    lo, hi = F.irange(Y)
    m, r = F.icong(Y)
    big = max(hi, -lo) >= 300 and m % 3 == 0
    if X[1] in ('%', 'i_mod') and len(X) > 4 and X[4][0] == 'i' and 0 < abs(X[4][1]) <= 300 and big:
        return 'is cut down to its remainder by %d' % abs(X[4][1])
    if X[1] == 'cast' and RANGES.get(X[2], (0, 400))[1] < 300 and big:
        return 'is cut down to %s' % X[2]
    return None


def expo(ctx, w, p, T, V):
    F = p.st.F
    zero = F.decide(('fcmp', '==', V, ZERO))
    e = [i for i, q in enumerate(T) if q[0] == 'lit' and q[1] in 'eE']
    if not e:
        fl = [q for q in T if q[0] == 'fmt' and q[1] == 'flt']
        ctx.check(False if fl and all(q[0] in ('fmt', 'lit', 'rep') for q in T) else None, 'exponent', w, 'no exponent recognised in %s' % pv(('s', tuple(T))), p)
        return
    tail = T[e[-1] + 1:]
    nums = [q for q in tail if q[0] == 'fmt' and q[1] in ('int', 'uint')]
    lits = ''.join(q[1] for q in tail if q[0] == 'lit').strip()
    if not nums and lits.lstrip('+-').isdigit():
        ctx.check(int(lits.lstrip('+-')) % 3 == 0, 'exponent', w, 'the exponent is always %s' % lits, p)
    elif len(nums) == 1 and not lits.strip('+-'):
        X = nums[0][2]
        m, r = F.icong(X)
        if clipped(F, X):
            ctx.bad('exponent', w, 'the exponent ' + clipped(F, X), p)
        elif m % 3 == 0 and r % 3 == 0:
            ctx.ok('exponent', w)
        else:
            why = steps_of(p, X) if m % 3 else 'is %s modulo %s' % (r, m) if m else 'is %s' % r
            ctx.check(False if why else None, 'exponent', w, 'the exponent %s' % (why or 'may not be a multiple of 3'), p)
    else:
        ctx.unk('exponent', w, 'exponent of %s' % pv(('s', tuple(T))))
    # the sign in front
    if zero is True:
        head = [q for q in T[:e[-1]] if q[0] == 'lit']
        ctx.check(not any(q[1] == '-' for q in head), 'sign', w, 'zero is shown with a minus sign', p)
        return
    first = next((q for q in T if q != ('lit', ' ') and q[0] != 'rep'), None)
    if first is None:
        ctx.unk('sign', w, 'text not recognised')
        return
    if first[0] == 'fmt' and first[1] == 'int':
        lo, hi = F.irange(first[2])
        minus = True if hi is not None and hi < 0 else (False if lo is not None and lo >= 0 or mag(first[2], V) else None)
    elif first[0] == 'lit':
        minus = first[1] == '-'
    else:
        minus = None
    if minus is None:
        ctx.unk('sign', w, 'sign of %s' % pv(('s', (first,))))
        return
    n = neg_of(F, V)
    if n is None:
        free = not any(signed_use(c, V) for c, pol, ln in F.pc) or straddles(F, V)
        ctx.check(False if free and zero is False else None, 'sign', w, 'a number of either sign is shown %s minus sign' % ('with a' if minus else 'without'), p)
    else:
        ctx.check(n == minus, 'sign', w, 'a %s number is shown %s minus sign' % ('negative' if n else 'positive', 'with a' if minus else 'without'), p)


def mag(t, V):
    """computed from the magnitude only"""
    return not signed_use(t, V)


def steps_of(p, X):
    """a step of the loop that computes X which is not a multiple of three"""
    k, d = lin(X)
    for a, n in d.items():
        if a[0] != 'L':
            return None
        for rec in loops_of(p.ev):
            if rec.lid != a[1]:
                continue
            for kk, h, b, bk in rec.iters:
                o, v = h.env.get(a[2]), b.env.get(a[2])
                if o is None or v is None:
                    continue
                s_ = sub(v, o)
                if s_[0] == 'i' and (s_[1] * n) % 3:
                    return 'is computed in steps of %d (line %s)' % (abs(s_[1]), rec.line)
            e = rec.entry.env.get(a[2])
            if e is not None and e[0] == 'i' and (e[1] * n + k) % 3 and len(d) == 1:
                return 'starts from %d (line %s)' % (e[1], rec.line)
    return None


# ------------------------------------------------------------------ F11
HEX, OCT = 'xXhH', 'oO'
LETTERS = [ord(c) for c in 'xXhHoOdDuaq0'] + [0, -1]
FLOATS = {'f': 'fixed', 's': 'scientific', 'g': 'gen', 'q': 'gen', 'G': 'gen'}


def F11(ctx):
    s = shape(ctx)
    for f in adds(ctx):
        n = f['name']
        fn = {'addU': unsigned, 'addI': signed, 'addF': notation, 'addC': plain_char, 'addB': truth}.get(n)
        if fn:
            guarded(ctx, 'notation', ctx.loc(f), lambda: fn(ctx, s, f))


def texts(ctx, s, f):
    """[(path, inserted text or None)]"""
    out = []
    for p, vals, d in insertions(ctx, s, f, hooks={'exact': argsym(f, 0)}):
        if p.kind == 'ret' and len(vals) == 1:
            out.append((p, vals[0] if vals[0] is not None and vals[0] != 'in-loop' and vals[0][0] == 's' else None))
    return out


def one_number(ctx, w, p, v):
    """(the number piece, the prefix text) of an inserted text, or None"""
    if v is None:
        ctx.unk('notation', w, 'inserted text not recognised')
        return None
    a = analyse(p, v)
    lits = ''.join(q[1] for q in a.cores if q[0] == 'lit')
    num = [q for q in a.cores if q[0] == 'fmt' and q[1] in ('int', 'uint')]
    if a.unknown or a.problem or len(num) != 1 or any(q[0] not in ('lit', 'fmt') for q in a.cores):
        if a.problem is None and a.cores and all(q[0] == 'lit' for q in a.cores) and not a.unknown:
            ctx.bad('notation', w, 'the text is %s, whatever the value' % pv(v), p)
        else:
            ctx.unk('notation', w, 'inserted text %s' % pv(v))
        return None
    pre = (a.prefix[1] if getattr(a, 'prefix', None) else '') + lits
    return num[0], pre, a


def unsigned(ctx, s, f):
    w = ctx.loc(f)
    L, W = argsym(f, 1), argsym(f, 2)
    for p, v in texts(ctx, s, f):
        mine = []
        for c in LETTERS:
            G = feasible(p.st.F, [(eq0(addc(L, -c)), True)])
            if G is not None:
                mine.append((c, G))
        if not mine:
            continue
        r = one_number(ctx, w, p, v)
        if r is None:
            continue
        q, pre, a = r
        itself(ctx, w, p, q[2], argsym(f, 0))
        if q[6] == 'dec' and q[1] == 'int' and q[2] == argsym(f, 0):
            ctx.check(p.st.F.irange(q[2])[1] < 2 ** 63, 'value', w, 'numbers above 2^63 are shown as negative ones', p)
        for c, G in mine:
            ch = chr(c) if c > 0 else '\\%d' % c
            base = 'hex' if ch in HEX else 'oct' if ch in OCT else 'dec'
            ctx.check(q[6] == base, 'base', w, "the format '%s' shows the number in base '%s'" % (ch, q[6]), p)
            if q[6] != base:
                continue
            ctx.check(q[9] == 0, 'notation', w, "the format '%s' shows a plus sign" % ch, p)
            zero = I(ord('0'))
            if base == 'hex':
                up = c in (ord('X'), ord('H'))
                dec = G.decide(q[7]) if isinstance(q[7], tuple) else bool(q[7])
                ctx.check(None if dec is None else dec == up, 'letter-case', w, "the format '%s' shows the digits in %s case" % (ch, 'upper' if dec else 'lower'), p)
                ctx.check(pre == '0x' and q[8] == 0, 'prefix', w, "the format '%s' puts %r in front%s" % (ch, pre, ' of a base prefix' if q[8] else ''), p)
            elif base == 'oct':
                ctx.check(pre == '' and q[8] == 1 or pre == '0' and q[8] == 0, 'prefix', w, "the format '%s' puts %r in front" % (ch, pre), p)
            else:
                ctx.check(pre == '', 'prefix', w, "the format '%s' puts %r in front" % (ch, pre), p)
            if base != 'dec' and G.decide(le0(q[3])) is not True:
                ctx.check(q[4] == zero if q[4][0] == 'i' else None, 'zero-filled', w, "the format '%s' fills with %s, not with zeros" % (ch, pv(q[4])), p)
                ctx.check(q[5] != 'left', 'zero-filled', w, "the format '%s' fills with zeros behind the digits" % ch, p)
            if base == 'hex':
                short = G.decide(le0(W)) is not True and q[3] != W and not a.groups and not (G.decide(le0(sub(W, q[3]))) is True)
                ctx.check((None if not simple_term(q[3]) else False) if short else True, 'hex-digits', w, "the format '%s' shows at least %s digits where %s are asked for" % (ch, pv(q[3]), pv(W)), p)


def itself(ctx, w, p, shown, v):
    """the number shown is the argument: the very term, or one the facts of the path make equal to it"""
    if shown == v or p.st.F.decide(eq0(sub(shown, v))) is True:
        return ctx.check(True, 'value', w, '', p)
    x = differs(p.st.F, shown, v)
    ctx.check(False if x is not None else None, 'value', w, 'the number shown is %s instead of the value%s' % (pv(shown), '' if x is None else ' (%d is shown as %d)' % x), p)


def differs(F, shown, v):
    """(value, shown number) for one value the path admits whose shown number is another"""
    lo, hi = RANGES[strip(tyof(v))]
    for x in [0, 1, 2, 9, 10, 127, 128, 255, 256, 32768, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]:
        for x in (x, -x):
            if lo <= x <= hi and F.decide(eq0(addc(v, -x))) is not False and feasible(F, [(eq0(addc(v, -x)), True)]) is not None:
                y = ieval(shown, v, x)
                if y is not None and y != x:
                    return x, y
    return None


def ieval(t, v, x):
    """an integer term in which only v is unknown, at v = x"""
    if t == v:
        return x
    if t[0] == 'i':
        return t[1]
    if t[0] == 'lin':
        r = t[1]
        for q, k in t[2]:
            y = ieval(q, v, x)
            if y is None:
                return None
            r += k * y
        return r
    if t[0] == 'op' and len(t) >= 4:
        A = [ieval(q, v, x) for q in t[3:]]
        if None in A:
            return None
        r = RANGES.get(strip(t[2]))
        o = t[1]
        if r is None:
            return None
        if o == 'cast':
            y = A[0]
        elif o in ('i&', 'i|', 'i^'):
            y = A[0] & A[1] if o == 'i&' else A[0] | A[1] if o == 'i|' else A[0] ^ A[1]
        elif o in ('i<<', 'i>>') and 0 <= A[1] < 64:
            y = A[0] << A[1] if o == 'i<<' else A[0] >> A[1]
        elif o in ('i_div', 'i_mod') and A[1]:
            q = abs(A[0]) // abs(A[1]) * (1 if (A[0] < 0) == (A[1] < 0) else -1)
            y = q if o == 'i_div' else A[0] - q * A[1]
        elif o == 'i_mul':
            y = A[0] * A[1]
        else:
            return None
        n = r[1] - r[0] + 1
        return (y - r[0]) % n + r[0]
    return None


def signed(ctx, s, f):
    w = ctx.loc(f)
    for p, v in texts(ctx, s, f):
        r = one_number(ctx, w, p, v)
        if r is None:
            continue
        q, pre, a = r
        itself(ctx, w, p, q[2], argsym(f, 0))
        ctx.check(q[6] == 'dec', 'base', w, "shows the number in base '%s'" % q[6], p)
        ctx.check(q[9] == 0 and pre == '', 'prefix', w, 'puts %r in front' % (pre or '+'), p)


def notation(ctx, s, f):
    w = ctx.loc(f)
    V, L, S = argsym(f, 0), argsym(f, 1), argsym(f, 3)
    for p, v in texts(ctx, s, f):
        F = p.st.F
        if any(c[0] == 'op' and c[1] in ('isnan', 'isinf') and pol or c[0] == 'op' and c[1] == 'isfinite' and not pol for c, pol, ln in F.pc):
            continue
        mine = [(c, m) for c, m in FLOATS.items() if feasible(F, [(eq0(addc(L, -ord(c))), True)]) is not None]
        if not mine:
            continue
        if v is None:
            ctx.unk('notation', w, 'inserted text not recognised')
            continue
        T = flat(unwrap(v)[0])
        fl = [q for q in T if q[0] == 'fmt' and q[1] == 'flt']
        rest = [q for q in T if q not in fl and q != ('lit', ' ') and q[0] != 'rep']
        if len(fl) != 1 or rest:
            solid = all(q[0] in ('fmt', 'lit') for q in T)
            ctx.check(False if solid and not fl else None, 'notation', w, "the format '%s' inserts %s" % (mine[0][0], pv(v)), p)
            continue
        q = fl[0]
        for c, m in mine:
            ctx.check(q[2] == V or (None if not plain(q[2]) else False), 'value', w, "the format '%s' shows %s instead of the value" % (c, pv(q[2])), p)
            ctx.check(q[6] == m, 'notation', w, "the format '%s' shows the number in %s notation" % (c, q[6]), p)
            n = q[7]
            same = n == S or F.decide(eq0(sub(n, S))) is True
            ctx.check(same or (False if simple_term(n) or n[0] == 'op' and n[1] == 'cast' else None), 'precision', w, "the format '%s' shows %s digits where %s are asked for" % (c, pv(n), pv(S)), p)
            ctx.check(q[9] == 0, 'notation', w, "the format '%s' shows a plus sign" % c, p)


def plain(v):
    return v[0] in ('fl', 'sym') or v[0] in ('fop', 'op') and all(plain(x) for x in v[2:] if isinstance(x, tuple))


def plain_char(ctx, s, f):
    w = ctx.loc(f)
    c = argsym(f, 0)
    for p, v in texts(ctx, s, f):
        if v is None:
            ctx.unk('notation', w, 'inserted text not recognised')
            continue
        T = [q for q in flat(v)]
        known_ = all(q[0] in ('lit', 'chr', 'fmt') for q in T)
        ok = len(T) == 1 and (T[0] == ('chr', c) or T[0][0] == 'lit' and p.st.F.decide(eq0(addc(c, -ord(T[0][1])))) is True)
        ctx.check(ok or (False if known_ else None), 'character', w, 'a character is inserted as %s' % pv(v), p)


def truth(ctx, s, f):
    w = ctx.loc(f)
    for p, v in texts(ctx, s, f):
        t = p.st.F.decide(argsym(f, 0))
        if v is None:
            ctx.unk('notation', w, 'inserted text not recognised')
            continue
        T = flat(v)
        text = ''.join(q[1] for q in T) if all(q[0] == 'lit' for q in T) else None
        if text is None or t is None:
            ctx.check(None if text is None else False, 'truth-value', w, 'a truth value is inserted as %s' % pv(v), p)
        else:
            ctx.check(text == ('T' if t else 'F'), 'truth-value', w, '%s is inserted as %s' % (str(t).lower(), text), p)
