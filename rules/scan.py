"""Text scanners as transducers: a loop over the characters of one string whose abstract
head variants are simulated against a reference machine."""
from .common import *

PCT, DIG = ord('%'), frozenset(range(48, 58))


def only_about(F, n, atoms):
    """every fact assumed after the first n is about the given atoms only"""
    for c, pol, ln in F.pc[n:]:
        if not uses_only(c, atoms):
            return False
    return True


def uses_only(t, atoms):
    if t in atoms:
        return True
    k = t[0]
    if k == 'i':
        return True
    if k == 'lin':
        return all(uses_only(a, atoms) for a, kk in t[2])
    if k in ('le0', 'eq0', 'not'):
        return uses_only(t[1], atoms)
    if k in ('eqt',):
        return uses_only(t[1], atoms) and uses_only(t[2], atoms)
    if k == 's':
        return all(p[0] == 'lit' or p[0] == 'w' and uses_only(p[1], atoms) for p in t[1])
    if k == 'op' and t[1] in ('len', 'size'):
        return True
    if k == 'op':
        return all(uses_only(x, atoms) for x in t[3:] if isinstance(x, tuple))
    return False


def char_of(rec, back):
    """the term of the character an iteration looks at"""
    el = rec.elem
    found = set()

    def go(t):
        if not isinstance(t, tuple):
            return
        if len(t) > 3 and t[0] == 'op' and t[1] == 'at':
            found.add(t)
            return
        for x in t:
            if isinstance(x, tuple):
                go(x)
    for c, pol, ln in back.F.pc:
        go(c)
    for v in back.env.values():
        go(v)
    r = [t for t in found if mentions(t, el)]
    return r[0] if len(r) == 1 else None


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


def chars(F, c):
    """the set of character codes (as unsigned) the current character may have"""
    s = F.charset(c)
    if s is None:
        lo, hi = F.irange(c)
        s = range(max(int(lo), -128), min(int(hi), 127) + 1)
    return frozenset(x for x in s if F.decide(eq0(addc(c, -x))) is not False)


def lit_pieces(ps, c):
    """pieces of a string -> list of units: int codes, 'c' for the current character, ('w', term) for anything else"""
    out = []
    for p in ps:
        if p[0] == 'lit':
            out += [ord(x) for x in p[1]]
        elif p[0] == 'chr' and p[1] == c:
            out.append('c')
        else:
            out.append(p)
    return out
