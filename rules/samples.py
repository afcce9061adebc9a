"""Deciding a path's conditions on one text by cases.

A path condition on a text only looks at its length, at single characters, at parts of it and at
searches in it, always against constants.  From the constants that occur on any path a finite set
of representative texts is built (every length up to one more than the longest looked at, every
combination of the distinguished characters at the positions looked at), and a condition is decided
for each representative by folding constants."""
import itertools
import re
from .common import *


class Unknown(Exception):
    pass


CT = {
    'isspace': lambda c: 0 <= c < 128 and chr(c) in ' \t\n\v\f\r', 'isdigit': lambda c: 48 <= c <= 57,
    'isalpha': lambda c: 65 <= c <= 90 or 97 <= c <= 122, 'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122,
    'isalnum': lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122, 'ispunct': lambda c: 33 <= c < 127 and not chr(c).isalnum(),
    'isxdigit': lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
    'isprint': lambda c: 32 <= c <= 126, 'isgraph': lambda c: 33 <= c <= 126, 'iscntrl': lambda c: 0 <= c <= 31 or c == 127,
    'isblank': lambda c: c in (9, 32),
}
NPOS = 2 ** 64 - 1


def squash(s):
    return ' '.join(x for x in s.split(' ') if x)


FUN = {'SoDa::squashSpaces': squash}       # library functions with a property of their own


def text(v, T, t):
    """value of a string term, as a python string, when the text T is t"""
    if v[0] == 'sym' and v != T and v[1][0] == 'res' and v[1][1] in FUN and len(v[1][-1]) == 1:
        return FUN[v[1][1]](text(v[1][-1][0], T, t))
    if v[0] != 's':
        if v == T:
            return t
        if v[:3] == ('op', 'parse', 'std::string') and v[4] == ():
            return (re.split('[ \t\n\v\f\r]+', text(v[3], T, t).lstrip(' \t\n\v\f\r')) or [''])[0]
        raise Unknown(v)
    out = ''
    for p in v[1]:
        k = p[0]
        if k == 'lit':
            out += p[1]
        elif k == 'w':
            out += text(p[1], T, t)
        elif k == 'chr':
            out += chr(num(p[1], T, t) & 255)
        elif k == 'sub':
            s = text(p[1] if p[1][0] == 's' else ('s', tuple(p[1])), T, t)
            a, n = num(p[2], T, t), num(p[3], T, t)
            if a < 0 or a > len(s):
                raise Unknown(p)
            out += s[a:a + n] if n < NPOS // 2 and n >= 0 else s[a:]
        elif k == 'rep':
            out += text(('s', tuple(p[1])), T, t) * max(0, num(p[2], T, t))
        elif k == 'rev':
            out += text(p[1] if p[1][0] == 's' else ('s', tuple(p[1])), T, t)[::-1]
        elif k == 'mapf':
            s = text(p[1] if p[1][0] == 's' else ('s', tuple(p[1])), T, t)
            if p[2][0] == 'op' and p[2][1] in ('toupper', 'tolower') and p[2][3] == ('sym', ('tch',), 'char'):
                out += s.upper() if p[2][1] == 'toupper' else s.lower()
            else:
                raise Unknown(p)
        else:
            raise Unknown(p)
    return out


def parse_int(s):
    """what >> reads into an integer (the representatives stay in range)"""
    m = re.match(r'[ \t\n\v\f\r]*([+-]?[0-9]+)', s)
    return int(m.group(1)) if m else None


def sch(c):
    c = ord(c) & 255
    return c - 256 if c > 127 else c


def num(v, T, t, look=None):
    k = v[0]
    if k == 'i':
        return v[1]
    if k == 'lin':
        return v[1] + sum(n * num(a, T, t, look) for a, n in v[2])
    if k in ('le0', 'eq0', 'not', 'eqt') or k == 'op' and v[1] in CT:
        return int(cond(v, T, t, look))
    if k == 'op':
        o = v[1]
        if o in ('len', 'size'):
            a = v[3]
            if a[0] == 'w':
                a = ('s', (a,))
            return len(text(a, T, t))
        if o == 'at':
            s, i = text(v[3], T, t), num(v[4], T, t, look)
            if i == len(s):
                return 0
            if not 0 <= i < len(s):
                raise Unknown(v)
            return sch(s[i])
        if o in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            return find(o, v, T, t, look)
        if o == 'parse' and v[4] == () and v[2] in ('int', 'unsigned int', 'long'):
            r = parse_int(text(v[3], T, t))
            if r is None:
                raise Unknown(v)
            return r
        if o in ('max0',):
            return max(0, num(v[3], T, t, look))
    if look is not None:
        r = look(v)
        if r is not None:
            return r
    raise Unknown(v)


def find(o, v, T, t, look):
    s = text(v[3], T, t)
    n = v[4]
    pat = text(n, T, t) if n[0] == 's' else chr(num(n, T, t, look) & 255)
    pos = num(v[5], T, t, look) if len(v) > 5 else (0 if o in ('find', 'find_first_of', 'find_first_not_of') else NPOS)
    if o == 'find':
        r = s.find(pat, pos) if pos <= len(s) else -1
    elif o == 'rfind':
        r = s.rfind(pat, 0, min(pos, len(s)) + len(pat))
    else:
        ins = 'not' not in o
        idx = [i for i, c in enumerate(s) if (c in pat) == ins]
        idx = [i for i in idx if i >= pos] if 'first' in o else [i for i in idx if i <= pos]
        r = (idx[0] if 'first' in o else idx[-1]) if idx else -1
    return NPOS if r < 0 else r


def cond(c, T, t, look=None):
    k = c[0]
    if k == 'i':
        return c[1] != 0
    if k == 'not':
        return not cond(c[1], T, t, look)
    if k == 'le0':
        return num(c[1], T, t, look) <= 0
    if k == 'eq0':
        return num(c[1], T, t, look) == 0
    if k == 'eqt' and (c[1][0] == 's' or c[2][0] == 's'):
        return text(c[1], T, t) == text(c[2], T, t)
    if k == 'op' and c[1] in CT:
        return CT[c[1]](num(c[3], T, t, look))
    if k == 'op' and c[1] == 'found':
        return num(c[3], T, t, look) != NPOS
    if k == 'op' and c[1] == 'parses' and c[4] == () and c[5] in ('int', 'unsigned int', 'long'):
        return parse_int(text(c[3], T, t)) is not None
    if k == 'op' and c[1] == 'parses' and c[4] == () and c[5] == 'std::string':
        return text(c[3], T, t).strip(' \t\n\v\f\r') != ''
    if look is not None:
        r = look(c)
        if r is not None:
            return bool(r)
    raise Unknown(c)


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


class Atoms:
    """what the conditions look at"""

    def __init__(self, T):
        self.T, self.pos, self.chars, self.lens, self.lits = T, set(), set(), set(), set()

    def scan(self, t, coef=None):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'lin':
            ats = [a for a, n in t[2] if a[0] == 'op' and a[1] == 'at' and mentions(a, self.T)]
            if ats:
                self.chars.add(abs(t[1]))
            self.lens.add(min(abs(t[1]), 12))
        if t[0] == 'op' and t[1] == 'at' and mentions(t, self.T):
            if t[4][0] == 'i':
                self.pos.add(t[4][1])
            else:
                self.pos |= {0, 1, 2}
        if t[0] == 'eqt':
            for x in t[1:]:
                if x[0] == 's' and x[1] and all(p[0] == 'lit' for p in x[1]):
                    self.lits.add(''.join(p[1] for p in x[1]))
        if t[0] == 'op' and 'find' in t[1]:
            n = t[4]
            if n[0] == 'i':
                self.chars.add(n[1] & 255)
            elif n[0] == 's':
                for p in n[1]:
                    if p[0] == 'lit':
                        self.chars |= {ord(c) for c in p[1]}
            self.pos |= {0, 1, 2}
        if t[0] == 's':
            for p in t[1]:
                if p[0] == 'sub' and p[2][0] == 'i':
                    self.pos.add(p[2][1])
        for x in t:
            if isinstance(x, tuple):
                self.scan(x)

    def texts(self, extra=(), chars='', maxpos=3):
        cs = {chr(c) for c in self.chars if 0 < c < 128} | set(chars) | {'x', '5'}
        cs = sorted(cs)
        pos = sorted(p for p in self.pos | {0, 1, 2} if p < maxpos)
        top = min(max(self.lens | {3}) + 1, 8)
        out = set(extra)
        for n in range(0, top + 1):
            ps = [p for p in pos if p < n]
            for combo in itertools.product(cs, repeat=len(ps)):
                s = ['x'] * n
                for p, c in zip(ps, combo):
                    s[p] = c
                out.add(''.join(s))
        for l in self.lits:
            out |= {l, '--' + l, '-' + l, l + 'x', l[:-1], l + '=x', 'x' + l}
        return sorted(out)
