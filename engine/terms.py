"""Abstract values (hash-consable tuples) and facts (non-relational numeric domain
on linear keys: intervals, excluded points, congruences, char sets, float intervals)."""
import math

INF = float('inf')
NPOS = 2 ** 64 - 1
SIZE_MAX = 2 ** 31 - 2      # stated assumption: texts and containers are shorter than this

RANGES = {
    'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
    'short': (-2 ** 15, 2 ** 15 - 1), 'unsigned short': (0, 2 ** 16 - 1),
    'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned int': (0, 2 ** 32 - 1),
    'long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long': (0, 2 ** 64 - 1),
    'long long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long long': (0, 2 ** 64 - 1),
}


def strip(t):
    t = t.strip()
    while t.endswith('&') or t.endswith(' const'):
        t = t[:-1].strip() if t.endswith('&') else t[:-6].strip()
    while t.startswith('const ') or t.startswith('volatile '):
        t = t.split(' ', 1)[1]
    return t


def is_int(t):
    return strip(t) in RANGES


def is_float(t):
    return strip(t) in ('double', 'float', 'long double')


def I(n):
    return ('i', int(n))


TRUE, FALSE, NULL = ('i', 1), ('i', 0), ('null',)
EMPTY_S = ('s', ())


def tyof(t):
    k = t[0]
    if k == 'sym':
        return t[2]
    if k == 'op':
        return t[2]
    if k == 'L':
        return t[3]
    return '?'


def atom_range(t):
    """default range of an integer atom"""
    if t[0] == 'op' and t[1] in ('len', 'size'):
        if t[3][0] == 'fmt' and t[3][1] in ('int', 'uint'):      # a printed number has at least one character
            return (1, SIZE_MAX)
        return (0, SIZE_MAX)
    if t[0] == 'op' and t[1] in ('has', 'isspace', 'isalpha', 'isupper', 'islower', 'isalnum', 'isxdigit', 'ispunct', 'isprint', 'isgraph', 'iscntrl', 'isblank', 'isnan', 'isinf', 'bool', 'eqs', 'found', 'parses', 'isa', 'eof'):
        return (0, 1)
    if t[0] in ('le0', 'eq0', 'eqt', 'not', 'fcmp'):
        return (0, 1)
    r = RANGES.get(strip(tyof(t)))
    return r or (-INF, INF)


_key = repr


def mklin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return ('i', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: _key(x[0]))))


def lin(t):
    """-> (const, {atom: coef})"""
    if t[0] == 'i':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def add(a, b, kb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return mklin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = lin(a)
    return mklin(c * k, {t: v * k for t, v in d.items()})


def addc(a, n):
    return add(a, ('i', n))


def negate(c):
    if c[0] == 'i':
        return FALSE if c[1] else TRUE
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def le0(t):
    """condition  t <= 0"""
    if t[0] == 'i':
        return TRUE if t[1] <= 0 else FALSE
    return ('le0', t)


def eq0(t):
    if t[0] == 'i':
        return TRUE if t[1] == 0 else FALSE
    return ('eq0', t)


def cmp(op, a, b):
    if op == '<':
        return le0(addc(sub(a, b), 1))
    if op == '<=':
        return le0(sub(a, b))
    if op == '>':
        return le0(addc(sub(b, a), 1))
    if op == '>=':
        return le0(sub(b, a))
    if op == '==':
        return eq0(sub(a, b))
    if op == '!=':
        return negate(eq0(sub(a, b)))


def norm_key(d):
    """linear key with sign normalisation -> (key, sign)"""
    items = sorted(d.items(), key=lambda x: _key(x[0]))
    s = 1 if items[0][1] > 0 else -1
    return tuple((t, k * s) for t, k in items), s


class Facts:
    __slots__ = ('rng', 'exc', 'sets', 'fl', 'cong', 'eqt', 'pc', 'cls')

    def __init__(self):
        self.rng, self.exc, self.sets, self.fl, self.cong, self.eqt = {}, {}, {}, {}, {}, {}
        self.pc = ()
        self.cls = {}

    def copy(self):
        f = Facts()
        f.rng, f.exc, f.sets, f.fl, f.cong, f.eqt = (dict(self.rng), dict(self.exc), dict(self.sets),
                                                     dict(self.fl), dict(self.cong), dict(self.eqt))
        f.pc = self.pc
        f.cls = dict(self.cls)
        return f

    # ---- integers
    def arange(self, t):
        """range of one atom"""
        lo, hi = atom_range(t)
        s = self.sets.get(t)
        if s:
            lo, hi = max(lo, min(s)), min(hi, max(s))
        r = self.rng.get(((t, 1),))
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if t[0] == 'op' and t[1] == 'i_mod' and t[4][0] == 'i' and t[4][1] > 0:
            n = t[4][1]
            a = self.irange(t[3])
            lo, hi = max(lo, -(n - 1) if a[0] < 0 else 0), min(hi, n - 1 if a[1] > 0 else 0)
        elif t[0] == 'op' and t[1] == 'i_div' and t[4][0] == 'i' and t[4][1] > 0:
            a = self.irange(t[3])
            n = t[4][1]
            lo = max(lo, a[0] if a[0] == -INF else int(math.trunc(a[0] / n)))
            hi = min(hi, a[1] if a[1] == INF else int(math.trunc(a[1] / n)))
        elif t[0] == 'op' and t[1] == 'f2i':
            a = self.frange(t[3])
            if a[0] > -INF:
                lo = max(lo, math.trunc(a[0]))
            if a[1] < INF:
                hi = min(hi, math.trunc(a[1]))
        elif t[0] == 'op' and t[1] == 'max0':
            a = self.irange(t[3])
            lo, hi = max(0, a[0]), max(0, a[1])
        elif t[0] == 'op' and t[1] == 'i_mul':
            (a, b), (c, d) = self.irange(t[3]), self.irange(t[4])
            vs = [x * y for x in (a, b) for y in (c, d) if not (x in (INF, -INF) and y == 0 or y in (INF, -INF) and x == 0)]
            if vs:
                lo, hi = max(lo, min(vs)), min(hi, max(vs))
        return lo, hi

    def krange(self, key):
        """range of a linear key (no constant)"""
        lo = hi = 0
        for t, k in key:
            a, b = self.arange(t)
            if k > 0:
                lo, hi = lo + k * a, hi + k * b
            else:
                lo, hi = lo + k * b, hi + k * a
        if len(key) > 1:
            r = self.rng.get(key)
            if r:
                lo, hi = max(lo, r[0]), min(hi, r[1])
            # one derivation step through a known two-term difference
            if len(key) <= 3:
                kd = dict(key)
                for k2, (a, b) in self.rng.items():
                    if len(k2) != 2 or k2 == key:
                        continue
                    for s in (1, -1):
                        d2 = dict(kd)
                        for t, k in k2:
                            d2[t] = d2.get(t, 0) - s * k
                        d2 = {t: k for t, k in d2.items() if k}
                        if len(d2) >= len(kd) and len(d2) > 1:
                            continue
                        l2 = h2 = 0
                        if d2:
                            if len(d2) == 1:
                                (t, k), = d2.items()
                                x, y = self.arange(t)
                                l2, h2 = (k * x, k * y) if k > 0 else (k * y, k * x)
                            else:
                                nk, sg = norm_key(d2)
                                rr = self.rng.get(nk)
                                if not rr:
                                    continue
                                l2, h2 = rr if sg > 0 else (-rr[1], -rr[0])
                        aa, bb = (a, b) if s > 0 else (-b, -a)
                        lo, hi = max(lo, aa + l2), min(hi, bb + h2)
        return lo, hi

    def irange(self, t):
        c, d = lin(t)
        if not d:
            return c, c
        key, s = norm_key(d)
        lo, hi = self.krange(key)
        return (lo + c, hi + c) if s > 0 else (-hi + c, -lo + c)

    def icong(self, t):
        """(m, r): value == r mod m ; m == 0: exactly r; m == 1: anything"""
        c, d = lin(t)
        m, r = 0, c
        for a, k in d.items():
            am, ar = self.acong(a)
            am, ar = am * abs(k), ar * k
            g = math.gcd(m, am)
            m, r = g, r + ar
            if g:
                r %= g
        return m, r

    def acong(self, a):
        if a in self.cong:
            return self.cong[a]
        if a[0] == 'op' and a[1] == 'i_mul':
            (m1, r1), (m2, r2) = self.icong(a[3]), self.icong(a[4])
            g = math.gcd(math.gcd(m1 * m2, m1 * r2), m2 * r1)
            return g, (r1 * r2) % g if g else r1 * r2
        if a[0] == 'op' and a[1] == 'i_sub_mod':     # x - x % n
            return a[3][1], 0
        lo, hi = self.arange(a)
        if lo == hi:
            return 0, lo
        return 1, 0

    def _with_range(self, key, lo, hi):
        exc = self.exc.get(key, ())
        while lo in exc and lo <= hi:
            lo += 1
        while hi in exc and lo <= hi:
            hi -= 1
        if lo > hi:
            return False
        self.rng[key] = (lo, hi)
        if len(key) == 1 and key[0][1] == 1:
            t = key[0][0]
            s = self.charset(t)
            if s is not None:
                s = frozenset(x for x in s if lo <= x <= hi and x not in exc)
                if not s:
                    return False
                self.sets[t] = s
        return True

    def charset(self, t):
        if strip(tyof(t)) in ('char', 'signed char', 'unsigned char') or t in self.sets:
            s = self.sets.get(t)
            if s is None:
                lo, hi = atom_range(t)
                s = frozenset(range(lo, hi + 1))
            return s
        return None

    # ---- conditions
    def decide(self, c):
        k = c[0]
        if k == 'i':
            return c[1] != 0
        if k == 'null':
            return False
        if k == 'not':
            d = self.decide(c[1])
            return None if d is None else not d
        if k == 'le0':
            lo, hi = self.irange(c[1])
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if k == 'eq0':
            cc, d = lin(c[1])
            key, s = norm_key(d)
            lo, hi = self.krange(key)
            v = -cc * s
            if lo == hi == v:
                return True
            if v < lo or v > hi or v in self.exc.get(key, ()):
                return False
            if len(key) == 1:
                t, k1 = key[0]
                if v % k1:
                    return False
                cs = self.charset(t) if k1 == 1 else None
                if cs is not None:
                    if v not in cs:
                        return False
                    if len(cs) == 1:
                        return True
                m, r = self.acong(t)
                if k1 == 1 and m > 1 and v % m != r:
                    return False
            elif all(abs(x[1]) == 1 for x in key) and len(key) == 2 and v == 0:
                r = self.decide_eqt(key[0][0], key[1][0]) if key[0][1] != key[1][1] else None
                if r is not None:
                    return r
            return None
        if k == 'eqt':
            return self.decide_eqt(c[1], c[2])
        if k == 'fcmp':
            return self.decide_f(c)
        if k in ('ptr', 'lam', 'fnref', 'str*'):
            return True
        if k in ('sym', 'op', 'L', 'lin'):
            if k == 'op' and c[1] in ('isnan', 'isinf'):
                r = self.decide_fc(c)
                if r is not None:
                    return r
            d = self.decide(eq0(c))
            if d is None:
                d2 = self.eqt.get(frozenset((c, NULL)))
                return None if d2 is None else not d2
            return not d
        return None

    def decide_eqt(self, a, b):
        if a == b:
            return True
        r = self.eqt.get(frozenset((a, b)))
        if r is not None:
            return r
        ca, cb = a[0], b[0]
        if {ca, cb} == {'ptr', 'null'}:
            return False
        if ca == 'ptr' and cb == 'ptr' and a[1][0] in ('v', 'h', 't') and b[1][0] in ('v', 'h', 't', 'obj'):
            return False
        if ca == 's' and cb == 's' and all(p[0] == 'lit' for p in a[1]) and all(p[0] == 'lit' for p in b[1]):
            return a[1] == b[1]
        return None

    def assume(self, c, pol, line=None):
        """refine; False if contradictory"""
        d = self.decide(c)
        if d is not None:
            return d == pol
        self.pc = self.pc + ((c, pol, line),)
        return self._assume(c, pol)

    def _assume(self, c, pol):
        k = c[0]
        if k == 'not':
            return self._assume(c[1], not pol)
        if k == 'le0':
            cc, d = lin(c[1])
            key, s = norm_key(d)
            lo, hi = self.krange(key)
            # s*K + cc <= 0
            if pol:
                if s > 0:
                    hi = min(hi, -cc)
                else:
                    lo = max(lo, cc)
            else:
                if s > 0:
                    lo = max(lo, -cc + 1)
                else:
                    hi = min(hi, cc - 1)
            g = 0
            for _, kk in key:
                g = math.gcd(g, kk)
            return self._with_range(key, lo, hi)
        if k == 'eq0':
            cc, d = lin(c[1])
            key, s = norm_key(d)
            v = -cc * s
            if pol:
                if not self._with_range(key, v, v):
                    return False
            else:
                self.exc[key] = frozenset(self.exc.get(key, frozenset()) | {v})
                lo, hi = self.krange(key)
                if not self._with_range(key, lo, hi):
                    return False
            # link with pointer/value equality
            if len(key) == 2 and v == 0 and {key[0][1], key[1][1]} == {1, -1}:
                self.eqt[frozenset((key[0][0], key[1][0]))] = pol
            return True
        if k == 'eqt':
            self.eqt[frozenset((c[1], c[2]))] = pol
            return True
        if k == 'fcmp':
            return self.assume_f(c, pol)
        if k in ('sym', 'op', 'L', 'lin'):
            if k == 'op' and c[1] in ('isnan', 'isinf'):
                self.rng[((c, 1),)] = (1, 1) if pol else (0, 0)
                return self.assume_fc(c, pol)
            if strip(tyof(c)).endswith('*') or 'shared_ptr' in tyof(c) or 'unique_ptr' in tyof(c) or 'function' in tyof(c):
                self.eqt[frozenset((c, NULL))] = not pol
                return True
            if c[0] == 'op' and c[1] in CTYPE:
                s = self.charset(c[3])
                if s is not None:
                    s = frozenset(x for x in s if CTYPE[c[1]](x) == pol)
                    if not s:
                        return False
                    self.sets[c[3]] = s
            return self._assume(eq0(c), not pol)
        return True

    # ---- floats: (lo, hi, nan)
    def frange(self, t):
        if t in self.fl:
            b = self.fbase(t)
            a = self.fl[t]
            return (max(a[0], b[0]), min(a[1], b[1]), a[2] and b[2])
        return self.fbase(t)

    def fbase(self, t):
        k = t[0]
        if k == 'fl':
            x = t[1]
            return (INF, -INF, True) if math.isnan(x) else (x, x, False)
        if k == 'fop':
            op = t[1]
            a = self.frange(t[2])
            b = self.frange(t[3]) if len(t) > 3 else None
            return fapply(op, a, b)
        if k == 'op' and t[1] == 'i2f':
            lo, hi = self.irange(t[3])
            try:
                return (float(lo), float(hi), False)
            except OverflowError:
                return (-INF, INF, False)
        if k in ('i', 'lin'):
            lo, hi = self.irange(t)
            return (float(lo), float(hi), False)
        return (-INF, INF, True)

    def decide_fc(self, c):
        lo, hi, nan = self.frange(c[3])
        r = self.rng.get(((c, 1),))
        if r and r[0] == r[1]:
            return r[0] == 1
        if c[1] == 'isnan':
            if not nan:
                return False
            if lo > hi:
                return True
        else:
            if lo > hi or (lo > -INF and hi < INF):
                return False
            if lo == hi and not nan:
                return True
        return None

    def assume_fc(self, c, pol):
        t = c[3]
        lo, hi, nan = self.frange(t)
        if c[1] == 'isnan':
            if pol:
                self.fl[t] = (INF, -INF, True)
                return nan
            self.fl[t] = (lo, hi, False)
            return lo <= hi
        if pol:
            self.fl[t] = (lo, hi, False)
            return hi == INF or lo == -INF
        M = 1.7976931348623157e308
        self.fl[t] = (max(lo, -M), min(hi, M), nan)
        return max(lo, -M) <= min(hi, M) or nan

    def decide_f(self, c):
        _, op, a, b = c
        r = self.eqt.get(frozenset((c,)))
        if r is not None:
            return r
        (al, ah, an), (bl, bh, bn) = self.frange(a), self.frange(b)
        if al > ah or bl > bh:      # only nan
            return False
        nan = an or bn
        if a == b and op in ('<',):
            return False
        if op == '<':
            if al >= bh:
                return False
            if ah < bl and not nan:
                return True
        elif op == '<=':
            if al > bh:
                return False
            if ah <= bl and not nan:
                return True
        elif op == '==':
            if ah < bl or bh < al:
                return False
            if al == ah == bl == bh and not nan:
                return True
        return None

    def assume_f(self, c, pol):
        _, op, a, b = c
        A, B = self.frange(a), self.frange(b)
        up = lambda x: math.nextafter(x, INF)
        dn = lambda x: math.nextafter(x, -INF)
        (al, ah, an), (bl, bh, bn) = A, B
        if pol:
            an = bn = False
            if op == '<':
                ah, bl = min(ah, dn(bh)), max(bl, up(al))
            elif op == '<=':
                ah, bl = min(ah, bh), max(bl, al)
            elif op == '==':
                al = bl = max(al, bl)
                ah = bh = min(ah, bh)
        elif not (an or bn):
            if op == '<':      # a >= b
                al, bh = max(al, bl), min(bh, ah)
            elif op == '<=':   # a > b
                al, bh = max(al, up(bl)), min(bh, dn(ah))
            elif op == '==':
                if bl == bh:
                    if al == bl:
                        al = up(al)
                    if ah == bl:
                        ah = dn(ah)
                    if bl == 0.0 and al == 0.0:
                        al = up(0.0)
        if (al > ah and not an) or (bl > bh and not bn):
            return False
        if a[0] != 'fl':
            self.fl[a] = (al, ah, an)
        if b[0] != 'fl':
            self.fl[b] = (bl, bh, bn)
        self.eqt[frozenset((c,))] = pol
        return True


def _isspace(x):
    return x in (9, 10, 11, 12, 13, 32)


CTYPE = {
    'isspace': _isspace,
    'isalpha': lambda x: 65 <= x <= 90 or 97 <= x <= 122,
    'isupper': lambda x: 65 <= x <= 90,
    'islower': lambda x: 97 <= x <= 122,
    'isalnum': lambda x: 48 <= x <= 57 or 65 <= x <= 90 or 97 <= x <= 122,
    'isxdigit': lambda x: 48 <= x <= 57 or 65 <= x <= 70 or 97 <= x <= 102,
    'ispunct': lambda x: 33 <= x <= 126 and not (48 <= x <= 57 or 65 <= x <= 90 or 97 <= x <= 122),
    'isprint': lambda x: 32 <= x <= 126, 'isgraph': lambda x: 33 <= x <= 126, 'iscntrl': lambda x: 0 <= x <= 31 or x == 127,
    'isblank': lambda x: x in (9, 32),
}


def fapply(op, a, b=None):
    al, ah, an = a
    if al > ah:
        return (INF, -INF, True)
    if b is not None:
        bl, bh, bn = b
        if bl > bh:
            return (INF, -INF, True)
    nan = an or (b is not None and b[2])

    def corners(f):
        vs, n = [], nan
        for x in (al, ah):
            for y in (bl, bh):
                try:
                    v = f(x, y)
                except (OverflowError, ZeroDivisionError):
                    v = None
                if v is None or math.isnan(v):
                    n = True
                    vs += [-INF, INF]
                else:
                    vs.append(v)
        return (min(vs), max(vs), n)
    if op == '+':
        return corners(lambda x, y: x + y)
    if op == '-':
        return corners(lambda x, y: x - y)
    if op == '*':
        # 0 * inf
        if (al <= 0 <= ah and (bh == INF or bl == -INF)) or (bl <= 0 <= bh and (ah == INF or al == -INF)):
            if al >= 0 and bl >= 0:
                return (0.0, INF, True)
            return (-INF, INF, True)
        return corners(lambda x, y: x * y)
    if op == '/':
        if bl <= 0 <= bh:
            return (-INF, INF, True)

        def dv(x, y):
            if math.isinf(x) and math.isinf(y):
                return float('nan')
            return x / y
        return corners(dv)
    if op == 'neg':
        return (-ah, -al, an)
    if op == 'tofloat':
        return (0.0 if al >= 0 else -INF, 0.0 if ah <= 0 else INF, an)
    if op == 'fabs':
        if al >= 0:
            return (al, ah, an)
        if ah <= 0:
            return (-ah, -al, an)
        return (0.0, max(-al, ah), an)
    if op == 'floor':
        return (math.floor(al) * 1.0 if abs(al) < INF else al, math.floor(ah) * 1.0 if abs(ah) < INF else ah, an)
    if op == 'trunc':
        return (math.trunc(al) * 1.0 if abs(al) < INF else al, math.trunc(ah) * 1.0 if abs(ah) < INF else ah, an)
    if op == 'ceil':
        return (math.ceil(al) * 1.0 if abs(al) < INF else al, math.ceil(ah) * 1.0 if abs(ah) < INF else ah, an)
    if op == 'frac':       # modf
        lo = -1.0 if al < 0 else 0.0
        hi = 1.0 if ah > 0 else 0.0
        hi = math.nextafter(hi, 0) if hi else 0.0
        lo = math.nextafter(lo, 0) if lo else 0.0
        return (lo, hi, an)
    return (-INF, INF, True)


# ---- strings as piece sequences
def norm_pieces(ps):
    out = []
    for p in ps:
        if p[0] == 'lit':
            if not p[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        if p[0] == 'chr' and p[1][0] == 'i':
            p = ('lit', chr(p[1][1] & 255))
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        if p[0] == 'w' and p[1][0] == 's':
            for q in p[1][1]:
                out.append(q)
            continue
        out.append(p)
    # merge again
    res = []
    for p in out:
        if p[0] == 'lit' and res and res[-1][0] == 'lit':
            res[-1] = ('lit', res[-1][1] + p[1])
        else:
            res.append(p)
    return tuple(res)


def S(*ps):
    return ('s', norm_pieces(ps))


def scat(a, b):
    return ('s', norm_pieces(a[1] + b[1]))


def slit(s):
    return ('s', (('lit', s),)) if s else EMPTY_S


def piece_len(p):
    if p[0] == 'lit':
        return I(len(p[1]))
    if p[0] == 'chr':
        return I(1)
    if p[0] == 'rep' and all(q[0] in ('lit', 'chr') for q in p[1]):
        n = sum(len(q[1]) if q[0] == 'lit' else 1 for q in p[1])
        return mulc(p[2], n)
    if p[0] == 'map1':           # one char per element of container/string
        return clen(p[1])
    if p[0] == 'sub':
        return p[3]
    if p[0] in ('rev', 'repl', 'mapf', 'setat'):
        return slen(p[1])
    return ('op', 'len', 'unsigned long', p)


def slen(s):
    r = I(0)
    for p in s[1]:
        r = add(r, piece_len(p))
    return r


def clen(c):
    if c[0] == 's':
        return slen(c)
    if c == ('c', 'empty'):
        return I(0)
    if c[0] == 'c':
        op = c[1]
        if op in ('push_back', 'push_front', 'ins'):
            return addc(clen(c[2]), 1)
        if op in ('pop_back', 'pop_front'):
            return addc(clen(c[2]), -1)
        if op in ('with', 'map', 'rev') and isinstance(c[2], tuple) and c[2][0] == 'c':
            return clen(c[2])
    return ('op', 'size', 'unsigned long', c)
