"""Models of the standard-library (and yaml-cpp) operations the analysed code uses.

Every model maps abstract values to abstract values (terms.py) and may split the
abstract state. Anything without a model yields an unknown value, havocs what it
could modify and marks the state imprecise (rules then report UNDECIDED).
"""
import re, math
from terms import *

# ------------------------------------------------------------------ stream state
FIELDS = ('width', 'fill', 'adj', 'base', 'flt', 'prec', 'upper', 'showbase', 'showpos', 'rd', 'skip')
FMT0 = (('i', 0), ('i', 32), 'none', 'dec', 'gen', ('i', 6), 0, 0, 0, (), 0)


def fget(f, n):
    return f[FIELDS.index(n)]


def fset(f, **kw):
    l = list(f)
    for k, v in kw.items():
        l[FIELDS.index(k)] = v
    return tuple(l)


IOS = {'boolalpha': 1, 'dec': 2, 'fixed': 4, 'hex': 8, 'internal': 16, 'left': 32, 'oct': 64, 'right': 128,
       'scientific': 256, 'showbase': 512, 'showpoint': 1024, 'showpos': 2048, 'skipws': 4096, 'uppercase': 16384}


def set_flags(f, bits, on):
    for name, b in IOS.items():
        if not bits & b:
            continue
        if name in ('dec', 'hex', 'oct'):
            if on:
                f = fset(f, base=name)
            elif fget(f, 'base') == name:
                f = fset(f, base='dec')
        elif name in ('fixed', 'scientific'):
            if on:
                cur = fget(f, 'flt')
                f = fset(f, flt=name if cur in ('gen', name) else 'hexfloat')
            elif fget(f, 'flt') == name:
                f = fset(f, flt='gen')
        elif name in ('left', 'right', 'internal'):
            if on:
                f = fset(f, adj=name)
            elif fget(f, 'adj') == name:
                f = fset(f, adj='none')
        elif name == 'uppercase':
            f = fset(f, upper=int(on))
        elif name == 'showbase':
            f = fset(f, showbase=int(on))
        elif name == 'showpos':
            f = fset(f, showpos=int(on))
    return f


def manip(f, qn):
    n = qn.split('::')[-1]
    if n in ('dec', 'hex', 'oct'):
        return fset(f, base=n)
    if n in ('left', 'right', 'internal'):
        return fset(f, adj=n)
    if n == 'fixed':
        return fset(f, flt='fixed')
    if n == 'scientific':
        return fset(f, flt='scientific')
    if n == 'defaultfloat':
        return fset(f, flt='gen')
    if n == 'uppercase':
        return fset(f, upper=1)
    if n == 'nouppercase':
        return fset(f, upper=0)
    if n == 'showbase':
        return fset(f, showbase=1)
    if n == 'noshowbase':
        return fset(f, showbase=0)
    if n == 'showpos':
        return fset(f, showpos=1)
    if n == 'noshowpos':
        return fset(f, showpos=0)
    return f


def padding(f):
    w = fget(f, 'width')
    if w == I(0):
        return (w, I(32), 'none')
    a = fget(f, 'adj')
    return (w, fget(f, 'fill'), 'right' if a == 'none' else a)


def out_pieces(f, kind, v):
    """pieces written for a value under stream state f"""
    w, fill, adj = padding(f)
    if kind == 'str':
        if w == I(0):
            return v[1]
        return (('fmt', 'str', v, w, fill, adj),)
    if kind == 'chr':
        if w == I(0):
            return (('chr', v),)
        return (('fmt', 'str', S(('chr', v)), w, fill, adj),)
    if kind == 'flt':
        return (('fmt', 'flt', v, w, fill, adj, fget(f, 'flt'), fget(f, 'prec'), fget(f, 'upper'), fget(f, 'showpos')),)
    b = fget(f, 'base')
    if v[0] == 'i' and w == I(0) and b == 'dec' and not fget(f, 'showpos'):
        return (('lit', str(v[1])),)
    return (('fmt', kind, v, w, fill, adj, b, fget(f, 'upper') if b == 'hex' else 0,
             fget(f, 'showbase') if b != 'dec' else 0, fget(f, 'showpos')),)


# ------------------------------------------------------------------ strings
def tostr(v):
    """string value of a std::string / char* / char value"""
    if v is None:
        return EMPTY_S
    if v[0] == 's':
        return v
    return ('s', (('w', ('op', 'cstr', 'std::string', v)),))


def chars(s):
    """explicit one-char pieces if every piece is literal/char, else None"""
    out = []
    for p in s[1]:
        if p[0] == 'lit':
            out += [('lit', c) for c in p[1]]
        elif p[0] == 'chr':
            out.append(p)
        else:
            return None
    return out


def char_at(s, k):
    """value of character k"""
    if k[0] == 'i':
        n = k[1]
        for p in s[1]:
            if p[0] == 'lit':
                if n < len(p[1]):
                    c = ord(p[1][n])
                    return I(c if c < 128 else c - 256)
                n -= len(p[1])
            elif p[0] == 'chr':
                if n == 0:
                    return p[1]
                n -= 1
            else:
                if p is s[1][0] and p[0] == 'sub':
                    return char_at(p[1], add(p[2], k))
                break
    # last character
    if s[1] and sub(slen(s), k) == I(1):
        p = s[1][-1]
        if p[0] == 'chr':
            return p[1]
        if p[0] == 'lit':
            return I(ord(p[1][-1]))
    if len(s[1]) == 1:
        p = s[1][0]
        if p[0] == 'sub':
            return char_at(p[1], add(p[2], k))
        if p[0] == 'rev':
            pass
        if p[0] == 'setat' and p[2] == k:
            return p[3]
    return ('op', 'at', 'char', s, k)


def substr(s, pos, n):
    """pieces pos .. pos+n (both in range)"""
    if n == I(0):
        return EMPTY_S
    if pos == I(0) and sub(slen(s), n) == I(0):
        return s
    cs = chars(s)
    if cs is not None and pos[0] == 'i' and n[0] == 'i':
        return S(*cs[pos[1]:pos[1] + n[1]])
    # drop explicit leading / trailing characters
    if pos[0] == 'i':
        k = pos[1]
        ps = list(s[1])
        while k > 0 and ps:
            p = ps[0]
            if p[0] == 'lit':
                m = min(k, len(p[1]))
                k -= m
                ps[0] = ('lit', p[1][m:])
                if not ps[0][1]:
                    ps.pop(0)
            elif p[0] == 'chr':
                ps.pop(0)
                k -= 1
            else:
                break
        if k < pos[1]:
            return substr(('s', tuple(ps)), I(k), n)
    cut = sub(slen(s), add(pos, n))
    if cut[0] == 'i' and cut[1] > 0:
        k = cut[1]
        ps = list(s[1])
        while k > 0 and ps:
            p = ps[-1]
            if p[0] == 'lit':
                m = min(k, len(p[1]))
                k -= m
                ps[-1] = ('lit', p[1][:-m])
                if not ps[-1][1]:
                    ps.pop()
            elif p[0] == 'chr':
                ps.pop()
                k -= 1
            else:
                break
        if k < cut[1]:
            return substr(('s', tuple(ps)), pos, n)
    if len(s[1]) == 1 and s[1][0][0] == 'sub':
        p = s[1][0]
        return substr(p[1], add(p[2], pos), n)
    return ('s', (('sub', s, pos, n),))


def lits(s):
    return ''.join(p[1] for p in s[1]) if all(p[0] == 'lit' for p in s[1]) else None


# ------------------------------------------------------------------ containers
def cval(v):
    """container view of a value"""
    if v[0] in ('c', 's'):
        return v
    if v[0] == 'tuple':
        r = ('c', 'empty')
        for x in v[1:]:
            r = ('c', 'push_back', r, x)
        return r
    return ('c', 'sym', v)


def cpush_back(c, v):
    return ('c', 'push_back', c, v)


def cpop_front(c):
    if c[1] == 'push_front':
        return c[2]
    if c[1] == 'push_back' and c[2] == ('c', 'empty'):
        return c[2]
    if c[1] == 'push_back':
        d = cpop_front(c[2])
        if d[1] != 'pop_front':
            return ('c', 'push_back', d, c[3])
    if c[1] == 'with' and all(k[0] == 'i' for k, v in c[3]):
        rest = tuple((addc(k, -1), v) for k, v in c[3] if k[1] > 0)
        return ('c', 'with', cpop_front(c[2]), rest) if rest else cpop_front(c[2])
    return ('c', 'pop_front', c)


def cpop_back(c):
    if c[1] == 'push_back':
        return c[2]
    if c[1] == 'push_front' and c[2] == ('c', 'empty'):
        return c[2]
    return ('c', 'pop_back', c)


def ccat(a, b):
    if a == ('c', 'empty'):
        return b
    if b == ('c', 'empty'):
        return a
    if b[1] == 'push_back':
        return ('c', 'push_back', ccat(a, b[2]), b[3])
    return ('c', 'cat', a, b)


def select(I_, st, c, key, t):
    if c[0] == 's':
        return char_at(c, key)
    if c[0] == 'tuple':
        if key[0] == 'i' and key[1] + 1 < len(c):
            return c[1 + key[1]]
        c = cval(c)
    if c[0] == 'c':
        op = c[1]
        if op == 'with':
            for k, v in c[3]:
                if k == key:
                    return v
            return select(I_, st, c[2], key, t)
        if op == 'push_back':
            n = clen(c[2])
            d = st.F.decide(eq0(sub(n, key))) if is_num(key) else None
            if d is True:
                return c[3]
            if d is False or (is_num(key) and st.F.decide(cmp('<', key, n))):
                return select(I_, st, c[2], key, t)
        if op == 'push_front' and is_num(key):
            d = st.F.decide(eq0(key))
            if d is True:
                return c[3]
            if d is False:
                return select(I_, st, c[2], addc(key, -1), t)
        if op == 'pop_front' and is_num(key):
            return select(I_, st, c[2], addc(key, 1), t)
        if op == 'pop_back':
            return select(I_, st, c[2], key, t)
        if op == 'ins':
            d = eqdec(st, c[3], key)
            if d is True and len(c) > 4:
                return c[4]
            if d is False:
                return select(I_, st, c[2], key, t)
        if op == 'erase':
            if eqdec(st, c[3], key) is False:
                return select(I_, st, c[2], key, t)
        if op == 'rep':
            return c[2]
        if op == 'sym':
            return I_.sym(('E', c[2], key), t)
    if c[0] == 'sym' and c[2] == 'std::string':
        return ('op', 'at', 'char', ('s', (('w', c),)), key)
    return I_.sym(('E', c, key), t)


def is_num(k):
    return k[0] in ('i', 'lin', 'op', 'L') or k[0] == 'sym' and is_int(k[2])


def eqdec(st, a, b):
    if a == b:
        return True
    if a[0] == 's' and b[0] == 's':
        x, y = lits(a), lits(b)
        if x is not None and y is not None:
            return x == y
        return st.F.decide_eqt(*sorted((a, b), key=repr))
    if is_num(a) and is_num(b):
        return st.F.decide(eq0(sub(a, b)))
    return st.F.decide_eqt(a, b)


def eqcond(I_, st, a, b):
    if is_num(a) and is_num(b):
        return eq0(sub(a, b))
    return I_.eqterm(st, a, b)


def fork_has(I_, st, c, k, line):
    """-> [(st, bool)]"""
    if c[0] == 'c':
        op = c[1]
        if op == 'empty':
            return [(st, False)]
        if op == 'with':
            return fork_has(I_, st, c[2], k, line)
        if op in ('ins', 'erase'):
            res = []
            for s, eq in st.fork(eqcond(I_, st, c[3], k), line):
                if eq:
                    res.append((s, op == 'ins'))
                else:
                    res += fork_has(I_, s, c[2], k, line)
            return res
    lo, hi = st.F.irange(clen(c))
    if hi <= 0:
        return [(st, False)]
    a = ('op', 'has', 'bool', c, k)
    return st.fork(a, line)


def key_type(t):
    m = re.match(r'(?:const )?std::(?:map|unordered_map|multimap|set|unordered_set)<((?:[^<>,]|<(?:[^<>]|<[^<>]*>)*>)+)', t)
    return m.group(1).strip() if m else '?'


def val_type(t):
    """element (mapped) type of a container type text"""
    m = re.match(r'(?:const )?std::\w+<(.*)>$', strip(t))
    if not m:
        return '?'
    parts, d, cur = [], 0, ''
    for ch in m.group(1):
        if ch == ',' and d == 0:
            parts.append(cur.strip())
            cur = ''
            continue
        d += ch in '<('
        d -= ch in '>)'
        cur += ch
    parts.append(cur.strip())
    if re.match(r'(const )?std::(map|unordered_map|multimap)<', strip(t)):
        return parts[1] if len(parts) > 1 else '?'
    return parts[0]


def is_map(t):
    return bool(re.match(r'(const )?std::(map|unordered_map|multimap)<', t.strip()))


def drop_elems(I_, st, cl):
    """element overrides become part of the container value"""
    ov = tuple(sorted(((x[2], st.env[x]) for x in st.env if x[0] == 'e' and x[1] == cl), key=repr))
    return ov


def cread(I_, st, o, t):
    v = I_.read(st, o, t)
    c = cval(v)
    return c


def cwrite(I_, st, o, c, line, op, keep=True):
    """structural change of a container; element overrides kept when still valid"""
    if keep:
        I_.touch(st, 'wr', o, line, c, op)
        b = st.env.get(o)
        if b is not None and b[0] == 'ref':
            o = b[1]
        st.env[o] = c
    else:
        I_.write(st, o, c, line, op=op)


def fold_elems(I_, st, o, c):
    ov = drop_elems(I_, st, o)
    if ov:
        for l in [l for l in st.env if l[0] == 'e' and l[1] == o]:
            del st.env[l]
        return ('c', 'with', c, ov)
    return c


# ------------------------------------------------------------------ members of library structs
def ext_member(I_, st, l, e):
    n = e['n']
    bt = e['b'].get('t', '')
    if n == 'second' and l[0] == 'e':
        bt2 = strip(bt)
        if bt2.endswith('*'):
            bt2 = strip(bt2[:-1])
        if bt2.startswith('std::pair<const '):
            return ('e', l[1], l[2])
    return ('pf', l, n)


# ------------------------------------------------------------------ construction
def construct(I_, st, e, loc, args):
    """-> [(st, value)]"""
    qn, t = e['qn'], strip(e['rk'])
    V = [I_.argval(st, a) for a in args]
    line = e.get('l')
    if (e.get('cp') or e.get('mv')) and V:
        return [(st, V[0])]
    if qn == 'std::basic_string':
        return string_ctor(I_, st, e, args, V, line)
    if qn in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock'):
        if not args:
            return [(st, ('guard', None, False))]
        m = args[0][1] if args[0][0] == 'loc' else ('d', V[0])
        if len(args) > 1:
            tg = ' '.join(e.get('pt', [])[1:])
            if 'defer' in tg:
                return [(st, ('guard', m, False))]
            if 'adopt' in tg:
                return [(st, ('guard', m, True))]
            if qn == 'std::unique_lock':         # try_to_lock, or a time to give up at
                s2 = st.copy()
                I_.lock(st, m, line)
                return [(st, ('guard', m, True)), (s2, ('guard', m, False))]
            st.imprecise += (('lock-tag', tg, line),)
        I_.lock(st, m, line)
        return [(st, ('guard', m, True))]
    if qn in ('std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ostringstream'):
        s = EMPTY_S
        if V and V[0][0] == 's':
            s = V[0]
        # text present at construction is overwritten by output unless opened at end
        return [(st, ('ss', s[1], FMT0))]
    if qn in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
        if not V:
            return [(st, NULL)]
        if qn != 'std::weak_ptr' and (e.get('pt') or ['*'])[0].rstrip().endswith(('*', 'pointer')):
            st.event('own', line, V[0], V[1] if len(V) > 1 else None)
        return [(st, V[0])]
    if qn in ('std::mutex', 'std::condition_variable', 'std::recursive_mutex', 'std::allocator', 'std::condition_variable_any'):
        return [(st, ('sym', (qn,), qn))]
    if qn == 'std::function':
        return [(st, V[0] if V else NULL)]
    if qn == 'std::chrono::duration':
        if not V:
            return [(st, ('dur', I(0)) + ratio(t))]
        return [(st, to_dur(V[0], t))]
    if qn == 'std::pair':
        if len(V) == 2:
            return [(st, ('pair', V[0], V[1]))]
        if V:
            return [(st, V[0])]
        return [(st, ('pair', ('sym', 'first0', '?'), ('sym', 'second0', '?')))]
    if qn.startswith('std::_Set') and V:
        return [(st, V[0])]
    if I_.is_container(t):
        if not V:
            return [(st, ('c', 'empty'))]
        if len(V) == 1 and V[0][0] == 'c':
            return [(st, V[0])]
        if V[0][0] == 'it' and len(V) >= 2 and V[1][0] == 'it':
            r = range_value(I_, st, V[0], V[1])
            if r is not None:
                return [(st, cval(r))]
        if V[0][0] == 'tuple':
            return [(st, cval(V[0]))]
        if len(V) == 2 and is_num(V[0]) and 'initializer_list' not in ' '.join(e.get('pt', [])):
            return [(st, ('c', 'rep', V[1], V[0]))]
        st.imprecise += (('ctor', t, line),)
        return [(st, I_.sym(('made', line), t))]
    if qn in ('std::__normal_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_const_iterator') or 'iterator' in qn:
        if V:
            return [(st, V[0])]
    if qn.startswith('YAML::'):
        if V:
            return [(st, V[0])]
        return [(st, ('sym', ('ynull',), 'YAML::Node'))]
    if qn in ('std::runtime_error', 'std::exception', 'std::logic_error', 'std::out_of_range', 'std::invalid_argument'):
        I_.write_init(st, loc, ('obj', '?', (('#what', V[0] if V else EMPTY_S),)))
        st.event('excctor', line, qn, tuple(V))
        return [(st, None)]
    r = I_.rec(t)
    if r is not None:
        # implicit constructor of one of our own records
        fs = []
        for f in r['fields']:
            ft = strip(f['t'])
            if f.get('init') is not None:
                vs = I_.rval(f['init'], st)
                st, v = vs[0]
                fs.append((f['n'], v))
            elif ft == 'std::string' or I_.is_container(ft) or 'ptr<' in ft and not ft.endswith('*'):
                fs.append((f['n'], I_.zero(ft)))
            else:
                fs.append((f['n'], ('sym', ('undef', f['n']), ft)))
        return [(st, ('obj', r['key'], tuple(fs)))]
    st.imprecise += (('ctor', qn, line),)
    return [(st, I_.sym(('made', qn, line) + tuple(V), t))]


def string_ctor(I_, st, e, args, V, line):
    pt = e.get('pt', [])
    if not V:
        return [(st, EMPTY_S)]
    if V[0][0] == 'it' and len(V) > 1 and V[1][0] == 'it':
        r = range_value(I_, st, V[0], V[1])
        if r is not None and r[0] == 's':
            return [(st, r)]
        st.imprecise += (('string-range', line),)
        return [(st, I_.sym(('made', line), 'std::string'))]
    if len(V) >= 2 and pt and strip(pt[0]) in ('unsigned long', 'std::size_t') and 'char' in pt[1]:
        return [(st, srep(V[1], V[0]))]
    if len(V) >= 2 and 'std::string' in pt[0]:
        return do_substr(I_, st, V[0], V[1], V[2] if len(V) > 2 and is_num(V[2]) else I(NPOS), line)
    if len(V) >= 2 and pt[0].startswith('const char') and is_num(V[1]) and 'allocator' not in pt[1]:
        s = tostr(V[0])
        return [(st, counted(st, s, V[1]))]
    if V[0][0] == 'tuple':
        return [(st, S(*[('chr', x) for x in V[0][1:]]))]
    s = tostr(V[0])
    t = lits(s)
    if pt and pt[0].startswith('const char') and t is not None and '\0' in t:
        s = slit(t.split('\0')[0])
    return [(st, s)]


def counted(st, s, n):
    """the first n characters of a text given by a pointer"""
    t = lits(s)
    if t is not None and n[0] == 'i':
        return slit(t[:n[1]])
    if n == slen(s) or st.F.decide(eq0(sub(n, slen(s)))) is True:
        return s
    return ('s', (('sub', s, I(0), n),))


def srep(c, n):
    if n[0] == 'i':
        return S(*([('chr', c)] * n[1])) if 0 <= n[1] <= 64 else ('s', (('rep', S(('chr', c))[1], n),))
    return ('s', (('rep', S(('chr', c))[1], n),))


def ratio(t):
    m = re.search(r'std::ratio<(\d+), (\d+)>', t)
    if m:
        return (int(m.group(1)), int(m.group(2)))
    if re.search(r'duration<[^<>]*>', t):
        return (1, 1)
    return (1, 1)


def to_dur(v, t):
    n, d = ratio(t)
    if v[0] == 'dur':
        _, x, n1, d1 = v
        num, den = n1 * d, d1 * n
        g = math.gcd(num, den)
        num, den = num // g, den // g
        if den == 1:
            return ('dur', mulc(x, num), n, d)
        if x[0] == 'i':
            return ('dur', I(x[1] * num // den), n, d)
        return ('dur', ('op', 'i_div', 'long', mulc(x, num), I(den)), n, d)
    if v[0] == 'fl':
        return ('dur', I(int(v[1])), n, d)
    if is_num(v) or v[0] == 'lin':
        return ('dur', v, n, d)
    return v


def dcount(v):
    if v[0] == 'dur':
        return v[1]
    return ('op', 'count', 'long', v)


# ------------------------------------------------------------------ iterators
def range_value(I_, st, a, b):
    """content between two iterators, when it is a whole container"""
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2] == 'begin' and b[2] == 'end':
        return I_.read(st, a[1], 'std::string' if len(a) > 3 and a[3] == 'str' else '?')
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2] == 'rbegin' and b[2] == 'rend':
        v = I_.read(st, a[1], '?')
        if v[0] == 's':
            return srev(v)
        return ('c', 'rev', cval(v))
    return None


def srev(s):
    t = lits(s)
    if t is not None:
        return slit(t[::-1])
    if len(s[1]) == 1 and s[1][0][0] == 'rev':
        return s[1][0][1]
    return ('s', (('rev', s),))


def it_step(I_, s, v, d):
    if v[0] == 'it':
        k = v[2]
        if k == 'idx':
            return ('it', v[1], 'idx', addc(v[3], d))
        if k == 'step' and v[3][1] + d == 0:
            return v[3][0]
        if k == 'step':
            return ('it', v[1], 'step', (v[3][0], v[3][1] + d))
        return ('it', v[1], 'step', (v, d))
    return ('op', 'ptr+', tyof(v), v, I(d))


def it_key(I_, st, v, t):
    """element key designated by an iterator"""
    k = v[2]
    if k == 'key':
        return v[3]
    mt = strip(t)
    cty = I_.loc_type(v[1])
    keyed = 'std::pair<const ' in mt or is_map(strip(cty))
    if k == 'begin':
        base = ('first', v[1])
        if not keyed:
            return I(0)
    elif k == 'idx':
        return v[3]
    elif k == 'step' and v[3][0][2] == 'end' and v[3][1] == -1:
        return addc(clen(cread(I_, st, v[1], '?')), -1)
    elif k == 'step' and v[3][0][2] == 'begin' and not keyed:
        return I(v[3][1])
    else:
        base = ('pos', v[3])
    if keyed:
        m = re.search(r'std::pair<const ((?:[^<>,]|<(?:[^<>]|<[^<>]*>)*>)+),', mt)
        kt = m.group(1).strip() if m else key_type(strip(cty))
        return I_.sym(('key', base), kt)
    return ('op', 'ix', 'unsigned long', base)


def it_eq(I_, st, a, b, line):
    """condition term  a == b"""
    if a == b:
        return TRUE
    if a[0] != 'it' or b[0] != 'it':
        return I_.eqterm(st, a, b)
    ka, kb = a[2], b[2]
    if kb in ('begin',) or ka == 'end':
        a, b, ka, kb = b, a, kb, ka
    if kb in ('end', 'rend'):
        if ka == 'key':
            return FALSE
        if ka in ('begin', 'rbegin'):
            c = I_.read(st, a[1], '?')
            return eq0(slen(c) if c[0] == 's' else clen(cread(I_, st, a[1], '?')))
        return ('op', 'atend', 'bool', a)
    return ('eqt',) + tuple(sorted((a, b), key=repr))


def bind_elem(I_, h, vl, var, cl, rec, rt):
    st = h
    c = rec.cont
    # the range as it is now
    cv = I_.read(st, cl, strip(rt))
    cc = cval(cv)
    n = slen(cc) if cc[0] == 's' else clen(cc)
    st.F.assume(cmp('>=', n, I(1)), True)
    et = '?'
    rts = strip(rt)
    if is_map(rts):
        k = I_.sym(('key', rec.elem), key_type(rts))
        rec.elemkey = k
        el = ('e', cl, k)
        st.F.assume(('op', 'has', 'bool', cc, k), True)
        if var.get('ref') or var['t'].strip().endswith('&'):
            st.env[vl] = ('ref', el)
        else:
            v = I_.read(st, el, val_type(rts))
            st.env[vl] = ('pair', k, v)
        return
    k = ('op', 'ix', 'unsigned long', rec.elem)
    rec.elemkey = k
    el = ('e', cl, k)
    if var.get('ref') or var['t'].strip().endswith('&'):
        st.env[vl] = ('ref', el)
    else:
        vt = val_type(rts) if I_.is_container(rts) else var['t']
        I_.write_init(st, vl, I_.read(st, el, vt if vt != '?' else var['t']))


# ------------------------------------------------------------------ calls
ITER_CLS = re.compile(r'iterator|_Iter|__normal_iterator')
PTR_CLS = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr', 'std::weak_ptr')
CONT = ('map', 'unordered_map', 'multimap', 'list', 'vector', 'queue', 'deque', 'set', 'unordered_set', 'stack', 'array', 'forward_list', 'multiset')


def call(I_, e, st):
    qn = e.get('qn')
    if qn is None:
        return call_indirect(I_, e, st)
    mname = e.get('mname') or qn.split('::')[-1]
    objs = [(st, None)]
    if e.get('obj') is not None and not e.get('static'):
        o = e['obj']
        if e.get('arrow'):
            objs = []
            for s, v in I_.rval(o, st):
                if s.exc:
                    objs.append((s, None))
                else:
                    if v[0] not in ('ptr',):
                        I_.deref_event(s, e.get('l'), v)
                    objs.append((s, I_.ptr_loc(v)))
        elif o.get('lv') or o['k'] == 'tmp':
            objs = I_.lval(o, st)
        else:
            objs = [(s, I_.to_temp(s, v) if not s.exc else v) for s, v in I_.rval(o, st)]
    res = []
    for s, ol in objs:
        if s.exc:
            res.append((s, None))
            continue
        for s2, args in I_.eval_args(e['args'], e.get('pt', []), s, qn):
            if s2.exc:
                res.append((s2, None))
                continue
            r = apply(I_, e, s2, qn, mname, ol, args)
            if mname in CONSUMERS:
                for s3, v in r:
                    if not s3.exc:
                        if ol is not None and ol[0] == 'h':
                            s3.event('keep', e.get('l'), ol, tuple(I_.argval(s3, a) for a in args if a is not None))
                        moved(I_, s3, e['args'], args)
            res += r
    return res


CONSUMERS = ('push', 'push_back', 'push_front', 'emplace', 'emplace_back', 'emplace_front', 'insert', 'operator=', 'assign', 'reset', 'swap_in')


def moved(I_, st, nodes, args):
    """an argument written std::move(x) leaves x moved-from (as libstdc++ does)"""
    for a, v in zip(nodes, args):
        if not isinstance(a, dict) or v[0] != 'loc':
            continue
        while a.get('k') in ('tmp', 'cast', 'ld'):
            a = a.get('e') or {}
        if a.get('k') != 'call' or a.get('qn') not in ('std::move', 'std::forward'):
            continue
        if a.get('qn') == 'std::forward' and not a.get('t', '').strip().endswith('&&'):
            continue
        t = strip(a.get('t', '').replace('&&', '').replace('&', ''))
        l = v[1]
        if t.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            I_.write(st, l, NULL)
        elif t in ('std::string', 'std::basic_string<char>'):
            I_.write(st, l, EMPTY_S)
        elif t.startswith(('std::vector<', 'std::map<', 'std::queue<', 'std::list<', 'std::deque<', 'std::unordered_map<')):
            I_.write(st, l, ('c', 'empty'))
        elif t.startswith('std::unique_lock<'):
            I_.write(st, l, ('guard', None, False))


def call_indirect(I_, e, st):
    res = []
    fe = e.get('fe')
    for s, f in (I_.rval(fe, st) if fe else [(st, ('sym', 'fp', '?'))]):
        if s.exc:
            res.append((s, None))
            continue
        for s2, args in I_.eval_args(e['args'], [], s):
            if s2.exc:
                res.append((s2, None))
                continue
            if f[0] in ('fnref', 'lam'):
                res += I_.call_lambda(f, args, s2, e)
            else:
                s2.imprecise += (('indirect', e.get('l')),)
                res.append((s2, I_.sym(('app', f, e.get('l')), e.get('t', '?'))))
    return res


def V(I_, st, a):
    return I_.argval(st, a)


def apply(I_, e, st, qn, m, o, args):
    cls = e.get('cls') or ''
    line = e.get('l')
    h = I_.hooks.get('stl')
    if h:
        r = h(I_, e, st, qn, m, o, args)
        if r is not None:
            return r
    if cls.startswith('YAML') or qn.startswith('YAML'):
        return yaml(I_, e, st, qn, m, o, args)
    if o is not None and cls in PTR_CLS:
        return smart(I_, e, st, m, o, args)
    if o is not None and ITER_CLS.search(cls):
        return iterop(I_, e, st, m, o, args)
    if o is not None and cls == 'std::basic_string':
        return stringop(I_, e, st, m, o, args)
    if o is not None and cls.startswith('std::') and cls.split('::')[-1].lstrip('_') in CONT or cls.startswith('std::_Vector') or cls.startswith('std::__cxx11::_List'):
        return contop(I_, e, st, cls.split('::')[-1], m, o, args)
    if o is not None and re.match(r'std::(basic_\w*(stream|ios)|ios_base|basic_ios)', cls):
        return streamop(I_, e, st, m, o, args)
    if o is not None and cls in ('std::mutex', 'std::recursive_mutex'):
        if m == 'lock':
            I_.lock(st, o, line)
            return [(st, None)]
        if m == 'unlock':
            I_.unlock(st, o, line)
            return [(st, None)]
        if m == 'try_lock':
            s2 = st.copy()
            I_.lock(st, o, line)
            return [(st, TRUE), (s2, FALSE)]
    if o is not None and cls in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'):
        g = I_.read(st, o, '?')
        if g[0] == 'guard':
            if m == 'unlock':
                if g[2]:
                    I_.unlock(st, g[1], line)
                else:
                    st.event('badunlock', line, g[1])
                st.env[o] = ('guard', g[1], False)
                return [(st, None)]
            if m == 'lock':
                I_.lock(st, g[1], line)
                st.env[o] = ('guard', g[1], True)
                return [(st, None)]
            if m in ('owns_lock', 'operator bool'):
                return [(st, I(1 if g[2] else 0))]
            if m in ('try_lock', 'try_lock_for', 'try_lock_until') and g[1] is not None:
                s2 = st.copy()
                I_.lock(st, g[1], line)
                st.env[o] = ('guard', g[1], True)
                return [(st, TRUE), (s2, FALSE)]
            if m == 'release':
                st.env[o] = ('guard', None, False)
                return [(st, ('ptr', g[1]) if g[1] is not None else NULL)]
    if o is not None and cls in ('std::condition_variable', 'std::condition_variable_any'):
        return condvar(I_, e, st, m, o, args)
    if cls == 'std::chrono::duration':
        if m == 'count':
            return [(st, dcount(I_.read(st, o, e.get('ot', '?'))))]
        if m == 'zero':
            return [(st, ('dur', I(0)) + ratio(e.get('rk', '') or e.get('t', '')))]
        if m == 'max':
            return [(st, ('dur', I(2 ** 63 - 1)) + ratio(e.get('rk', '') or e.get('t', '')))]
    if cls == 'std::function':
        f = I_.read(st, o, e.get('ot', '?'))
        if m == 'operator()':
            if f[0] in ('lam', 'fnref'):
                return I_.call_lambda(f, args, st, e)
            vals = tuple(V(I_, st, a) for a in args)
            st.event('app', line, f, vals)
            return [(st, None if e.get('t') == 'void' else ('op', 'app', strip(e.get('t', 'bool')), f) + vals)]
        if m == 'operator bool':
            return [(st, negate(I_.eqterm(st, f, NULL)))]
        if m == 'operator=':
            I_.write(st, o, V(I_, st, args[0]), line)
            return [(st, ('loc', o))]
    if cls == 'std::type_info' and m == 'name':
        return [(st, ('s', (('w', ('op', 'tyname', 'std::string', I_.read(st, o, '?'))),)))]
    if m == 'what' and o is not None:
        v = I_.readany(st, o)
        return [(st, ('s', (('w', ('op', 'what', 'std::string', v)),)))]
    if cls == 'std::pair' and m == 'operator=':
        I_.write(st, o, V(I_, st, args[0]), line)
        return [(st, ('loc', o))]
    # lambda object call
    if m == 'operator()' and o is not None:
        f = I_.read(st, o, '?')
        if f[0] in ('lam', 'fnref'):
            return I_.call_lambda(f, args, st, e)
    fn = I_.P.funcs.get(e.get('key'))
    if m == 'operator=' and o is not None and fn is not None and (fn.get('implicit') or fn.get('deflt')):
        # memberwise assignment
        src = args[0]
        r = I_.rec(fn['cls'])
        v = I_.snapshot(st, src[1], r) if src[0] == 'loc' and r is not None else V(I_, st, src)
        I_.write(st, o, v, line)
        return [(st, ('loc', o))]
    if fn is not None and fn.get('kind') == 'dtor':
        return [(st, None)]
    return freefn(I_, e, st, qn, m, o, args)


# ---- smart pointers
def smart(I_, e, st, m, o, args):
    line = e.get('l')
    v = I_.read(st, o, e.get('ot', '?'))
    if m in ('operator->', 'get'):
        I_.touch(st, 'rd', o, line)
        return [(st, v)]
    if m == 'operator*':
        I_.deref_event(st, line, v)
        return [(st, ('loc', I_.ptr_loc(v)))]
    if m == 'operator bool':
        return [(st, negate(I_.eqterm(st, v, NULL)))]
    if m in ('operator=', 'reset', 'swap'):
        nv = V(I_, st, args[0]) if args else NULL
        if m == 'swap':
            st.imprecise += (('swap', line),)
        if m == 'reset' and args:
            st.event('own', line, nv, V(I_, st, args[1]) if len(args) > 1 else None)
        I_.write(st, o, nv, line)
        return [(st, ('loc', o))]
    if m == 'release':
        st.event('release', line, v)
        I_.write(st, o, NULL, line)
        return [(st, v)]
    if m == 'use_count':
        return [(st, ('op', 'use_count', 'long', v))]
    st.imprecise += (('smart', m, line),)
    return [(st, I_.sym(('smart', m, line), e.get('t', '?')))]


# ---- iterators
def iterop(I_, e, st, m, o, args):
    line = e.get('l')
    v = I_.read(st, o, '?')
    t = e.get('t', '?')
    if v[0] != 'it':
        if m == 'operator->' and v[0] == 'ptr':
            return [(st, v)]
        st.imprecise += (('iter', m, line),)
        return [(st, I_.sym(('iter', m, line, v), t))]
    if m in ('operator*', 'operator->'):
        ct = e.get('ot', '?')
        cell = ('e', v[1], it_key(I_, st, v, ct))
        obligation_iter(I_, st, v, line)
        return [(st, ('loc', cell) if m == 'operator*' else ('ptr', cell))]
    if m == 'operator++' or m == 'operator--':
        d = 1 if '+' in m else -1
        nv = it_step(I_, st, v, d)
        I_.write(st, o, nv, line)
        return [(st, v if args else ('loc', o))]
    if m in ('operator==', 'operator!='):
        c = it_eq(I_, st, v, V(I_, st, args[0]), line)
        return [(st, c if m == 'operator==' else negate(c))]
    if m in ('operator+', 'operator-') and args:
        a = V(I_, st, args[0])
        if a[0] == 'i':
            return [(st, it_step(I_, st, v, a[1] if m == 'operator+' else -a[1]))]
    if m == 'operator+=' and V(I_, st, args[0])[0] == 'i':
        I_.write(st, o, it_step(I_, st, v, V(I_, st, args[0])[1]), line)
        return [(st, ('loc', o))]
    if m == 'operator=':
        I_.write(st, o, V(I_, st, args[0]), line)
        return [(st, ('loc', o))]
    st.imprecise += (('iter', m, line),)
    return [(st, I_.sym(('iter', m, line, v), t))]


def obligation_iter(I_, st, v, line):
    if v[2] in ('end', 'rend'):
        st.event('bound', line, 'deref of end()', FALSE, st.F, False)
    elif v[2] == 'begin':
        st.event('bound', line, 'deref of begin()', cmp('>=', clen(cread(I_, st, v[1], '?')), I(1)), st.F, False)


def need(I_, st, line, what, cond):
    """an obligation the code must guarantee at this point"""
    d = st.F.decide(cond)
    st.event('bound', line, what, cond, st.F if d is True else st.F.copy(), d)
    if d is not True:
        st.F.assume(cond, True)


# ---- std::string
def stringop(I_, e, st, m, o, args):
    line = e.get('l')
    s = I_.read(st, o, 'std::string')
    if s[0] != 's':
        s = ('s', (('w', s),))
    A = [V(I_, st, a) for a in args]
    pt = e.get('pt', [])
    n = slen(s)

    def wr(v, op='='):
        I_.write(st, o, v, line, op=op)
        return [(st, ('loc', o))]
    if m in ('size', 'length'):
        I_.touch(st, 'rd', o, line)
        return [(st, n)]
    if m == 'empty':
        return [(st, eq0(n))]
    if m in ('c_str', 'data'):
        return [(st, s)]
    if m in ('front',):
        need(I_, st, line, 'string front()', cmp('>=', n, I(1)))
        return [(st, ('loc', ('e', o, I(0))))]
    if m == 'back':
        need(I_, st, line, 'string back()', cmp('>=', n, I(1)))
        return [(st, ('loc', ('e', o, addc(n, -1))))]
    if m == 'operator[]':
        need(I_, st, line, 'string operator[]', cmp('<=', A[0], n))
        if st.F.decide(eq0(sub(A[0], n))) is True:
            t = I_.newtemp(st)
            st.env[t] = I(0)
            return [(st, ('loc', t))]
        return [(st, ('loc', ('e', o, A[0])))]
    if m == 'at':
        res = []
        for x, ok in st.fork(cmp('<', A[0], n), line):
            if ok:
                res.append((x, ('loc', ('e', o, A[0]))))
            else:
                res.append(throw(x, 'std::out_of_range', line, 'std-pos'))
        return res
    if m == 'push_back':
        return wr(scat(s, S(('chr', A[0]))), 'push_back')
    if m == 'pop_back':
        need(I_, st, line, 'string pop_back()', cmp('>=', n, I(1)))
        return wr(substr(s, I(0), addc(n, -1)), 'pop_back')
    if m in ('append', 'operator+='):
        if pt and strip(pt[0]) == 'char':
            return wr(scat(s, S(('chr', A[0]))))
        if len(A) == 2 and is_num(A[0]) and strip(pt[0]) == 'unsigned long':
            return wr(scat(s, srep(A[1], A[0])))
        if len(A) >= 2 and A[0][0] == 'it':
            r = range_value(I_, st, A[0], A[1])
            if r is not None and r[0] == 's':
                return wr(scat(s, r))
        if len(A) == 3 or len(A) == 2 and 'string' in pt[0]:
            res = []
            for x, v in do_substr(I_, st, tostr(A[0]), A[1], A[2] if len(A) > 2 else I(NPOS), line):
                if x.exc:
                    res.append((x, v))
                else:
                    I_.write(x, o, scat(s, v), line)
                    res.append((x, ('loc', o)))
            return res
        if len(A) == 2 and pt[0].startswith('const char') and is_num(A[1]):
            return wr(scat(s, counted(st, tostr(A[0]), A[1])))
        if len(A) == 1:
            return wr(scat(s, tostr(A[0])))
    if m in ('operator=', 'assign'):
        if pt and strip(pt[0]) == 'char':
            return wr(S(('chr', A[0])))
        if len(A) == 1:
            return wr(tostr(A[0]) if A[0][0] != 'tuple' else S(*[('chr', x) for x in A[0][1:]]))
        if len(A) == 2 and pt[0].startswith('const char') and is_num(A[1]):
            return wr(counted(st, tostr(A[0]), A[1]))
        if len(A) == 2 and is_num(A[0]):
            return wr(srep(A[1], A[0]))
        if len(A) >= 2 and A[0][0] == 'it':
            r = range_value(I_, st, A[0], A[1])
            if r is not None and r[0] == 's':
                return wr(r)
        if len(A) == 3:
            res = []
            for x, v in do_substr(I_, st, tostr(A[0]), A[1], A[2], line):
                if not x.exc:
                    I_.write(x, o, v, line)
                    v = ('loc', o)
                res.append((x, v))
            return res
    if m == 'clear':
        return wr(EMPTY_S, 'clear')
    if m in ('reserve', 'shrink_to_fit'):
        return [(st, None)]
    if m == 'substr':
        return do_substr(I_, st, s, A[0] if A else I(0), A[1] if len(A) > 1 else I(NPOS), line)
    if m == 'erase':
        if A and A[0][0] == 'it':
            v = A[0]
            if len(A) == 1:
                k = it_key(I_, st, v, '?')
                need(I_, st, line, 'string erase(iterator)', cmp('<', k, n))
                I_.write(st, o, scat(substr(s, I(0), k), substr(s, addc(k, 1), addc(sub(n, k), -1))), line, op='erase')
                return [(st, v)]
            st.imprecise += (('erase-range', line),)
            I_.write(st, o, I_.sym(('erased', line), 'std::string'), line)
            return [(st, v)]
        p = A[0] if A else I(0)
        k = A[1] if len(A) > 1 else I(NPOS)
        res = []
        for x, bad in beyond(st, p, n, line):
            if bad:
                res.append(throw(x, 'std::out_of_range', line, 'std-pos'))
                continue
            for y, less in x.fork(cmp('<', k, sub(n, p)), line):
                if less:
                    r = scat(substr(s, I(0), p), substr(s, add(p, k), sub(sub(n, p), k)))
                else:
                    r = substr(s, I(0), p)
                I_.write(y, o, r, line, op='erase')
                res.append((y, ('loc', o)))
        return res
    if m == 'insert':
        if A and is_num(A[0]):
            p = A[0]
            if len(A) == 2:
                ins = tostr(A[1])
            elif len(A) == 3 and is_num(A[1]) and strip(pt[2]) == 'char':
                ins = srep(A[2], A[1])
            else:
                ins = None
            if ins is not None:
                res = []
                for x, bad in beyond(st, p, n, line):
                    if bad:
                        res.append(throw(x, 'std::out_of_range', line, 'std-pos'))
                        continue
                    I_.write(x, o, scat(scat(substr(s, I(0), p), ins), substr(s, p, sub(n, p))), line, op='insert')
                    res.append((x, ('loc', o)))
                return res
        if A and A[0][0] == 'it' and A[0][2] in ('begin', 'end'):
            ins = None
            if len(A) == 2:
                ins = S(('chr', A[1]))
            elif len(A) == 3 and is_num(A[1]):
                ins = srep(A[2], A[1])
            elif len(A) == 3 and A[1][0] == 'it':
                ins = range_value(I_, st, A[1], A[2])
            if ins is not None:
                I_.write(st, o, scat(ins, s) if A[0][2] == 'begin' else scat(s, ins), line, op='insert')
                return [(st, A[0])]
    if m == 'resize':
        c = A[1] if len(A) > 1 else I(0)
        res = []
        for x, more in st.fork(cmp('>', A[0], n), line):
            if more:
                I_.write(x, o, scat(s, srep(c, sub(A[0], n))), line)
            else:
                I_.write(x, o, substr(s, I(0), A[0]), line)
            res.append((x, None))
        return res
    if m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        return do_find(I_, st, m, s, A, pt, line)
    if m in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend'):
        k = m.lstrip('c') if m not in ('crbegin', 'crend') else m[1:]
        return [(st, ('it', o, k, 'str'))]
    if m == 'compare':
        if len(A) == 1:
            c = I_.eqterm(st, s, tostr(A[0]))
            res = []
            for x, eq in st.fork(c, line):
                if eq:
                    res.append((x, I(0)))
                else:
                    t = ('op', 'compare', 'int', s, tostr(A[0]))
                    x.F.assume(eq0(t), False)
                    res.append((x, t))
            return res
        if len(A) == 3:
            res = []
            for x, v in do_substr(I_, st, s, A[0], A[1], line):
                if x.exc:
                    res.append((x, v))
                    continue
                for y, eq in x.fork(I_.eqterm(x, v, tostr(A[2])), line):
                    if eq:
                        res.append((y, I(0)))
                    else:
                        t = ('op', 'compare', 'int', v, tostr(A[2]))
                        y.F.assume(eq0(t), False)
                        res.append((y, t))
            return res
    if m == 'swap' and args[0][0] == 'loc':
        b = I_.read(st, args[0][1], 'std::string')
        I_.write(st, args[0][1], s, line)
        I_.write(st, o, b, line)
        return [(st, None)]
    if m in ('max_size', 'capacity'):
        return [(st, ('op', m, 'unsigned long', s))]
    if m.startswith('operator basic_string_view'):
        return [(st, s)]
    st.imprecise += (('string', m, line),)
    if not e.get('const'):
        I_.write(st, o, I_.sym(('str', m, line), 'std::string'), line)
    return [(st, I_.sym(('str', m, line, s), e.get('t', '?')))]


def throw(st, typ, line, how='std'):
    """how 'std-pos': raised only if a position is out of range, which the facts at hand neither prove nor refute"""
    from absint import Exc
    st.exc = Exc(typ, None, line)
    st.event('throw', line, typ, how)
    return (st, ('throw',))


def beyond(st, p, n, line):
    """is position p behind the end of n characters?"""
    return [(st, False)] if p == I(0) else st.fork(cmp('>', p, n), line)


def do_substr(I_, st, s, p, k, line):
    n = slen(s)
    res = []
    for x, bad in beyond(st, p, n, line):
        if bad:
            res.append(throw(x, 'std::out_of_range', line, 'std-pos'))
            continue
        for y, less in x.fork(cmp('<', k, sub(n, p)), line):
            res.append((y, substr(s, p, k if less else sub(n, p))))
    return res


def has_number(s):
    """a printed integer (at least one digit) is part of the text"""
    for q in s[1]:
        if q[0] == 'fmt' and q[1] in ('int', 'uint'):
            return True
        if q[0] == 'rev' and has_number(q[1] if q[1][0] == 's' else ('s', tuple(q[1]))):
            return True
    return False


def do_find(I_, st, m, s, A, pt, line):
    last = 'last' in m or m == 'rfind'
    if pt and strip(pt[0]) == 'char':
        needle = S(('chr', A[0]))
    else:
        needle = tostr(A[0])
    start = A[1] if len(A) > 1 else (I(NPOS) if last else I(0))
    n = slen(s)
    whole = m in ('find', 'rfind')
    ls, ln = lits(s), lits(needle)
    if ls is not None and ln is not None and start[0] == 'i':
        b = start[1]
        r = -1
        if m == 'find':
            r = ls.find(ln, b) if b <= len(ls) else -1
        elif m == 'rfind':
            r = ls.rfind(ln) if b == NPOS else ls.rfind(ln, 0, b + len(ln))
        elif m == 'find_first_of':
            r = next((i for i in range(min(b, len(ls)), len(ls)) if ls[i] in ln), -1)
        elif m == 'find_first_not_of':
            r = next((i for i in range(min(b, len(ls)), len(ls)) if ls[i] not in ln), -1)
        else:
            hit = (lambda c: c in ln) if m == 'find_last_of' else (lambda c: c not in ln)
            r = next((i for i in range(min(b, len(ls) - 1), -1, -1) if hit(ls[i])), -1)
        return [(st, I(r if r >= 0 else NPOS))]
    p = ('op', m, 'unsigned long', s, needle, start)
    if m == 'find_last_not_of' and start == I(NPOS) and ln is not None and not set(ln) & set('0123456789abcdefABCDEF') and has_number(s):
        x = st
        ok = x.F._assume(cmp('<', p, n), True) and x.F._assume(cmp('>=', p, I(0)), True)
        return [(x, p)]
    if m == 'find_first_not_of' and start == I(0) and ln is not None and not set(ln) & set('0123456789abcdefABCDEF') and has_number(s):
        ok = st.F._assume(cmp('<', p, n), True) and st.F._assume(cmp('>=', p, I(0)), True)
        return [(st, p)]
    found = ('op', 'found', 'bool', p)
    res = []
    for x, y in st.fork(found, line):
        if not y:
            res.append((x, I(NPOS)))
            continue
        ok = x.F._assume(cmp('<', p, n), True) and x.F._assume(cmp('>=', p, I(0)), True)
        ok = ok and x.F._assume(cmp('<', p, I(NPOS)), True)
        if whole:
            ok = ok and x.F._assume(cmp('<=', add(p, slen(needle)), n), True)
        if not last:
            ok = ok and x.F._assume(cmp('>=', p, start), True)
        elif start != I(NPOS):
            ok = ok and x.F._assume(cmp('<=', p, start), True)
        if ok:
            res.append((x, p))
    return res


# ---- containers
def contop(I_, e, st, cls, m, o, args):
    line = e.get('l')
    ot = strip(e.get('ot', '?'))
    if ot.endswith('*'):
        ot = strip(ot[:-1])
    c = cread(I_, st, o, ot)
    A = [V(I_, st, a) for a in args]
    n = clen(c)
    mp = cls in ('map', 'unordered_map', 'multimap')
    sett = cls in ('set', 'unordered_set', 'multiset')
    vt = val_type(ot)

    def ret(v):
        return [(st, v)]
    if m == 'size':
        I_.touch(st, 'rd', o, line)
        return ret(n)
    if m == 'empty':
        I_.touch(st, 'rd', o, line)
        return ret(eq0(n))
    if m in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend'):
        I_.touch(st, 'rd', o, line)
        k = m[1:] if m.startswith('c') else m
        return ret(('it', o, k, None))
    if m == 'clear':
        gone(st, o, line, None)
        I_.write(st, o, ('c', 'empty'), line, op='clear')
        return ret(None)
    if m in ('reserve', 'shrink_to_fit'):
        return ret(None)
    if m == 'operator=':
        v = A[0]
        if args[0][0] == 'loc':
            v = I_.readcopy(st, args[0][1], ot)
        I_.write(st, o, cval(v), line)
        return ret(('loc', o))
    if m == 'swap' and args and args[0][0] == 'loc':
        b = cval(I_.readcopy(st, args[0][1], ot))
        I_.write(st, args[0][1], cval(I_.readcopy(st, o, ot)), line)
        I_.write(st, o, b, line)
        return ret(None)
    if mp or sett:
        return mapop(I_, e, st, m, o, args, c, A, vt, line, sett)
    if m == 'front' or m == 'top' and False:
        need(I_, st, line, cls + ' front()', cmp('>=', n, I(1)))
        I_.touch(st, 'rd', o, line)
        return ret(('loc', ('e', o, I(0))))
    if m in ('back', 'top'):
        need(I_, st, line, cls + ' back()', cmp('>=', n, I(1)))
        I_.touch(st, 'rd', o, line)
        return ret(('loc', ('e', o, addc(n, -1))))
    if m == 'operator[]':
        need(I_, st, line, cls + ' operator[]', cmp('<', A[0], n))
        I_.touch(st, 'rd', o, line)
        return ret(('loc', ('e', o, A[0])))
    if m == 'at':
        res = []
        for x, ok in st.fork(cmp('<', A[0], n), line):
            res.append((x, ('loc', ('e', o, A[0]))) if ok else throw(x, 'std::out_of_range', line, 'std-pos'))
        return res
    if m in ('push_back', 'push', 'emplace_back', 'emplace'):
        if m.startswith('emplace'):
            v = emplaced(I_, st, vt, args, A)
        else:
            v = elem_arg(I_, st, args[0], vt)
        cwrite(I_, st, o, cpush_back(c, v), line, 'push_back')
        return ret(('loc', ('e', o, n)) if m == 'emplace_back' else None)
    if m in ('push_front', 'emplace_front'):
        v = elem_arg(I_, st, args[0], vt) if m == 'push_front' else emplaced(I_, st, vt, args, A)
        c = fold_elems(I_, st, o, c)
        cwrite(I_, st, o, ('c', 'push_front', c, v), line, 'push_front')
        return ret(None)
    if m == 'pop_front' or m == 'pop' and cls == 'queue':
        need(I_, st, line, cls + ' pop()', cmp('>=', n, I(1)))
        c = fold_elems(I_, st, o, c)
        gone(st, o, line, lambda x: x == I(0), 1)
        cwrite(I_, st, o, cpop_front(c), line, 'pop_front')
        return ret(None)
    if m == 'pop_back' or m == 'pop':
        need(I_, st, line, cls + ' pop()', cmp('>=', n, I(1)))
        c = fold_elems(I_, st, o, c)
        gone(st, o, line, lambda x: x == addc(n, -1))
        cwrite(I_, st, o, cpop_back(c), line, 'pop_back')
        return ret(None)
    if m == 'insert' and A and A[0][0] == 'it' and A[0][2] == 'end':
        if len(A) == 2:
            cwrite(I_, st, o, cpush_back(c, elem_arg(I_, st, args[1], vt)), line, 'push_back')
            return ret(('it', o, 'idx', n))
        if len(A) == 3 and A[1][0] == 'it':
            r = range_value(I_, st, A[1], A[2])
            if r is not None:
                cwrite(I_, st, o, ccat(c, cval(r)), line, 'insert')
                return ret(A[0])
    if m == 'insert' and A and A[0][0] == 'it' and A[0][2] == 'begin' and len(A) == 2:
        c = fold_elems(I_, st, o, c)
        cwrite(I_, st, o, ('c', 'push_front', c, elem_arg(I_, st, args[1], vt)), line, 'push_front')
        return ret(('it', o, 'begin', None))
    if m == 'assign' and len(A) == 2 and A[0][0] == 'it':
        r = range_value(I_, st, A[0], A[1])
        if r is not None:
            I_.write(st, o, cval(r), line)
            return ret(None)
    if m == 'erase' and A and A[0][0] == 'it' and A[0][2] == 'begin' and len(A) == 1:
        need(I_, st, line, cls + ' erase(begin())', cmp('>=', n, I(1)))
        c = fold_elems(I_, st, o, c)
        gone(st, o, line, lambda x: x == I(0), 1)
        cwrite(I_, st, o, cpop_front(c), line, 'pop_front')
        return ret(('it', o, 'begin', None))
    if m == 'resize':
        st.imprecise += (('resize', line),)
    st.imprecise += (('container', cls + '::' + m, line),)
    if not e.get('const'):
        I_.write(st, o, ('c', 'sym', ('sym', (m, line), ot)), line, op=m)
    return ret(I_.sym(('cont', m, line), e.get('t', '?')))


def elem_arg(I_, st, a, vt):
    if a[0] == 'loc':
        r = I_.rec(vt)
        if r is not None:
            return I_.snapshot(st, a[1], r)
        return I_.readcopy(st, a[1], vt)
    return a


def emplaced(I_, st, vt, args, A):
    r = I_.rec(vt)
    if len(A) == 1 and (r is None or A[0][0] == 'obj' and A[0][1] == r['key']):
        if vt == 'std::string':
            return tostr(A[0])
        return elem_arg(I_, st, args[0], vt)
    if r is not None:
        out = make_object(I_, st, vt, args, ('t', 0, 'emplace'))
        if out is not None and len(out) == 1:
            s2, loc = out[0]
            v = I_.snapshot(s2, loc, r)
            I_.drop_sub(s2, loc)
            return v
    st.imprecise += (('emplace', vt),)
    return I_.sym(('emplaced',) + tuple(A), vt)


def ctor_for(I_, t, args, A):
    fs = [f for f in I_.P.funcs.values() if f['kind'] == 'ctor' and f.get('cls') == strip(t) and f['has'] and not f.get('implicit')
          and len(f['params']) >= len(args) and all('d' in p for p in f['params'][len(args):])]
    if len(fs) > 1:
        def score(f):
            sc = 0
            for p, a in zip(f['params'], A):
                pt = strip(p['t'])
                if a[0] == 's':
                    sc += pt == 'std::string'
                elif a[0] in ('ptr', 'null'):
                    sc += pt.endswith('*')
                elif a[0] == 'lam':
                    sc += 'function' in pt
                elif is_num(a) or a[0] in ('le0', 'eq0', 'i'):
                    sc += is_int(pt)
                elif a[0] == 'sym':
                    sc += pt == strip(a[2])
            return sc
        fs.sort(key=lambda f: (score(f), -len(f['params'])), reverse=True)
    return fs[0] if fs else None


def make_object(I_, st, t, args, loc):
    """-> [(st, loc)] or None if no constructor is known"""
    A = [V(I_, st, a) for a in args]
    f = ctor_for(I_, t, args, A)
    if f is None:
        if not args and I_.is_container(strip(t)):
            st.env[loc] = ('c', 'empty')
            return [(st, loc)]
        return None
    vals = list(args)
    for p in f['params'][len(args):]:
        if p.get('d') is None:
            vals.append(I_.sym(('dflt', p['n']), p['t']))
        else:
            vs = I_.rval(p['d'], st)
            st = vs[0][0]
            vals.append(vs[0][1])
    res = []
    for s2, k, v in I_.call_fn(f, loc, vals, st, None):
        res.append((s2, loc))
    return res


def mapop(I_, e, st, m, o, args, c, A, vt, line, sett):
    k = A[0] if A else None
    if k is not None and k[0] != 'it' and k[0] not in ('pair', 'tuple'):
        ktyp = key_type(strip(e.get('ot', '?')))
        if ktyp == 'std::string':
            k = tostr(k)
    if m in ('find', 'count', 'contains'):
        I_.touch(st, 'rd', o, line)
        res = []
        for x, y in fork_has(I_, st, c, k, line):
            if m == 'find':
                res.append((x, ('it', o, 'key', k) if y else ('it', o, 'end', None)))
            else:
                res.append((x, I(1 if y else 0)))
        return res
    if m in ('lower_bound', 'upper_bound') and len(A) == 1 and key_type(strip(e.get('ot', '?'))) in RANGES or m == 'lower_bound' and len(A) == 1 and key_type(strip(e.get('ot', '?'))) == 'std::string':
        # the element at that key, another one behind it, or none
        I_.touch(st, 'rd', o, line)
        kt = key_type(strip(e.get('ot', '?')))
        res = []
        for x, y in (fork_has(I_, st, c, k, line) if m == 'lower_bound' else [(st, False)]):
            if y:
                res.append((x, ('it', o, 'key', k)))
                continue
            k2 = I_.sym(('behind', c, k, line), kt)
            for z, more in x.fork(('op', 'behind', 'bool', c, k), line):
                if not more:
                    res.append((z, ('it', o, 'end', None)))
                    continue
                far = cmp('>', k2, k) if kt in RANGES else negate(eqcond(I_, z, k2, k))
                if z.F.assume(('op', 'has', 'bool', c, k2), True) is not False and z.F.assume(far, True) is not False:
                    res.append((z, ('it', o, 'key', k2)))
        return res
    if m == 'at':
        I_.touch(st, 'rd', o, line)
        res = []
        for x, y in fork_has(I_, st, c, k, line):
            res.append((x, ('loc', ('e', o, k))) if y else throw(x, 'std::out_of_range', line))
        return res
    if m == 'operator[]':
        I_.touch(st, 'rd', o, line)
        res = []
        for x, y in fork_has(I_, st, c, k, line):
            if not y:
                x.event('autoins', line, o, k)
                map_put(I_, x, o, c, k, default_of(I_, vt), line)
            res.append((x, ('loc', ('e', o, k))))
        return res
    if m in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
        kv = None
        if m == 'insert' and A and A[0][0] == 'pair':
            kv = (A[0][1], A[0][2])
        elif m == 'insert' and sett and len(A) == 1:
            kv = (k, k)
        elif len(A) == 2 and A[0][0] != 'it':
            v = elem_arg(I_, st, args[1], vt)
            if vt == 'std::string':
                v = tostr(v)
            kv = (k, v)
        if kv is not None:
            kk, vv = kv
            if key_type(strip(e.get('ot', '?'))) == 'std::string':
                kk = tostr(kk)
            res = []
            for x, y in fork_has(I_, st, c, kk, line):
                if not y:
                    map_put(I_, x, o, c, kk, vv, line)
                elif m == 'insert_or_assign':
                    I_.write(x, ('e', o, kk), vv, line)
                res.append((x, ('pair', ('it', o, 'key', kk), I(0 if y else 1))))
            return res
    if m == 'erase':
        if k[0] == 'it' and len(A) == 2 and A[1][0] == 'it' and not e.get('const'):
            if k[2] == 'key' and A[1] == ('it', o, 'L', ('op', 'next', 'iterator', k)):
                map_del(I_, st, o, c, k[3], line)
                return [(st, A[1])]
            if k[2] == 'begin' and A[1][2] == 'end':
                cwrite(I_, st, o, ('c', 'empty'), line, 'clear')
                return [(st, A[1])]
            st.imprecise += (('map', m, line),)
            I_.write(st, o, ('c', 'sym', ('sym', ('erange', k, A[1], line), strip(e.get('ot', '?')))), line, op=m)
            return [(st, A[1])]
        if k[0] == 'it':
            if k[2] == 'key' and len(A) == 1:
                map_del(I_, st, o, c, k[3], line)
                return [(st, ('it', o, 'L', ('op', 'next', 'iterator', k)))]
            if k[2] == 'end':
                need(I_, st, line, 'map erase(end())', FALSE)
            if k[2] == 'begin' and len(A) == 1:
                need(I_, st, line, 'map erase(begin())', cmp('>=', clen(c), I(1)))
                kk = I_.sym(('firstkey', o, line), key_type(strip(e.get('ot', '?'))))
                map_del(I_, st, o, c, kk, line)
                return [(st, ('it', o, 'begin', None))]
        else:
            res = []
            for x, y in fork_has(I_, st, c, k, line):
                if y:
                    map_del(I_, x, o, c, k, line)
                res.append((x, I(1 if y else 0)))
            return res
    st.imprecise += (('map', m, line),)
    if not e.get('const'):
        I_.write(st, o, ('c', 'sym', ('sym', (m, line), strip(e.get('ot', '?')))), line, op=m)
    return [(st, I_.sym(('map', m, line), e.get('t', '?')))]


def map_put(I_, st, o, c, k, v, line):
    cwrite(I_, st, o, ('c', 'ins', c, k), line, 'ins')
    I_.write_init(st, ('e', o, k), v)


def gone(st, o, line, pred, shift=0):
    """references to elements that are removed lead nowhere from here; those to later ones follow their element"""
    b = st.env.get(o)
    if b is not None and b[0] == 'ref':
        o = b[1]

    def go(l):
        if l[0] == 'e' and l[1] == o:
            if pred is None or pred(l[2]):
                return ('gone', l, line)
            if shift and is_num(l[2]):
                return ('e', o, addc(l[2], -shift))
            return l
        if l[0] in ('e', 'f', 'pf') and isinstance(l[1], tuple):
            r = go(l[1])
            return l if r is l[1] else r if r[0] == 'gone' else (l[0], r) + l[2:]
        return l
    for l, v in list(st.env.items()):
        if v[0] == 'ref' and isinstance(v[1], tuple) and l[0] == 'v':
            r = go(v[1])
            if r is not v[1]:
                st.env[l] = ('ref', r)


def map_del(I_, st, o, c, k, line):
    gone(st, o, line, lambda x: x == k or eqdec(st, x, k) is True)
    ov = [l for l in st.env if l[0] == 'e' and l[1] == o]
    for l in ov:
        if eqdec(st, l[2], k) is not False:
            I_.drop_sub(st, l)
            st.env.pop(l, None)
    cwrite(I_, st, o, ('c', 'erase', c, k), line, 'erase')


def default_of(I_, vt):
    return I_.zero(vt)


# ---- streams
def ssread(I_, st, o):
    v = I_.read(st, o, 'std::stringstream')
    if v[0] != 'ss':
        v = ('ss', (('w', v),), FMT0)
    return v


def ssput(I_, st, o, v, pieces, fmt, line):
    nv = ('ss', norm_pieces(v[1] + tuple(pieces)), fset(fmt, width=I(0)))
    I_.write(st, o, nv, line, op='<<')
    return [(st, ('loc', o))]


def stream_out(I_, st, o, kind, val, line, t=None):
    v = ssread(I_, st, o)
    f = v[2]
    if kind == 'manip':
        if val[0] == 'manip':
            nv = ('ss', v[1], fset(f, **{val[1]: val[2]}))
            I_.write(st, o, nv, line, op='<<')
            return [(st, ('loc', o))]
        if val[0] == 'fnref':
            n = (val[2] or '').split('::')[-1]
            if n == 'endl':
                return ssput(I_, st, o, v, (('lit', '\n'),), f, line)
            if n in ('flush', 'ends'):
                return [(st, ('loc', o))]
            I_.write(st, o, ('ss', v[1], manip(f, val[2] or '')), line, op='<<')
            return [(st, ('loc', o))]
        st.imprecise += (('manip', line),)
        return [(st, ('loc', o))]
    st.event('out', line, o, kind, val)
    return ssput(I_, st, o, v, out_pieces(f, kind, val), f, line)


def out_kind(t):
    b = strip(t)
    if b in ('char', 'signed char', 'unsigned char'):
        return 'chr'
    if b in ('int', 'long', 'short', 'long long'):
        return 'int'
    if b in ('unsigned int', 'unsigned long', 'unsigned short', 'unsigned long long', 'bool'):
        return 'uint'
    if b in ('double', 'float', 'long double'):
        return 'flt'
    if 'char *' in b or b.startswith('std::string') or 'char[' in b or b.startswith('char['):
        return 'str'
    if '(*)' in b or b.startswith('std::_Set') or '(&)' in b:
        return 'manip'
    return None


def streamop(I_, e, st, m, o, args):
    line = e.get('l')
    A = [V(I_, st, a) for a in args]
    pt = e.get('pt', [])
    if m == 'operator<<':
        k = out_kind(pt[0])
        if k == 'str':
            A[0] = tostr(A[0])
        if k is None:
            st.imprecise += (('<<', pt[0], line),)
            return [(st, ('loc', o))]
        if k == 'uint' and A[0][0] in ('le0', 'eq0', 'eqt', 'not', 'fcmp'):
            res = []
            for x, y in I_.boolint(st, A[0]):
                res += stream_out(I_, x, o, k, y, line)
            return res
        return stream_out(I_, st, o, k, A[0], line)
    if m == 'operator>>':
        return stream_in(I_, st, o, args[0], strip(pt[0]), line)
    v = ssread(I_, st, o)
    f = v[2]
    if m == 'str':
        if A:
            I_.write(st, o, ('ss', tostr(A[0])[1], f), line)
            return [(st, None)]
        return [(st, ('s', v[1]))]
    if m in ('setf', 'unsetf', 'flags'):
        if A and A[0][0] == 'i':
            bits = A[0][1]
            nf = f
            if m == 'setf' and len(A) == 2 and A[1][0] == 'i':
                nf = set_flags(nf, A[1][1], False)
                bits &= A[1][1]
            if m == 'flags':
                nf = fset(nf, adj='none', base='dec', flt='gen', upper=0, showbase=0, showpos=0)
            nf = set_flags(nf, bits, m != 'unsetf')
            I_.write(st, o, ('ss', v[1], nf), line)
            return [(st, I_.sym(('flags', line), e.get('t', '?')))]
    if m == 'width' and A:
        I_.write(st, o, ('ss', v[1], fset(f, width=A[0])), line)
        return [(st, fget(f, 'width'))]
    if m == 'fill' and A:
        I_.write(st, o, ('ss', v[1], fset(f, fill=A[0])), line)
        return [(st, fget(f, 'fill'))]
    if m == 'precision' and A:
        I_.write(st, o, ('ss', v[1], fset(f, prec=A[0])), line)
        return [(st, fget(f, 'prec'))]
    if m == 'width':
        return [(st, fget(f, 'width'))]
    if m == 'precision':
        return [(st, fget(f, 'prec'))]
    if m == 'put':
        return ssput(I_, st, o, v, (('chr', A[0]),), f, line)
    if m == 'write' and len(A) == 2 and A[0][0] == 's':
        return ssput(I_, st, o, v, substr(A[0], I(0), A[1])[1], f, line)
    rd = fget(f, 'rd')
    failed = any(not ok for _, ok in rd)
    if m in ('fail', 'operator!'):
        return [(st, I(1 if failed else 0))]
    if m in ('operator bool',):
        return [(st, I(0 if failed else 1))]
    if m == 'good':
        if failed:
            return [(st, FALSE)]
        return [(s, I(0 if b else 1)) for s, b in st.fork(('op', 'eof', 'bool', ('s', v[1]), rd), line)] if rd else [(st, TRUE)]
    if m == 'bad':
        return [(st, FALSE)]
    if m == 'eof':
        if not rd:
            return [(st, FALSE)]
        return [(st, ('op', 'eof', 'bool', ('s', v[1]), rd))]
    if m == 'clear':
        I_.write(st, o, ('ss', v[1], fset(f, rd=tuple((t, True) for t, _ in rd))), line)
        return [(st, None)]
    if m in ('peek', 'get') and not A:
        return [(st, ('op', m, 'int', ('s', v[1]), rd))]
    if m in ('flush',):
        return [(st, ('loc', o))]
    if m == 'operator=':
        I_.write(st, o, A[0], line)
        return [(st, ('loc', o))]
    st.imprecise += (('stream', m, line),)
    return [(st, I_.sym(('stream', m, line), e.get('t', '?')))]


def stream_in(I_, st, o, a, t, line):
    v = ssread(I_, st, o)
    f = v[2]
    if t.startswith('std::ios_base') or '(*)' in t:
        if a[0] == 'fnref' and v[0] == 'ss':
            n = (a[2] or '').split('::')[-1]
            nf = fset(f, skip=1) if n == 'noskipws' else fset(f, skip=0) if n == 'skipws' else manip(f, a[2] or '')
            I_.write(st, o, ('ss', v[1], nf), line, op='>>')
        return [(st, ('loc', o))]
    if v[0] == 'ss' and fget(f, 'base') != 'dec' and is_int(t) and 'char' not in t:
        t += '/' + fget(f, 'base')
    if v[0] == 'ss' and fget(f, 'skip'):
        t += '/noskipws'
    rd = fget(f, 'rd')
    src = ('s', v[1])
    loc = a[1] if a[0] == 'loc' else I_.to_temp(st, a)
    res = []
    if any(not ok for _, ok in rd):
        st.event('in', line, o, loc, t, False)
        return [(st, ('loc', o))]
    for x, ok in st.fork(('op', 'parses', 'bool', src, rd, t), line):
        nv = ('ss', v[1], fset(f, rd=rd + ((t, ok),)))
        I_.write(x, o, nv, line, op='>>')
        if ok:
            val = ('op', 'parse', t, src, rd)
            if t == 'std::string':
                val = ('s', (('w', val),))
        elif t == 'std::string':
            val = I_.sym(('failval', src, rd, t), t)
        else:
            val = I_.sym(('failval', src, rd, t), t)
        I_.write(x, loc, val, line, op='>>')
        x.event('in', line, o, loc, t, ok)
        res.append((x, ('loc', o)))
    return res


# ---- condition variables
def condvar(I_, e, st, m, o, args):
    line = e.get('l')
    if m in ('notify_all', 'notify_one'):
        st.event('notify', line, m[7:], o, st.locks)
        return [(st, None)]
    if m not in ('wait', 'wait_for', 'wait_until'):
        st.imprecise += (('condvar', m, line),)
        return [(st, I_.sym(('cv', m, line), e.get('t', '?')))]
    lk = I_.read(st, args[0][1], '?') if args and args[0][0] == 'loc' else None
    mtx = lk[1] if lk is not None and lk[0] == 'guard' else None
    dur = None
    rest = list(args[1:])
    if m != 'wait':
        dur = V(I_, st, rest.pop(0))
    pred = None
    if rest:
        pred = V(I_, st, rest[0])
    res = []

    def truthy(s, v):
        return I_.fork_val(s, v, line)

    def waited(s):
        s.event('wait', line, m, dur, pred is not None, s.locks, mtx, o)
        I_.havoc_shared(s, 'wait')
        return s
    if pred is None:
        s = waited(st)
        if m == 'wait':
            return [(s, None)]
        s2 = s.copy()
        s.event('woke', line, 'timeout')
        s2.event('woke', line, 'no_timeout')
        return [(s, I(1)), (s2, I(0))]
    first = []
    for s, v in I_.call_lambda(pred, [], st.copy(), e):
        for s2, b in truthy(s, v):
            first.append((s2, b))
    for s, b in first:
        if b:
            s.event('woke', line, 'pred-at-once')
            res.append((s, TRUE if m != 'wait' else None))
            continue
        s = waited(s)
        for s3, v in I_.call_lambda(pred, [], s, e):
            for s4, b2 in truthy(s3, v):
                if b2:
                    s4.event('woke', line, 'pred')
                    res.append((s4, TRUE if m != 'wait' else None))
                elif m != 'wait':
                    s4.event('woke', line, 'timeout')
                    res.append((s4, FALSE))
    return res


# ---- yaml-cpp
YK = {'IsNull': 1, 'IsScalar': 2, 'IsSequence': 3, 'IsMap': 4}


def ykind(v):
    return ('op', 'ykind', 'unsigned char', v)


def yaml(I_, e, st, qn, m, o, args):
    line = e.get('l')
    t = e.get('t', '?')
    if m in ('LoadFile', 'Load', 'LoadAll'):
        a = V(I_, st, args[0])
        res = []
        for x in ('YAML::BadFile', 'YAML::ParserException'):
            res.append(throw(st.copy(), x, line))
        st.event('yload', line, m, a)
        return res + [(st, ('sym', ('yload', a), 'YAML::Node'))]
    v = I_.read(st, o, 'YAML::Node') if o is not None else None
    cls = e.get('cls') or ''
    if 'iterator' in cls:
        if m == 'operator->' and v is not None and v[0] == 'ptr':
            return [(st, v)]
        if m == 'operator*' and v[0] == 'it':
            return [(st, ('loc', ('e', v[1], ('op', 'ix', 'unsigned long', ('pos', v[3]) if v[2] != 'begin' else ('first',)))))]
        if m == 'operator->' and v[0] == 'it':
            return [(st, ('ptr', ('e', v[1], ('op', 'ix', 'unsigned long', ('pos', v[3]) if v[2] != 'begin' else ('first',)))))]
        if m in ('operator==', 'operator!=') and v[0] == 'it':
            c = it_eq(I_, st, v, V(I_, st, args[0]), line)
            return [(st, c if m == 'operator==' else negate(c))]
        if m == 'operator++' and v[0] == 'it':
            I_.write(st, o, it_step(I_, st, v, 1), line)
            return [(st, v if args else ('loc', o))]
    if v is not None:
        if m in YK:
            c = eq0(addc(ykind(v), -YK[m]))
            st.F._assume(cmp('<=', ykind(v), I(4)), True)
            return [(st, c)]
        if m == 'Type':
            st.F._assume(cmp('<=', ykind(v), I(4)), True)
            return [(st, ykind(v))]
        if m == 'IsDefined':
            return [(st, negate(eq0(ykind(v))))]
        if m == 'as':
            tt = strip(t)
            val = ('op', 'yas', tt, v)
            if tt == 'std::string':
                val = ('s', (('w', val),))
            ok = st.F.decide(eq0(addc(ykind(v), -2)))
            if ok is True and tt == 'std::string':
                return [(st, val)]
            s2 = st.copy()
            return [throw(s2, 'YAML::BadConversion', line), (st, val)]
        if m == 'Scalar':
            return [(st, ('s', (('w', ('op', 'yas', 'std::string', v)),)))]
        if m in ('begin', 'end'):
            return [(st, ('it', o, m, None))]
        if m == 'size':
            return [(st, clen(cval(v)))]
        if m == 'operator=':
            I_.write(st, o, V(I_, st, args[0]), line)
            return [(st, ('loc', o))]
        if m == 'operator[]':
            k = V(I_, st, args[0])
            return [(st, I_.sym(('yidx', v, k), 'YAML::Node'))]
    st.imprecise += (('yaml', m, line),)
    s2 = st.copy()
    return [throw(s2, 'YAML::Exception', line), (st, I_.sym(('yaml', m, line, v), t))]


# ---- free functions and operators
def cmpop(m):
    return {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}.get(m)


def fdec(x):
    """look through sign for nan/inf tests"""
    while x[0] == 'fop' and x[1] in ('neg', 'fabs'):
        x = x[2]
    return x


def freefn(I_, e, st, qn, m, o, args):
    line = e.get('l')
    pt = e.get('pt', [])
    A = [V(I_, st, a) for a in args]
    t = e.get('t', '?')
    base = qn.split('::')[-1]

    if m == 'operator<<' and args and 'stream' in (pt[0] if pt else ''):
        sl = args[0][1] if args[0][0] == 'loc' else I_.to_temp(st, A[0])
        k = out_kind(pt[1])
        if k is None:
            st.imprecise += (('<<', pt[1], line),)
            return [(st, ('loc', sl))]
        v = A[1]
        if k == 'str':
            v = tostr(v)
        return stream_out(I_, st, sl, k, v, line)
    if m == 'operator>>' and pt and 'stream' in pt[0]:
        return stream_in(I_, st, args[0][1], args[1], strip(pt[1]), line)
    if base == 'getline' and len(args) >= 2:
        return stream_in(I_, st, args[0][1], args[1], 'std::string', line) if False else getline(I_, st, args, A, line)
    if base in ('setw', 'setfill', 'setprecision'):
        return [(st, ('manip', {'setw': 'width', 'setfill': 'fill', 'setprecision': 'prec'}[base], A[0]))]
    if m == 'operator+' and len(A) == 2 and strip(t) == 'std::string':
        def piece(p, v):
            if strip(p) == 'char':
                return S(('chr', v))
            return tostr(v)
        return [(st, scat(piece(pt[0], A[0]), piece(pt[1], A[1])))]
    if m in ('operator|', 'operator&', 'operator~', 'operator^') and all(a[0] == 'i' for a in A):
        f = {'operator|': lambda x, y: x | y, 'operator&': lambda x, y: x & y, 'operator^': lambda x, y: x ^ y, 'operator~': lambda x: ~x}[m]
        return [(st, I(f(*[a[1] for a in A])))]
    op = cmpop(m)
    if op and len(A) == 2:
        a, b = A
        if a[0] == 'it' or b[0] == 'it':
            if op in ('==', '!='):
                c = it_eq(I_, st, a, b, line)
                return [(st, c if op == '==' else negate(c))]
        if a[0] == 'dur' or b[0] == 'dur' or 'duration' in ' '.join(pt):
            return [(st, dur_cmp(I_, st, op, a, b, pt))]
        if 'string' in ' '.join(pt) or 'char *' in ' '.join(pt):
            a, b = tostr(a), tostr(b)
            if op in ('==', '!='):
                c = I_.eqterm(st, a, b)
                return [(st, c if op == '==' else negate(c))]
            return [(st, ('op', 'scmp' + op, 'bool', a, b))]
        if op in ('==', '!='):
            c = I_.eqterm(st, a, b)
            return [(st, c if op == '==' else negate(c))]
    if base in ('move', 'forward', 'ref', 'cref', 'addressof', 'as_const') and len(args) == 1:
        if base == 'addressof':
            return [(st, ('ptr', args[0][1]) if args[0][0] == 'loc' else NULL)]
        return [(st, args[0])]
    if base in ('make_shared', 'make_unique', 'allocate_shared'):
        tt = (e.get('ta') or [None])[0]
        if tt is None:
            mm = re.match(r'std::(?:shared|unique)_ptr<(.*)>$', strip(t))
            tt = mm.group(1) if mm else '?'
        mm = re.match(r'std::(?:shared|unique)_ptr<(.*)>$', strip(t))
        if mm:
            tt = mm.group(1)
        site = ('h', line, st.cnt.get(('new', line), 0))
        st.cnt[('new', line)] = site[2] + 1
        st.cnt[('type', site)] = strip(tt)
        st.event('new', line, site, tt)
        st.event('make', line, site, strip(tt), tuple(A))
        out = make_object(I_, st, tt, args, site)
        if out is None:
            st.imprecise += (('make_shared', tt, line),)
            return [(st, ('ptr', site))]
        return [(s, ('ptr', l) if not s.exc else ('throw',)) for s, l in out]
    if base in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast'):
        mm = re.match(r'std::shared_ptr<(.*)>$', strip(t))
        tt = mm.group(1) if mm else t
        if base == 'static_pointer_cast':
            st.event('static_cast', line, A[0], tt)
            return [(st, A[0])]
        if base == 'const_pointer_cast':
            return [(st, A[0])]
        res = []
        for x, isn in st.fork(I_.eqterm(st, A[0], NULL), line):
            if isn:
                res.append((x, NULL))
                continue
            for y, ok in x.fork(('op', 'isa', 'bool', A[0], strip(tt)), line):
                res.append((y, A[0] if ok else NULL))
        return res
    if base in ('isdigit',):
        return chartest(I_, st, A[0], [(48, 57)], line)
    if base in CTYPE and len(A) == 1:
        if A[0][0] == 'i':
            return [(st, I(1 if CTYPE[base](A[0][1] & 255 if A[0][1] >= 0 else A[0][1]) else 0))]
        return [(s, I(1 if b else 0)) for s, b in st.fork(('op', base, 'bool', A[0]), line)]
    if base in ('toupper', 'tolower') and len(A) == 1:
        if A[0][0] == 'i':
            c = A[0][1]
            if 0 <= c < 128:
                c = ord(chr(c).upper() if base == 'toupper' else chr(c).lower())
            return [(st, I(c))]
        return [(st, ('op', base, 'int', A[0]))]
    if base in ('isnan', '__isnan', 'isinf', '__isinf', 'isfinite', 'signbit', 'isnormal') and len(A) == 1:
        x = fdec(A[0])
        if x[0] == 'fl':
            r = {'isnan': math.isnan, 'isinf': math.isinf, 'isfinite': math.isfinite}.get(base.lstrip('_'))
            if r:
                return [(st, I(1 if r(x[1]) else 0))]
        b = base.lstrip('_')
        if b in ('isnan', 'isinf'):
            return [(s, I(1 if y else 0)) for s, y in st.fork(('op', b, 'bool', x), line)]
        if b == 'isfinite':
            res = []
            for s, y in st.fork(('op', 'isnan', 'bool', x), line):
                if y:
                    res.append((s, FALSE))
                else:
                    res += [(s2, I(0 if z else 1)) for s2, z in s.fork(('op', 'isinf', 'bool', x), line)]
            return res
        if b == 'signbit':
            return [(st, ('fcmp', '<', A[0], ('fl', 0.0)))]
    if base in ('fabs', 'abs', 'fabsf', 'floor', 'trunc', 'ceil', 'round', 'log10', 'log', 'exp', 'sqrt', 'log2', 'rint', 'nearbyint') and len(A) == 1:
        a = A[0]
        if is_int(t):
            res = []
            for s, neg in st.fork(cmp('<', a, I(0)), line):
                if neg:
                    I_.negated(s, line, a, t)
                res.append((s, mulc(a, -1) if neg else a))
            return res
        op = {'abs': 'fabs'}.get(base, base)
        if a[0] == 'fl':
            try:
                r = {'fabs': abs, 'floor': math.floor, 'trunc': math.trunc, 'ceil': math.ceil, 'log10': math.log10, 'log': math.log, 'exp': math.exp, 'sqrt': math.sqrt, 'log2': math.log2}[op](a[1])
                return [(st, ('fl', float(r)))]
            except (KeyError, ValueError, OverflowError):
                pass
        return [(st, ('fop', op, a))]
    if base == 'modf' and len(A) == 2:
        if A[1][0] == 'ptr':
            I_.write(st, A[1][1], ('fop', 'trunc', A[0]), line)
        elif A[1][0] != 'null':
            I_.write(st, ('d', A[1]), ('fop', 'trunc', A[0]), line)
        return [(st, ('fop', 'frac', A[0]))]
    if base in ('pow', 'fmod', 'fmax', 'fmin', 'atan2', 'ldexp') and len(A) == 2:
        a, b = [(('fl', float(x[1])) if x[0] == 'i' else x) for x in A]
        if a[0] == 'fl' and b[0] == 'fl' and base == 'pow':
            try:
                return [(st, ('fl', math.pow(a[1], b[1])))]
            except (OverflowError, ValueError):
                pass
        return [(st, ('fop', base, a, b))]
    if base in ('min', 'max') and len(A) == 2:
        flt = is_float(t)
        res = []
        a, b = args
        c = I_.compare(st, '<', A[1], A[0], t) if base == 'min' else I_.compare(st, '<', A[0], A[1], t)
        for s, y in I_.fork_val(st, c, line):
            res.append((s, b if y else a))
        return res
    if base == 'to_string' and len(A) == 1:
        k = out_kind(pt[0])
        if k == 'flt':
            return [(st, S(('fmt', 'flt', A[0], I(0), I(32), 'none', 'fixed', I(6), 0, 0)))]
        return [(st, ('s', norm_pieces(out_pieces(FMT0, k or 'int', A[0]))))]
    if base == 'swap' and len(args) == 2 and args[0][0] == 'loc' and args[1][0] == 'loc':
        a, b = A
        I_.write(st, args[0][1], b, line)
        I_.write(st, args[1][1], a, line)
        return [(st, None)]
    if base == 'reverse' and len(A) == 2 and A[0][0] == 'it':
        v = range_value(I_, st, A[0], A[1])
        if v is not None:
            I_.write(st, A[0][1], srev(v) if v[0] == 's' else ('c', 'rev', cval(v)), line)
            return [(st, None)]
    if base == 'replace' and len(A) == 4 and A[0][0] == 'it':
        v = range_value(I_, st, A[0], A[1])
        if v is not None and v[0] == 's':
            I_.write(st, A[0][1], srepl(v, A[2], A[3]), line)
            return [(st, None)]
    if base == 'transform' and len(A) == 4 and A[0][0] == 'it':
        v = range_value(I_, st, A[0], A[1])
        if v is not None and v[0] == 's' and A[2][0] == 'it' and A[2][1] == A[0][1]:
            ch = ('sym', ('tch',), 'char')
            outs = I_.call_lambda(A[3], [ch], st.copy(), e)
            if len(outs) == 1 and outs[0][1] is not None:
                I_.write(st, A[0][1], ('s', (('mapf', v, outs[0][1]),)), line)
                return [(st, A[2])]
    if base == 'for_each' and len(A) == 3:
        return algo_loop(I_, e, st, A, lambda s, el: [(x, None) for x, v in I_.call_lambda(A[2], [el], s, e)], None)
    if base in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find', 'count', 'accumulate', 'copy', 'copy_if'):
        return algorithm(I_, e, st, base, args, A, t, line)
    if base == 'distance' and len(A) == 2:
        v = range_value(I_, st, A[0], A[1])
        if v is not None:
            return [(st, clen(cval(v)))]
    if base in ('next', 'prev') and A and A[0][0] == 'it':
        n = A[1] if len(A) > 1 else I(1)
        if n[0] == 'i':
            return [(st, it_step(I_, st, A[0], n[1] if base == 'next' else -n[1]))]
    if base in ('begin', 'end', 'cbegin', 'cend') and len(args) == 1 and args[0][0] == 'loc':
        return [(st, ('it', args[0][1], base.lstrip('c'), None))]
    if base in ('back_inserter', 'inserter') and args[0][0] == 'loc':
        return [(st, ('binsert', args[0][1]))]
    if base == 'make_pair' and len(A) == 2:
        return [(st, ('pair', A[0], A[1]))]
    if base == 'duration_cast':
        return [(st, to_dur(A[0], t))]
    if base in ('__cxa_demangle',):
        r = ('s', (('w', ('op', 'demangle', 'std::string', A[0])),))
        st.event('xalloc', line, r, base)
        return [(st, r)]
    if base in ('free', 'cfree'):
        st.event('xfree', line, A[0])
        return [(st, None)]
    if base in ('stoi', 'stol', 'stoul', 'stoll', 'stoull', 'stod', 'stof'):
        res = [throw(st.copy(), 'std::invalid_argument', line), throw(st.copy(), 'std::out_of_range', line)]
        return res + [(st, ('op', base, strip(t), tostr(A[0])))]
    if base in ('atoi', 'atol', 'strtol', 'strtoul', 'strtod', 'atof'):
        return [(st, ('op', base, strip(t), tostr(A[0])))]
    if base in ('strlen',):
        return [(st, slen(tostr(A[0])))]
    if base in ('strcmp',) and len(A) == 2:
        res = []
        for x, eq in st.fork(I_.eqterm(st, tostr(A[0]), tostr(A[1])), line):
            if eq:
                res.append((x, I(0)))
            else:
                tt = ('op', 'compare', 'int', tostr(A[0]), tostr(A[1]))
                x.F.assume(eq0(tt), False)
                res.append((x, tt))
        return res
    if m in ('operator*', 'operator+', 'operator-', 'operator/') and 'duration' in strip(t):
        a, b = A
        if m == 'operator*' and a[0] == 'dur' and b[0] == 'i':
            return [(st, ('dur', mulc(a[1], b[1]), a[2], a[3]))]
        if m == 'operator*' and b[0] == 'dur' and a[0] == 'i':
            return [(st, ('dur', mulc(b[1], a[1]), b[2], b[3]))]
        if m == 'operator+' and a[0] == 'dur' and b[0] == 'dur' and a[2:] == b[2:]:
            return [(st, ('dur', add(a[1], b[1]), a[2], a[3]))]
        return [(st, ('sym', ('dexp', m, a, b), strip(t)))]
    if m in ('operator+', 'operator-') and 'time_point' in strip(t):
        return [(st, ('sym', ('tp', m) + tuple(A), strip(t)))]
    if base == 'now' and 'clock' in qn:
        n = st.cnt.get('now', 0)
        st.cnt['now'] = n + 1
        return [(st, ('sym', ('now', n), strip(t)))]
    if base in ('__builtin_expect',):
        return [(st, A[0])]
    st.imprecise += (('call', qn, line),)
    st.event('xcall', line, qn, tuple(A))
    for p, a in zip(pt, args):
        if a[0] == 'loc' and p.strip().endswith('&') and not p.strip().startswith('const '):
            I_.havoc(st, a[1], strip(p), ('xcall', qn, line))
    if t == 'void':
        return [(st, None)]
    if e.get('lv'):
        return [(st, ('loc', ('d', ('sym', ('xres', qn, line), t))))]
    return [(st, I_.sym(('xres', qn, line) + tuple(A), t))]


def getline(I_, st, args, A, line):
    sl = args[0][1]
    v = ssread(I_, st, sl)
    f = v[2]
    rd = fget(f, 'rd')
    src = ('s', v[1])
    delim = A[2] if len(A) > 2 else I(10)
    kind = ('getline', delim)
    res = []
    for x, ok in st.fork(('op', 'parses', 'bool', src, rd, kind), line):
        I_.write(x, sl, ('ss', v[1], fset(f, rd=rd + ((kind, ok),))), line)
        I_.write(x, args[1][1], ('s', (('w', ('op', 'parse', 'std::string', src, rd, kind)),)) if ok else EMPTY_S, line)
        res.append((x, ('loc', sl)))
    return res


def srepl(s, a, b):
    if a[0] == 'i' and b[0] == 'i' and lits(s) is not None:
        return slit(lits(s).replace(chr(a[1] & 255), chr(b[1] & 255)))
    if a == b:
        return s
    return ('s', (('repl', s, a, b),))


def dur_cmp(I_, st, op, a, b, pt):
    def norm(v, p):
        n, d = ratio(p)
        if v[0] == 'dur':
            return v[1], v[2], v[3]
        return dcount(v), n, d
    x, n1, d1 = norm(a, pt[0])
    y, n2, d2 = norm(b, pt[1] if len(pt) > 1 else pt[0])
    # common denominator
    return cmp(op, mulc(x, n1 * d2), mulc(y, n2 * d1))


def chartest(I_, st, c, ranges, line):
    if c[0] == 'i':
        return [(st, I(1 if any(a <= c[1] <= b for a, b in ranges) else 0))]
    (a, b), = ranges
    res = []
    for s, lo in st.fork(cmp('>=', c, I(a)), line):
        if not lo:
            res.append((s, FALSE))
            continue
        for s2, hi in s.fork(cmp('<=', c, I(b)), line):
            res.append((s2, I(1 if hi else 0)))
    return res


def call_fnref(I_, st, lam, vals, node):
    qn = lam[2] or ''
    e = {'qn': qn, 'mname': qn.split('::')[-1], 'pt': ['int'] * len(vals), 't': 'int', 'l': node.get('l') if node else None, 'args': []}
    return freefn(I_, e, st, qn, e['mname'], None, vals)


def algo_loop(I_, e, st, A, body, exits_fn):
    """run body(st, elem) for each element between A[0] and A[1] (a whole container)"""
    import absint
    a, b = A[0], A[1]
    if a[0] != 'it' or range_value(I_, st, a, b) is None:
        st.imprecise += (('algorithm', e.get('qn'), e.get('l')),)
        return [(st, I_.sym(('algo', e.get('l')), e.get('t', '?')))]
    cl = a[1]
    I_.lidn += 1
    rec = absint.LoopRec(I_.lidn, {'k': 'algo', 'l': e.get('l')}, I_.stack[-1]['fn']['qn'] if I_.stack and I_.stack[-1]['fn'] else '?')
    rec.kind = 'foreach'
    rec.cloc = cl
    rec.entry = st
    rec.cont = cval(I_.read(st, cl, '?'))
    rec.elem = ('elt', I_.lidn)
    rt = strip(I_.loc_type(cl))
    d = len(I_.stack) - 1
    vl = ('v', d, ('algo', I_.lidn))
    I_.stack[-1]['vars'][('algo', I_.lidn)] = '?'

    def iterate(head):
        if cval(I_.read(head, cl, rt)) in (EMPTY_S, ('c', 'empty')):
            return [], [('cond', head, None)]
        exits = [('cond', head.copy(), None)]
        backs = []
        bind_elem(I_, head, vl, {'t': '?&', 'ref': True}, cl, rec, rt if rt != '?' else 'std::string' if rec.cont[0] == 's' else '?')
        v = head.env[vl]
        for s2, r in body(head, ('loc', v[1]) if v[0] == 'ref' else v):
            if s2.exc:
                exits.append(('throw', s2, None))
            elif r is not None and r[0] == 'brk':
                exits.append(('brk', s2, r[1]))
            else:
                backs.append(s2)
        return backs, exits
    res = []
    for s, k, v in I_.fixpoint(rec, st, iterate, foreach=True):
        s.env.pop(vl, None)
        res.append((s, ('throw',) if s.exc else v))
    return res


def algorithm(I_, e, st, base, args, A, t, line):
    if base == 'copy' and len(A) == 3 and A[2][0] == 'binsert':
        v = range_value(I_, st, A[0], A[1])
        if v is not None:
            c = cread(I_, st, A[2][1], '?')
            if c[0] == 's':
                I_.write(st, A[2][1], scat(c, v), line)
            else:
                cwrite(I_, st, A[2][1], ccat(c, cval(v)), line, 'insert')
            return [(st, A[2])]
    if base in ('any_of', 'all_of', 'none_of', 'find_if') and len(A) == 3:
        def body(s, el):
            out = []
            for x, v in I_.call_lambda(A[2], [el], s, e):
                if x.exc:
                    out.append((x, None))
                    continue
                for y, b in I_.fork_val(x, v, line):
                    hit = b if base in ('any_of', 'none_of', 'find_if') else not b
                    if hit:
                        r = {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}.get(base)
                        if base == 'find_if':
                            r = ('it', A[0][1], 'key', el[1][2]) if el[0] == 'loc' and el[1][0] == 'e' else ('sym', ('fi', line), '?')
                        out.append((y, ('brk', r)))
                    else:
                        out.append((y, None))
            return out
        dflt = {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE, 'find_if': A[1]}[base]
        return [(s, v if v is not None else dflt) for s, v in algo_loop(I_, e, st, A, body, None)]
    if base == 'find' and len(A) == 3 and A[0][0] == 'it':
        v = range_value(I_, st, A[0], A[1])
        if v is not None:
            k = ('op', 'afind', 'unsigned long', cval(v), A[2])
            res = []
            for x, y in st.fork(('op', 'found', 'bool', k), line):
                if y:
                    x.F._assume(cmp('<', k, clen(cval(v))), True)
                    x.F._assume(cmp('>=', k, I(0)), True)
                    res.append((x, ('it', A[0][1], 'idx', k)))
                else:
                    res.append((x, A[1]))
            return res
    if base == 'count' and len(A) == 3:
        v = range_value(I_, st, A[0], A[1])
        if v is not None:
            return [(st, ('op', 'acount', 'long', cval(v), A[2]))]
    st.imprecise += (('algorithm', base, line),)
    st.event('xcall', line, base, tuple(A))
    if A and A[0][0] == 'it' and base not in ('count_if', 'accumulate', 'copy', 'copy_if'):
        I_.havoc(st, A[0][1], '?', ('algo', line))
    if len(A) > 2 and A[2][0] == 'binsert':
        I_.havoc(st, A[2][1], '?', ('algo', line))
    return [(st, I_.sym(('algo', base, line), t))]


# ------------------------------------------------------------------ what may throw (for opaque calls)
def may_throw(node):
    qn = node.get('qn') or ''
    b = qn.split('::')[-1]
    if qn.startswith('YAML::') and b in ('LoadFile', 'Load'):
        return ('YAML::BadFile', 'YAML::ParserException')
    if qn.startswith('YAML::') and b in ('as', 'operator[]'):
        return ('YAML::BadConversion',)
    if b in ('stoi', 'stol', 'stoul', 'stod', 'stof', 'stoll', 'stoull'):
        return ('std::invalid_argument', 'std::out_of_range')
    return ()


# ------------------------------------------------------------------ loop recognition and closed forms
def classify(I_, rec):
    rec.elemval = None
    if rec.kind == 'foreach':
        return
    heads = rec.heads
    if not heads:
        return
    any_head = next(iter(heads.values()))
    entry = rec.entry
    for loc in rec.M:
        v = any_head.env.get(loc)
        if v is None:
            continue
        if v[0] == 'it' and v[2] == 'L':
            ev = entry.env.get(loc)
            if ev is None or ev[0] != 'it' or ev[2] not in ('begin', 'rbegin'):
                continue
            if all(b.env.get(loc) == ('it', v[1], 'step', (v, 1)) for _, h, b, _ in rec.iters):
                rec.kind = 'foreach'
                rec.cloc = v[1]
                rec.cont = I_.read(entry, v[1], '?')
                if rec.cont[0] != 's':
                    rec.cont = cval(rec.cont)
                if ev[2] == 'rbegin':
                    rec.cont = srev(rec.cont) if rec.cont[0] == 's' else ('c', 'rev', rec.cont)
                rec.itvar = loc
                rec.elem = ('pos', v[3])
                return
        if v[0] in ('L', 'i') and (v[0] == 'L' and is_int(v[3])):
            if rec.iters and all(b.env.get(loc) == addc(h.env[loc], 1) for _, h, b, _ in rec.iters):
                ev = entry.env.get(loc)
                for _, kind, s, _ in rec.exits:
                    if kind != 'cond':
                        continue
                    for c, pol, _l in s.F.pc[len(entry.F.pc):]:
                        x = c[1] if c[0] in ('le0', 'eq0') else None
                        if x is None:
                            continue
                        _, d = lin(x)
                        if v in d:
                            others = [a for a in d if a != v]
                            cont = [a[3] for a in others if a[0] == 'op' and a[1] == 'size'] + [('s', (a[3],)) for a in others if a[0] == 'op' and a[1] == 'len']
                            if cont:
                                rec.kind = 'index'
                                rec.cont = cont[0]
                                rec.idx = loc
                                rec.elemkey = v
                                rec.start = ev
                                if ev == I(0):
                                    rec.elem = v
                                rec.cloc = indexed(I_, rec, v)
                                return
                            rec.kind = 'counted'
                            rec.idx = loc
                            rec.elemkey = v
                            rec.start = ev
                            rec.bound = (c, pol)
                            return


def indexed(I_, rec, v):
    """the one container an index variable runs over"""
    found = set()
    for k, h, b, bk in rec.iters:
        def go(t):
            if isinstance(t, tuple):
                if len(t) == 3 and t[0] == 'e' and t[2] == v:
                    found.add(t[1])
                for x in t:
                    go(x)
        for e in b.ev:
            go(e[:4])
        for l in b.env:
            go(l)
    found = [l for l in found if cval(I_.read(rec.entry, l, '?')) == rec.cont or I_.read(rec.entry, l, '?') == rec.cont]
    return found[0] if len(found) == 1 else None


def loop_syms(t, lid, acc):
    if isinstance(t, tuple):
        if len(t) == 4 and t[0] == 'L' and t[1] == lid:
            acc.add(t)
            return
        for x in t:
            loop_syms(x, lid, acc)


def subst(t, m):
    """replace atoms in a linear term"""
    c, d = lin(t)
    r = I(c)
    for a, k in d.items():
        r = add(r, mulc(m(a), k))
    return r


def iterations(I_, rec, s, st0):
    """number of times the body ran when the loop left through its condition, or None"""
    if rec.kind == 'foreach':
        if any(k == 'brk' for _, k, _, _ in rec.exits):
            return None
        c = rec.cont
        return slen(c) if c[0] == 's' else clen(c)
    lid = rec.lid
    for c, pol, _l in s.F.pc[len(st0.F.pc):]:
        x = c[1] if c[0] in ('le0', 'eq0') else None
        if x is None:
            continue
        syms = set()
        loop_syms(x, lid, syms)
        if not syms:
            continue

        def at(env_st):
            def m(a):
                if a[0] == 'L' and a[1] == lid:
                    v = I_.read(env_st, a[2], a[3])
                    return v
                if a[0] == 'op' and a[1] in ('len', 'size'):
                    ss = set()
                    loop_syms(a, lid, ss)
                    if ss:
                        L = next(iter(ss))
                        v = I_.read(env_st, L[2], L[3])
                        return slen(v) if v[0] == 's' else clen(cval(v))
                return a
            return m
        try:
            t0 = subst(x, at(st0))
            ds = set()
            for _, h, b, _ in rec.iters:
                ds.add(sub(subst(x, at(b)), subst(x, at(h))))
            if len(ds) != 1:
                return None
            d = ds.pop()
        except Exception:
            return None
        if d[0] != 'i':
            return None
        if c[0] == 'le0' and not pol and d[1] == 1:      # runs while x <= 0
            n = sub(I(1), t0)
        elif c[0] == 'le0' and pol and d[1] == -1:       # runs while x > 0
            n = t0
        elif c[0] == 'eq0' and pol and d[1] == -1:
            n = t0
        elif c[0] == 'eq0' and pol and d[1] == 1:
            n = mulc(t0, -1)
        else:
            return None
        lo, hi = st0.F.irange(n)
        if lo >= 0:
            return n
        if hi <= 0:
            return I(0)
        return ('op', 'max0', 'long', n)
    return None


def accelerate(I_, rec, key, kind, s, st0):
    """closed forms for loops that only append a constant, or each element, to a string / list"""
    if kind != 'cond' or not rec.iters:
        return
    n = None
    for loc in rec.M:
        deltas = set()
        kindof = None
        ok = True
        for _, h, b, _ in rec.iters:
            hv, bv = h.env.get(loc), b.env.get(loc)
            if hv is None or bv is None:
                ok = False
                break
            if hv[0] == 's' and bv[0] == 's' and hv == EMPTY_S:
                deltas.add(bv[1])
                kindof = kindof or 's'
            elif hv[0] == 's' and bv[0] == 's' and bv[1][:len(hv[1])] == hv[1]:
                if kindof == 'pre':
                    ok = False
                    break
                deltas.add(bv[1][len(hv[1]):])
                kindof = 'app'
            elif hv[0] == 's' and bv[0] == 's' and bv[1][-len(hv[1]):] == hv[1]:
                if kindof == 'app':
                    ok = False
                    break
                deltas.add(bv[1][:-len(hv[1])])
                kindof = 'pre'
            elif hv[0] == 'ss' and bv[0] == 'ss' and hv[2] == bv[2] and bv[1][:len(hv[1])] == hv[1]:
                deltas.add(bv[1][len(hv[1]):])
                kindof = 'ss'
            elif bv[0] == 'c' and bv[1] == 'push_back' and bv[2] == hv:
                deltas.add(('push', bv[3]))
                kindof = 'c'
            else:
                ok = False
                break
        if not ok or len(deltas) != 1:
            continue
        d = deltas.pop()
        syms = set()
        loop_syms(d, rec.lid, syms)
        front = kindof == 'pre'
        if kindof in ('pre', 'app'):
            kindof = 's'
        ev = I_.read(st0, loc, 'std::string' if kindof == 's' else '?')
        if n is None:
            n = iterations(I_, rec, s, st0)
        if n is None:
            return
        elem_dep = syms or mentions(d, rec.elem) or (getattr(rec, 'elemkey', None) is not None and mentions(d, rec.elemkey))
        if kindof == 'ss':
            if not elem_dep and ev[0] == 'ss' and s.env.get(loc, ('?',))[0] == 'ss':
                s.env[loc] = ('ss', ev[1] + ((('rep', d, n),) if n != I(0) else ()), ev[2])
        elif kindof == 's':
            if not elem_dep:
                if n == I(0):
                    s.env[loc] = ev
                elif front:
                    s.env[loc] = scat(('s', (('rep', d, n),)), ev)
                else:
                    s.env[loc] = scat(ev, ('s', (('rep', d, n),)))
            elif front:
                ek = rec.elemkey if hasattr(rec, 'elemkey') else None
                if ek is not None and rec.kind in ('foreach', 'index') and rec.cont is not None and rec.cont[0] == 's' and \
                        d == (('chr', char_at(rec.cont, ek)),) and (rec.kind == 'foreach' or rec.start == I(0)):
                    s.env[loc] = scat(srev(rec.cont), ev)
            elif rec.kind in ('foreach', 'index') and rec.cont is not None and rec.cont[0] == 's':
                ek = getattr(rec, 'elemkey', None)
                if ek is not None and d == (('chr', char_at(rec.cont, ek)),) and (rec.kind == 'foreach' or rec.start == I(0)):
                    s.env[loc] = scat(ev, rec.cont)
        else:
            if rec.kind in ('foreach', 'index') and rec.cont is not None and (rec.kind == 'foreach' or rec.start == I(0)):
                ek = rec.elemkey if hasattr(rec, 'elemkey') else None
                if ek is not None and not is_keyed(ek):
                    v = d[1]
                    ref = select(I_, s, rec.cont, ek, '?')
                    if same_elem(v, rec.cont, ek):
                        s.env[loc] = ccat(cval(ev), rec.cont)


def is_keyed(k):
    return k[0] == 'sym' and isinstance(k[1], tuple) and k[1][:1] == ('key',) or k[0] == 's'


def same_elem(v, cont, k):
    """v is a plain copy of element k of cont"""
    if v[0] == 's' and len(v[1]) == 1 and v[1][0][0] == 'w':
        v = v[1][0][1]
    c = cont[2] if cont[0] == 'c' and cont[1] == 'sym' else cont
    return v[0] == 'sym' and v[1] in (('E', c, k), ('E', cont, k))


def mentions(t, x):
    if x is None:
        return False
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(mentions(y, x) for y in t)
    return False
