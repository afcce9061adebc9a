"""O01-O08: the option parser."""
from .common import *
from . import samples
from .samples import Unknown

OPT = 'SoDa::Options'
BASE = 'SoDa::Options::OptBase'
PTRT = 'OptBase'


# ------------------------------------------------------------------ shape
class Shape:
    pass


def shape(ctx):
    if 'oshape' in ctx.cache:
        return ctx.cache['oshape']
    P = ctx.P
    s = Shape()
    if OPT not in P.records:
        raise Anchor('class ' + OPT)
    s.base = None
    for f in P.records[OPT]['fields']:
        t = strip(f['t'])
        if t.startswith('std::map<std::string,') and 'shared_ptr' in t:
            s.longmap, s.longt = f['n'], t
            s.base = t[t.index('shared_ptr<') + 11:].rstrip('>').strip()
        elif t.startswith('std::map<char,') and 'shared_ptr' in t:
            s.shortmap, s.shortt = f['n'], t
    if s.base is None or s.base not in P.records:
        raise Undecided('no map from option names to options')
    s.derived = sorted(q for q in P.records if s.base in P.records[q]['pubanc'])
    s.fields = {f['n']: strip(f['t']) for f in P.records[s.base]['fields']}
    gp = [f for f in ctx.fns_of(OPT, 'getPosArgs')]
    ctx.need(gp, OPT + '::getPosArgs')
    s.pos = None
    for p in ctx.run(gp[0], key='plain')[1]:
        if p.kind == 'ret' and p.val and p.val[0] == 'loc' and p.val[1][0] == 'f' and p.val[1][1] == THIS:
            s.pos = p.val[1]
    ctx.cache['oshape'] = s
    return s


def opaque(s):
    def o(f):
        c = f.get('cls') or ''
        return c == s.base or c in s.derived or c == 'SoDa::Format' or f['name'] == 'printHelp' or \
            f['qn'] in ('SoDa::split', 'SoDa::squashSpaces', 'SoDa::splitVec')
    return o


def parsers(ctx, s, name, ptype=None):
    fs = [f for f in ctx.fns_of(OPT, name, access='public')]
    ctx.need(fs, '%s::%s' % (OPT, name))
    return [f for f in fs if ptype is None or any(ptype in p['t'] for p in f['params'])]


def run(ctx, s, f, extra=()):
    o = opaque(s)
    return ctx.run(f, key=('opq',) + tuple(extra), opaque=lambda g: o(g) or g['key'] in extra)[1]


def exact_name(qn):
    return qn.rsplit('::', 1)[-1]


# ------------------------------------------------------------------ the option classes
def attrs(ctx, s):
    """{class: set of (signed, presence flag)} as their constructors leave them; None: unknown"""
    if 'oattrs' in ctx.cache:
        return ctx.cache['oattrs']
    out = {}
    wr = set()
    for c in [s.base] + s.derived:
        wr |= set(written_fields(ctx.P, c))
    for c in s.derived:
        r = set()
        pres = virtual_const(ctx, s, c, 'isPresentOpt')
        sg = set()
        for f in ctx.P.funcs.values():
            if f.get('cls') == c and f['kind'] == 'ctor' and f['has'] and not f.get('implicit'):
                try:
                    for p in ctx.run(f, key='plain')[1]:
                        if p.kind == 'ret':
                            v = p.st.env.get(('f', THIS, 'is_signed'))
                            sg |= {v[1]} if v is not None and v[0] == 'i' else {0, 1}
                except Undecided:
                    sg |= {0, 1}
        if 'is_signed' in wr or not sg:
            sg = {0, 1}
        for x in sg:
            for y in pres:
                r.add((x, y))
        out[c] = r
    ctx.cache['oattrs'] = out
    return out


def virtual_const(ctx, s, c, name):
    """possible values of a parameterless query on class c"""
    for q in [c] + [b['qn'] for b in ctx.P.records[c]['bases']]:
        for f in ctx.P.funcs.values():
            if f.get('cls') == q and f['name'] == name and f['has']:
                vals = set()
                try:
                    for p in ctx.run(f, key='plain')[1]:
                        v = p.val
                        vals |= {v[1]} if v is not None and v[0] == 'i' else {0, 1}
                except Undecided:
                    return {0, 1}
                return vals or {0, 1}
    return {0, 1}


# ------------------------------------------------------------------ reading a path
def fieldsym(ptr, name, t='bool'):
    return ('sym', ('f', ('d', ptr), name), t)


def vres(ptr, name):
    return ('sym', ('vres', '%s::%s' % (BASE, name), ('d', ptr)), 'bool')


def pointer_of(loc):
    """the pointer an option call goes through"""
    if loc is not None and loc[0] == 'd':
        return loc[1]
    return None


def lookup(s, ptr):
    """('long'|'short', key term) of an option found in one of the maps"""
    if ptr is None or ptr[0] != 'sym' or ptr[1][0] != 'E':
        return None
    b = ptr[1][1]
    n = field_of(b)
    if n == s.longmap:
        return 'long', ptr[1][2]
    if n == s.shortmap:
        return 'short', ptr[1][2]
    return None


def field_of(b):
    if b[0] == 'c' and b[1] == 'sym':
        b = b[2]
    if b[0] == 'sym' and b[1][0] == 'f' and len(b[1]) > 2 and b[1][1] == THIS:
        return b[1][2]
    if b[0] == 'L' and b[2][0] == 'f' and b[2][1] == THIS:
        return b[2][2]
    return None


def found_facts(s, F):
    """[(map, key term, found?)]"""
    out = []
    for c, pol, ln in F.pc:
        if c[0] == 'op' and c[1] == 'has':
            n = field_of(c[3])
            if n in (s.longmap, s.shortmap):
                out.append(('long' if n == s.longmap else 'short', c[4], pol))
    return out


def same_ptr(a, b):
    if a == b:
        return True
    return a is not None and b is not None and a[0] == 'sym' and b[0] == 'sym' and a[1] == b[1]


def null_found(s, F):
    """the path supposes a registered option to be a null pointer"""
    for c, pol, ln in F.pc:
        while c[0] == 'not':
            c, pol = c[1], not pol
        if c[0] == 'eqt' and pol and NULL in c[1:]:
            o = c[1] if c[2] == NULL else c[2]
            if lookup(s, o):
                return True
        if c[0] == 'eq0' and pol and lookup(s, c[1]):
            return True
    return False


def impossible(ctx, s, F):
    """the path supposes an option no class can make"""
    if null_found(s, F):
        return True
    at = attrs(ctx, s)
    combos = set().union(*at.values()) if at else {(0, 0), (0, 1), (1, 0), (1, 1)}
    seen = {}
    for c, pol, ln in F.pc:
        cc, pl = (c[1], not pol) if c[0] in ('not', 'eq0') else (c, pol)
        if cc[0] == 'sym' and cc[1][0] == 'f' and cc[1][1][0] == 'd' and cc[1][2] == 'is_signed' and cc[1][1][1][0] == 'sym':
            seen.setdefault(cc[1][1][1][1], {})[0] = int(pl)
        if cc[0] == 'sym' and cc[1][0] == 'vres' and cc[1][1].endswith('::isPresentOpt') and cc[1][2][0] == 'd' and cc[1][2][1][0] == 'sym':
            seen.setdefault(cc[1][2][1][1], {})[1] = int(pl)
    for q, d in seen.items():
        if not any(all(x[i] == v for i, v in d.items()) for x in combos):
            return True
    return False


def decided(F, v):
    d = F.decide(v)
    if d is None and v[0] == 'sym':
        for c, pol, ln in F.pc:
            cc, pl = (c[1], not pol) if c[0] in ('not', 'eq0') else (c, pol)
            if cc[0] == 'sym' and cc[1] == v[1]:
                return pl
    return d


def qvalue(F, ptr, name):
    """what the path knows of a query on an option"""
    for c, pol, ln in F.pc:
        cc, pl = (c[1], not pol) if c[0] in ('not', 'eq0') else (c, pol)
        if cc[0] != 'sym':
            continue
        if cc[1][0] == 'vres' and exact_name(cc[1][1]) == name and cc[1][2][0] == 'd' and same_ptr(cc[1][2][1], ptr):
            return pl
        if cc[1][0] == 'f' and cc[1][2] == name and cc[1][1][0] == 'd' and same_ptr(cc[1][1][1], ptr):
            return pl
    return None


class Step:
    """what one iteration (or the rest of a path) does to the options"""
    acts = ()
    unknown = None


def acts_of(ctx, s, ev, ptr0):
    """[('setVal', who, text term) | ('setPresent', who)]"""
    out = []
    for e in ev:
        if e[0] in ('vcall', 'call', 'rcall') and (e[2].startswith(BASE + '::') or any(e[2].startswith(q + '::') for q in s.derived)):
            n = exact_name(e[2])
            if n not in ('setVal', 'setPresent'):
                continue
            p = pointer_of(e[3])
            out.append((n, p, e[4][0] if e[4] else None, e[1]))
    return out


def pushes(v, base):
    """texts appended to a list value, or None"""
    out = []
    while v != base:
        if v is not None and v[0] == 'c' and v[1] in ('push_front', 'pop_front', 'pop_back', 'empty'):
            return v[1]
        if v is None or v[0] != 'c' or v[1] != 'push_back':
            return None
        out.append(v[3])
        v = v[2]
    return out[::-1]


# ------------------------------------------------------------------ the token loop
class Machine:
    pass


def machine(ctx, s):
    """the loop over the tokens, its variants, and every iteration and exit as seen by the reference parser"""
    if 'omachine' in ctx.cache:
        return ctx.cache['omachine']
    m = Machine()
    fs = parsers(ctx, s, 'parse', 'std::list<std::string>')
    if not fs:
        raise Anchor('%s::parse(list of tokens)' % OPT)
    m.f = fs[0]
    m.paths = run(ctx, s, m.f)
    recs = []
    for p in m.paths:
        for r in loops_of(p.ev):
            if r not in recs:
                recs.append(r)
    use = [r for r in recs if any(acts_of(ctx, s, b.ev, None) for k, h, b, bk in r.iters)]
    use = [r for r in use if not any(r is not o and r in inner(o) for o in use)]
    if len(use) != 1 or any(acts_of(ctx, s, b.ev, None) and r is not use[0] for r in recs for k, h, b, bk in r.iters):
        raise Undecided('the tokens are not read by a single loop')
    m.rec = rec = use[0]
    m.T = token(m, rec)
    m.ptr = pending(s, rec)
    # only the variants that can occur, and what each knows of the option that waits in it
    its = [(k, h, b, bk) for k, h, b, bk in rec.iters if not impossible(ctx, s, b.F)]
    m.known = {rec.entry_key: set()}
    grew = True
    while grew:
        grew = False
        for k, h, b, bk in its:
            if k not in m.known:
                continue
            got = after_iter(m, k, h, b)
            if got is None:
                continue
            have = m.known.setdefault(bk, None)
            if have is None or not got <= have:
                m.known[bk] = (have or set()) | got
                grew = True
    m.live = set(m.known)
    m.iters = [(k, h, b, bk) for k, h, b, bk in its if k in m.live and after_iter(m, k, h, b) is not None]
    ctx.cache['omachine'] = m
    return m


def after_iter(m, k, h, b):
    """what is known (is_signed) of the option waiting after the iteration; None: the iteration cannot happen"""
    P0, q = h.env.get(m.ptr), b.env.get(m.ptr)
    know = m.known[k]
    if P0 is not None and P0 != NULL and h.F.decide(('eqt', NULL, P0)) is not True:
        d = qvalue(b.F, P0, 'is_signed')
        if d is not None:
            know = know & {d}
        if not know:
            return None
    if q is None or q == NULL or b.F.decide(('eqt', NULL, q)) is True:
        return set()
    if q == P0:
        return know
    d = qvalue(b.F, q, 'is_signed')
    return {True, False} if d is None else {d}


def inner(r):
    out = []
    for k, h, b, bk in r.iters:
        out += loops_of(b.ev)
    return out


def token(m, rec):
    """the text an iteration looks at"""
    if rec.kind in ('foreach', 'index') and rec.elem is not None:
        want = lambda t: t[1][0] == 'E' and samples.mentions(t[1], rec.elem if rec.elem[0] != 'sym' else rec.elem)
    else:
        want = lambda t: t[1][0] == 'E' and t[1][2] == I(0)
    found = set()

    def go(t):
        if not isinstance(t, tuple):
            return
        if len(t) == 3 and t[0] == 'sym' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'E' and strip(t[2]) == 'std::string':
            found.add(t)
            return
        for x in t:
            if isinstance(x, tuple):
                go(x)
    for k, h, b, bk in rec.iters:
        for c, pol, ln in b.F.pc[len(h.F.pc):]:
            go(c)
        for loc in rec.M:
            go(b.env.get(loc) or ())
    if rec.kind in ('foreach', 'index'):
        r = [t for t in found if want(t)] or [t for t in found]
    else:
        r = [t for t in found if want(t)]
    r = [t for t in r if field_of(t[1][1]) is None]
    if len(r) != 1:
        raise Undecided('what an iteration reads was not recognised')
    return r[0]


def pending(s, rec):
    """the variable that holds the option waiting for its value"""
    out = set()
    for k, h, b, bk in rec.iters:
        for loc in rec.M:
            v = b.env.get(loc)
            if v is not None and lookup(s, v):
                out.add(loc)
    if len(out) != 1:
        raise Undecided('the option waiting for its value is not kept in one variable')
    return list(out)[0]


def consistent(F, T, t, cache, posl=None):
    """is the path possible for token t, as far as its conditions look at the token: True/False; Unknown raised"""
    key = id(F)
    cs = cache.get(key)
    if cs is None:
        cs = cache[key] = [(c, pol) for c, pol, ln in F.pc if samples.mentions(c, T) and not reads_options(c) and not about(c, posl)]
        cache.setdefault('keep', []).append(F)
    for c, pol in cs:
        kk = (c, t)
        r = cache.get(kk)
        if r is None:
            r = cache[kk] = samples.cond(c, T, t)
        if r is not pol:
            return False
    return True


def about(c, loc):
    """does the condition ask what the list at loc holds"""
    if loc is None or not isinstance(c, tuple):
        return False
    return c == loc or any(about(x, loc) for x in c)


def reads_options(c):
    """does the condition ask about an option or a map rather than about the token"""
    if not isinstance(c, tuple):
        return False
    if c and c[0] == 'op' and len(c) > 1 and c[1] in ('has', 'behind'):
        return True
    if c and c[0] == 'sym':
        return True
    if c and c[0] == 'eqt':
        return any(x[0] in ('sym', 'null', 'L', 'ptr') for x in c[1:])
    return any(reads_options(x) for x in c[1:] if isinstance(x, tuple) and x and x[0] in ('not', 'eq0', 'le0'))


def lexical(t):
    if len(t) >= 3 and t[:2] == '--':
        return 'long'
    if len(t) >= 2 and t[0] == '-' and t[1] != '-':
        return 'short'
    return 'plain'


def wants(kind, t):
    """(map, key) a switch names, or 'help'"""
    if kind == 'long':
        return 'help' if t == '--help' else ('long', t[2:])
    return 'help' if t[1] == 'h' else ('short', samples.sch(t[1]))


def key_value(kind, key, T, t):
    return samples.text(key, T, t) if kind == 'long' else samples.num(key, T, t)


def parse_steps(ctx, s):
    """compare every iteration and exit of the token loop with the reference parser;
    -> list of (tags, where, what, path or None, verdict)"""
    if 'osteps' in ctx.cache:
        return ctx.cache['osteps']
    out = []
    m = machine(ctx, s)
    rec, T = m.rec, m.T
    at = samples.Atoms(T)
    for k, h, b, bk in m.iters:
        for c, pol, ln in b.F.pc:
            if samples.mentions(c, T):
                at.scan(c)
    for p in m.paths:
        for c, pol, ln in p.st.F.pc:
            if samples.mentions(c, T):
                at.scan(c)
    texts = at.texts(chars='-h', extra=['--help', '-h', '--', '-', '', '--x', '-5', '-.5', '--help5', '-hx', '-x=5', '--x=5'])
    m.texts = texts
    cache = {}
    w = '%s (%s:%s)' % (m.f['qn'], os.path.basename(m.f['file']), rec.line)
    posl = s.pos
    early = None
    # is presence noted as soon as the switch is seen
    for k, h, b, bk in m.iters:
        q = b.env.get(m.ptr)
        if lookup(s, q) and q != h.env.get(m.ptr):
            e = any(a[0] == 'setPresent' and same_ptr(a[1], q) for a in acts_of(ctx, s, b.ev, None))
            early = e if early is None else (early and e)
    m.early = bool(early)

    def add(tags, what, verdict, path=None):
        out.append((tags, w, what, path, verdict))

    def state_of(key, h):
        v = h.env.get(m.ptr)
        if v == NULL:
            return None, [(None, None)]
        if h.F.decide(('eqt', NULL, v)) is True:
            return None, [(None, None)]
        return v, [(sg, hd) for sg in sorted(m.known[key]) for hd in (True, False)]

    def fits(F, P0, sg, hd):
        if P0 is None:
            return True
        a, b = qvalue(F, P0, 'is_signed'), qvalue(F, P0, 'hasDefault')
        if b is None:
            b = qvalue(F, P0, 'has_default')
        return (a is None or a is sg) and (b is None or b is hd)

    def expect(P0, sg, hd, t):
        """('value',) | ('pos',) | ('help',) | ('opt', map, key)"""
        k = lexical(t)
        if P0 is not None and (sg or not hd):
            return ('value',)
        if k == 'plain':
            return ('value',) if P0 is not None else ('pos',)
        x = wants(k, t)
        return ('help',) if x == 'help' else ('opt',) + x

    def check(F, h, key, ev, env, T, exitk, path, ret):
        """one iteration (exitk None) or exit"""
        P0, states = state_of(key, h)
        acts = acts_of(ctx, s, ev, P0)
        threw = [e for e in ev if e[0] == 'throw' and 'via' in str(e[3]) and exact_name(str(e[3])) in ('setVal', 'setPresent')]
        facts = found_facts(s, F)
        pb = h.env.get(posl)
        pv_ = env.get(posl, pb)
        ps = pushes(pv_, pb if pb is not None else pv_) if posl is not None else None
        n = 0
        done = set()
        for sg, hd in states:
            if not fits(F, P0, sg, hd):
                continue
            for t in texts:
                try:
                    if not consistent(F, T, t, cache, posl):
                        continue
                except Unknown as e:
                    add('all', 'condition on the token not understood: %s' % pv(e.args[0]), None)
                    return
                n += 1
                ex = expect(P0, sg, hd, t)
                sig = (ex[0], ex[1] if len(ex) > 1 else None, sg, hd, lexical(t))
                try:
                    r = compare(ex, P0, acts, facts, ps, env, h, t, F, exitk, threw, ret)
                except Unknown as e:
                    r = (None, 'all', 'not understood: %s' % pv(e.args[0]))
                if r is None:
                    if sig not in done:
                        done.add(sig)
                        add('all', '', True)
                else:
                    verdict, tags, what = r
                    if (verdict, tags, what) in done:
                        continue
                    done.add((verdict, tags, what))
                    st = ''
                    if P0 is not None:
                        st = ' after a switch whose option %s' % ('takes negative numbers' if sg else 'has a default' if hd else 'needs a value')
                    add(tags, 'token %r%s: %s' % (t, st, what), verdict, path)

    def who(p, P0):
        return 'the waiting option' if same_ptr(p, P0) else 'another option'

    def compare(ex, P0, acts, facts, ps, env, h, t, F, exitk, threw, ret):
        acts = list(acts)
        np_ = env.get(m.ptr, h.env.get(m.ptr))
        failed = exitk is not None
        if ps is None:
            return (None, 'all', 'how the positional arguments change was not recognised')
        if isinstance(ps, str):
            return (False, 'O05', {'push_front': 'is put before the earlier positional arguments', 'empty': 'discards the earlier positional arguments'}.get(ps, 'removes a positional argument'))
        vals = [(a[1], a[2]) for a in acts if a[0] == 'setVal']
        pres = [a[1] for a in acts if a[0] == 'setPresent']
        if ex[0] == 'value':
            if not vals:
                if ps:
                    return (False, 'O02 O05 O03', 'is taken as a positional argument although an option waits for its value')
                return (False, 'O02', 'does not reach the option that waits for it')
            if len(vals) > 1:
                return (False, 'O02', 'is handed to an option more than once')
            if not same_ptr(vals[0][0], P0):
                return (False, 'O02', 'is handed to an option other than the one waiting')
            if samples.text(vals[0][1], T, t) != t:
                return (False, 'O02', 'reaches the option as %r' % samples.text(vals[0][1], T, t))
            if ps:
                return (False, 'O05', 'is an option value and a positional argument as well')
            if failed:
                if threw:
                    return None
                return (False, 'O01', 'parsing stops although the value was accepted')
            if np_ != NULL and not isnull(F, np_):
                return (False, 'O02 O05', 'the option goes on waiting after its value')
            extra = [p for p in pres if not same_ptr(p, P0)]
            return (False, 'O03', 'marks another option as present') if extra else None
        # an option left without a value
        if ex[0] in ('help', 'opt') and P0 is not None:
            if vals:
                return (False, 'O01 O02 O03', 'a switch is taken as the value of an option that has a default')
            if not m.early and not any(same_ptr(p, P0) for p in pres) and not (failed and ret == 0):
                return (False, 'O03', 'the option waiting is given up without being marked as present')
        if ex[0] == 'pos':
            if vals:
                return (False, 'O02', 'is handed to an option although none waits')
            if len(ps) != 1:
                return (False, 'O05', 'is kept %d times as a positional argument' % len(ps))
            if samples.text(ps[0], T, t) != t:
                return (False, 'O05', 'is kept as %r' % samples.text(ps[0], T, t))
            if failed:
                return (False, 'O01', 'parsing stops at a positional argument')
            if pres:
                return (False, 'O03', 'marks an option as present')
            if np_ != h.env.get(m.ptr) and not (isnull(F, np_) and P0 is None):
                return (None, 'all', 'what waits after a positional argument was not recognised')
            return None
        if ps:
            stale = ' because of an earlier call' if stale_flag(m, h) else ''
            return (False, 'O01 O05 O03 O04' if stale else 'O01 O05 O03', 'a switch is taken as a positional argument' + stale)
        if vals:
            return (False, 'O01 O02 O03', 'a switch is taken as a value')
        if ex[0] == 'help':
            if not failed:
                return (False, 'O01', 'a request for help does not end the parse')
            return None
        # ('opt', map, key)
        kind, key = ex[1], ex[2]
        good = None
        for mk, kt, f in facts:
            if mk == kind and key_value(mk, kt, T, t) == key:
                good = f
        q = None
        if good is None:
            wrong = [(mk, kt) for mk, kt, f in facts if f is True and samples.mentions(kt, T)]
            if wrong and not failed:
                return (False, 'O03 O08', 'names the option %r but %r is looked up' % (key, key_value(wrong[0][0], wrong[0][1], T, t)))
            if failed and not facts:
                return (False, 'O01', 'a switch ends the parse without being looked up')
            return (None, 'all', 'lookup of the option was not recognised')
        if good is False:
            if not failed:
                return (False, 'O01', 'an unknown option does not end the parse')
            return None
        if failed:
            if threw:
                return None
            return (False, 'O01', 'a known option ends the parse')
        isP = None
        for a in list(pres) + [np_]:
            if a is not None and lookup(s, a) and lookup(s, a)[0] == kind and key_value(kind, lookup(s, a)[1], T, t) == key:
                q = a
        if q is None:
            for c, pol, ln in F.pc:
                for x in walk(c):
                    if lookup(s, x) and lookup(s, x)[0] == kind and key_value(kind, lookup(s, x)[1], T, t) == key:
                        q = x
        if q is None:
            return (None, 'all', 'the option found is not used')
        isP = qvalue(F, q, 'isPresentOpt')
        others = [p for p in pres if not same_ptr(p, q) and not same_ptr(p, P0)]
        if others:
            return (False, 'O03', 'marks another option as present')
        if isP is True:
            if not any(same_ptr(p, q) for p in pres):
                return (False, 'O03', 'a presence flag is not set although its option appeared')
            if not isnull(F, np_):
                return (False, 'O02 O05', 'a presence flag waits for a value')
            return None
        if isnull(F, np_):
            if isP is False:
                return (False, 'O02 O03', 'the option does not wait for its value')
            return (None, 'all', 'whether the option takes a value is not asked')
        if not same_ptr(np_, q):
            return (False, 'O02', 'another option waits for the value')
        if isP is None:
            return (None, 'all', 'whether the option takes a value is not asked')
        return None

    for k, h, b, bk in m.iters:
        check(b.F, h, k, b.ev, b.env, T, None, trail(h, b), None)
    # ---- exits
    for p in m.paths:
        if impossible(ctx, s, p.st.F):
            continue
        lp = [e for e in p.ev if e[0] == 'loop' and e[2] is rec]
        help_throw = p.kind == 'throw' and any(e[0] == 'throw' and 'printHelp' in str(e[3]) for e in p.ev)
        if help_throw:
            continue      # decided on printHelp itself
        if not lp:
            if p.kind == 'throw':
                add('O01', 'an exception %s leaves the parse' % p.st.exc, False, p)
            elif acts_of(ctx, s, p.ev, None) or posl is not None and posl in p.st.env and pushes(p.st.env[posl], p.st.env[posl]) != []:
                add('all', 'a path without the token loop', None)
            continue
        e = lp[0]
        key, kind = e[3], e[4]
        if key not in m.live:
            continue
        h = rec.heads[key] if key in rec.heads else None
        if h is None:
            add('all', 'exit not recognised', None)
            continue
        after = p.ev[[i for i, x in enumerate(p.ev) if x is e][0] + 1:]
        if p.kind == 'throw':
            add('O01', 'an exception %s leaves the parse' % p.st.exc, False, p)
            continue
        r = p.val[1] if p.val is not None and p.val[0] == 'i' else None
        if kind == 'cond':
            finish(p, key, h, after, r, state_of, add)
            continue
        if r is None:
            add('O01', 'result %s not recognised' % (pv(p.val) if p.val else None), None)
            continue
        if r != 0:
            add('O01', 'parsing succeeds although it stops early (line %s)' % (after[-1][1] if after else e[1]), False, p)
            continue
        check(p.st.F, h, key, after, p.st.env, T, kind, p, r)

    def isnull_(F, v):
        return isnull(F, v)
    ctx.cache['osteps'] = out
    return out


def finish(p, key, h, after, r, state_of, add):
    """the tokens are used up"""
    P0, states = state_of(key, h)
    vals = [e for e in after if e[0] in ('vcall', 'call') and exact_name(e[2]) == 'setVal']
    pres = [pointer_of(e[3]) for e in after if e[0] in ('vcall', 'call') and exact_name(e[2]) == 'setPresent']
    early = add.__closure__ and False
    if r is None:
        add('O01', 'result %s not recognised' % (pv(p.val) if p.val else None), None)
    elif r == 0:
        add('O01', 'parsing fails although every token was accepted', False, p)
    else:
        add('O01', '', True)
    if vals:
        add('O02', 'a value is handed over after the last token', False, p)
    other = [q for q in pres if not same_ptr(q, P0)]
    if other:
        add('O03', 'an option that did not appear is marked as present after the last token', False, p)
    if P0 is not None and not isnull(p.st.F, P0):
        add('O03 last', 'the last option never got a value and is not marked as present', True if any(same_ptr(q, P0) for q in pres) else False, p)


def trail(h, b):
    out = ['assume@%s %s%s' % (ln, '' if pol else 'not ', pv(c)) for c, pol, ln in b.F.pc[len(h.F.pc):]]
    for e in b.ev:
        if e[0] not in ('rd', 'deref', 'bound'):
            try:
                out.append(pe(e))
            except Exception:
                out.append(str(e[:3]))
    return [x[:300] for x in out][:60]


def isnull(F, v):
    return v == NULL or v is not None and F.decide(('eqt', NULL, v)) is True


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walk(x)


def stale_flag(m, h):
    """does the iteration start from a flag of the object left over from before the parse"""
    for loc in m.rec.M:
        if loc[0] == 'f' and loc[1] == THIS:
            e = m.rec.entry.env.get(loc)
            if e is None or e[0] == 'sym':
                v = h.env.get(loc)
                if v is not None and v[0] == 'L' and v[3] == 'bool':
                    return True
    return False


def report(ctx, s, prop, rule):
    m = machine(ctx, s)
    for tags, w, what, path, verdict in parse_steps(ctx, s):
        tl = tags.split()
        if 'last' in tl:
            if m.early:
                verdict = True
        if 'all' not in tl and prop not in tl:
            continue
        if verdict is True:
            ctx.ok(rule, w)
        elif verdict is None:
            ctx.unk(rule, w, what)
        elif isinstance(path, list):
            ctx.bad(rule, w, what, path)
        else:
            ctx.check(False, rule, w, what, path)


def part(ctx, prop, rule, where, fn):
    """obligations of one property out of a shared analysis"""
    from . import optclasses as C
    guarded(ctx, rule, where, lambda: C.feed(ctx, prop, rule, fn()))


def O01(ctx):
    from . import optclasses as C
    s = shape(ctx)
    guarded(ctx, 'result', 'parse', lambda: report(ctx, s, 'O01', 'result'))
    part(ctx, 'O01', 'help', 'printHelp', lambda: C.helper(ctx, s))
    part(ctx, 'O01', 'acceptance', 'setVal', lambda: C.setters(ctx, s))
    part(ctx, 'O01', 'entry points', 'parse', lambda: C.wrappers(ctx, s))
    part(ctx, 'O01', 'items', 'parseKeyValue', lambda: C.keyvalue(ctx, s))


def cut_texts(ctx, s, rule, keep):
    """no text is passed on, as a string, through a pointer to its characters"""
    for f in ctx.P.funcs.values():
        if f['has'] and not f.get('implicit') and not f.get('deflt') and (f.get('cls') in (OPT, s.base) or f.get('cls') in s.derived) and keep(f):
            guarded(ctx, rule, ctx.loc(f), lambda f=f: cuts(ctx, rule, ctx.loc(f), run(ctx, s, f), free_text, lambda q: str(q).startswith('std::basic_string')))


KV = lambda f: f['name'] == 'parseKeyValue'


def O02(ctx):
    from . import optclasses as C
    s = shape(ctx)
    cut_texts(ctx, s, 'whole-text', lambda f: not KV(f) and f['kind'] == 'fn' and f['name'] not in ('printHelp', 'addInfo'))
    guarded(ctx, 'values', 'parse', lambda: report(ctx, s, 'O02', 'values'))
    part(ctx, 'O02', 'storing', 'setVal', lambda: C.setters(ctx, s))
    part(ctx, 'O02', 'items', 'parseKeyValue', lambda: C.keyvalue(ctx, s))
    part(ctx, 'O02', 'entry points', 'parse', lambda: C.wrappers(ctx, s))
    part(ctx, 'O02', 'argument array', 'parse', lambda: C.array_tokens(ctx, s))


def O03(ctx):
    from . import optclasses as C
    s = shape(ctx)
    guarded(ctx, 'presence', 'parse', lambda: report(ctx, s, 'O03', 'presence'))
    part(ctx, 'O03', 'marking', 'setVal', lambda: C.setters(ctx, s))
    part(ctx, 'O03', 'queries', 'isPresent', lambda: C.queries(ctx, s))
    part(ctx, 'O03', 'items', 'parseKeyValue', lambda: C.keyvalue(ctx, s))


def O04(ctx):
    s = shape(ctx)
    guarded(ctx, 'independent', 'parse', lambda: report(ctx, s, 'O04', 'independent'))
    for f in ctx.P.funcs.values():
        if f['has'] and not f.get('implicit') and not f.get('deflt') and (f.get('cls') == OPT or f.get('cls') in s.derived):
            guarded(ctx, 'nothing-carried-over', ctx.loc(f), lambda f=f: carried(ctx, 'nothing-carried-over', f, run(ctx, s, f)))


def O05(ctx):
    from . import optclasses as C
    s = shape(ctx)
    guarded(ctx, 'positional', 'parse', lambda: report(ctx, s, 'O05', 'positional'))
    part(ctx, 'O05', 'access', 'getPosArg', lambda: C.positional(ctx, s))
    part(ctx, 'O05', 'argument array', 'parse', lambda: C.array_tokens(ctx, s))
    part(ctx, 'O05', 'entry points', 'parse', lambda: C.wrappers(ctx, s))


def O06(ctx):
    from . import optclasses as C
    s = shape(ctx)
    cut_texts(ctx, s, 'whole-text', lambda f: f['kind'] == 'fn' and f['name'] in ('parse', 'buildTokenList') and any(strip(p['t']) == 'std::string' for p in f['params']))
    part(ctx, 'O06', 'tokens', 'buildTokenList', lambda: C.string_tokens(ctx, s))
    part(ctx, 'O06', 'entry points', 'parse', lambda: C.wrappers(ctx, s))


def O07(ctx):
    from . import optclasses as C
    s = shape(ctx)
    cut_texts(ctx, s, 'whole-text', KV)
    part(ctx, 'O07', 'items', 'parseKeyValue', lambda: C.keyvalue(ctx, s))
    part(ctx, 'O07', 'entry points', 'parse', lambda: C.wrappers(ctx, s))


def O08(ctx):
    from . import optclasses as C
    s = shape(ctx)
    part(ctx, 'O08', 'registration', 'add', lambda: C.registration(ctx, s)[0])
    part(ctx, 'O08', 'help list', 'printHelp', lambda: C.helper(ctx, s))
    guarded(ctx, 'names', 'parse', lambda: report(ctx, s, 'O08', 'names'))
