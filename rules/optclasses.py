"""Option classes, registration, help and the wrappers around the token parser (parts of O01-O08)."""
from .common import *
from . import samples, scan
from .samples import Unknown
from .options import shape, opaque, run, parsers, walk, exact_name, OPT, BASE, field_of, null_found

WORDS = ['T', 'F', 't', 'f', 'true', 'false', 'TRUE', 'FALSE', 'True', 'False', '1', '0', '2', '-1', '10', '00', 'x', 'maybe', '?', '', 'yes']
TRUTH = {'T': True, 't': True, 'true': True, 'TRUE': True, 'True': True, '1': True, '2': True, '-1': True, '10': True,
         'F': False, 'f': False, 'false': False, 'FALSE': False, 'False': False, '0': False, '00': False}
REFUSED = ('x', '?')
ARG0 = lambda t: ('sym', ('arg', 0), t)


def lw(ctx, f):
    return ctx.loc(f)


def reader(p, ctx):
    I_ = p.I
    return lambda loc, t='?': I_.read(p.st, loc, t)


# ------------------------------------------------------------------ registration
class Reg:
    pass


def adders(ctx, s):
    """the public members that register an option: (function, kind, value type)"""
    out = []
    for f in ctx.fns_of(OPT, access='public'):
        if f['kind'] != 'fn' or len(f['params']) < 3:
            continue
        t = f['params'][0]['t'].strip()
        if not t.endswith('*') or 'char **' in t or 'string' not in f['params'][1]['t']:
            continue
        v = t[:-1].strip()
        kind = 'vector' if v.startswith('std::vector<') else 'flag' if f['name'] == 'addP' else 'plain'
        out.append((f, kind, v))
    return out


def zero(t):
    if t == 'std::string':
        return ('s', ())
    if t in ('double', 'float'):
        return ('fl', 0.0)
    return I(0)


def same_value(a, b):
    if a == b:
        return True
    if a is None or b is None:
        return False
    if a[0] == 'fl' and b[0] == 'i':
        return a[1] == b[1]
    if a[0] == 'i' and b[0] == 'fl':
        return a[1] == b[1]
    return as_text(a) is not None and as_text(a) == as_text(b)


def as_text(v):
    """a string value in a canonical form"""
    if v is None:
        return None
    if v[0] == 's':
        return v[1]
    if v[0] == 'sym' and strip(v[2]) == 'std::string':
        return (('w', v),)
    return None


def registration(ctx, s):
    """[(tags, where, what, path, verdict)] and {class: (target field, test field)}"""
    if 'oreg' in ctx.cache:
        return ctx.cache['oreg']
    out, binds = [], {}
    ads = adders(ctx, s)
    ctx.need(ads, OPT + '::add')
    for f, kind, vt in ads:
        w = lw(ctx, f)

        def add(tags, verdict, what='', p=None):
            out.append((tags, w, what, p, verdict))
        try:
            one_adder(ctx, s, f, kind, vt, add, binds)
        except Undecided as e:
            add('O02 O03 O08', None, 'not analysable: %s' % e)
    ctx.cache['oreg'] = (out, binds)
    return ctx.cache['oreg']


def one_adder(ctx, s, f, kind, vt, add, binds):
    I_, ps = ctx.run(f, key='reg')
    ps_t = [p['t'] for p in f['params']]
    A = [('sym', ('arg', i), strip(t)) for i, t in enumerate(ps_t)]
    # the default, if one is stated, is the parameter of the value's own type right after the names
    tests = [i for i, t in enumerate(ps_t) if 'std::function' in t]
    dft = None
    if kind == 'plain' and tests and tests[0] - 3 >= 2 and strip(ps_t[3]) == strip(vt):
        dft = 3
    for p in ps:
        if p.kind != 'ret':
            add('O08', False, 'registering an option throws %s' % p.st.exc, p)
            continue
        rd = reader(p, ctx)
        target = ('d', A_ptr(p, f))
        if p.st.F.decide(('eqt', NULL, target[1])) is True:
            continue          # no variable given
        longv = rd(('e', ('f', THIS, s.longmap), key_str(f, 1)), 'std::shared_ptr<%s>' % s.base)
        shortv = rd(('e', ('f', THIS, s.shortmap), ('sym', ('arg', 2), 'char')), 'std::shared_ptr<%s>' % s.base)
        news = [(e[2], e[3]) for e in all_events(p.ev) if e[0] == 'new' and strip(e[3]) in s.derived]
        made = [e for e in all_events(p.ev) if e[0] in ('new', 'make')]
        if not made and not any(e[0] in ('wr', 'autoins') and samples.mentions(e[2], ('f', THIS, s.longmap)) for e in all_events(p.ev)) and not p.st.imprecise:
            add('O08', False, 'the call registers nothing', p)
            continue
        if len(news) != 1:
            add('O08', None, 'the object made for the option was not recognised')
            continue
        h, cls = news[0][0], strip(news[0][1])
        want = ('ptr', h)
        for nm, v in (('long', longv), ('one-letter', shortv)):
            if v == want:
                add('O08', True)
            elif v is not None and v[0] == 'sym' and v[1][0] == 'E':
                add('O08 O03', False, 'the %s name %s' % (nm, 'keeps referring to an earlier option' if decided_has(p, v) else 'is not entered in its map'), p)
            elif v == NULL or v is not None and v[0] == 'ptr':
                add('O08 O03', False, 'the %s name does not refer to the new option' % nm, p)
            else:
                add('O08', None, 'what the %s name refers to was not recognised' % nm)
        # ---- target and test
        tf = tt = None
        for c in chain_of(ctx, cls):
            for fl in ctx.P.records[c]['fields']:
                v = rd(('f', h, fl['n']), fl['t'])
                if '*' in fl['t'] and v == target[1]:
                    tf = fl['n']
                if 'std::function' in fl['t']:
                    if tests and v == A[tests[0]]:
                        tt = fl['n']
        # ---- where does it write at once
        wr = [e for e in all_events(p.ev) if e[0] in ('wr',) and root_d(e[2]) is not None]
        other = [e for e in wr if root_d(e[2]) != target]
        if other:
            add('O08 O02', False, 'registration changes %s, which is not the variable given' % ploc(other[0][2]), p)
        if kind == 'vector':
            mine = [e for e in wr if root_d(e[2]) == target]
            if mine:
                add('O08', False, 'registration changes the vector', p)
            else:
                add('O08', True)
        else:
            v = rd(target, vt)
            exp = A[dft] if dft is not None else zero(strip(vt)) if kind == 'plain' else I(0)
            if same_value(v, exp):
                add('O08', True)
            elif not any(root_d(e[2]) == target for e in wr):
                add('O08', False, 'registration leaves the variable unset', p)
            elif understood(v):
                add('O08', False, 'registration sets the variable to %s instead of %s' % (pv(v), 'the stated default' if dft is not None else pv(exp)), p)
            else:
                add('O08', None, 'the default %s was not recognised' % pv(v))
        b = binds.setdefault(cls, {'target': set(), 'test': set(), 'kind': kind, 'vt': vt, 'signed': set(), 'default': set(), 'present': set(), 'wh': lw(ctx, f)})
        b['target'].add(tf)
        b['test'].add(tt)
        if tf is None:
            add('O02', None, 'where the option keeps its variable was not recognised')
        if tests and tt is None:
            add('O02', None, 'where the option keeps its test was not recognised')
        # ---- attributes the parser goes by
        sg = rd(('f', h, 'is_signed'), 'bool') if 'is_signed' in s.fields else None
        hd = rd(('f', h, 'has_default'), 'bool') if 'has_default' in s.fields else None
        esg = int(kind == 'plain' and strip(vt) in ('int', 'double', 'float', 'long', 'short', 'long long'))
        ehd = int(not (kind == 'plain' and dft is None))
        for nm, v, ex, msg in (('is_signed', sg, esg, ('a negative number is not taken as its value', 'a switch after it is taken as its value')),
                               ('has_default', hd, ehd, ('a switch after it is taken as its value', 'a following token that starts with - is not taken as its value'))):
            if v is None:
                add('O02', None, 'attribute %s gone' % nm)
            elif v[0] == 'i':
                if v[1] == ex:
                    add('O02', True)
                elif nm == 'is_signed' and kind == 'vector':
                    add('O02', True)        # either way of reading negative elements keeps the statement
                else:
                    add('O02', False, 'the option is registered with %s=%d: %s' % (nm, v[1], msg[0] if (nm == 'is_signed') == (ex == 1) else msg[1]), p)
            else:
                add('O02', None, 'attribute %s not recognised: %s' % (nm, pv(v)))
        pr = rd(('f', h, present_field(ctx, s)), 'bool')
        if pr == I(0):
            add('O03', True)
        else:
            add('O03', False if pr[0] == 'i' or pr == ('sym', ('f', h, present_field(ctx, s)), 'bool') or uninit(pr) or pr == ('sym', target, 'bool') else None, 'an option counts as present as soon as it is registered (%s)' % pv(pr), p)
        # names, for help and messages
        ln = rd(('f', h, 'long_name'), 'std::string') if 'long_name' in s.fields else None
        ab = rd(('f', h, 'ab_name'), 'char') if 'ab_name' in s.fields else None
        if ln is not None:
            if as_text(ln) == as_text(A[1]):
                add('O08', True)
            else:
                add('O08', False if understood(ln) else None, 'the option is listed under %s instead of its long name' % pv(ln), p)
        if ab is not None:
            if ab == ('sym', ('arg', 2), 'char'):
                add('O08', True)
            else:
                add('O08', False if understood(ab) else None, 'the option is listed with %s instead of its one-letter name' % pv(ab), p)
        # the call returns the object itself, so calls can be chained
        if p.val is not None and p.val[0] == 'loc':
            add('O08', p.val[1] == THIS, 'does not return the object it was called on', p)


def uninit(v):
    return v is not None and v[0] == 'sym' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('uninit', 'undef')


def has_fn(ps_t):
    return any('std::function' in t for t in ps_t)


def A_ptr(p, f):
    t = f['params'][0]['t'].strip()
    return ('sym', ('arg', 0), t)


def key_str(f, i):
    return ('s', (('w', ('sym', ('arg', i), 'std::string')),))


def understood(v):
    """a value made of the arguments and constants only"""
    if v is None:
        return False
    if v[0] in ('i', 'fl'):
        return True
    if v[0] == 'sym':
        return v[1][0] in ('arg', 'f') or uninit(v)
    if v[0] == 's':
        return all(q[0] in ('lit',) or q[0] == 'w' and understood(q[1]) for q in v[1])
    return False


def decided_has(p, v):
    return any(c[0] == 'op' and c[1] == 'has' and pol and c[4] == v[1][2] for c, pol, ln in p.st.F.pc)


def chain_of(ctx, c):
    out, work = [], [c]
    while work:
        x = work.pop(0)
        if x in ctx.P.records and x not in out:
            out.append(x)
            work += [b['qn'] for b in ctx.P.records[x]['bases']]
    return out


def root_d(loc):
    """the pointer target a location is part of"""
    while loc is not None and loc[0] in ('f', 'e', 'pf', 'idx'):
        loc = loc[1]
    return loc if loc is not None and loc[0] == 'd' and not (loc[1][0] == 'ptr') else None


def present_field(ctx, s):
    """the field the presence query reads"""
    if 'opres' in ctx.cache:
        return ctx.cache['opres']
    fs = [f for f in ctx.fns_of(s.base, 'isPresent')]
    r = None
    for f in fs:
        vs = {p.val for p in ctx.run(f, key='plain')[1]}
        if len(vs) == 1:
            v = list(vs)[0]
            if v is not None and v[0] == 'sym' and v[1][0] == 'f' and v[1][1] == THIS:
                r = v[1][2]
    if r is None:
        bools = [n for n, t in s.fields.items() if t == 'bool' and 'present' in n]
        if len(bools) != 1:
            raise Undecided('where an option keeps its presence was not recognised')
        r = bools[0]
    ctx.cache['opres'] = r
    return r


# ------------------------------------------------------------------ storing a value
def setters(ctx, s):
    if 'oset' in ctx.cache:
        return ctx.cache['oset']
    regs, binds = registration(ctx, s)
    out = list(regs)
    looks = result_used(ctx, s)
    for cls in s.derived:
        b = binds.get(cls)
        if b is None:
            continue          # a class that is never registered
        fs = [f for f in ctx.P.funcs.values() if f.get('cls') in chain_of(ctx, cls) and f['name'] == 'setVal' and f['has']]
        fs.sort(key=lambda f: chain_of(ctx, cls).index(f['cls']))
        if not fs:
            out.append(('O02', cls, 'no setVal', None, None))
            continue
        f = fs[0]
        w = '%s::setVal (%s:%s)' % (cls, os.path.basename(f['file']), f['line'])

        def add(tags, verdict, what='', p=None, w=w):
            out.append((tags, w, what, p, verdict))
        if len(b['target']) != 1 or None in b['target']:
            add('O02', None, 'its variable was not recognised')
            continue
        try:
            one_setter(ctx, s, cls, f, b, add, looks)
        except (Undecided, Unknown) as e:
            add('O02', None, 'not analysable: %s' % e)
        sp = [g for g in ctx.P.funcs.values() if g.get('cls') in chain_of(ctx, cls) and g['name'] == 'setPresent' and g['has']]
        sp.sort(key=lambda g: chain_of(ctx, cls).index(g['cls']))
        try:
            if sp:
                one_presence(ctx, s, cls, sp[0], b, lambda tags, verdict, what='', p=None, w2='%s::setPresent (%s:%s)' % (cls, os.path.basename(sp[0]['file']), sp[0]['line']): out.append((tags, w2, what, p, verdict)))
        except (Undecided, Unknown) as e:
            add('O03', None, 'not analysable: %s' % e)
    ctx.cache['oset'] = out
    return out


def result_used(ctx, s):
    """does the parser look at what setVal returns"""
    for f in parsers(ctx, s, 'parse', 'std::list<std::string>') + parsers(ctx, s, 'parseKeyValue', 'std::list<std::string>'):
        for p in run(ctx, s, f):
            for c, pol, ln in p.st.F.pc:
                for x in walk(c):
                    if x[0] == 'sym' and isinstance(x[1], tuple) and x[1] and x[1][0] in ('vres', 'res') and str(x[1][1]).endswith('::setVal'):
                        return True
    return False


def depends(v, T):
    """does a truth value come out differently for different texts"""
    try:
        return len({samples.cond(v, T, t) for t in WORDS}) > 1
    except Unknown:
        return False


def dynamic(ctx, cls):
    """resolve virtual calls on this as on an object of class cls"""
    def over(name):
        ch = chain_of(ctx, cls)
        fs = [f for f in ctx.P.funcs.values() if f.get('cls') in ch and f['name'] == name and f['has']]
        fs.sort(key=lambda f: ch.index(f['cls']))
        return fs[0] if fs else None
    return over


def target_of(b, f):
    n = list(b['target'])[0]
    return n


def sets_present(ctx, s, p):
    pf = present_field(ctx, s)
    v = p.st.env.get(('f', THIS, pf))
    if v is not None and v != ('sym', ('f', THIS, pf), 'bool'):
        return True if v == I(1) else False if v[0] == 'i' else None
    calls = [e for e in all_events(p.ev) if e[0] in ('vcall', 'call') and exact_name(e[2]) == 'setPresent' and e[3] in (THIS, None)]
    return bool(calls)


def root_sym(v):
    """a value read from the object or through one of its pointers"""
    return v is not None and v[0] == 'sym' and isinstance(v[1], tuple) and v[1] and v[1][0] in ('d', 'f', 'F')


def apps(F, tt):
    """[(argument, accepted?)] of the option's test on the path"""
    out = []
    for c, pol, ln in F.pc:
        cc, pl = (c[1], not pol) if c[0] in ('not', 'eq0') else (c, pol)
        if cc[0] == 'op' and cc[1] == 'app' and cc[3][0] == 'sym' and cc[3][1][0] == 'f' and cc[3][1][2] == tt:
            out.append((cc[4] if len(cc) > 4 else None, pl))
    return out


def parse_facts(F):
    """[(source text, type, ok)]"""
    out = []
    for c, pol, ln in F.pc:
        cc, pl = (c[1], not pol) if c[0] in ('not', 'eq0') else (c, pol)
        if cc[0] == 'op' and cc[1] == 'parses':
            out.append((cc[3], cc[5] if len(cc) > 5 else None, pl))
    return out


def one_setter(ctx, s, cls, f, b, add, looks):
    vt = strip(b['vt'])
    if b['kind'] == 'vector':
        vt = strip(vt[len('std::vector<'):].rstrip('>').strip())
    tfield = list(b['target'])[0]
    tt = list(b['test'])[0] if len(b['test']) == 1 else None
    ps = ctx.run(f, key='plain')[1]
    T = ('sym', ('arg', 0), 'std::string')
    src = ('s', (('w', T),))
    for p in ps:
        wr = [e for e in all_events(p.ev) if e[0] == 'wr' and root_d(e[2]) is not None]
        ftype = [x['t'] for c in chain_of(ctx, cls) for x in ctx.P.records[c]['fields'] if x['n'] == tfield][0]
        tptr = ('sym', ('f', THIS, tfield), strip(ftype) if False else ftype)
        mine = [e for e in wr if root_d(e[2])[1][0] == 'sym' and root_d(e[2])[1][1] == ('f', THIS, tfield)]
        ins = [e for e in all_events(p.ev) if e[0] == 'in' and root_d(e[2] if isinstance(e[2], tuple) else None) is not None]
        if b['kind'] == 'flag':
            if p.kind == 'throw':
                add('O01 O03', False, 'a presence flag rejects a value', p)
                continue
            vals = [e[3] for e in mine]
            if vals and vals[-1] == I(1):
                add('O03', True)
            elif all(v[0] == 'i' for v in vals):
                add('O03', False, 'a presence flag given with a value is not set', p)
            elif depends(vals[-1], T):
                add('O03', False, 'whether a presence flag is set depends on the text', p)
            else:
                add('O03', None, 'value of the flag not recognised')
            pr = sets_present(ctx, s, p)
            add('O03', pr, 'an option given with a value is not marked as present', p)
            continue
        other = [e for e in wr if e not in mine]
        if other:
            add('O02', False, 'changes %s, which is not the option\'s own variable' % ploc(other[0][2]), p)
        tests = apps(p.st.F, tt) if tt else []
        pf = parse_facts(p.st.F)
        words = feasible_words(p.st.F, T) if vt == 'bool' else None
        if p.kind == 'throw':
            if mine or any(True for e in ins if root_d(e[2])[1][1:2] == (('f', THIS, tfield),)):
                add('O02', False, 'a rejected value has already changed the variable', p)
            else:
                add('O02', True)
            good = any(not ok for a, ok in tests) or any(not ok for a, t, ok in pf)
            if vt == 'bool' and words is not None:
                bad = [x for x in words if x in TRUTH]
                if not any(not ok for a, ok in tests) and bad:
                    add('O01 O02', False, 'the text %r is refused for a truth value' % bad[0], p)
                    continue
                good = good or words is not None
            if good:
                add('O01', True)
            elif understood_pc(p.st.F, T):
                add('O01 O02', False, 'a value is refused although it converts and its test accepts it', p)
            else:
                add('O01', None, 'why the value is refused was not recognised')
            continue
        # accepted
        if not mine:
            if p.val == I(0) and looks:
                add('O02', None, 'refusal by return value')
            elif p.st.imprecise:
                add('O02', None, 'imprecise')
            else:
                why = 'an accepted value is not stored' if not any(not ok for a, ok in tests) and not any(not ok for a, t, ok in pf) else 'a value that is not acceptable is dropped without an error'
                add('O01 O02', False, why, p)
            continue
        W = stored(b, mine)
        if W is None:
            n = len([e for e in mine])
            add('O02', None if n == 1 else None, 'what is stored was not recognised')
            continue
        if isinstance(W, str):
            add('O02', False, W, p)
            continue
        if tt is not None:
            if not tests:
                add('O02', False, 'the value is stored without being checked by the option\'s test', p)
            elif any(same_value(a, W) and ok for a, ok in tests):
                add('O02', True)
            elif any(same_value(a, W) and not ok for a, ok in tests):
                add('O02 O01', False, 'a value is stored although its test rejects it', p)
            else:
                add('O02', False if all(understood(a) or a[0] == 'op' or root_sym(a) for a, ok in tests if a is not None) else None, 'the test is applied to %s but %s is stored' % (pv(tests[0][0]), pv(W)), p)
        conversion(ctx, vt, W, T, src, pf, words, p, add)
        add('O03', sets_present(ctx, s, p), 'an option given with a value is not marked as present', p)


def stored(b, mine):
    """the value that ends up in the variable, or appended to it"""
    if b['kind'] == 'plain':
        return mine[-1][3]
    vals = []
    for e in mine:
        op, v = e[4] if len(e) > 4 else None, e[3]
        if v is not None and v[0] == 'c' and v[1] == 'push_back':
            vals.append(v)
        elif v is not None and v[0] == 'c' and v[1] in ('ins', 'push_front'):
            return 'the value is not appended at the end'
        elif v is not None and v[0] == 'c' and v[1] == 'empty':
            return 'earlier values are discarded'
        else:
            return None
    if len(vals) != 1:
        return 'the value is appended %d times' % len(vals)
    base = vals[0][2]
    if base[0] == 'c' and base[1] == 'sym':
        base = base[2]
    if base[0] != 'sym':
        return 'earlier values are changed' if base[0] == 'c' and base[1] in ('empty', 'pop_front', 'pop_back', 'erase', 'ins', 'with', 'push_back') else None
    return vals[0][3]


def feasible_words(F, T):
    """the sample words a path may have been taken for; None if a condition is not understood"""
    out = []
    for t in WORDS:
        ok = True
        for c, pol, ln in F.pc:
            if not samples.mentions(c, T) or any(x[0] == 'op' and x[1] == 'app' for x in walk(c)):
                continue
            if samples.cond(c, T, t) is not pol:
                ok = False
                break
        if ok:
            out.append(t)
    return out


def understood_pc(F, T):
    for c, pol, ln in F.pc:
        cc = c[1] if c[0] in ('not', 'eq0') else c
        if cc[0] == 'op' and cc[1] in ('app', 'parses'):
            continue
        return False
    return True


def conversion(ctx, vt, W, T, src, pf, words, p, add):
    if vt == 'std::string':
        if as_text(W) == (('w', T),):
            add('O02', True)
        elif as_text(W) is not None or W[0] == 'op':
            # compare on samples
            bad = None
            for t in ['a', 'a b', ' x', 'x ', '  ', '"q"', '', 'a\tb', '-x', '0', 'A']:
                if any(samples.cond(c, T, t) is not pol for c, pol, ln in p.st.F.pc if samples.mentions(c, T) and not any(x[0] == 'op' and x[1] == 'app' for x in walk(c))):
                    continue
                if samples.text(W, T, t) != t:
                    bad = t
            add('O02', False if bad is not None else None, 'the text %r is stored as something else' % bad, p)
        else:
            add('O02', None, 'the stored text was not recognised')
        return
    if vt == 'bool':
        if words is None:
            add('O02', None, 'condition on the text not understood')
            return
        for t in words:
            if t not in TRUTH and t not in REFUSED:
                continue
            try:
                v = bool(samples.num(W, T, t)) if W[0] not in ('not', 'eq0', 'le0', 'eqt') else samples.cond(W, T, t)
            except Unknown as e:
                add('O02', None, 'stored truth value not understood: %s' % pv(e.args[0]))
                return
            if t in REFUSED:
                add('O02 O01', False, 'the text %r is accepted as a truth value' % t, p)
            else:
                add('O02', v is TRUTH[t], 'the text %r is stored as %s' % (t, v), p)
        return
    if W[0] == 'op' and W[1] == 'parse':
        if W[3] != src:
            add('O02', False if understood(W[3]) else None, 'converts %s instead of the text given' % pv(W[3]), p)
        elif strip(W[2]) != vt:
            extra = not understood_pc(p.st.F, T)
            add('O02', None if extra else False, 'the text is converted as %s, not as %s' % (W[2], vt), p)
        elif W[4] != ():
            add('O02', None, 'conversion after other input')
        elif not any(a == src and ok and strip(t) == vt for a, t, ok in pf):
            add('O02 O01', False, 'the value is stored without a check that the text converts', p)
        else:
            add('O02', True)
    elif any(x[0] == 'sym' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'failval' for x in walk(W)):
        add('O02 O01', False, 'the value is stored although the text does not convert', p)
    elif W[0] in ('i', 'fl'):
        add('O02', False, 'the constant %s is stored whatever the text' % pv(W), p)
    else:
        inner = [x for x in walk(W) if x[0] == 'op' and x[1] == 'parse']
        if len(inner) == 1 and W[0] == 'op' and W[1] in ('i2f', 'narrow', 'wrap') and strip(inner[0][2]) in ('int', 'float', 'bool', 'short', 'char') and understood_pc(p.st.F, T):
            add('O02', False, 'the text is converted as %s, not as %s' % (inner[0][2], vt), p)
            return
        add('O02', None, 'the stored value %s was not recognised%s' % (pv(W), '' if inner else ''))


def one_presence(ctx, s, cls, f, b, add):
    """an option that appears without a value"""
    for p in ctx.run(f, key='plain')[1]:
        if p.kind == 'throw':
            add('O03 O01', False, 'marking an option as present throws', p)
            continue
        add('O03', sets_present(ctx, s, p), 'the option is not marked as present', p)
        wr = [e for e in all_events(p.ev) if e[0] == 'wr' and root_d(e[2]) is not None]
        tf = list(b['target'])[0]
        mine = [e for e in wr if root_d(e[2])[1][0] == 'sym' and root_d(e[2])[1][1] == ('f', THIS, tf)]
        if b['kind'] == 'flag':
            if mine and mine[-1][3] == I(1):
                add('O03', True)
            else:
                add('O03', False if all(e[3][0] == 'i' for e in mine) else None, 'the variable of a presence flag that appeared is not set', p)
        else:
            add('O02', not wr, 'an option without a value changes a variable', p)


# ------------------------------------------------------------------ presence queries
def queries(ctx, s):
    out = []
    # nothing but registration makes an entry: looking up would leave one that leads to no option
    for f in ctx.fns_of(OPT):
        if f['kind'] != 'fn' or len(f['params']) != 1 or not (f['name'] == 'isPresent' or strip(f.get('ret') or '').endswith(('OptBase>', 'OptBase_p'))):
            continue
        n = 0
        for p in ctx.run(f, key='plain')[1]:
            for e in all_events(p.ev):
                if e[0] == 'autoins' and e[2] in (('f', THIS, s.longmap), ('f', THIS, s.shortmap)) and not n and not any(
                        x[0] == 'wr' and x[2] == ('e', e[2], e[3]) for x in all_events(p.ev)):
                    n = 1
                    out.append(('O03', '%s line %s' % (lw(ctx, f), e[1]), 'looking up an unknown name leaves an entry that leads to no option', p, None if p.st.imprecise else False))
        if not n:
            out.append(('O03', lw(ctx, f), '', None, True))
    pf = present_field(ctx, s)
    fs = ctx.need(ctx.fns_of(OPT, 'isPresent', access='public'), OPT + '::isPresent')
    for f in fs:
        w = lw(ctx, f)
        isc = strip(f['params'][0]['t']) == 'char'
        key = ('sym', ('arg', 0), 'char') if isc else key_str(f, 0)
        mapn = s.shortmap if isc else s.longmap

        def add(verdict, what='', p=None):
            out.append(('O03', w, what, p, verdict))
        for p in ctx.run(f, key='plain')[1]:
            if p.kind == 'throw':
                add(False, 'asking for presence throws %s' % p.st.exc, p)
                continue
            found = None
            wrong = None
            for c, pol, ln in p.st.F.pc:
                if c[0] == 'op' and c[1] == 'has':
                    if field_of(c[3]) == mapn and c[4] == key:
                        found = pol
                    elif field_of(c[3]) in (s.longmap, s.shortmap):
                        wrong = field_of(c[3])
            if any(e[0] == 'autoins' for e in all_events(p.ev)):
                add(False, 'asking for an unknown name enters it', p)
                continue
            v = p.val
            if found is False:
                add(True if v == I(0) else False if v is not None and v[0] == 'i' else None, 'an unknown name is reported as present', p)
            elif found is True:
                if v is not None and v[0] == 'sym' and v[1][0] == 'f' and v[1][2] == pf and v[1][1][0] == 'd':
                    q = v[1][1][1]
                    ok = q[0] == 'sym' and q[1][0] == 'E' and field_of(q[1][1]) == mapn and q[1][2] == key
                    add(ok, 'the presence of another option is reported', p)
                elif v is not None and v[0] == 'i':
                    dec = [pol for c, pol, ln in p.st.F.pc for x in walk(c) if x[0] == 'sym' and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] == pf]
                    nul = null_found(s, p.st.F)
                    if nul:
                        continue
                    F = p.st.F
                    pol = None
                    for c, pl, ln in F.pc:
                        cc, pp_ = (c[1], not pl) if c[0] in ('not', 'eq0') else (c, pl)
                        if cc[0] == 'sym' and isinstance(cc[1], tuple) and cc[1][0] == 'f' and cc[1][2] == pf:
                            pol = pp_
                    add(None if pol is None and dec else (bool(v[1]) is pol) if pol is not None else False, 'the answer is %s whatever the option' % v[1], p)
                elif v is not None and v[0] == 'not' and v[1][0] == 'sym':
                    add(False, 'presence is reported the wrong way round', p)
                else:
                    add(None, 'the answer %s was not recognised' % (pv(v) if v else None))
            elif wrong:
                add(False, 'the name is looked up among the %s names' % ('long' if wrong == s.longmap else 'one-letter'), p)
            else:
                add(None, 'how the option is found was not recognised')
    return out


# ------------------------------------------------------------------ positional arguments
def positional(ctx, s):
    out = []
    base = None
    if s.pos is None:
        return [('O05', OPT + '::getPosArgs', 'the list of positional arguments was not recognised', None, None)]
    posf = s.pos[2]

    def is_list(t):
        return field_of(t) == posf
    for f in ctx.fns_of(OPT, 'getPosArgs', access='public'):
        for p in ctx.run(f, key='plain')[1]:
            out.append(('O05', lw(ctx, f), 'does not return the positional arguments', p, p.kind == 'ret' and p.val == ('loc', s.pos)))
    for f in ctx.need(ctx.fns_of(OPT, 'numPosArgs', access='public'), OPT + '::numPosArgs'):
        for p in ctx.run(f, key='plain')[1]:
            v = p.val
            ok = v is not None and v[0] == 'op' and v[1] in ('size', 'len') and is_list(v[3])
            un = v is None or v[0] not in ('i', 'lin', 'op')
            out.append(('O05', lw(ctx, f), 'the count %s is not the number of positional arguments' % (pv(v) if v else None), p, True if ok else None if un else False))
    for f in ctx.need(ctx.fns_of(OPT, 'getPosArg', access='public'), OPT + '::getPosArg'):
        idx = ('sym', ('arg', 0), strip(f['params'][0]['t']))
        for p in ctx.run(f, key='plain')[1]:
            w = lw(ctx, f)
            F = p.st.F
            if p.kind == 'throw':
                out.append(('O05', w, 'an index that does not exist throws %s' % p.st.exc, p, False))
                continue
            bad = [e for e in all_events(p.ev) if e[0] == 'bound' and e[5] is not True]
            if bad:
                out.append(('O05', w, 'reads position %s of the list without knowing that it exists' % pv(idx), p, False))
                continue
            v = as_text(p.val)
            if v is None:
                out.append(('O05', w, 'the result was not recognised', None, None))
            elif v == ():
                # only when there is no such argument
                out.append(('O05', w, 'an argument that exists is reported as empty', p, empty_only(F, idx, is_list)))
            elif len(v) == 1 and v[0][0] == 'w' and v[0][1][0] == 'sym' and v[0][1][1][0] == 'E' and is_list(v[0][1][1][1]):
                k = v[0][1][1][2]
                out.append(('O05', w, 'index i gives argument %s' % pv(k), p, True if eq_index(F, k, idx) else False if k[0] in ('lin', 'i', 'sym') else None))
            else:
                out.append(('O05', w, 'the result %s was not recognised' % pv(p.val), None, None))
    return out


def eq_index(F, a, b):
    return a == b or F.decide(eq0(sub(a, b))) is True


def empty_only(F, idx, is_list):
    """does the path know that the index is out of range"""
    if F.decide(le0(addc(idx, 1))) is True:
        return True
    size = None
    for c, pol, ln in F.pc:
        for x in walk(c):
            if x[0] == 'op' and x[1] in ('size', 'len') and is_list(x[3]):
                size = x
    if size is None:
        return False if F.decide(le0(addc(idx, 1))) is None else None
    if F.decide(le0(sub(size, idx))) is True or F.decide(eq0(size)) is True:
        return True
    d = F.decide(le0(addc(sub(idx, size), 1)))
    return False if d is True else None if d is None and not simple_pc(F, idx, size) else False


def simple_pc(F, idx, size):
    return all(scan.uses_only(c, {idx, size}) for c, pol, ln in F.pc)


# ------------------------------------------------------------------ help
def helper(ctx, s):
    """printHelp lists every option and never throws"""
    out = []
    fs = ctx.need(ctx.fns_of(OPT, 'printHelp', access='public'), OPT + '::printHelp')
    for f in fs:
        w = lw(ctx, f)
        ps = ctx.run(f, key='help', opaque=lambda g: g.get('cls') == 'SoDa::Format')[1]
        recs = []
        for p in ps:
            if p.kind == 'throw':
                v = unfilled(p)
                out.append(('O01', w, 'printing the help throws %s' % p.st.exc, p, v))
            else:
                out.append(('O01', w, '', None, True))
            for r in loops_of(p.ev):
                if r not in recs:
                    recs.append(r)
        over = [r for r in recs if r.cloc is not None and r.cloc in (('f', THIS, s.longmap), ('f', THIS, s.shortmap))]
        # the map may be copied first
        over += [r for r in recs if r not in over and r.cont is not None and field_of(r.cont) in (s.longmap, s.shortmap)]
        lg = [r for r in over if field_of(r.cont) == s.longmap or r.cloc == ('f', THIS, s.longmap)]
        if not lg:
            sh = bool(over)
            out.append(('O08', w, 'the help is made from the one-letter names: options that share one are missing' if sh else 'no loop over the options', None, False if sh else None))
            continue
        good = []
        for r in lg:
            names = [names_in(s, r, b) for k, h, b, bk in r.iters]
            good.append(all(names) and r.kind == 'foreach' and all(kd in ('cond', 'throw') for k, kd, st, v in r.exits))
        bad = None
        if any(good):
            out.append(('O08', w, '', None, True))
        elif all(r.kind == 'foreach' for r in lg) and len(lg) == 1:
            b = [b for k, h, b, bk in lg[0].iters if not names_in(s, lg[0], b)]
            brk = [1 for k, kd, st, v in lg[0].exits if kd not in ('cond', 'throw')]
            if b and all(not opaque_out(x) for x in b):
                out.append(('O08', w, 'an option is left out of the help', [pe_safe(e) for e in b[0].ev][:20], False))
            elif brk:
                out.append(('O08', w, 'the list of options stops early', None, False))
            else:
                out.append(('O08', w, 'what is printed for an option was not recognised', None, None))
        else:
            out.append(('O08', w, 'the loop over the options was not recognised', None, None))
        # every path goes through it
        for p in ps:
            if p.kind == 'ret' and not any(e[0] == 'loop' and e[2] in lg for e in p.ev):
                F = p.st.F
                emp = any(c[0] in ('eq0',) and pol and any(x[0] == 'op' and x[1] in ('size', 'len') and field_of(x[3]) in (s.longmap, s.shortmap) for x in walk(c)) for c, pol, ln in F.pc)
                out.append(('O08', w, 'help without the list of options', p, True if emp else False))
    return out


def opaque_out(b):
    return False


def pe_safe(e):
    try:
        return pe(e)[:200]
    except Exception:
        return str(e[:3])


def names_in(s, r, b):
    """does the iteration print the option's long name (or its key)"""
    key = None

    def is_name(t):
        """the text holds the name, or a part of it"""
        if not isinstance(t, tuple) or not t:
            return False
        if t == r.elemkey or r.elemkey is not None and ('s', (t,)) == r.elemkey:
            return True
        if t[0] == 'sym':
            x = t[1]
            return isinstance(x, tuple) and len(x) > 2 and x[0] == 'f' and x[2] == 'long_name' and x[1][0] == 'd' and samples.mentions(x[1][1], r.elem if r.elem is not None else r.elemkey)
        if t[0] == 'loc':
            return is_name(b.env.get(t[1]))
        return any(is_name(x) for x in t if isinstance(x, tuple))
    for e in all_events(b.ev):
        if e[0] == 'out' and is_name(e[4]):
            return True
        if e[0] == 'call' and e[2].startswith('SoDa::Format::') and any(is_name(a) for a in e[4] if isinstance(a, tuple)):
            return True
    return False


def unfilled(p):
    """a Format text with constant placeholders: do the values cover them?  True: it cannot throw"""
    th = [e for e in p.ev if e[0] == 'throw']
    if not th or 'SoDa::Format' not in str(th[-1][3]):
        return False
    texts, adds = [], {}
    for e in p.ev:
        if e[0] == 'call' and e[2].startswith('SoDa::Format::'):
            n = exact_name(e[2])
            if n == 'Format':
                lit = as_text(e[4][0]) if e[4] else None
                if lit is None or any(q[0] != 'lit' for q in lit):
                    return None
                texts.append((e[3], ''.join(q[1] for q in lit)))
            elif n.startswith('add'):
                adds[e[3]] = adds.get(e[3], 0) + 1
    if not texts:
        return None
    for o, t in texts:
        import re
        ns = [int(x) for x in re.findall(r'%([0-9]+)', t.replace('%%', ''))]
        have = adds.get(o, 0)
        if ns and max(ns) + 1 > have:
            return False
    return True


# ------------------------------------------------------------------ command strings and arrays
def builders(ctx, s):
    """private functions that make a list of tokens: {'string': f, 'array': f}"""
    out = {}
    for f in ctx.P.funcs.values():
        if f['has'] and strip(f['ret']) in ('std::list<std::string>',) and f.get('cls') in (OPT, None, '') and f['qn'].startswith('SoDa::') and f['qn'] not in ('SoDa::split',):
            ts = [p['t'] for p in f['params']]
            if len(ts) == 1 and strip(ts[0]) == 'std::string':
                out['string'] = f if 'string' not in out else None
            elif len(ts) == 2 and 'char **' in ts[1]:
                out['array'] = f if 'array' not in out else None
    return {k: v for k, v in out.items() if v is not None}


def wrappers(ctx, s):
    """parse(argc, argv), parse(string) and parseKeyValue(string) hand over to the list parsers"""
    if 'owrap' in ctx.cache:
        return ctx.cache['owrap']
    out = []
    bs = builders(ctx, s)
    pl = parsers(ctx, s, 'parse', 'std::list<std::string>')
    kl = parsers(ctx, s, 'parseKeyValue', 'std::list<std::string>')
    if len(pl) != 1 or len(kl) != 1:
        raise Undecided('list parsers not recognised')
    kv = kvp_field(ctx, s)
    keys = {pl[0]['key'], kl[0]['key']} | {f['key'] for f in bs.values()}
    for f in [g for g in ctx.fns_of(OPT, access='public') if g['name'] in ('parse', 'parseKeyValue') and g['key'] not in (pl[0]['key'], kl[0]['key'])]:
        w = lw(ctx, f)
        arr = len(f['params']) == 2
        ps = run(ctx, s, f, extra=tuple(sorted(keys)))
        for p in ps:
            tags = 'O01 O07 O06' if f['name'] == 'parseKeyValue' or not arr else 'O01 O07'
            if p.kind == 'throw':
                if not any(e[0] == 'throw' and str(e[3]) in ('via ' + pl[0]['qn'], 'via ' + kl[0]['qn']) for e in p.ev):
                    out.append(('O01', w, 'an exception %s leaves the parse' % p.st.exc, p, False))
                continue          # else decided on the list parser itself
            calls = [e for e in p.ev if e[0] in ('call', 'rcall') and e[5] in (pl[0]['key'], kl[0]['key'])]
            mode = True if f['name'] == 'parseKeyValue' else kmode(p, kv)
            if not calls:
                if p.val is None or p.val[0] != 'i':
                    out.append((tags, w, 'the result was not recognised', None, None))
                elif p.val[1] != 0:
                    ok = no_tokens(p, arr)
                    out.append(('O01 O02', w, 'succeeds without looking at the tokens', p, True if ok else False))
                else:
                    # an empty key=value text is a malformed list
                    emp = empty_text(p, f)
                    out.append(('O01 O07' if mode else 'O01', w, 'fails without looking at the tokens', p, True if emp and mode is not False else False if not emp else None))
                continue
            if len(calls) != 1:
                out.append(('O02 O05', w, 'the tokens are parsed %d times' % len(calls), p, False))
                continue
            c = calls[0]
            iskv = c[5] == kl[0]['key']
            if mode is None:
                out.append((tags, w, 'the kind of parser is chosen without regard to how the object was made', p, False if kv else None))
            elif iskv != mode:
                out.append((tags, w, 'a %s is read by the %s parser' % ('key=value list' if mode else 'command line', 'key=value' if iskv else 'command line'), p, False))
            else:
                out.append((tags, w, '', None, True))
            v = p.val
            own = v is not None and v[0] == 'sym' and v[1][0] == 'res' and v[1][1] == c[2]
            if own:
                out.append(('O01', w, '', None, True))
            else:
                d = None
                if v is not None and v[0] == 'i':
                    # decided by the call's result?
                    for q, pol, ln in p.st.F.pc:
                        qq, pp_ = (q[1], not pol) if q[0] in ('not', 'eq0') else (q, pol)
                        if qq[0] == 'sym' and qq[1][0] == 'res' and qq[1][1] == c[2]:
                            d = pp_
                    out.append(('O01', w, 'the result is %s whatever the parser says' % v[1] if d is None else 'the result is turned round', p, d is not None and bool(v[1]) == d))
                elif v is not None and v[0] in ('not', 'eq0') and v[1][0] == 'sym' and v[1][1][0] == 'res':
                    out.append(('O01', w, 'the result is turned round', p, False))
                else:
                    out.append(('O01', w, 'the result was not recognised', None, None))
            # the tokens handed over
            a = c[4][0] if c[4] else None
            b = bs.get('array' if arr else 'string')
            out.append(tokens_ok(ctx, s, f, p, a, arr, b, mode, w))
    # the parsers refer to each other only this way
    ctx.cache['owrap'] = out
    return out


def tokens_ok(ctx, s, f, p, a, arr, b, mode, w):
    while a is not None and a[0] == 'c' and a[1] == 'sym':
        a = a[2]
    chg = None
    while a is not None and a[0] == 'c' and a[1] in ('pop_front', 'pop_back', 'push_back', 'push_front', 'erase', 'ins', 'with'):
        chg = a[1]
        a = a[2]
        while a is not None and a[0] == 'c' and a[1] == 'sym':
            a = a[2]
    tags = 'O05 O02' if arr else 'O06 O07' if not mode else 'O07'
    if a is None or a[0] != 'sym' or a[1][0] != 'res':
        return (tags, w, 'where the tokens come from was not recognised', None, None)
    fn, args = a[1][1], a[1][-1]
    if mode and not arr:
        if fn != 'SoDa::split':
            return ('O07', w, 'the items are not made by split', None, None)
        whole = lambda x: as_text(x) == (('w', ('sym', ('arg', 0), 'std::string')),)
        squashed = lambda x: x[0] == 'sym' and x[1][0] == 'res' and x[1][1] == 'SoDa::squashSpaces' and whole(x[1][-1][0])
        if not whole(args[0]) and not squashed(args[0]):
            return ('O07', w, 'a text other than the one given is split', p, False if understood(args[0]) else None)
        if as_text(args[1]) != (('lit', ','),):
            return ('O07', w, 'the items are split at %s, not at commas' % pv(args[1]), p, False if understood(args[1]) else None)
    else:
        if b is None or fn != b['qn']:
            return (tags, w, 'where the tokens come from was not recognised', None, None)
        want = [('sym', ('arg', 0), 'int'), ('sym', ('arg', 1), 'char **')] if arr else [None]
        if arr:
            if tuple(args[:2]) != tuple(want):
                return (tags, w, 'other arguments than the ones given are parsed', p, None)
        elif as_text(args[0]) != (('w', ('sym', ('arg', 0), 'std::string')),):
            return (tags, w, 'a text other than the one given is parsed', p, False if understood(args[0]) else None)
    if chg:
        return (tags, w, 'the tokens are changed (%s) before they are parsed' % chg, p, False)
    return (tags, w, '', None, True)


def kvp_field(ctx, s):
    for f in ctx.P.funcs.values():
        if f.get('cls') == OPT and f['kind'] == 'ctor' and f['has'] and not f.get('implicit'):
            for p in ctx.run(f, key='plain')[1]:
                for fl in ctx.P.records[OPT]['fields']:
                    if p.kind == 'ret' and p.st.env.get(('f', THIS, fl['n'])) == ('sym', ('arg', 0), 'bool'):
                        return fl['n']
    return None


def kmode(p, kv):
    for c, pol, ln in p.st.F.pc:
        cc, pl = (c[1], not pol) if c[0] in ('not', 'eq0') else (c, pol)
        if cc[0] == 'sym' and cc[1] == ('f', THIS, kv):
            return pl
    return None


def no_tokens(p, arr):
    if arr:
        return p.st.F.decide(le0(addc(('sym', ('arg', 0), 'int'), -1))) is True
    return False


def empty_text(p, f):
    """the path knows that the text is empty, or that no item came out of it"""
    for c, pol, ln in p.st.F.pc:
        if any(x[0] == 'op' and x[1] in ('len', 'size') and p.st.F.decide(eq0(x)) is True for x in walk(c)):
            return True
        if c[0] == 'eqt' and pol and ('s', ()) in c[1:]:
            return True
    return False


def array_tokens(ctx, s):
    """argv[1..] become the tokens"""
    out = []
    b = builders(ctx, s).get('array')
    if b is None:
        return [('O05', OPT, 'the function that makes tokens from argv was not recognised', None, None)]
    w = lw(ctx, b)
    argc, argv = ('sym', ('arg', 0), 'int'), ('sym', ('arg', 1), 'char **')
    for p in run(ctx, s, b):
        if p.kind != 'ret':
            out.append(('O05 O01', w, 'throws %s' % p.st.exc, p, False))
            continue
        lp = loops_of(p.ev)
        if not lp:
            e = p.val is not None and p.val[0] == 'c' and p.val[1] == 'empty'
            few = p.st.F.decide(le0(addc(argc, -1))) is True
            out.append(('O05 O02', w, 'the arguments are dropped', p, True if e and few else False if e else None))
            continue
        if len(lp) != 1:
            out.append(('O05', w, 'more than one loop', None, None))
            continue
        out.append(('O05 O02', w) + counted(p, lp[0], argc, argv))
    return out


def counted(p, r, argc, argv):
    """-> (what, path, verdict)"""
    idx = [m for m in r.M if r.entry is not None and r.entry.env.get(m) is not None and r.entry.env.get(m)[0] == 'i']
    lst = [m for m in r.M if m not in idx]
    if len(idx) != 1 or len(lst) != 1:
        return ('loop over the arguments not recognised', None, None)
    i, L = idx[0], lst[0]
    st = r.entry.env.get(i)[1]
    for k, h, b, bk in r.iters:
        hi, bi = h.env.get(i), b.env.get(i)
        if hi is None or bi is None:
            return ('loop over the arguments not recognised', None, None)
        step = sub(bi, hi)
        hl, bl = h.env.get(L), b.env.get(L)
        if step != I(1):
            return ('arguments are skipped', p, False) if step[0] == 'i' and step[1] > 1 else ('step not recognised', None, None)
        n = []
        v = bl
        while v is not None and v != hl and v[0] == 'c' and v[1] in ('push_back', 'push_front', 'ins'):
            if v[1] != 'push_back':
                return ('the order of the arguments is changed', p, False)
            n.append(v[3])
            v = v[2]
        if v != hl and not (hl is not None and v == ('c', 'empty') or v is not None and v[0] == 'c' and v[1] == 'empty' and h.F.decide(eq0(clen(hl))) is True):
            if not (v is not None and hl is not None and v[0] == 'c' and v[1] == 'empty' and hl[0] == 'c' and hl[1] == 'empty'):
                return ('what the loop does to the list was not recognised', None, None)
        if len(n) != 1:
            extra = [c for c, pol, ln in b.F.pc[len(h.F.pc):] if not scan.uses_only(c, {hi, argc})]
            return ('an argument becomes %d tokens' % len(n), p, False)
        ps = as_text(n[0])
        if ps is not None and len(ps) == 1 and ps[0][0] == 'sub' and samples.mentions(ps[0], argv):
            return ('only a part of the argument becomes a token', p, False)
        ct = RANGES.get(strip(tyof(hi)))
        if ct is not None and ct[1] < 2 ** 31 - 1:
            return ('the arguments are counted in %s, which wraps around' % strip(tyof(hi)), p, False)
        mem = [x for x in walk(n[0]) if x[0] == 'sym' and isinstance(x[1], tuple) and x[1] and x[1][0] in ('E', 'd', 'idx') and samples.mentions(x, hi) or x[0] == 'op' and samples.mentions(x, hi) and samples.mentions(x, argv)]
        if not samples.mentions(n[0], argv) or not samples.mentions(n[0], hi) and hi[0] != 'i':
            return ('a token other than the argument is taken', None, None)
        if any(x[0] == 'lin' and samples.mentions(x, hi) and x != hi for x in walk(n[0])):
            return ('the token is not the argument at its position', p, False)
    if st != 1:
        return ('the arguments start at %d instead of 1' % st, p, False)
    # the bound
    ks = [st2 for k, kd, st2, v in r.exits if kd == 'cond']
    if len(ks) != len(r.exits) or not ks:
        return ('the loop over the arguments can end early', None, None)
    for k, kd, e, v in r.exits:
        hi = e.env.get(i)
        if e.F.decide(le0(sub(argc, hi))) is not True and not (hi[0] == 'i' and e.F.decide(le0(sub(argc, hi))) is True):
            d = e.F.decide(le0(addc(sub(argc, hi), -1)))
            if d is None and any(samples.mentions(c, argv) and 'char' == strip(tyof(c[1] if c[0] in ('not', 'eq0') else c)) for c, pol, ln in e.F.pc):
                return ('the arguments end at one because of its text', p, False)
            return ('the last argument is not reached', p, False if d is True else None)
    for k, h, b, bk in r.iters:
        hi = h.env.get(i)
        if b.F.decide(le0(addc(sub(hi, argc), 1))) is not True:
            return ('an argument past the last is read', p, False if b.F.decide(le0(sub(hi, argc))) is True else None)
    return ('', None, True)


# ------------------------------------------------------------------ blanks and quotes
def string_tokens(ctx, s):
    b = builders(ctx, s).get('string')
    if b is None:
        return [('O06', OPT, 'the function that cuts a text into tokens was not recognised', None, None)]
    return cut(ctx, s, b)


SPACE = (32, 9, 10, 13, 11, 12)
REPS = SPACE + (34, 39, 97, 45, 61, 92, 44, 48, 127, 200, 255, 1)


def cut(ctx, s, f):
    out = []
    w = lw(ctx, f)
    ps = run(ctx, s, f)
    recs = []
    for p in ps:
        for r in loops_of(p.ev):
            if r not in recs:
                recs.append(r)
    if len(recs) != 1:
        return [('O06', w, 'the text is not read by a single loop', None, None)]
    r = recs[0]
    T = ('sym', ('arg', 0), 'std::string')
    if r.kind not in ('foreach', 'index'):
        return [('O06', w, 'the loop over the text was not recognised', None, None)]
    ch = None
    for k, h, b, bk in r.iters:
        c = scan.char_of(r, b)
        if c is not None:
            ch = c
    if ch is None or not samples.mentions(ch, T):
        return [('O06', w, 'the character looked at was not recognised', None, None)]
    lists = [m for m in r.M if any(v is not None and v[0] == 'c' and v[1] != 'sym' or v is not None and strip_type(v).startswith('std::list') for v in vals_of(r, m))]
    strs = [m for m in r.M if any(v is not None and v[0] == 's' for v in vals_of(r, m))]
    rest = [m for m in r.M if m not in lists and m not in strs and m not in (getattr(r, 'steppers', None) or [])]
    if len(lists) != 1 or len(strs) != 1:
        return [('O06', w, 'the state of the scanner was not recognised', None, None)]
    L, C = lists[0], strs[0]
    for m in rest:
        if r.entry.env.get(m) is None or r.entry.env[m][0] != 'i':
            return [('O06', w, 'the state of the scanner was not recognised', None, None)]
    start = (r.entry_key, (False, False), tuple(r.entry.env[m][1] for m in rest))
    seen, work = {start}, [start]
    bykey = {}
    for k, h, b, bk in r.iters:
        bykey.setdefault(k, []).append((h, b, bk))
    if as_units(r.entry.env.get(C), None, None) != [] or not is_empty(r.entry.env.get(L)):
        return [('O06', w, 'the scanner does not start empty', None, None)]
    bad = set()

    def report(verdict, what, path=None):
        if verdict is True or (verdict, what) not in bad:
            bad.add((verdict, what))
            out.append(('O06', w, what, path, verdict))
    steps = 0
    while work:
        key, (q, ne), asg = work.pop()
        for h, b, bk in bykey.get(key, []):
            F0 = b.F.copy()
            ok = True
            hc, hl = h.env.get(C), h.env.get(L)
            for m, a in zip(rest, asg):
                hm = h.env.get(m)
                if F0.decide(eq0(addc(hm, -a)) if hm[0] not in ('le0', 'eq0', 'not') else hm) is False and hm[0] != 'i' or hm[0] == 'i' and hm[1] != a:
                    ok = False
                elif hm[0] != 'i':
                    F0.assume(eq0(addc(hm, -a)), True)
            if not ok:
                continue
            d = F0.decide(eq0(slen(hc)))
            if d is True and ne or d is False and not ne:
                continue
            hs = {h.env.get(m) for m in rest}
            atoms = {ch, hc} | {x for x in hs if x is not None} | head_atoms(hc, hl)
            if not scan.only_about(b.F, len(h.F.pc), atoms):
                report(None, 'a condition looks at more than the character: %s' % [pv(c) for c, pol, ln in b.F.pc[len(h.F.pc):] if not scan.uses_only(c, atoms)][:1])
                continue
            cs = scan.chars(F0, ch)
            for rep in REPS:
                x = rep if rep in cs else rep - 256 if rep - 256 in cs else None
                if x is None:
                    continue
                steps += 1
                eq_, enew, epush = reference(q, ne, rep)
                pu = pushed(b.env.get(L), hl, hc, ch, ne)
                cu = as_units(b.env.get(C), hc, ch, ne)
                if pu is None or cu is None:
                    report(None, 'what an iteration does was not recognised')
                    continue
                nm = names(rep, q)
                if pu != epush:
                    report(False, '%s: %s' % (nm, explain(pu, epush)), trail_(h, b))
                    continue
                if cu != enew:
                    report(False, '%s: the token being read becomes %s instead of %s' % (nm, show(cu), show(enew)), trail_(h, b))
                    continue
                report(True, '')
                nb = []
                for m in rest:
                    v = b.env.get(m)
                    F1 = F0.copy()
                    F1.assume(eq0(addc(ch, -x)), True)
                    if v[0] != 'i':
                        lo, hi = F1.irange(v)
                        v = I(int(lo)) if lo == hi else v
                    if v[0] != 'i':
                        nb = None
                        break
                    nb.append(v[1])
                if nb is None:
                    report(None, 'the mode of the scanner was not recognised')
                    continue
                nx = (bk, (eq_, bool(enew) if enew != ['old'] else ne), tuple(nb))
                if nx not in seen:
                    seen.add(nx)
                    work.append(nx)
    # ---- after the last character
    for p in ps:
        lp = [e for e in p.ev if e[0] == 'loop' and e[2] is r]
        if not lp:
            F = p.st.F
            emp = F.decide(eq0(slen(('s', (('w', T),))))) is True
            if is_empty(p.val) and emp:
                report(True, '')
            else:
                report(None, 'a path without the scan')
            continue
        e = lp[0]
        if e[4] != 'cond':
            report(None, 'the scan can end early')
            continue
        h = r.heads.get(e[3])
        for key, (q, ne), asg in sorted(seen, key=str):
            if key != e[3]:
                continue
            hc, hl = h.env.get(C), h.env.get(L)
            F0 = p.st.F.copy()
            ok = True
            for m, a in zip(rest, asg):
                hm = h.env.get(m)
                if hm[0] == 'i':
                    ok = ok and hm[1] == a
                elif F0.decide(eq0(addc(hm, -a))) is False:
                    ok = False
            d = F0.decide(eq0(slen(hc)))
            if not ok or d is True and ne or d is False and not ne:
                continue
            v = p.val
            if v is not None and v[0] == 'loc':
                v = p.I.read(p.st, v[1])
            pu = pushed(v, hl, hc, ch, ne)
            if pu is None:
                report(None, 'what is returned was not recognised')
            elif ne and pu != [['old']]:
                report(False, 'at the end of the text%s: %s' % (' inside quotes' if q else '', explain(pu, [['old']])), p)
            elif not ne and pu not in ([], [[]] if q else []):
                report(False, 'at the end of the text: %s' % explain(pu, []), p)
            else:
                report(True, '')
    return out


def trail_(h, b):
    return ['assume@%s %s%s' % (ln, '' if pol else 'not ', pv(c)) for c, pol, ln in b.F.pc[len(h.F.pc):]]


def strip_type(v):
    return strip(v[2]) if v[0] == 'sym' else strip(v[3]) if v[0] == 'L' else ''


def vals_of(r, m):
    out = [b.env.get(m) for k, h, b, bk in r.iters] + [h.env.get(m) for k, h, b, bk in r.iters]
    if r.entry is not None:
        out.append(r.entry.env.get(m))
    return out


def head_atoms(hc, hl):
    out = set()
    if hc is not None:
        for x in walk(hc):
            if x[0] in ('L', 'sym'):
                out.add(x)
    return out


def is_empty(v):
    return v is not None and v[0] == 'c' and v[1] == 'empty'


def as_units(v, hc, ch, ne=True):
    """a string as ['old'] + characters, relative to the token held at the start of the iteration"""
    if v is None:
        return None
    if v[0] == 'L' or v[0] == 'sym':
        v = ('s', (('w', v),))
    if v[0] != 's':
        return None
    old = None
    if hc is not None:
        old = hc if hc[0] == 's' else ('s', (('w', hc),))
    out = []
    ps = list(v[1])
    if old is not None and old[1] and tuple(ps[:len(old[1])]) == tuple(old[1]):
        ps = ps[len(old[1]):]
        if ne:
            out.append('old')
    for q in ps:
        if q[0] == 'chr' and q[1] == ch:
            out.append('c')
        elif q[0] == 'lit':
            out += list(q[1])
        else:
            return None
    return out


def pushed(v, hl, hc, ch, ne):
    out = []
    while v is not None and v != hl:
        if v[0] == 'c' and v[1] == 'push_back':
            u = as_units(v[3], hc, ch, ne)
            if u is None:
                return None
            out.append(u)
            v = v[2]
        elif v[0] == 'c' and v[1] in ('empty',) and (is_empty(hl)):
            break
        elif v[0] == 'c' and v[1] == 'sym' and v[2] == hl:
            break
        else:
            return None
    return out[::-1] if v is not None else None


def reference(q, ne, rep):
    """(mode, token being read, tokens pushed)"""
    old = ['old'] if ne else []
    if rep in SPACE:
        if q:
            return q, old + ['c'], []
        return q, [], [old] if ne else []
    if rep == 34:
        if q:
            return False, [], [old]
        return True, old, []
    return q, old + ['c'], []


def names(rep, q):
    n = 'white space (code %d)' % rep if rep in SPACE else 'a quote' if rep == 34 else 'the character with code %d' % rep
    return n + (' inside quotes' if q else ' outside quotes')


def show(u):
    return '"' + ''.join('<token>' if x == 'old' else '<c>' if x == 'c' else x for x in u) + '"'


def explain(got, exp):
    if not got:
        return 'no token is kept, expected %s' % ', '.join(show(u) for u in exp)
    if not exp:
        return 'the token %s is kept' % ', '.join(show(u) for u in got)
    return 'the tokens %s are kept instead of %s' % (', '.join(show(u) for u in got), ', '.join(show(u) for u in exp))


# ------------------------------------------------------------------ key=value items
RAW = ['', ' ', 'a', 'a=b', ' a = b ', 'a=b=c', '=b', 'a=', '=', '==', 'help', 'help=1', ' help', 'helpx', 'a=help', 'ab=cd', 'a b=c  d', 'a=-5', '-a=1', 'ab', 'x=0', 'h', 'help ', 'a=b c', '--help', 'a==b', 'xy=yx=xy']


def keyvalue(ctx, s):
    if 'okv' in ctx.cache:
        return ctx.cache['okv']
    f = parsers(ctx, s, 'parseKeyValue', 'std::list<std::string>')[0]
    w = lw(ctx, f)
    ps = run(ctx, s, f)
    out = []
    recs = []
    for p in ps:
        for r in loops_of(p.ev):
            if r not in recs:
                recs.append(r)
    from .options import acts_of, found_facts, same_ptr, lookup, null_found, impossible
    use = [r for r in recs if any(acts_of(ctx, s, b.ev, None) for k, h, b, bk in r.iters)]
    if len(use) != 1:
        raise Undecided('the items are not read by a single loop')
    r = use[0]
    if r.kind not in ('foreach', 'index') or r.elem is None:
        raise Undecided('the loop over the items was not recognised')
    el = set()
    for k, h, b, bk in r.iters:
        src = [c for c, pol, ln in b.F.pc] + [e[4] for e in b.ev if e[0] in ('call', 'vcall')]
        for t in src:
            for x in walk(t):
                if x[0] == 'sym' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'E' and strip(x[2]) == 'std::string' and field_of(x[1][1]) is None:
                    el.add(x)
    if len(el) != 1:
        raise Undecided('what an item is was not recognised')
    T = list(el)[0]
    at = samples.Atoms(T)
    lits = set()
    for k, h, b, bk in r.iters:
        for c, pol, ln in b.F.pc:
            for x in walk(c):
                if x[0] == 'eqt':
                    for y in x[1:]:
                        if y[0] == 's' and y[1] and all(q[0] == 'lit' for q in y[1]):
                            lits.add(''.join(q[1] for q in y[1]))
    texts = RAW + sorted(x for l in lits for x in (l, l + '=1', 'a=' + l, l + 'x'))

    def add(tags, verdict, what='', path=None):
        out.append((tags, w, what, path, verdict))

    def rel(c):
        return samples.mentions(c, T) and not (c[0] == 'op' and c[1] == 'has') and not any(x[0] == 'sym' and isinstance(x[1], tuple) and x[1] and x[1][0] in ('vres', 'f') for x in walk(c)) and not (c[0] == 'eqt' and any(y[0] in ('null', 'ptr') or y[0] == 'sym' and y[1][0] == 'E' and y != T for y in c[1:]))
    # the key the text reaches a registered null pointer with is no case of its own

    def check(F, h, ev, failed, ret, path):
        acts = acts_of(ctx, s, ev, None)
        facts = found_facts(s, F)
        threw = [e for e in ev if e[0] == 'throw' and 'via' in str(e[3]) and exact_name(str(e[3])) in ('setVal', 'setPresent')]
        done = set()
        for t in texts:
            try:
                if any(samples.cond(c, T, t) is not pol for c, pol, ln in F.pc if rel(c)):
                    continue
                v = judge(t, acts, facts, failed, ret, threw, F)
            except Unknown as e:
                add('O07 O01', None, 'condition or value not understood: %s' % pv(e.args[0]))
                return
            if v in done:
                continue
            done.add(v)
            tags, verdict, what = v
            add(tags, verdict, what if not what else 'item %r: %s' % (t, what), path)

    def judge(t, acts, facts, failed, ret, threw, F):
        sq = samples.squash(t)
        key, eq, val = sq.partition('=')
        vals = [a for a in acts if a[0] == 'setVal']
        pres = [a for a in acts if a[0] == 'setPresent']
        if failed and ret is None:
            return ('O01', None, 'result not recognised')
        if failed and ret != 0:
            return ('O01 O07', False, 'parsing succeeds although it stops before the last item')
        if key == 'help':
            if not failed:
                return ('O01', False, 'a request for help does not end the parse')
            return ('O07 O01', True, '') if not acts else ('O07', False, 'a request for help changes an option')
        good = None
        for mk, kt, fo in facts:
            try:
                if mk == 'long' and samples.text(kt, T, t) == key:
                    good = fo
            except Unknown:
                raise
        if good is None:
            if sq == '' and not acts:
                return ('O07 O01', True, '')
            wrong = [samples.text(kt, T, t) for mk, kt, fo in facts if mk == 'long' and samples.mentions(kt, T)]
            if wrong:
                return ('O07', False, 'the name looked up is %r instead of %r' % (wrong[0], key))
            if not acts and not failed:
                return ('O07 O01', False, 'the item is ignored')
            if failed and not acts:
                return ('O07 O01', False, 'the item ends the parse without being looked up')
            return ('O07', None, 'how the option is found was not recognised')
        if good is False:
            if not failed:
                return ('O01 O07', False, 'an unknown option does not end the parse')
            return ('O07 O01', True, '') if not acts else ('O07', False, 'an unknown name changes an option')
        # a known option

        def own(a):
            l = lookup(s, a[1])
            return l is not None and l[0] == 'long' and samples.text(l[1], T, t) == key
        if any(not own(a) for a in acts if lookup(s, a[1]) is not None):
            return ('O07', False, 'another option is set')
        if any(lookup(s, a[1]) is None for a in acts):
            return ('O07', None, 'the option set was not recognised')
        if eq:
            if not vals:
                if failed and not threw:
                    return ('O07 O01', False, 'a good item ends the parse')
                return ('O07 O02', False, 'the value does not reach the option')
            if len(vals) > 1:
                return ('O07', False, 'the value is handed over %d times' % len(vals))
            got = samples.text(vals[0][2], T, t)
            if got != val:
                if got.replace(' ', '') == val.replace(' ', '') and got in (val.strip(), t.partition('=')[2], t.partition('=')[2].strip()):
                    return ('O07', None, 'the blanks of the value are treated differently')
                return ('O07 O02', False, 'the option gets %r instead of %r' % (got, val))
        else:
            if vals:
                return ('O07', False, 'an item without a value hands one over')
            if not pres and not failed:
                return ('O03 O07', False, 'an option named without a value is not marked as present')
        if failed and not threw and (eq or pres):
            return ('O01', False, 'a good item ends the parse')
        return ('O07 O01', True, '')
    for k, h, b, bk in r.iters:
        if impossible(ctx, s, b.F):
            continue
        check(b.F, h, b.ev, False, None, trail_(h, b))
    for p in ps:
        if impossible(ctx, s, p.st.F):
            continue
        if p.kind == 'throw' and any(e[0] == 'throw' and 'printHelp' in str(e[3]) for e in p.ev):
            continue
        if p.kind == 'throw':
            add('O01', False, 'an exception %s leaves the parse' % p.st.exc, p)
            continue
        lp = [e for e in p.ev if e[0] == 'loop' and e[2] is r]
        ret = p.val[1] if p.val is not None and p.val[0] == 'i' else None
        if not lp:
            a = acts_of(ctx, s, p.ev, None)
            if a:
                add('O07', None, 'a path without the loop')
            elif ret == 1:
                add('O07 O01', None, 'a path without the loop')
            continue
        after = p.ev[[i for i, x in enumerate(p.ev) if x is lp[0]][0] + 1:]
        if lp[0][4] == 'cond':
            add('O01', True if ret == 1 else False if ret == 0 else None, 'parsing fails although every item was accepted', p)
            if acts_of(ctx, s, after, None):
                add('O07', False, 'an option is set after the last item', p)
        else:
            check(p.st.F, None, after, True, ret, p)
    ctx.cache['okv'] = out
    return out


def feed(ctx, prop, rule, items):
    for tags, w, what, path, verdict in items:
        if prop not in tags.split():
            continue
        if verdict is True:
            ctx.ok(rule, w)
        elif verdict is None:
            ctx.unk(rule, w, what)
        elif isinstance(path, list):
            ctx.bad(rule, w, what, path)
        else:
            ctx.check(False, rule, w, what, path)
