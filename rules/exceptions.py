"""E01: exception types. E02: message composition."""
from .common import *

BASE = 'SoDa::Exception'
COMPONENTS = {'SoDa::Barrier': 'SoDa::Barrier::Exception', 'SoDa::MailBoxBase': 'SoDa::MailBoxBase::Exception'}
IN_SCOPE = ('SoDa::Barrier', 'SoDa::MailBox', 'SoDa::Format', 'SoDa::PropertyTree', 'SoDa::makeBarrier', 'SoDa::makeMailBox')
# what the standard library itself reports when memory or a system resource runs out
RESOURCE = ('std::bad_alloc', 'std::system_error', 'std::length_error')


def scope(f):
    return f['qn'].startswith(IN_SCOPE)


def exc_records(P):
    """exception types of the components: every nested record that ends in std::exception"""
    out = []
    for t, r in P.records.items():
        if not t.startswith(('SoDa::Barrier', 'SoDa::MailBox', 'SoDa::Format', 'SoDa::PropertyTree')) and t != BASE:
            continue
        n = t.split('::')[-1]
        if is_exc(P, t):
            out.append(t)
    return out


DOCUMENTED = ('SoDa::Barrier::Exception', 'SoDa::Barrier::Timeout', 'SoDa::Barrier::Corrupt', 'SoDa::MailBoxBase::Exception',
              'SoDa::MailBoxBase::MissingSubscriber', 'SoDa::MailBoxBase::SubscriptionMismatch', 'SoDa::MailBoxBase::BadConversion',
              'SoDa::Format::BadFormat', 'SoDa::PropertyTree::FileNotFound', 'SoDa::PropertyTree::BadSyntax',
              'SoDa::PropertyTree::PropNode::PropertyNotFound', 'SoDa::PropertyTree::PropNode::BadPropertyType')


def chain(P, t, seen=()):
    """public ancestors of a record, recursively"""
    t = strip(t)
    if t in seen:
        return set()
    r = P.records.get(t)
    out = set()
    if r is None:
        return set(absint.STD_EXC.get(t, ()))
    out |= set(r['pubanc'])
    for b in r['bases']:
        if b['access'] == 'public':
            bt = strip(b['t'])
            out.add(bt)
            out |= chain(P, bt, seen + (t,))
            out |= set(absint.STD_EXC.get(bt, ()))
    return out


def is_exc(P, t):
    return 'std::exception' in chain(P, t) or strip(t) == 'std::exception' or 'std::exception' in absint.STD_EXC.get(strip(t), ())


def walk(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


def E01(ctx):
    P = ctx.P
    if BASE not in P.records:
        raise Anchor(BASE)
    ctx.check('std::runtime_error' in chain(P, BASE), 'base-is-runtime-error', BASE, 'the base exception is not a std::runtime_error')
    for t in DOCUMENTED:
        if t not in P.records:
            raise Anchor('exception type ' + t)
    for t in sorted(set(DOCUMENTED) | set(exc_records(P))):
        if t == BASE:
            continue
        ch = chain(P, t)
        ctx.check(BASE in ch, 'derives-from-library-base', t, 'is not derived from SoDa::Exception: catching the library\'s exception misses it')
        ctx.check('std::runtime_error' in ch, 'is-runtime-error', t, 'is not a std::runtime_error')
        for comp, ce in COMPONENTS.items():
            if t.startswith(comp + '::') and t != ce:
                ctx.check(ce in ch, 'derives-from-component-base', t, 'is not derived from %s' % ce)
        # an ambiguous base cannot be caught
        amb = [b for b in ch if count_paths(P, t, b) > 1]
        ctx.check(not amb, 'unambiguous', t, 'has several %s bases: a handler for it does not match' % amb)
    # every throw in the components
    for f in sorted(P.funcs.values(), key=lambda f: f['key']):
        if not f['has'] or not scope(f) or f.get('implicit'):
            continue
        if f.get('access') == 'private' and False:
            continue
        ths = []
        walk(f.get('body'), lambda x: ths.append(x) if x.get('k') == 'throw' else None)
        for i in f.get('inits', []) or []:
            walk(i, lambda x: ths.append(x) if x.get('k') == 'throw' else None)
        for x in ths:
            e = x.get('e')
            if e is None:
                continue     # rethrow: what arrives there is decided below
            t = strip(x.get('et') or e.get('t', '?'))
            if t.endswith('*'):
                ctx.bad('throws-library-exception', '%s line %s' % (f['qn'], x.get('l')), 'throws a pointer')
                continue
            ctx.check(BASE in chain(P, t) or t == BASE, 'throws-library-exception', '%s line %s' % (f['qn'], x.get('l')), 'throws %s' % t)
    # what can leave the public functions, including what the standard library throws into them
    pub = [f for f in P.funcs.values() if f['has'] and scope(f) and f.get('access') in (None, 'public') and not f.get('implicit') and not f.get('deflt')]
    for f in sorted(pub, key=lambda f: f['key']):
        if f['kind'] == 'ctor' and is_exc(P, f['cls']):
            continue

        def one():
            own = f.get('cls') == 'SoDa::Format' or (f.get('cls') or '').startswith('SoDa::Format')
            I_, ps = ctx.run(f, key='e01', opaque=(lambda g: False) if own else (lambda g: g.get('cls') == 'SoDa::Format'))
            out = {}
            for p in ps:
                if p.kind == 'throw':
                    out.setdefault(strip(p.st.exc.typ), p)
            for t, p in out.items():
                if t in RESOURCE:
                    continue
                certain = not p.st.imprecise
                ok = t == BASE or BASE in chain(P, t)
                if not ok and t not in P.records and not certain:
                    ok = None
                if not ok and t == 'std::out_of_range' and any(e[0] == 'throw' and e[3] == 'std-pos' for e in p.ev[-12:]):
                    ok = None      # G01's kind of question: a position that may be out of range
                ctx.check(ok, 'only-library-exceptions-leave', ctx.loc(f), 'can leave with %s (thrown at line %s)' % (t, p.st.exc.line if hasattr(p.st.exc, 'line') else '?'), p)
            if not out:
                ctx.ok('only-library-exceptions-leave', ctx.loc(f))
        guarded(ctx, 'only-library-exceptions-leave', ctx.loc(f), one)
    yaml(ctx)


def count_paths(P, t, b):
    t = strip(t)
    if t == b:
        return 1
    r = P.records.get(t)
    if r is None:
        return 1 if b in absint.STD_EXC.get(t, ()) else 0
    n = 0
    for x in r['bases']:
        n += count_paths(P, x['t'], b)
    return n


def yaml(ctx):
    """calls into the YAML reader are made under a handler for its base exception, in every caller"""
    P = ctx.P
    cover = {}

    def uses(f):
        """yaml calls of f not inside a try that handles YAML::Exception, and callees likewise"""
        r = []

        def go(x, safe):
            if isinstance(x, list):
                for y in x:
                    go(y, safe)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'try':
                s2 = safe or any(catches(h) for h in x.get('h', []))
                go(x.get('b'), s2)
                for h in x.get('h', []):
                    go(h.get('b'), safe)
                return
            if k == 'call':
                q = x.get('qn') or ''
                c = x.get('cls') or ''
                if (q.startswith('YAML::') or c.startswith('YAML')) and not safe:
                    r.append(('yaml', x.get('l'), q))
                elif x.get('key') in P.funcs and not safe:
                    r.append(('call', x.get('l'), x['key']))
            if k == 'new' or k == 'ctor':
                pass
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v, safe)
        go(f.get('body'), False)
        for i in f.get('inits', []) or []:
            go(i, False)
        return r

    def catches(h):
        t = h.get('t') or ''
        t = strip(t.replace('const ', '').replace('&', ''))
        return t in ('', '...', 'YAML::Exception', 'std::runtime_error', 'std::exception')
    esc = {}
    for f in P.funcs.values():
        if f['has']:
            esc[f['key']] = uses(f)
    # functions out of which a YAML exception can come
    lib = {k for k, u in esc.items() if any(x[0] == 'yaml' for x in u)}
    grew = True
    while grew:
        grew = False
        for k, u in esc.items():
            if k in lib:
                continue
            tgt = [x for x in u if x[0] == 'call']
            for x in tgt:
                al = [x[2]] + [o['key'] for o in P.all_overriders(x[2])]
                if any(a in lib for a in al):
                    lib.add(k)
                    grew = True
                    break
    n = 0
    for f in P.funcs.values():
        if not f['has'] or not f['qn'].startswith('SoDa::PropertyTree'):
            continue
        if f.get('access') == 'public':
            n += 1
            ctx.check(f['key'] not in lib, 'no-foreign-exception', ctx.loc(f), 'calls into the YAML reader outside a handler for YAML::Exception: %s' %
                      [(x[1], x[2]) for x in esc[f['key']]][:2])


# ------------------------------------------------------------------ E02
def placeholders(s):
    """the documented reading of a format string"""
    out, i = [], 0
    while i < len(s):
        if s[i] == '%' and i + 1 < len(s):
            if s[i + 1] == '%':
                i += 2
                continue
            j = i + 1
            while j < len(s) and s[j] in '0123456789':
                j += 1
            if j > i + 1:
                out.append(int(s[i + 1:j]))
                i = j
                continue
        i += 1
    return out


def E02(ctx):
    P = ctx.P
    if 'SoDa::Format' not in P.records:
        raise Anchor('SoDa::Format')
    users = []
    for f in P.funcs.values():
        if not f['has'] or f.get('implicit') or (f.get('cls') or '').startswith('SoDa::Format') or not f['qn'].startswith('SoDa::'):
            continue
        mk = []
        bodies = [f.get('body')] + list(f.get('inits', []) or [])
        for b in bodies:
            walk(b, lambda x: mk.append(x) if x.get('k') in ('ctor', 'construct', 'make', 'ini') and x.get('qn') == 'SoDa::Format' or x.get('rk') == 'SoDa::Format' and x.get('key', '').startswith('SoDa::Format::Format') else None)
        mk = [x for x in mk if not x.get('cp') and not x.get('mv')]
        if mk:
            users.append((f, mk))
    if not users:
        ctx.unk('complete-message', 'library', 'no function composing a message from a format string found')
    seen = {}
    for f, mk in sorted(users, key=lambda x: x[0]['key']):
        guarded(ctx, 'complete-message', ctx.loc(f), lambda: composed(ctx, f, mk))


def composed(ctx, f, mk):
    I_, ps = ctx.run(f, key='e02', opaque=lambda g: (g.get('cls') or '').startswith('SoDa::Format') or g['name'] in LOOPY)
    done = {}
    for p in ps:
        live = {}
        evs = list(all_events(p.ev))
        for e in evs:
            if e[0] not in ('call', 'vcall') or not e[2].startswith('SoDa::Format'):
                continue
            nm = e[2].split('::')[-1]
            if nm == 'Format':
                live[e[3]] = [e[1], e[4][0] if e[4] else None, 0]
            elif nm.startswith('add') and e[3] in live:
                live[e[3]][2] += 1
            elif nm == 'reset' and e[3] in live:
                live[e[3]][2] = 0
            elif nm in ('str', 'operator<<'):
                o = e[3] if nm == 'str' else None
                if o not in live:
                    for a in e[4]:
                        if isinstance(a, tuple) and a in live:
                            o = a
                if o in live:
                    judge(ctx, f, live[o], done)
    if f['kind'] == 'ctor' and is_exc(ctx.P, f['cls']):
        told(ctx, f, ps)
    for x in mk:
        l = x.get('l')
        if l not in done:
            ctx.unk('complete-message', '%s line %s' % (f['qn'], l), 'format never rendered on an analysed path')


LOOPY = ()


def told(ctx, f, ps):
    """every text and number an exception is built from is in its message"""
    for i, q in enumerate(f['params']):
        t = strip(q['t'].replace('const ', '').rstrip('& '))
        if t != 'std::string' and t not in RANGES and 'duration' not in t:
            continue
        for p in ps:
            if p.kind != 'ret':
                continue
            used = any(e[0] in ('call', 'vcall', 'excctor', 'init', 'wr') and uses_arg(e[2:], i) for e in all_events(p.ev))
            ctx.check(used, 'says-everything', '%s parameter %d' % (f['qn'], i + 1),
                      'what the exception is told in parameter %d (%s) does not appear in its message' % (i + 1, q.get('n') or t), p)


def uses_arg(t, i):
    if not isinstance(t, tuple):
        return False
    if t[:2] == ('arg', i) or t == ('obj', 'arg:%d' % i):
        return True
    return any(uses_arg(x, i) for x in t)


def judge(ctx, f, rec, done):
    line, fmt, n = rec
    k = (line, fmt, n)
    if line in done and k in done[line]:
        return
    done.setdefault(line, set()).add(k)
    w = '%s line %s' % (f['qn'], line)
    if fmt is None or fmt[0] != 's' or any(p[0] != 'lit' for p in fmt[1]):
        ctx.unk('complete-message', w, 'format string is not a constant: %s' % pv(fmt))
        return
    s = ''.join(p[1] for p in fmt[1])
    ph = set(placeholders(s))
    miss = sorted(x for x in ph if x >= n)
    drop = sorted(x for x in range(n) if x not in ph)
    ctx.check(not miss, 'every-placeholder-filled', w, '"%s" has placeholder %s but only %d values' % (s.strip(), miss, n))
    ctx.check(not drop, 'every-value-shown', w, '"%s" never shows value number %s' % (s.strip(), drop))
