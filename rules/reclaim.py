"""R01: what the library allocates has an owner, and messages are not kept."""
import re
from .common import *
from . import bounds, mailbox
from .threads import mailbox_cls, bases, root_of

SMART = ('std::shared_ptr<', 'std::unique_ptr<')


def mentions(v, x):
    if v == x:
        return True
    return isinstance(v, tuple) and any(mentions(y, x) for y in v)


def subterms(v):
    if isinstance(v, tuple):
        yield v
        for y in v:
            yield from subterms(y)


def exprs(n):
    """all nodes of an exported body"""
    if isinstance(n, dict):
        yield n
        for x in n.values():
            yield from exprs(x)
    elif isinstance(n, list):
        for x in n:
            yield from exprs(x)


def pointee(t):
    return strip((t or '').replace('const ', '').rstrip().rstrip('*').rstrip())


def deleted_types(P):
    out = set()
    for f in P.funcs.values():
        if f['has'] and f['qn'].startswith('SoDa::'):
            for n in exprs(f.get('body')):
                if n.get('k') == 'del':
                    out.add(pointee((n.get('e') or {}).get('t')))
    return out


def field_type(P, loc, st=None):
    """declared type of the field a location lies in"""
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e', 'pf', 'idx'):
        if loc[0] == 'f':
            for r in P.records.values():
                for f in r['fields']:
                    if f['n'] == loc[2] and r['qn'].startswith('SoDa::'):
                        return f['t']
        loc = loc[1]
    if isinstance(loc, tuple) and loc and loc[0] == 'd':
        return tyof(loc[1]) or ''
    if st is not None and isinstance(loc, tuple) and loc and loc[0] == 'h':
        return st.cnt.get(('type', loc)) or ''
    return ''


def outer(loc):
    """the object or variable a location lies in"""
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e', 'pf', 'idx'):
        loc = loc[1]
    return loc


def in_static(loc):
    o = outer(loc)
    return o[0] == 'g' or o[0] == 'd' and any(isinstance(x, tuple) and x[:1] == ('g',) and len(x) == 2 for x in subterms(o[1]))


def kept_in(p, evs, v):
    """the places other than locals and the object itself where the pointer v ends up"""
    out = [e for e in evs if e[0] in ('wr', 'init', 'keep') and len(e) > 3 and mentions(e[3], v)]
    return [e for e in out if outer(e[2])[0] not in ('v', 't') and outer(e[2]) != v[1]]


def destroys(P, d):
    """does a deleter destroy or free what it is given?"""
    if d is None:
        return True
    if d[0] == 'fnref':
        f = P.funcs.get(d[1])
        if f is None or not f['has']:
            return True if str(d[2]).split('::')[-1] in ('free', 'cfree', '__libc_free') else None
        body = f.get('body')
    elif d[0] == 'lam':
        body = d[1].n.get('body')
    else:
        return None
    ns = list(exprs(body))
    if any(n.get('k') == 'del' or str(n.get('qn') or '').split('::')[-1] == 'free' for n in ns):
        return True
    return None if any(n.get('k') in ('call', 'mcall', 'opcall', 'construct') for n in ns) else False


def is_owned(evs, v, ends=()):
    """is v in the hands of an owner, or gone, when the path ends?"""
    r = False
    for e in evs:
        if e[0] in ('own', 'xfree', 'delete') + tuple(ends) and mentions(e[2], v):
            r = True
        elif e[0] == 'release' and mentions(e[2], v):
            r = False
    return r


def R01(ctx):
    P = ctx.P
    kept = {}          # type -> [(where, line)] stored as a raw pointer
    n = 0
    for f in bounds.entries(P):
        if f['has']:
            n += 1
            guarded(ctx, 'owned', ctx.loc(f), lambda: owned(ctx, f, kept))
    ctx.need(n, 'public functions')
    dels = deleted_types(P)
    for t, ws in sorted(kept.items()):
        w = sorted(ws)[0]
        if t in dels:
            ctx.unk('owner-of-kept', t, 'kept by raw pointer (%s) and deleted somewhere: whether exactly once is not decided' % w)
        else:
            ctx.bad('owner-of-kept', t, 'objects made by new are kept by raw pointer (%s) and nothing in the library ever deletes one' % w)
    virtual_dtors(ctx)
    messages(ctx)
    # a message lives on in its queue until taken, cleared or unsubscribed (as decided for M02 and M03)
    for name, rules in (('M02', ('clear-removes-all', 'takes-exactly-that-one')), ('M03', ('ends-exactly-it',))):
        sub = Ctx(P, name)
        guarded(ctx, 'let-go', name, lambda: getattr(mailbox, name)(sub))
        for r, w, o in sub.obls:
            if r in rules and o is not False:
                ctx.obls.append((r, w, o))
        for v in sub.viol:
            if v['rule'] in rules:
                ctx.bad(v['rule'], v['where'], v['what'], v.get('path'))


def owned(ctx, f, kept):
    P, wn = ctx.P, ctx.loc(f)
    I_, ps = ctx.run(f, key='g01', opaque=bounds.opaque_for(f))
    said = set()

    def say(ok, rule, key, what, p):
        if ok is not True or (rule, key) not in said:
            if (rule, key, ok) in said:
                return
            said.add((rule, key))
            said.add((rule, key, ok))
            ctx.check(ok, rule, wn, what, p)
    for p in ps:
        evs = list(all_events(p.ev))
        made = {e[2] for e in evs if e[0] == 'make'}
        raws = [(e[1], e[2], e[3]) for e in evs if e[0] == 'raw' and e[2] not in made]
        owns = [e for e in evs if e[0] == 'own']
        rel = [e[2] for e in evs if e[0] == 'release']
        for line, site, t in raws:
            v = ('ptr', site)
            k = len({e[1] for e in owns if e[2] == v})
            if k > 1 and v not in rel:
                say(False, 'owned-once', (line, 'twice'), 'the object made at line %s is handed to %d owners that do not know of each other' % (line, k), p)
                continue
            lazy = [e for e in owns if e[2] == v and len(e) > 3 and destroys(P, e[3]) is not True]
            if lazy:
                say(destroys(P, lazy[0][3]), 'owned', line, 'the object made by new at line %s is given to an owner (line %s) that does not destroy it' % (line, lazy[0][1]), p)
                continue
            if is_owned(evs, v):
                say(True, 'owned', line, '', p)
                continue
            far = kept_in(p, evs, v)
            if any(in_static(e[2]) for e in far):
                say(False, 'owned', line, 'the object made by new at line %s is kept in a static variable: it lives on after everything it belongs to is gone' % line, p)
                continue
            if any(x in field_type(P, e[2], p.st) for e in far for x in SMART):
                say(True, 'owned', line, '', p)
                continue
            if p.kind == 'ret' and mentions(p.val, v) and not far:
                smart = any(f.get('ret', '').strip().startswith(x) for x in SMART)
                say(True if smart else None, 'owned', line, 'line %s: the object made by new is handed to the caller as a plain pointer' % line, p)
                continue
            if far:
                kept.setdefault(t, set()).add('%s line %s' % (wn, line))
                say(True, 'kept', line, '', p)
                continue
            if any(e[0] in ('xcall', 'vcall', 'rcall', 'call', 'app') and mentions(e[2:], v) for e in evs) or any(e[0] == 'delete' for e in evs) or p.st.imprecise:
                say(None, 'owned', line, 'line %s: what becomes of the object made by new is not understood' % line, p)
                continue
            say(False, 'owned', line, 'the object made by new at line %s has no owner when this path %s: it is never destroyed' % (
                line, 'throws' if p.kind == 'throw' else 'returns'), p)
        for e in evs:
            if e[0] != 'make':
                continue
            v = ('ptr', e[2])
            far = kept_in(p, evs, v)
            if any(in_static(x[2]) for x in far):
                say(False, 'owned', e[1], 'the object made at line %s is kept in a static variable: it lives on after everything it belongs to is gone' % e[1], p)
                continue
            kind = [any(y in field_type(P, x[2], p.st) for y in SMART) for x in far]
            out = p.kind == 'ret' and p.val == v and f.get('ret', '').strip().endswith('*')
            if (out or False in kind) and True not in kind:
                say(None if p.st.imprecise else False, 'owner-outlives', e[1],
                    'a plain pointer to the object made at line %s outlives its only owner, which is gone when this path returns' % e[1], p)
            else:
                say(True, 'owned', e[1], '', p)
        for e in owns:
            v = e[2]
            if isinstance(v, tuple) and v[0] == 'ptr' and v[1] in made:
                say(False, 'owned-once', e[1], 'line %s gives an object that already has an owner to another one' % e[1], p)
            elif isinstance(v, tuple) and v[0] == 'sym' and str(v[2] if len(v) > 2 else '').startswith(SMART) and v not in rel:
                say(False, 'owned-once', e[1], 'line %s makes a second owner from the plain pointer of a smart one: the object is destroyed twice' % e[1], p)
        for e in evs:
            if e[0] == 'xalloc':
                lazy = [x for x in owns if mentions(x[2], e[2]) and len(x) > 3 and destroys(P, x[3]) is not True]
                if lazy:
                    say(destroys(P, lazy[0][3]), 'freed', e[1], 'the buffer %s allocates at line %s is given to an owner that does not free it' % (e[3], e[1]), p)
                elif is_owned(evs, e[2]):
                    say(True, 'freed', e[1], '', p)
                elif p.kind == 'ret' and mentions(p.val, e[2]) and f.get('ret', '').strip().endswith('*'):
                    say(None, 'freed', e[1], 'handed to the caller', p)
                elif any(x[0] in ('xcall', 'rcall', 'vcall') and mentions(x[2:], e[2]) for x in evs) or p.st.imprecise:
                    say(None, 'freed', e[1], 'line %s: what becomes of the buffer of %s is not understood' % (e[1], e[3]), p)
                else:
                    say(False, 'freed', e[1], 'the buffer %s allocates at line %s is never freed' % (e[3], e[1]), p)


def virtual_dtors(ctx):
    P = ctx.P
    virt = {f['cls'] for f in P.funcs.values() if f.get('virt') and f.get('cls') and f['kind'] != 'dtor'}
    for f in P.funcs.values():
        for o in f.get('over', []):
            g = P.funcs.get(o)
            if g is not None and g.get('cls'):
                virt.add(g['cls'])
    for r in sorted(P.records):
        R = P.records[r]
        if not R['qn'].startswith('SoDa::') or R.get('access') not in (None, 'none', 'public', ''):
            continue
        kids = [k for k, x in P.records.items() if r in x['pubanc'] and k != r]
        if not kids or not (r in virt or any(b in virt for b in R['pubanc']) or dynamic(P, r)):
            continue
        d = P.funcs.get(R.get('dtor') or '')
        if d is not None and d.get('access') in ('protected', 'private'):
            continue
        ctx.check(bool(R.get('vdtor')), 'virtual-destructor', R['qn'],
                  '%s is derived from it and used through it, but its destructor is not virtual: destroying one through the base leaves the rest of it behind' % sorted(kids)[0])


def dynamic(P, r):
    """is the class the source of a dynamic cast, hence polymorphic"""
    return any(n.get('k') == 'dyn' and r in str(n.get('t')) for f in P.funcs.values() if f.get('cls') == r for n in exprs(f.get('body')))


def messages(ctx):
    P = ctx.P
    mb = mailbox_cls(ctx)
    msg = re.match(r'SoDa::MailBox<(.*)>$', mb).group(1)
    strong = 'std::shared_ptr<%s>' % msg
    own = set(bases(P, mb)) | {r for r in P.records if r.startswith(mb + '::')}

    def holds(t, seen=()):
        if strong in t:
            return True
        return any(r in t and r not in seen and any(holds(f['t'], seen + (r,)) for f in P.records[r]['fields']) for r in P.records if r not in (mb,) and r.startswith('SoDa'))
    ops = [f for f in ctx.fns_of(mb) if f['access'] in ('public', None) and f['kind'] not in ('ctor', 'dtor')]
    get = [f for f in ops if strong in f.get('ret', '')]
    put = [f for f in ops if any(strong in str(p_.get('t')) for p_ in f.get('params', []))]
    ctx.need(get, 'the operation of %s that hands out messages' % mb)
    ctx.need(put, 'the operation of %s that takes messages' % mb)

    def root(loc):
        o, fld = root_of(loc)
        if isinstance(o, tuple) and o[0] == 'g':
            return ('g', o[1] if len(o) > 1 else o)
        return ('f', fld) if fld else None

    def rootname(r):
        return r[1] if isinstance(r[1], str) else str(r[1])

    def roottype(r):
        if r[0] == 'g':
            return next((str(g.get('t')) for g in P.globals if g.get('n') == r[1] or g.get('qn') == r[1]), strong)
        return next((f['t'] for k in own for f in P.records[k]['fields'] if f['n'] == r[1]), '')
    taken, stored = {}, {}
    for f in ops:
        I_, ps = ctx.run(f, key='g01', opaque=bounds.opaque_for(f))
        wn = ctx.loc(f)
        for p in ps:
            for e in all_events(p.ev):
                if e[0] not in ('wr', 'init') or len(e) < 4 or not isinstance(e[2], tuple):
                    continue
                r = root(e[2])
                if r is None or outer(e[2])[0] not in ('obj', 'd', 'g', 'h'):
                    continue
                if not holds(roottype(r)):
                    continue
                v = e[3]
                if f in put and any(t[0] == 'sym' and len(t) == 3 and t[2] == strong and isinstance(t[1], tuple) and t[1][:1] == ('arg',) for t in subterms(v)):
                    stored.setdefault(r, (wn, e[1], p))
                elif f in get:
                    if p.kind == 'ret' and p.val not in (None, NULL) and not (v[0] == 'c') and mentions(v, p.val):
                        ctx.bad('not-kept', wn, 'line %s keeps the message that is handed out in %s: it lives on after its last taker let it go' % (e[1], rootname(r)), p)
                    elif p.kind == 'ret' and v[0] == 'c' and v[1] in ('push_back', 'push_front', 'ins') and p.val not in (None, NULL) and mentions(v[2:], p.val):
                        ctx.bad('not-kept', wn, 'line %s puts the message that is handed out into %s: it lives on after its last taker let it go' % (e[1], rootname(r)), p)
                    else:
                        taken.setdefault(r, wn)
    for r, (wn, line, p) in sorted(stored.items(), key=str):
        if r in taken:
            ctx.ok('not-kept', wn)
        elif not taken:
            ctx.unk('not-kept', wn, 'how messages are taken out is not understood')
        else:
            ctx.bad('not-kept', wn, 'line %s also keeps the message in %s, from which no reader ever takes it: it lives on after everybody has let it go' % (line, rootname(r)), p)
    if not stored:
        ctx.unk('not-kept', mb, 'where messages are kept is not understood')
