"""C01: lock discipline of Barrier and MailBox."""
from .common import *

BAR = 'SoDa::Barrier'


def mailbox_cls(ctx):
    c = [r for r in ctx.P.records if r.startswith('SoDa::MailBox<') and r.endswith('>')]
    ctx.need(c, 'class template SoDa::MailBox')
    return c[0]


def bases(P, cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c in P.records and c not in out:
            out.append(c)
            todo += [strip(b['t'] if isinstance(b, dict) else b) for b in P.records[c]['bases']]
    return out


def shared_of(P, cls):
    sh = {}
    for c in bases(P, cls):
        sh.update(written_fields(P, c))
    return sh


def root_of(loc):
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e', 'pf', 'idx'):
        if loc[0] == 'f' and loc[1][0] in ('obj', 'd', 'h', 'v', 'g', 't'):
            return loc[1], loc[2]
        loc = loc[1]
    return loc, None


def C01(ctx):
    P = ctx.P
    mb = mailbox_cls(ctx)
    groups = [(BAR, [BAR]), (mb, [mb] + [r for r in P.records if r.startswith(mb + '::')])]
    glob_written = set()
    order = {}
    for cls, members in groups:
        if cls not in P.records:
            raise Anchor(cls)
        sh = shared_of(P, cls)
        mt = [f for c in bases(P, cls) for f in mutexes(P, c)]
        atom = {f for f, t in sh.items() if strip(t).startswith(('std::atomic', 'std::__atomic'))}
        ctx.check(True if mt else (None if atom or not sh else False), 'has-mutex', cls, 'shared state (%s) but no mutex' % sorted(sh))
        for f in sorted(atom):
            ctx.unk('guarded-access', cls + '::' + f, 'atomic field: lock discipline does not decide it')
        todo = []
        for c in members:
            for f in ctx.fns_of(c):
                if f['access'] not in ('public', None) and c == cls:
                    continue
                if f['kind'] == 'ctor' or (f['kind'] == 'dtor' and c == cls):
                    continue
                todo.append(f)
        ctx.need([f for f in todo if f['cls'] == cls], 'public operations of ' + cls)
        by = {}
        for f in todo:
            guarded(ctx, 'guarded-access', ctx.loc(f), lambda: one(ctx, cls, f, sh, mt, atom, order, by))
        same_lock(ctx, cls, by)
    # lock order between different mutexes
    for (a, b), w in sorted(order.items()):
        if a == b:
            ctx.bad('lock-order', w, 'takes a second lock of the same kind (%s.%s of another object) while holding one: two threads doing so crosswise wait for each other for ever' % a)
        elif (b, a) in order:
            ctx.bad('lock-order', w, 'locks %s and %s are taken in both orders' % (a, b))
        else:
            ctx.ok('lock-order', w)


def same_lock(ctx, cls, by):
    """every access to a field is made under one lock common to them all"""
    for fld, acc in sorted(by.items()):
        acc = [a for a in acc if a[0]]
        if not acc:
            continue
        common = frozenset.intersection(*[a[0] for a in acc])
        if common or not any(a[1] == 'wr' for a in acc):
            ctx.ok('one-lock-per-field', '%s::%s' % (cls, fld))
            continue
        many = max({a[0] for a in acc}, key=lambda s: sum(a[0] == s for a in acc))
        odd = next(a for a in acc if not a[0] & many)
        ctx.bad('one-lock-per-field', odd[2], 'line %s accesses %s under %s, others under %s: they do not exclude each other' % (
            odd[3], fld, ', '.join(sorted(odd[0])), ', '.join(sorted(many))), odd[4])


def one(ctx, cls, f, sh, mt, atom, order, by):
    P = ctx.P
    wn = ctx.loc(f)
    I_, ps = ctx.run(f, key='c01', shared=frozenset(sh.items()), hooks={'inline_exc': True},
                     opaque=lambda g: g.get('cls') == 'SoDa::Format')
    seen_bad = set()
    n = 0
    for p in ps:
        n += 1
        secs = [set()]
        wrote = False
        for e in all_events(p.ev):
            k = e[0]
            if k in ('rd', 'wr'):
                o, fld = root_of(e[2])
                if isinstance(o, tuple) and o[0] == 'g':
                    held = e[5] or ()
                    const = False
                    key = (k, o, e[1])
                    if k == 'wr' and key not in seen_bad:
                        seen_bad.add(key)
                        ok = any(root_of(l)[0][0] == 'g' for l in held)
                        ctx.check(ok, 'guarded-access', wn, 'line %s changes a variable shared by all objects and threads without a lock of its own' % e[1], p)
                    continue
                if fld is None or fld not in sh or fld in atom or not isinstance(o, tuple) or o[0] not in ('obj', 'd'):
                    continue
                if not is_owner(ctx, o, cls, f):
                    continue
                ok = any(l[0] == 'f' and l[1] == o and l[2] in mt for l in (e[5] or ()))
                key = (k, o, fld, e[1], ok)
                by.setdefault(fld, []).append((frozenset(l[2] for l in (e[5] or ()) if l[0] == 'f' and l[1] == o and l[2] in mt), k, wn, e[1], p))
                if key not in seen_bad:
                    seen_bad.add(key)
                    ctx.check(ok, 'guarded-access', wn, '%s of %s at line %s without holding the lock of that object' % ('read' if k == 'rd' else 'write', ploc(e[2]), e[1]), p)
                secs[-1].add(fld)
                wrote |= k == 'wr'
            elif k in ('lock', 'relock', 'badunlock'):
                if k == 'relock':
                    ctx.bad('no-self-deadlock', wn, 'line %s locks %s, which this thread already holds' % (e[1], ploc(e[2])), p)
                elif k == 'badunlock':
                    ctx.bad('balanced', wn, 'line %s unlocks %s, which is not held' % (e[1], ploc(e[2])), p)
                else:
                    secs.append(set())
            elif k == 'wait':
                held = e[5]
                ok = e[6] is not None and e[6] in (held or ()) and len(held) == 1
                if ('wait', e[1], ok) not in seen_bad:
                    seen_bad.add(('wait', e[1], ok))
                    ctx.check(ok, 'sleeps-holding-only-own-lock', wn, 'line %s goes to sleep holding %s' % (e[1], [ploc(x) for x in held or ()]), p)
        # nested acquisition
        held = []
        for e in p.ev:
            if e[0] == 'lock':
                for h in held:
                    ra, rb = root_of(h), root_of(e[2])
                    order.setdefault(((cls, h[-1]), (cls, e[2][-1])), wn)
                held.append(e[2])
            elif e[0] == 'unlock' and e[2] in held:
                held.remove(e[2])
        if p.st.locks:
            ctx.bad('balanced', wn, 'leaves with %s still locked (%s)' % ([ploc(x) for x in p.st.locks], p.kind), p)
        else:
            ctx.ok('balanced', wn)
        busy = [s for s in secs if s]
        if len(busy) > 1 and cls != BAR:
            ctx.check(False if wrote else None, 'one-critical-section', wn,
                      'the operation is split over %d critical sections: another thread can change the mailbox in between' % len(busy), p)
        elif busy:
            ctx.ok('one-critical-section', wn)
        # references into the shared state must not escape
        if p.kind == 'ret' and isinstance(p.val, tuple) and p.val[0] in ('loc', 'ptr'):
            o, fld = root_of(p.val[1])
            if fld in sh and isinstance(o, tuple) and o[0] in ('obj', 'd') and is_owner(ctx, o, cls, f) and f.get('ret', '').strip().endswith(('&', '*')):
                ctx.bad('no-escape', wn, 'returns a reference to %s, which its caller uses without the lock' % ploc(p.val[1]), p)


def is_owner(ctx, o, cls, f):
    """does o denote an object of class cls (rather than, say, a subscription)?"""
    if o == THIS:
        return f['cls'] == cls
    if o[0] == 'd':
        v = o[1]
        t = strip(v[2]) if v[0] == 'sym' and len(v) > 2 else ''
        t = t.replace('*', '').replace('const ', '').strip()
        if t.startswith(('std::shared_ptr<', 'std::unique_ptr<')):
            t = t[t.index('<') + 1:-1].strip()
        return t == cls or t == ''
    return True
