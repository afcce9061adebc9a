"""M01-M05: what each mailbox operation does to the queues, read off its path summaries."""
from .common import *
from .threads import mailbox_cls

EXC = 'SoDa::MailBoxBase::Exception'


class MB:
    pass


def feq(F, a, b):
    """a == b ?"""
    if a is None or b is None:
        return None
    if a == b:
        return True
    if a[0] in ('c',) or b[0] in ('c',):
        return None
    try:
        return F.decide(eq0(sub(a, b)))
    except Exception:
        pass
    try:
        return F.decide(('eqt', a, b))
    except Exception:
        return None


def model(ctx):
    P = ctx.P
    m = MB()
    m.cls = mailbox_cls(ctx)
    m.sub = m.cls + '::SubscriptionCl'
    m.subs = [r for r in P.records if r.startswith(m.cls + '::')]
    r = P.records[m.cls]
    maps = [f for f in r['fields'] if strip(f['t']).startswith(('std::map<', 'std::unordered_map<'))]
    if len(maps) != 1:
        raise Undecided('the mailbox does not keep its queues in one map')
    m.Qf, m.Qt = maps[0]['n'], strip(maps[0]['t'])
    m.init = {}
    for c in [f for f in ctx.fns_of(m.cls) if f['kind'] == 'ctor']:
        I_, ps = ctx.run(c)
        for p in ps:
            for f in r['fields']:
                v = p.st.env.get(('f', THIS, f['n']))
                if v is not None:
                    m.init[f['n']] = v
    # subscribe: identity field, owner field, counter
    m.subscribe = ctx.need(ctx.fns_of(m.cls, 'subscribe', 'public'), 'MailBox::subscribe')
    m.idf = m.ownf = m.K = None
    m.Koff = None
    m.ints = [f['n'] for f in r['fields'] if is_int(f['t'])]
    for f in m.subscribe:
        I_, ps = ctx.run(f)
        for p in ps:
            if p.kind != 'ret' or not isinstance(p.val, tuple) or p.val[0] != 'ptr':
                continue
            o = p.val[1]
            for sc in m.subs:
                for fl in P.records[sc]['fields']:
                    v = p.st.env.get(('f', o, fl['n']))
                    if v == ('ptr', THIS):
                        m.ownf = fl['n']
                        m.ownt = strip(fl['t'])
                        m.subcls = sc
                    elif v is not None and is_int(fl['t']):
                        m.idf, m.idt = fl['n'], strip(fl['t'])
    if m.idf is None or m.ownf is None:
        raise Undecided('no identity / owner recognised in what subscribe() returns')
    return m


def Qloc(m, o=THIS):
    return ('f', o, m.Qf)


def Qsym(m, o=THIS):
    return ('sym', Qloc(m, o), m.Qt)


def Q0(m, o=THIS):
    return ('c', 'sym', Qsym(m, o))


def has(m, key, o=THIS):
    return ('op', 'has', 'bool', Q0(m, o), key)


def mapped(m):
    """type of one queue"""
    d, out, cur = 0, [], ''
    for ch in m.Qt[m.Qt.index('<') + 1:-1]:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out[1]


def elem(m, key, o=THIS):
    """the queue under key, as it was when the operation started"""
    return ('sym', ('E', Qsym(m, o), key), mapped(m))


def idof(m, arg, t):
    return ('sym', ('f', ('d', ('sym', ('arg', arg), t)), m.idf), m.idt)


def owncond(m, arg, t):
    return ('eqt', ('ptr', THIS), ('sym', ('f', ('d', ('sym', ('arg', arg), t)), m.ownf), m.ownt))


def final(p, loc):
    return p.st.env.get(loc)


def qeffect(m, p, o=THIS):
    """(base or None if unchanged, {key: value} of changed queues, loops over queues)"""
    Q = Qloc(m, o)
    base = p.st.env.get(Q)
    if base == Q0(m, o) or base == Qsym(m, o):
        base = None
    el = {}
    for l, v in p.st.env.items():
        x = l
        while x[0] in ('e', 'pf', 'f', 'idx') and not (x[0] == 'e' and x[1] == Q):
            if x[0] == 'f' and x[1][0] in ('obj', 'd', 'h'):
                break
            x = x[1]
            if not isinstance(x, tuple):
                break
        if isinstance(x, tuple) and x[0] == 'e' and x[1] == Q:
            k = x[2]
            if x != l:
                if l[0] == 'pf' and l[2] == 'second':
                    pass
                elif l[0] == 'pf':
                    continue
                else:
                    el[k] = ('inner', l, v)
                    continue
            if v in (elem(m, k, o), ('c', 'sym', elem(m, k, o))):
                continue
            el[k] = v
    lps = [r for r in loops_of(p.ev) if any(owner_is(x, o, m.Qf) for x in r.M)]
    return base, el, lps


def owner_is(loc, o, f):
    w = owner(loc)
    return w is not None and w == (o, f)


def wrote(m, p, o=THIS, fields=None):
    fields = fields or ([m.Qf] + m.ints)
    out = []
    for e in all_events(p.ev):
        if e[0] == 'wr':
            w = owner(e[2])
            if w and w[0] == o and w[1] in fields:
                out.append(e)
    return out


def is_empty(F, v):
    if v is None:
        return None
    if v[0] == 'sym':
        v = ('c', 'sym', v)
    try:
        return F.decide(eq0(clen(v)))
    except Exception:
        return None


def sizeof(v):
    return clen(('c', 'sym', v))


def ops(ctx, m, name):
    return ctx.need([f for f in ctx.fns_of(m.cls, name, 'public')], 'MailBox::' + name)


def subarg(ctx, m, f):
    """index and type of the subscription parameter"""
    for i, a in enumerate(f['params']):
        if strip(a['t']).startswith(('std::unique_ptr<', 'const std::unique_ptr<', 'std::shared_ptr<')) and 'SubscriptionCl' in a['t'] or m.subcls in a['t']:
            t = strip(a['t'])
            return i, t
    return None, None


def subterm(m, p, i, t):
    """the id term for the subscription argument as the engine names it"""
    return idof(m, i, t)


# ------------------------------------------------------------------ M01
def infeasible(m, F, key):
    """keys lie in [first id, counter): implied by how subscribe hands them out (checked in M03)"""
    F2 = F.copy()
    if m.K is not None:
        ks = ('sym', ('f', THIS, m.K), 'int')
        if F2.decide(le0(addc(sub(key, ks), 1))) is False:
            return True
        F2.assume(le0(addc(sub(key, ks), 1)), True)
    k0 = m.init.get(m.K)
    if k0 is not None and k0[0] == 'i' and F2.decide(le0(sub(k0, key))) is False:
        return True
    return getattr(F2, 'bad', False)


def counter(ctx, m):
    """the field that only ever grows and supplies identities"""
    best = None
    for f in m.subscribe:
        I_, ps = ctx.run(f)
        for p in ps:
            if p.kind != 'ret' or not isinstance(p.val, tuple) or p.val[0] != 'ptr':
                continue
            idv = p.st.env.get(('f', p.val[1], m.idf))
            for k in m.ints:
                ks = ('sym', ('f', THIS, k), strip([x['t'] for x in ctx.P.records[m.cls]['fields'] if x['n'] == k][0]))
                if idv is not None and idv[0] in ('sym', 'lin') and lin_mentions(idv, ks):
                    best = k
    m.K = best
    return best


def lin_mentions(t, s):
    if t == s:
        return True
    if t[0] == 'lin':
        return any(a == s for a, k in t[2])
    if t[0] == 'op':
        return any(isinstance(x, tuple) and lin_mentions(x, s) for x in t[3:])
    return False


def pushes(v, start):
    """values appended to start to get v, or None"""
    out = []
    while v != start and v != ('c', 'sym', start):
        if isinstance(v, tuple) and v[0] == 'c' and v[1] == 'push_back':
            out.insert(0, v[3])
            v = v[2]
        else:
            return None
    return out


def M01(ctx):
    m = model(ctx)
    counter(ctx, m)
    n = 0
    for f in ops(ctx, m, 'put'):
        n += guarded(ctx, 'put', ctx.loc(f), lambda: put(ctx, m, f)) or 0
    if not n:
        ctx.unk('every-subscriber-once', m.cls + '::put', 'no loop over the queues recognised')


def put(ctx, m, f):
    wn = ctx.loc(f)
    I_, ps = ctx.run(f)
    mi = [i for i, a in enumerate(f['params']) if 'SubscriptionCl' not in a['t']]
    msg = ('sym', ('arg', mi[0]), strip(f['params'][mi[0]]['t']))
    si, stt = subarg(ctx, m, f)
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        F = p.st.F
        withsub = None
        if si is not None:
            s = ('sym', ('arg', si), stt)
            isnull = F.decide(('eqt', ('null',), s))
            withsub = None if isnull is None else (not isnull)
        else:
            withsub = False
        base, el, lps = qeffect(m, p)
        qloops = [r for r in loops_of(p.ev) if r.kind == 'foreach' and r.cloc == Qloc(m)]
        direct = [e for e in p.ev if e[0] == 'wr' and owner_is(e[2], THIS, m.Qf)]
        bykey = None
        if not qloops and m.K is not None:
            cl = by_counting(ctx, m, p)
            if cl is not None:
                qloops, bykey = [cl[0]], cl[1]
        if not qloops:
            if F.decide(eq0(clen(Q0(m)))) is True:
                ctx.ok('every-subscriber-once', wn)
                continue
            other = [r for r in loops_of(p.ev)]
            ctx.check(None if any(r.kind == 'general' for r in other) else False, 'every-subscriber-once', wn,
                      'a message is accepted without visiting every subscriber\'s queue', p)
            continue
        if len(qloops) > 1 or direct:
            pl = [r for r in qloops if any(owner_is(x, THIS, m.Qf) for x in r.M)]
            if direct or len(pl) != 1:
                ctx.unk('every-subscriber-once', wn, 'queues changed at several places')
                continue
            qloops = pl
        r = qloops[0]
        n += 1
        key = bykey or ekey(r)
        for k, h, b, bk in r.iters:
            F2 = b.F
            if infeasible(m, F2, key):
                continue
            if bykey is not None and F2.decide(has(m, key)) is False:
                continue        # nobody there
            loc = ('e', Qloc(m), key)
            v = b.get(loc)
            start = ('sym', ('L', r.lid, loc, None))
            got = None
            if v is None:
                got = []
            else:
                hv = h.env.get(loc)
                got = pushes(v, hv) if hv is not None else None
                if got is None and (v == hv):
                    got = []
                if got is None:
                    base_ = strip_pushes(v)
                    if isinstance(base_, tuple) and (queue_of(base_, key) or 'L' in repr(base_)[:60]):
                        got = collect(v)
            if got is None:
                if k_changed(v):
                    ctx.bad('every-subscriber-once', wn, 'put does something other than append to a queue: %s' % pv(v), p)
                else:
                    ctx.unk('every-subscriber-once', wn, 'queue becomes %s' % pv(v))
                continue
            wrongmsg = [x for x in got if x != msg]
            if wrongmsg:
                ctx.bad('same-message', wn, 'a subscriber receives %s instead of the message that was put' % pv(wrongmsg[0]), p)
            elif got:
                ctx.ok('same-message', wn)
            is_own = False
            if withsub is not False and si is not None:
                own = F2.decide(eq0(sub(key, idof(m, si, stt))))
                is_own = own if withsub else (None if own is not False else False)
                if withsub and own is None:
                    is_own = None
            if is_own is True:
                ctx.check(not got, 'sender-skipped', wn, 'the sender, who passed its own subscription, is sent its own message', b_path(p, b))
            elif is_own is False:
                ctx.check(len(got) == 1, 'every-subscriber-once', wn,
                          'a subscriber other than the sender gets the message %d times' % len(got), b_path(p, b))
            else:
                if withsub is None:
                    ctx.check(None, 'sender-skipped', wn, 'cannot tell whether a sender was given')
                elif got:
                    ctx.bad('sender-skipped', wn, 'the sender is not told apart from the others before the message is queued', b_path(p, b))
                else:
                    ctx.bad('every-subscriber-once', wn, 'a queue is left out although it need not be the sender\'s', b_path(p, b))
        for k, kind, s, v in r.exits:
            if kind == 'cond':
                ctx.ok('visits-all', wn)
            elif kind == 'throw' or s.exc:
                ctx.check(None if s.exc and s.exc.typ not in ctx.P.records else False, 'visits-all', wn, 'the loop over the queues can be left by an exception after some subscribers were served', p)
            else:
                # leaving early is fine only if nothing is left to do
                ctx.bad('visits-all', wn, 'the loop over the queues can stop before all subscribers were served (%s)' % kind, p)
    return n


def by_counting(ctx, m, p):
    """a loop over all numbers from the first identity to the identity counter -> (loop, key)"""
    K = ksym(ctx, m)
    k0 = m.init.get(m.K)
    for r in loops_of(p.ev):
        if r.kind not in ('index', 'counted', 'general'):
            continue
        for x in r.M:
            if x[0] != 'v':
                continue
            i = p.st.env.get(x)
            if i is None:
                # the variable is gone after the loop: its value is in the exit state
                i = next((s.env.get(x) for k, kind, s, v in r.exits if kind == 'cond' and s.env.get(x) is not None), None)
            if not isinstance(i, tuple) or i[0] not in ('L', 'lin', 'sym'):
                continue
            e0 = r.entry.env.get(x)
            try:
                full = p.st.F.decide(le0(sub(K, i))) is True
                starts = k0 is not None and e0 is not None and p.st.F.decide(le0(sub(e0, k0))) is True
                steps = all(sub(b.env.get(x), h.env.get(x)) == I(1) for k, h, b, bk in r.iters)
            except Exception:
                continue
            if full and starts and steps and r.iters:
                h = r.iters[0][1]
                return r, h.env.get(x)
    return None


def ekey(r):
    """key of the element an iteration visits"""
    cand = []
    for l in r.M:
        x = l
        while isinstance(x, tuple) and x and x[0] in ('e', 'f', 'pf') and not (x[0] == 'e' and x[1] == r.cloc):
            x = x[1]
        if isinstance(x, tuple) and x and x[0] == 'e' and x[1] == r.cloc and x[2] not in cand:
            cand.append(x[2])
    mark = "('L', %s," % r.lid
    best = [k for k in cand if mark in repr(k) or (r.elem is not None and repr(r.elem) in repr(k))]
    if best:
        return best[0]
    if getattr(r, 'elemkey', None) is not None:
        return r.elemkey
    return ('sym', ('key', r.elem), 'int')


def b_path(p, b):
    """a readable path for an iteration"""
    q = Path(b, 'iteration', None)
    return q


def queue_of(v, key):
    """the queue found under a key, as it was before"""
    if v[0] == 'c' and v[1] == 'sym':
        v = v[2]
    if v[0] == 'sym' and isinstance(v[1], tuple):
        v = v[1]
    return v[0] in ('E', 'op', 'e') and key in v


def strip_pushes(v):
    while isinstance(v, tuple) and v[0] == 'c' and v[1] == 'push_back':
        v = v[2]
    return v


def collect(v):
    out = []
    while isinstance(v, tuple) and v[0] == 'c' and v[1] == 'push_back':
        out.insert(0, v[3])
        v = v[2]
    return out


def k_changed(v):
    return isinstance(v, tuple) and v[0] == 'c' and v[1] in ('pop_front', 'pop_back', 'empty', 'erase', 'push_front')


# ------------------------------------------------------------------ M02
def own_ok(m, F, i, t):
    return F.decide(owncond(m, i, t))


def M02(ctx):
    m = model(ctx)
    for f in ops(ctx, m, 'get'):
        guarded(ctx, 'get', ctx.loc(f), lambda: get(ctx, m, f))
    for f in ops(ctx, m, 'clear'):
        guarded(ctx, 'clear', ctx.loc(f), lambda: clear(ctx, m, f))


def others(m, p, key, o=THIS):
    """queues other than key's that the path changes, map changes included"""
    base, el, lps = qeffect(m, p, o)
    out = []
    if base is not None:
        b = base
        if b == ('c', 'ins', Q0(m, o), key):
            b = None
        if b is not None:
            out.append(('the set of queues becomes', b))
    for k, v in el.items():
        if k != key:
            out.append(('queue %s becomes' % pv(k), v))
    for r in lps:
        for x in r.M:
            if owner_is(x, o, m.Qf) and not under(x, ('e', Qloc(m, o), key)):
                out.append(('a loop changes', x))
    return out


def under(l, root):
    while isinstance(l, tuple):
        if l == root:
            return True
        if l[0] in ('e', 'f', 'pf', 'idx'):
            l = l[1]
        else:
            return False
    return False


def get(ctx, m, f):
    wn = ctx.loc(f)
    si, stt = subarg(ctx, m, f)
    I_, ps = ctx.run(f)
    idx = idof(m, si, stt)
    E = elem(m, idx)
    n0 = eq0(sizeof(E))
    some = none = 0
    for p in ps:
        if p.kind != 'ret':
            w = wrote(m, p)
            ctx.check(not w, 'failed-get-changes-nothing', wn, 'a get that throws has already changed line %s' % (w[0][1] if w else ''), p)
            continue
        F = p.st.F
        if own_ok(m, F, si, stt) is False or F.decide(has(m, idx)) is False:
            continue        # M03 decides those
        emp = F.decide(n0)
        for e in all_events(p.ev):
            if e[0] == 'bound' and e[5] is not True:
                ctx.bad('message-only-when-waiting', wn, 'line %s: %s on a queue that may be empty' % (e[1], e[2]), p)
        oth = others(m, p, idx)
        ctx.check(not oth, 'others-untouched', wn, 'taking a message for one subscriber changes more: %s %s' % (oth[0][0], pv(oth[0][1]) if oth else '') if oth else '', p)
        base, el, lps = qeffect(m, p)
        v = el.get(idx)
        if p.val == ('null',) or is_nullptr(p.val):
            none += 1
            ctx.check(emp is True, 'nothing-only-when-empty', wn,
                      'get can report that nothing is waiting although a message is', p)
            ctx.check(v is None or is_empty(F, v) is True, 'nothing-taken-when-none', wn, 'get reports nothing but changes the queue', p)
        else:
            some += 1
            ctx.check(True if emp is False else False, 'message-only-when-waiting', wn,
                      'get takes a message from a queue that may be empty', p)
            oldest = ('sym', ('E', E, ('i', 0)), None)
            ok = p.val[0] == 'sym' and p.val[1] == ('E', E, ('i', 0))
            if p.val[0] != 'sym':
                ok = None
            ctx.check(ok, 'oldest-first', wn, 'get returns %s, not the oldest waiting message' % pv(p.val), p)
            want = (('c', 'pop_front', ('c', 'sym', E)), ('c', 'pop_front', E))
            if v in want:
                ctx.ok('takes-exactly-that-one', wn)
            elif v is None:
                ctx.bad('takes-exactly-that-one', wn, 'the message stays in the queue and would be delivered again', p)
            elif any(x in repr(v) for x in ("'havoc'", "'unk'")):
                ctx.unk('takes-exactly-that-one', wn, pv(v))
            else:
                ctx.bad('takes-exactly-that-one', wn, 'afterwards the queue is %s' % pv(v), p)
    if not some:
        ctx.check(None if any(p.st.imprecise for p in ps) else False, 'message-only-when-waiting', wn, 'get never returns a message')


def is_nullptr(v):
    return v is not None and v[0] == 'null'


def clear(ctx, m, f):
    wn = ctx.loc(f)
    si, stt = subarg(ctx, m, f)
    I_, ps = ctx.run(f)
    idx = idof(m, si, stt)
    E = elem(m, idx)
    for p in ps:
        if p.kind != 'ret':
            continue
        F = p.st.F
        if own_ok(m, F, si, stt) is False or F.decide(has(m, idx)) is False:
            continue
        oth = others(m, p, idx)
        ctx.check(not oth, 'others-untouched', wn, 'clearing one subscriber changes more: %s' % (oth[0][0] if oth else ''), p)
        base, el, lps = qeffect(m, p)
        v = p.st.env.get(('e', Qloc(m), idx))
        if v is None:
            v = ('c', 'sym', E)
        e = is_empty(F, v)
        ctx.check(True if e else (False if e is False or v in (('c', 'sym', E),) or shrinks(v) else None), 'clear-removes-all', wn,
                  'after clear the caller\'s queue may still hold messages (%s)' % pv(v), p)
        for r in lps:
            progress(ctx, m, r, wn, p)


def shrinks(v):
    return isinstance(v, tuple) and v[0] == 'c' and v[1] in ('pop_front', 'pop_back', 'sym', 'erase') or isinstance(v, tuple) and v[0] == 'sym'


def progress(ctx, m, r, wn, p):
    for k, h, b, bk in r.iters:
        ch = [x for x in r.M if b.env.get(x) != h.env.get(x) or x not in b.env]
        if r.kind == 'general':
            ctx.check(True if ch else False, 'clear-terminates', wn, 'an iteration of the draining loop removes nothing', p)


# ------------------------------------------------------------------ M03
def M03(ctx):
    m = model(ctx)
    K = counter(ctx, m)
    P = ctx.P
    for f in m.subscribe:
        guarded(ctx, 'subscribe', ctx.loc(f), lambda: subscribe(ctx, m, f))
    for f in ctx.fns_of(m.cls, None, 'public'):
        if f['kind'] in ('ctor', 'dtor') or f in m.subscribe:
            continue
        guarded(ctx, 'identities', ctx.loc(f), lambda: keeps_ids(ctx, m, f))
        guarded(ctx, 'owner-checked', ctx.loc(f), lambda: misuse(ctx, m, f))
    for f in ops(ctx, m, 'unsubscribe'):
        guarded(ctx, 'unsubscribe', ctx.loc(f), lambda: unsub(ctx, m, f))
    ds = [f for f in ctx.fns_of(m.subcls) if f['kind'] == 'dtor']
    if not ds:
        ctx.bad('ends-with-its-object', m.subcls, 'a subscription object has no destructor that ends the subscription')
    for f in ds:
        guarded(ctx, 'ends-with-its-object', ctx.loc(f), lambda: subdtor(ctx, m, f))
    # the identity of a subscription never changes
    w = written_fields(P, m.subcls)
    for fld in (m.idf, m.ownf):
        ctx.check(fld not in w, 'identity-fixed', m.subcls + '::' + fld, 'changed after the subscription was made')


def ksym(ctx, m):
    return ('sym', ('f', THIS, m.K), strip([x['t'] for x in ctx.P.records[m.cls]['fields'] if x['n'] == m.K][0]))


def subscribe(ctx, m, f):
    wn = ctx.loc(f)
    I_, ps = ctx.run(f)
    for p in ps:
        if p.kind != 'ret' or not isinstance(p.val, tuple) or p.val[0] != 'ptr':
            ctx.check(None if p.kind == 'throw' else False, 'subscribe-returns-subscription', wn, 'subscribe leaves with %s' % (p.st.exc or pv(p.val)), p)
            continue
        F = p.st.F
        idv = p.st.env.get(('f', p.val[1], m.idf))
        own = p.st.env.get(('f', p.val[1], m.ownf))
        ctx.check(own == ('ptr', THIS), 'knows-its-mailbox', wn, 'the subscription does not belong to the mailbox that issued it', p)
        if m.K is None:
            ctx.check(None if idv is None or p.st.imprecise else False, 'fresh-identity', wn,
                      'the identity %s is not drawn from a counter that only grows: it can equal an earlier one' % pv(idv), p)
            continue
        ks = ksym(ctx, m)
        if F.decide(has(m, ks)) is True and feq(F, idv, ks) is True:
            continue        # cannot happen: every identity in use is below the counter
        k2 = p.st.env.get(('f', THIS, m.K), ks)
        off = sub(idv, ks)
        grows = F.decide(le0(addc(sub(ks, k2), 1)))
        ok = off[0] == 'i' and grows is True
        ctx.check(True if ok else False, 'fresh-identity', wn,
                  'identity %s while the counter becomes %s: two subscriptions can get the same identity' % (pv(idv), pv(k2)), p)
        base, el, lps = qeffect(m, p)
        inserted = base == ('c', 'ins', Q0(m), idv) or (isinstance(base, tuple) and base[1] == 'with' and idv in base)
        ctx.check(True if inserted else (False if base is None else None), 'registered', wn,
                  'no queue is set up for the new subscriber', p)
        v = p.st.env.get(('e', Qloc(m), idv))
        e = is_empty(F, v)
        if v is None and inserted:
            e = True
        if e is None and isinstance(v, tuple) and (v[0] == 'sym' and v[1][0] == 'E' or v[:2] == ('c', 'sym') and v[2][1][0] == 'E'):
            e = False       # a copy of some other queue
        ctx.check(True if e else (False if e is False else None), 'starts-empty', wn, 'a new subscription starts with %s' % pv(v), p)
        rest = [k for k in el if k != idv]
        ctx.check(not rest, 'others-untouched', wn, 'subscribing changes another queue', p)


def keeps_ids(ctx, m, f):
    wn = ctx.loc(f)
    I_, ps = ctx.run(f)
    for p in ps:
        base, el, lps = qeffect(m, p)
        if m.K is not None:
            ks = ksym(ctx, m)
            k2 = p.st.env.get(('f', THIS, m.K))
            bad = k2 is not None and p.st.F.decide(le0(sub(ks, k2))) is not True
            if not bad:
                bad = any(any(x == ('f', THIS, m.K) for x in r.M) for r in loops_of(p.ev)) and None
            ctx.check(not bad if bad is not None else None, 'counter-never-goes-back', wn, 'the identity counter becomes %s: an identity can be handed out twice' % pv(k2) if k2 else '', p)
        b = base
        ins = isinstance(b, tuple) and "'ins'" in repr(b)
        if ins:
            key = find_ins(b)
            ctx.check(False if p.st.F.decide(has(m, key)) is not True else True, 'only-subscribe-adds', wn,
                      'adds a queue for identity %s, which nobody subscribed' % pv(key), p)
        else:
            ctx.ok('only-subscribe-adds', wn)


def find_ins(b):
    if isinstance(b, tuple):
        if len(b) > 3 and b[0] == 'c' and b[1] == 'ins':
            return b[3]
        for x in b:
            r = find_ins(x)
            if r is not None:
                return r
    return None


def misuse(ctx, m, f):
    """operations given a subscription, or an id"""
    wn = ctx.loc(f)
    P = ctx.P
    si, stt = subarg(ctx, m, f)
    I_, ps = ctx.run(f)
    if si is not None:
        idx = idof(m, si, stt)
        s = ('sym', ('arg', si), stt)
    elif f['name'] == 'unsubscribe' and f['params'] and is_int(f['params'][0]['t']):
        idx = ('sym', ('arg', 0), strip(f['params'][0]['t']))
    else:
        return
    takes = f['name'] not in ('put',)
    for p in ps:
        F = p.st.F
        if si is not None:
            if F.decide(('eqt', ('null',), s)) is True and not takes:
                continue
            own = own_ok(m, F, si, stt)
            if own is not True:
                if p.kind == 'throw' and p.st.exc.typ == 'SoDa::Format::BadFormat':
                    continue
                if own is None and p.kind == 'ret':
                    # the subscription was never looked at: only fine when it has no effect
                    ctx.bad('owner-checked', wn, 'a subscription of another mailbox is accepted', p)
                elif own is None:
                    ctx.check(None, 'owner-checked', wn, 'owner test not recognised')
                elif p.kind == 'ret':
                    ctx.bad('owner-checked', wn, 'a subscription of another mailbox is accepted', p)
                else:
                    ctx.check(exc_is(P, p.st.exc.typ, EXC), 'owner-checked', wn, 'a foreign subscription is refused with %s, not a mailbox exception' % p.st.exc.typ, p)
                    w = wrote(m, p)
                    ctx.check(not w, 'refusal-changes-nothing', wn, 'line %s changes the mailbox before the refusal' % (w[0][1] if w else ''), p)
                continue
        if not takes:
            continue
        h = F.decide(has(m, idx))
        if h is not True:
            if p.kind == 'ret':
                ctx.bad('unknown-identity-refused', wn, 'an identity this mailbox does not know is accepted', p)
            else:
                if p.st.exc.typ == 'SoDa::Format::BadFormat':
                    continue
                ctx.check(exc_is(P, p.st.exc.typ, EXC), 'unknown-identity-refused', wn, 'an unknown identity is refused with %s, not a mailbox exception' % p.st.exc.typ, p)
                w = wrote(m, p)
                ctx.check(not w, 'refusal-changes-nothing', wn, 'line %s changes the mailbox before the refusal' % (w[0][1] if w else ''), p)
        else:
            ctx.check(p.kind == 'ret', 'known-identity-served', wn, 'a valid subscription is refused with %s' % (p.st.exc,), p)


def unsub(ctx, m, f):
    if not f['params'] or not is_int(f['params'][0]['t']):
        return
    idx = ('sym', ('arg', 0), strip(f['params'][0]['t']))
    ended(ctx, m, f, THIS, idx)


def ended(ctx, m, f, o, idx):
    wn = ctx.loc(f)
    I_, ps = ctx.run(f)
    for p in ps:
        F = p.st.F
        if p.kind != 'ret':
            continue
        h = F.decide(has(m, idx, o))
        base, el, lps = qeffect(m, p, o)
        if h is False:
            ctx.check(not wrote(m, p, o), 'ends-only-itself', wn, 'ending an unknown subscription changes the mailbox', p)
            continue
        if base == ('c', 'erase', Q0(m, o), idx):
            ctx.ok('ends-exactly-it', wn)
        elif base is None:
            ctx.bad('ends-exactly-it', wn, 'the subscriber is still registered afterwards', p)
        else:
            known = isinstance(base, tuple) and base[0] == 'c' and base[1] in ('erase', 'empty', 'ins', 'pop_front', 'pop_back')
            if isinstance(base, tuple) and base[:2] == ('c', 'sym') and isinstance(base[2][1], tuple) and base[2][1][0] == 'erange' and (
                    base[2][1][1][2] == 'begin') != (base[2][1][2][2] == 'end'):
                # everything before or behind it goes too
                ctx.bad('ends-exactly-it', wn, 'a whole range of subscribers is removed with it', p)
                continue
            ctx.check(False if known else None, 'ends-exactly-it', wn, 'the set of subscribers becomes %s' % pv(base), p)
        rest = [k for k in el if k != idx]
        ctx.check(not rest, 'ends-only-itself', wn, 'ending one subscription changes queue %s' % (pv(rest[0]) if rest else ''), p)
        for r in lps:
            bad = [x for x in r.M if owner_is(x, o, m.Qf) and not under(x, ('e', Qloc(m, o), idx))]
            ctx.check(not bad, 'ends-only-itself', wn, 'ending one subscription drains other queues', p)


def subdtor(ctx, m, f):
    wn = ctx.loc(f)
    o = ('d', ('sym', ('f', THIS, m.ownf), m.ownt))
    idx = ('sym', ('f', THIS, m.idf), m.idt)
    I_, ps = ctx.run(f)
    for p in ps:
        if p.kind == 'throw':
            if p.st.exc.typ == 'SoDa::Format::BadFormat':
                continue
            ctx.bad('ending-never-throws', wn, 'destroying a subscription can throw %s, which ends the program' % p.st.exc.typ, p)
        else:
            ctx.ok('ending-never-throws', wn)
    ended(ctx, m, f, o, idx)


# ------------------------------------------------------------------ M04
def M04(ctx):
    m = model(ctx)
    P = ctx.P
    for name in ('readyCount', 'minReadyCount', 'subscriberCount'):
        for f in ops(ctx, m, name):
            def pure():
                I_, ps = ctx.run(f)
                for p in ps:
                    w = [e for e in wrote(m, p) if not noop(m, e)]
                    ctx.check(not w, 'asking-changes-nothing', ctx.loc(f), 'line %s changes %s' % (w[0][1], ploc(w[0][2])) if w else '', p)
            guarded(ctx, 'asking-changes-nothing', ctx.loc(f), pure)
    for f in ops(ctx, m, 'readyCount'):
        guarded(ctx, 'ready-count', ctx.loc(f), lambda: ready(ctx, m, f))
    for f in ops(ctx, m, 'minReadyCount'):
        guarded(ctx, 'min-ready-count', ctx.loc(f), lambda: minready(ctx, m, f))
    for f in ops(ctx, m, 'subscriberCount'):
        def sc():
            I_, ps = ctx.run(f)
            for p in ps:
                exact(ctx, 'subscriber-count', ctx.loc(f), p, clen(Q0(m)), 'the subscriber count')
        guarded(ctx, 'subscriber-count', ctx.loc(f), sc)


def noop(m, e):
    return False


def exact(ctx, rule, wn, p, want, what):
    if p.kind != 'ret':
        ctx.check(None, rule, wn, 'leaves with %s' % (p.st.exc,))
        return
    r = feq(p.st.F, p.val, want)
    if r is None and p.val[0] == 'op' and p.val[1] in ('b2i', 'ite', 'cond'):
        pass
    if r is None and known_value(p.val):
        r = False
    ctx.check(r, rule, wn, '%s is %s, not %s' % (what, pv(p.val), pv(want)), p)


def known_value(v):
    """a fully understood term: a linear form over sizes and fields"""
    if v[0] == 'i':
        return True
    if v[0] == 'sym':
        return v[1][0] in ('f', 'E', 'arg')
    if v[0] == 'lin':
        return all(known_value(a) for a, k in v[2])
    if v[0] == 'op':
        return v[1] in ('size', 'wrap', 'max0') or v[1] == 'cast' and RANGES.get(strip(v[2]), (0, 1 << 32))[1] < 1 << 16 and known_value(v[3])
    return False


def ready(ctx, m, f):
    si, stt = subarg(ctx, m, f)
    idx = idof(m, si, stt)
    I_, ps = ctx.run(f)
    for p in ps:
        if p.kind != 'ret':
            continue
        F = p.st.F
        if own_ok(m, F, si, stt) is False or F.decide(has(m, idx)) is False:
            continue
        exact(ctx, 'ready-count', ctx.loc(f), p, sizeof(elem(m, idx)), 'the ready count')


def minready(ctx, m, f):
    wn = ctx.loc(f)
    I_, ps = ctx.run(f)
    done = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        F = p.st.F
        v = p.val
        if F.decide(eq0(clen(Q0(m)))) is True and v[0] == 'i':
            ctx.check(v[1] % 2 ** 32 == 2 ** 32 - 1, 'min-of-none', wn, 'without subscribers the minimum is %s' % pv(v), p)
            continue
        lp = [r for r in loops_of(p.ev) if r.kind == 'foreach' and (r.cloc == Qloc(m) or is_q(m, r.cont))]
        r = acc = None
        for x in lp:
            for l in x.M:
                if mentions_L(v, x.lid, l) or p.st.env.get(l) == v:
                    r, acc = x, l
        if r is None:
            early = [e for e in p.ev if e[0] == 'loop' and e[4] not in ('cond',)]
            if v[0] == 'i' and early and v[1] == 0:
                n = sizeof_elem(m, early[-1][2], None)
                ctx.check(F.decide(eq0(n)), 'min-ready-count', wn, 'answers 0 early although no empty queue was seen', p)
            elif v[0] == 'i' and not early:
                ctx.bad('min-ready-count', wn, 'the minimum is always %s' % pv(v), p)
            else:
                ctx.unk('min-ready-count', wn, 'no loop computing the minimum recognised')
            continue
        done += 1
        n = None
        for k, h, b, bk in r.iters:
            n = sizeof_elem(m, r, b)
            old, new = h.env.get(acc), b.env.get(acc)
            if old is None:
                old = ('L', r.lid, acc, 'unsigned int')
            if new is None:
                ctx.unk('min-ready-count', wn, 'accumulator lost')
                continue
            F2 = b.F
            c = [F2.decide(le0(sub(new, old))), F2.decide(le0(sub(new, n)))]
            isone = feq(F2, new, old) is True or feq(F2, new, n) is True
            if new[0] == 'op' and new[1] in ('min',) and set(new[3:5]) == {old, n}:
                ctx.ok('min-ready-count', wn)
            elif all(x is True for x in c) and isone:
                ctx.ok('min-ready-count', wn)
            else:
                ctx.check(False if isone or known_value(new) or False in c else None, 'min-ready-count', wn,
                          'visiting a queue of size n turns the running value r into %s: not the smaller of the two' % pv(new), b_path(p, b))
        for h in r.heads if isinstance(r.heads, list) else []:
            pass
        e0 = entry_value(r, acc)
        if e0 is not None and e0[0] == 'i':
            ok = e0[1] % 2 ** 32 == 2 ** 32 - 1 and e0[1] > 0
            ctx.check(ok, 'min-of-none', wn, 'the minimum starts from %s' % pv(e0), p)
        else:
            ctx.unk('min-of-none', wn, 'start value %s' % (pv(e0) if e0 else None))
        for k, kind, s, x in r.exits:
            if kind != 'cond':
                av = s.env.get(acc)
                z = av is not None and s.F.decide(eq0(av)) is True
                ctx.check(z, 'looks-at-all', wn, 'the loop stops before all subscribers were looked at', p)
            else:
                ctx.ok('looks-at-all', wn)
    return done


def entry_value(r, acc):
    return r.entry.env.get(acc) if r.entry is not None else None


def is_q(m, c):
    return c in (Q0(m), Qsym(m))


def mentions_L(v, lid, loc):
    return isinstance(v, tuple) and (v[:3] == ('L', lid, loc) or any(mentions_L(x, lid, loc) for x in v if isinstance(x, tuple)))


def sizeof_elem(m, r, b):
    return sizeof(elem(m, ekey(r)))


# ------------------------------------------------------------------ M05
def M05(ctx):
    P = ctx.P
    cv = ctx.need([f for f in P.funcs.values() if f['name'] == 'convert' and f.get('cls') == 'SoDa::MailBoxBase' and f['has']],
                  'SoDa::MailBoxBase::convert')
    for f in cv:
        guarded(ctx, 'convert', ctx.loc(f), lambda: convert(ctx, f))


def convert(ctx, f):
    P = ctx.P
    wn = ctx.loc(f)
    I_, ps = ctx.run(f)
    rt = strip(f['ret'])
    T = rt[rt.index('<') + 1:-1].strip()
    arg = ('sym', ('arg', 0), strip(f['params'][0]['t']))
    isa = ('op', 'isa', 'bool', arg, T)
    ret = 0
    for p in ps:
        F = p.st.F
        nul = F.decide(('eqt', ('null',), arg))
        if nul is None:
            nul = F.decide(('eqt', arg, ('null',)))
        good = None
        for c, pol, ln in F.pc:
            if c[0] == 'op' and c[1] == 'isa' and c[3] == arg:
                if strip(c[4] if isinstance(c[4], str) else str(c[4])) == T:
                    good = pol
                elif pol:
                    good = 'other'
        for e in all_events(p.ev):
            if e[0] == 'deref' and e[2] == arg:
                F3 = e[3]
                nn = F3.decide(('eqt', ('null',), arg))
                ctx.check(nn is False, 'null-never-followed', wn, 'line %s follows the given pointer, which may be null' % e[1], p)
        if p.kind == 'ret':
            ret += 1
            same = p.val == arg
            ctx.check(True if same else (None if p.val[0] != 'null' else False), 'yields-that-mailbox', wn, 'yields %s' % pv(p.val), p)
            ctx.check(nul is False, 'never-null', wn, 'yields a null pointer for a null mailbox', p)
            ctx.check(good is True, 'right-type-only', wn, 'yields the mailbox without it being known to be a %s' % T, p)
        else:
            ctx.check(exc_is(P, p.st.exc.typ, EXC) or p.st.exc.typ == 'SoDa::Format::BadFormat', 'refuses-with-mailbox-exception', wn, 'refuses with %s' % p.st.exc.typ, p)
            ctx.check(not (nul is False and good is True), 'right-type-accepted', wn, 'a mailbox of the requested type is refused', p)
    ctx.check(True if ret else None, 'right-type-accepted', wn, 'no accepting path recognised')
