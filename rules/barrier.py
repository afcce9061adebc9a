"""B01, B02: obligations on every abstract path of Barrier::wait."""
from .common import *

CLS = 'SoDa::Barrier'
DAYS1000 = 1000 * 86400


def flat(ev):
    """events in order; a loop contributes the events of its iterations before those of its exit"""
    out = []
    for e in ev:
        out.append(e)
        if e[0] == 'loop':
            for k, h, b, bk in e[2].iters:
                out += flat(b.ev)
    return out


class Model:
    pass


def model(ctx):
    """roles of the fields, derived from what wait() and the constructor do with them"""
    P = ctx.P
    waits = ctx.need(ctx.fns_of(CLS, 'wait', 'public'), 'public member functions SoDa::Barrier::wait')
    sh = written_fields(P, CLS)
    shared = frozenset(sh.items())
    m = Model()
    m.shared = sh
    m.init = {}
    m.N = None
    for c in ctx.need([f for f in ctx.fns_of(CLS) if f['kind'] == 'ctor'], 'constructor of SoDa::Barrier'):
        I, ps = ctx.run(c)
        for p in ps:
            if p.kind != 'ret':
                continue
            for f in P.records[CLS]['fields']:
                v = p.st.env.get(('f', THIS, f['n']))
                if v is not None:
                    m.init[f['n']] = v
                    if is_int(f['t']) and v[0] == 'sym' and v[1][0] == 'arg' and f['n'] not in sh:
                        m.N = ('sym', ('f', THIS, f['n']), strip(f['t']))
                        m.Nf = f['n']
                        m.Narg = v
    m.runs = []
    for w in waits:
        I, ps = ctx.run(w, key='barrier', shared=shared)
        m.runs.append((w, ps))
    return m


def lastwr(evs, f, upto=None):
    v = None
    for i, e in enumerate(evs):
        if upto is not None and i >= upto:
            break
        if e[0] == 'wr' and e[2] == ('f', THIS, f):
            v = e[3]
    return v


def epoch_sym(f, t, n):
    return ('sym', (('f', THIS, f), 'epoch', n), strip(t))


class PI:
    """one path of wait(), digested"""
    def __init__(self, m, p):
        self.p = p
        st = p.st
        self.flat = flat(p.ev)
        self.waits = [e for e in self.flat if e[0] == 'wait']
        self.woke = [e for e in self.flat if e[0] == 'woke']
        iw = [i for i, e in enumerate(self.flat) if e[0] == 'wait']
        self.iw = iw[0] if iw else None
        self.locks = [e for e in self.flat if e[0] == 'lock']
        F = st.F
        # arrival: first write  f := f@epoch +- 1  before any wait
        self.arr = []
        for i, e in enumerate(self.flat):
            if self.iw is not None and i >= self.iw:
                break
            if e[0] == 'wr' and e[2][0] == 'f' and e[2][1] == THIS and e[2][2] in m.shared:
                for d in (1, -1):
                    b = addc(e[3], -d) if e[3][0] in ('lin', 'sym', 'op', 'i') else None
                    if b is not None and b[0] == 'sym' and b[1][0] == ('f', THIS, e[2][2]):
                        self.arr.append((e[2][2], b, d, i))
        self.final = {}
        for f, t in m.shared.items():
            v = st.env.get(('f', THIS, f))
            self.final[f] = v


def same_epoch(sym, f, t):
    """the value field f had at the same moment as the arrival symbol"""
    b = sym[1]
    if len(b) == 3 and b[1] == 'epoch':
        return epoch_sym(f, t, b[2])
    if len(b) == 2:
        return ('sym', (('f', THIS, f), b[1]), strip(t))
    return ('sym', ('f', THIS, f), strip(t))


def cur(pi, m, f):
    v = pi.final.get(f)
    return v


def roles(ctx, m):
    """W: arrival counter, G: generation fields, C: broken flag"""
    W = {}
    m.pis = []
    for w, ps in m.runs:
        for p in ps:
            pi = PI(m, p)
            pi.w = w
            m.pis.append(pi)
            if pi.waits:
                for f, b, d, i in pi.arr:
                    W[(f, d)] = W.get((f, d), 0) + 1
    m.W = m.d = None
    if not W:
        for pi in m.pis:
            if pi.arr and pi.p.kind == 'ret':
                f, b, d, i = min(pi.arr, key=lambda x: x[3])
                W[(f, d)] = W.get((f, d), 0) + 1
    if W:
        (m.W, m.d) = max(W, key=lambda k: W[k])
    # broken flag: the bool shared field set on paths that leave with Timeout
    m.C = None
    cand = {}
    for pi in m.pis:
        if pi.p.kind == 'throw' and pi.p.st.exc and pi.p.st.exc.typ == 'SoDa::Barrier::Timeout' and pi.waits:
            for f, t in m.shared.items():
                if strip(t) == 'bool' and pi.final.get(f) == I(1):
                    cand[f] = cand.get(f, 0) + 1
    if cand:
        m.C = max(cand, key=lambda k: cand[k])
    m.int_fields = [f for f, t in m.shared.items() if is_int(t) and strip(t) != 'bool']
    m.G = [f for f in m.int_fields if f != m.W]
    m.boolG = [f for f, t in m.shared.items() if strip(t) == 'bool' and f != m.C]


def relevant(pi):
    """paths that reached the shared part (not a failure while composing an exception)"""
    return True


def changed(F, new, old):
    """True if new != old is certain"""
    if new is None:
        return False
    if new == old:
        return False
    if new[0] == 'not' and new[1] == old or old[0] == 'not' and old[1] == new:
        return True
    try:
        r = F.decide(eq0(sub(new, old)))
    except Exception:
        return False
    return r is False


def at_turns(p, m, old):
    """round fields seen to have changed in every turn of the waiting loop after which it can be left this way"""
    lps = [e for e in p.ev if e[0] == 'loop' and any(x[0] == 'wait' for k, h, b, bk in e[2].iters for x in all_events(b.ev))]
    if len(lps) != 1 or len(lps[0]) < 4 or lps[0][2].entry is None:
        return []
    rec, key = lps[0][2], lps[0][3]
    turns = [b for k, h, b, bk in rec.iters if bk == key]
    out = []
    for g in m.G + m.boolG:
        snap = same_epoch(old, g, m.shared[g])
        if turns and not enters(rec, key) and all(changed(b.F, b.env.get(('f', THIS, g)), snap) for b in turns):
            out.append(g)
    return out


def enters(rec, key):
    """can the loop be entered in the state this key describes?"""
    for k, h, b, bk in rec.iters:
        if k == key:
            return True
    for l, d in key:
        e = rec.entry.env.get(l)
        if d[:1] == ('k',) and e is not None and e[0] == 'i' and e[1] != d[1]:
            return False
    return True


def B01(ctx):
    m = model(ctx)
    roles(ctx, m)
    if m.W is None:
        ctx.unk('arrival', CLS + '::wait', 'no arrival counter recognised')
        return
    if m.N is None:
        ctx.bad('round-size', CLS, 'the number of threads given to the constructor is not kept in a field that stays fixed')
        return
    Wt = m.shared[m.W]
    W0 = m.init.get(m.W)
    if m.d == 1:
        ctx.check(W0 == I(0), 'initially-empty', CLS, 'a new barrier does not start with no arrivals (starts with %s)' % pv(W0))
    else:
        ctx.check(W0 == m.Narg, 'initially-empty', CLS, 'a new barrier does not start with all arrivals outstanding')
    if m.C:
        ctx.check(m.init.get(m.C) == I(0), 'initially-intact', CLS, 'a new barrier starts broken')
    # the predicate under which others are let go
    gens = set()
    nrel = 0
    rets = [pi for pi in m.pis if pi.p.kind == 'ret' and not any(e[0] == 'rcall' for e in pi.flat)]
    for pi in rets:
        wn = ctx.loc(pi.w)
        p, F = pi.p, pi.p.st.F
        a = [x for x in pi.arr if x[0] == m.W and x[2] == m.d]
        if not a:
            ctx.check(False, 'every-caller-arrives', wn, 'a thread can pass the barrier without being counted as arrived', p)
            continue
        f, old, d, ia = a[0]
        full = eq0(sub(addc(old, d), m.N)) if d == 1 else eq0(addc(old, -1))
        dec = F.decide(full)
        if pi.waits:
            # waiter
            ctx.check(dec is False, 'last-arrival-does-not-wait', wn,
                      'the arrival that completes the round may itself go to sleep' if dec is None else
                      'the arrival that completes the round goes to sleep', p)
            g_ok = []
            for g in m.G + m.boolG:
                snap = same_epoch(old, g, m.shared[g])
                if changed(F, pi.final.get(g), snap):
                    g_ok.append(g)
            g_ok = g_ok or at_turns(p, m, old)
            ctx.check(bool(g_ok), 'waiter-leaves-only-after-release', wn,
                      'a waiting thread can return normally although no release happened since it arrived '
                      '(nothing on the path shows that the round it joined, as recorded in the same critical section as its arrival, has been completed)', p)
            gens.update(g_ok)
            # nothing is written after waking
            late = [e for e in pi.flat[pi.iw:] if e[0] == 'wr' and e[2][0] == 'f' and e[2][1] == THIS and e[2][2] in m.shared
                    and not (e[2][2] == m.C)]
            ctx.check(not late, 'released-waiter-changes-nothing', wn,
                      'a released thread still changes %s, which may already belong to the next round' % (late[0][2][2] if late else ''), p)
            # between arrival and sleep the lock is never given up
            unl = [e for e in pi.flat[ia:pi.iw] if e[0] in ('unlock', 'lock')]
            ctx.check(not unl, 'arrive-and-sleep-atomic', wn, 'the lock is released between arriving and going to sleep: a release in between is missed', p)
        else:
            nrel += 1
            if dec is None and d == 1 and F.decide(le0(sub(m.N, addc(old, d)))) is True:
                dec = True      # as many as a round needs, or more
            ctx.check(dec is True, 'no-pass-without-complete-round', wn,
                      'a thread returns at once although its arrival need not complete the round', p)
            fin = pi.final.get(m.W)
            want = I(0) if d == 1 else m.N
            ctx.check(fin is not None and (fin == want or F.decide(eq0(sub(fin, want))) is True), 'release-empties-barrier', wn,
                      'after the completing arrival the barrier still counts arrivals (%s)' % pv(fin), p)
            gch = [g for g in m.G + m.boolG if changed(F, pi.final.get(g), same_epoch(old, g, m.shared[g]))]
            pi.gch = gch
            ctx.check(bool(gch), 'release-starts-new-round', wn,
                      'the completing arrival does not mark the round as completed', p)
            nall = [i for i, e in enumerate(pi.flat) if e[0] == 'notify' and e[2] == 'all']
            none_ = [i for i, e in enumerate(pi.flat) if e[0] == 'notify']
            ctx.check(bool(nall), 'release-wakes-everyone', wn,
                      'the completing arrival wakes %s' % ('only one waiter' if none_ else 'nobody'), p)
            if nall and gch:
                lastg = max(i for i, e in enumerate(pi.flat) if e[0] == 'wr' and e[2] == ('f', THIS, gch[0]))
                early = all(i < lastg for i in nall)
                if early:
                    k = max(nall)
                    gap = any(e[0] == 'unlock' for e in pi.flat[k:lastg])
                    held = any(e[0] == 'wr' and e[2] == ('f', THIS, gch[0]) and e[5] for e in [pi.flat[lastg]])
                    ctx.check(not gap and held and bool(pi.flat[k][4]), 'wake-sees-new-round', wn,
                              'waiters are woken before the round is marked completed, outside the same critical section', p)
                else:
                    ctx.ok('wake-sees-new-round', wn)
    for pi in rets:
        if not pi.waits and hasattr(pi, 'gch') and gens:
            ctx.check(bool(set(pi.gch) & gens), 'waiters-watch-the-round-mark', ctx.loc(pi.w),
                      'waiters watch %s but the completing arrival changes only %s' % (sorted(gens), pi.gch), pi.p)
    # who else changes the round mark or the arrival count
    for pi in m.pis:
        wn = ctx.loc(pi.w)
        p = pi.p
        if pi.p.kind == 'throw' and p.st.exc and p.st.exc.typ.startswith('SoDa::Barrier') and not any(e[0] == 'rcall' for e in pi.flat):
            old = [x for x in pi.arr if x[0] == m.W]
            touched = [g for g in gens if any(e[0] == 'wr' and e[2] == ('f', THIS, g) for e in pi.flat)]
            if touched:
                ctx.check(m.C is not None and pi.final.get(m.C) == I(1), 'only-release-or-break-moves-the-round', wn,
                          'a failing wait marks the round completed without marking the barrier broken', p)
    # other public members
    for f in ctx.fns_of(CLS, None, 'public'):
        if f['name'] == 'wait' or f['kind'] in ('ctor', 'dtor'):
            continue
        I_, ps = ctx.run(f)
        for p in ps:
            wr = [e for e in all_events(p.ev) if e[0] == 'wr' and e[2][0] == 'f' and e[2][1] == THIS and e[2][2] in ([m.W] + list(gens))]
            ctx.check(not wr, 'only-wait-counts', ctx.loc(f), 'changes the barrier state', p)
    if not [pi for pi in rets if pi.waits]:
        ctx.unk('waiter-leaves-only-after-release', CLS + '::wait', 'no path that waits and returns')
    if not nrel:
        ctx.unk('no-pass-without-complete-round', CLS + '::wait', 'no releasing path')


def to_seconds(d):
    """(term, num, den)"""
    return d


def B02(ctx):
    m = model(ctx)
    roles(ctx, m)
    P = ctx.P
    TO, CO = 'SoDa::Barrier::Timeout', 'SoDa::Barrier::Corrupt'
    for t in (TO, CO):
        if t not in P.records:
            raise Anchor(t)
    seen_to = seen_co = False
    cname = m.C
    for pi in m.pis:
        if any(e[0] == 'rcall' for e in pi.flat):
            continue
        p, F, wn = pi.p, pi.p.st.F, ctx.loc(pi.w)
        typ = p.st.exc.typ if p.st.exc else None
        timed = any(e[2] == 'timeout' for e in pi.woke)
        Cold = None
        if cname is not None:
            ev = F.decide
            Cnow = pi.final.get(cname)
        if typ == TO:
            seen_to = True
            ctx.check(timed, 'timeout-only-after-timing-out', wn, 'Timeout is thrown on a path whose wait did not expire', p)
            ctx.check(cname is not None and pi.final.get(cname) == I(1), 'timeout-marks-barrier-broken', wn,
                      'Timeout is thrown without marking the barrier broken: later arrivals and waiters would not notice', p)
            nt = [e for e in pi.flat if e[0] == 'notify']
            ctx.check(any(e[2] == 'all' for e in nt), 'timeout-wakes-everyone', wn,
                      'the timed out thread does not wake all other waiters', p)
            if cname is not None:
                # only the first: the flag was clear when this thread woke
                n = p.st.cnt.get('epoch', 0)
                clear = F.decide(epoch_sym(cname, 'bool', n)) is False
                moves = any(pi2.p.st.exc and pi2.p.st.exc.typ == TO and any(e[0] == 'wr' and e[2][0] == 'f' and e[2][2] in m.G for e in pi2.flat)
                            for pi2 in m.pis)
                ctx.check(True if clear else (None if moves else False), 'only-the-first-gets-timeout', wn,
                          'a thread that times out after another one already broke the barrier can get Timeout again', p)
        elif typ == CO:
            seen_co = True
            ok = cname is not None and known_true(F, pi, cname)
            ctx.check(ok, 'corrupt-only-when-broken', wn, 'Corrupt is thrown although the barrier is not known to be broken', p)
        elif p.kind == 'ret':
            if timed and m.W:
                # expired but returned: must be a completed round
                a = [x for x in pi.arr if x[0] == m.W]
                ctx.check(bool(a) and any(changed(F, pi.final.get(g), same_epoch(a[0][1], g, m.shared[g])) for g in m.G + m.boolG),
                          'expired-wait-never-returns', wn, 'a wait that expired returns normally although its round did not complete', p)
            if cname is not None:
                ctx.check(known_false(F, pi, cname, m), 'broken-barrier-never-passes', wn,
                          'a thread can return normally from a barrier that is already broken', p)
        elif p.kind == 'throw' and typ not in (TO, CO):
            if typ == 'SoDa::Format::BadFormat':
                continue
            ctx.check(False, 'fails-only-with-own-exceptions', wn, 'leaves with %s' % typ, p)
    if cname is None and seen_to:
        pass
    ctx.check(seen_to, 'expiry-throws-timeout', CLS + '::wait', 'no path of wait() throws Timeout', None)
    ctx.check(seen_co, 'broken-throws-corrupt', CLS + '::wait', 'no path of wait() throws Corrupt', None)
    # late arrivals and waiters both covered
    if cname is not None:
        late = [pi for pi in m.pis if pi.p.st.exc and pi.p.st.exc.typ == CO and not pi.waits]
        ctx.check(bool(late), 'late-arrival-gets-corrupt', CLS + '::wait', 'no path throws Corrupt for a thread that arrives at a broken barrier')
        wok = [pi for pi in m.pis if pi.p.st.exc and pi.p.st.exc.typ == CO and pi.waits and pi.woke and pi.woke[-1][2] != 'timeout']
        ctx.check(bool(wok), 'woken-waiter-gets-corrupt', CLS + '::wait', 'no path throws Corrupt for a waiter woken by the breaking of the barrier')
        # the flag is never cleared
        for pi in m.pis:
            for e in pi.flat:
                if e[0] == 'wr' and e[2] == ('f', THIS, cname):
                    ctx.check(e[3] == I(1), 'broken-stays-broken', ctx.loc(pi.w), 'the broken mark is cleared again', pi.p)
    # durations
    for pi in m.pis:
        if any(e[0] == 'rcall' for e in pi.flat):
            continue
        F, wn = pi.p.st.F, ctx.loc(pi.w)
        for e in all_events(pi.p.ev):
            if e[0] == 'narrow' and isargonly(('dur', e[2])):
                k = sum(abs(x) for x in lin(e[2])[1].values()) or 1
                if k * 1000 * 24 * 3600 * 1000 > absint.RANGES[e[4]][1]:
                    ctx.check(False, 'timeout-not-truncated', wn, 'the timeout is cut to %s at line %s: a long one turns into a short one' % (e[4], e[1]), pi.p)
                else:
                    ctx.ok('timeout-not-truncated', wn)
        arg = None
        pt = pi.w['params'][0]['t'] if pi.w['params'] else '?'
        for e in pi.waits:
            d = e[3]
            arg = ('sym', ('arg', 0), strip(pt))
            if e[2] == 'wait':        # no time limit at all
                z = argzero(F, arg, pt)
                ctx.check(z is True, 'finite-timeout-honoured', wn, 'a wait with a finite timeout sleeps without any limit', pi.p)
                continue
            z = argzero(F, arg, pt)
            if d is not None and e[2] == 'wait_until':
                d = since_now(d)
            if d is None or d[0] not in ('dur', 'sym'):
                ctx.unk('timeout-value', wn, 'timeout of the sleep not recognised: %s' % (pv(d) if d else None))
                continue
            if d[0] == 'dur' and d[1][0] == 'i':
                secs = d[1][1] * d[2] / d[3]
                if z is True:
                    ctx.check(secs >= DAYS1000, 'zero-means-forever', wn, 'a zero timeout waits only %g seconds' % secs, pi.p)
                elif z is False:
                    ctx.check(False, 'finite-timeout-honoured', wn, 'a non-zero timeout is replaced by %g seconds' % secs, pi.p)
                else:
                    ctx.check(False, 'finite-timeout-honoured', wn, 'the sleep lasts %g seconds whatever timeout was asked' % secs, pi.p)
                continue
            same = d == arg
            if d[0] == 'dur':
                t, num, den = d[1], d[2], d[3]
                ms = None
                base = ('sym', ('arg', 0), strip(pt)) if 'duration' not in pt else ('op', 'count', 'long', arg)
                k = t
                if lin(t)[0] == 0 and len(lin(t)[1]) == 1:
                    (a, kk), = lin(t)[1].items()
                    if isarg(a):
                        same = num * kk * 1000 == den
            if z is False or z is None and same:
                if z is None:
                    # zero not excluded: sleeping 0 ms for a zero timeout
                    ctx.check(False, 'zero-means-forever', wn, 'a zero timeout is passed on as it is and expires at once', pi.p)
                else:
                    ctx.check(True if same else (False if isargonly(d) else None), 'finite-timeout-honoured', wn,
                              'the sleep lasts %s instead of the %s asked' % (pv(d), pv(arg)), pi.p)
            elif z is True:
                ctx.check(False, 'zero-means-forever', wn, 'a zero timeout sleeps %s' % pv(d), pi.p)
            else:
                ctx.check(False, 'finite-timeout-honoured', wn, 'the sleep lasts %s' % pv(d), pi.p)


def since_now(d):
    """deadline = now + duration -> the duration, else None"""
    if d[0] == 'sym' and isinstance(d[1], tuple) and d[1] and d[1][0] == 'dexp' and d[1][1] == 'operator+':
        xs = d[1][2:]
        rest = [x for x in xs if not (isinstance(x, tuple) and x[0] == 'sym' and isinstance(x[1], tuple) and x[1][0] == 'now')]
        if len(xs) == 2 and len(rest) == 1:
            return rest[0]
    return None


def isarg(a):
    return a[0] == 'sym' and a[1] == ('arg', 0) or a[0] == 'op' and a[1] in ('count', 'dcount') and isarg(a[3])


def isargonly(d):
    """the duration is an arithmetic function of the argument alone"""
    def ats(t):
        if t[0] == 'lin':
            return [x for a, k in t[2] for x in ats(a)]
        if t[0] == 'op' and not isarg(t):
            return [x for y in t[3:] if isinstance(y, tuple) for x in ats(y)]
        if t[0] == 'i':
            return []
        return [t]
    if d[0] == 'dur':
        return all(isarg(a) for a in ats(d[1]))
    return False


def argzero(F, arg, pt):
    if 'duration' in pt:
        for c, pol, ln in F.pc:
            pass
        for t in (('op', 'count', 'long', arg), ('op', 'dcount', 'long', arg)):
            d = F.decide(eq0(t))
            if d is not None:
                return d
        # look for any condition on the argument's count
        for c, pol, ln in F.pc:
            b = c
            neg = False
            while b[0] == 'not':
                b, neg = b[1], not neg
            if b[0] == 'eq0':
                ats = list(lin(b[1])[1])
                if lin(b[1])[0] == 0 and len(ats) == 1 and isarg(ats[0]):
                    return pol != neg
        return None
    return F.decide(eq0(arg))


def mentions_field(c, f):
    if isinstance(c, tuple):
        if len(c) == 3 and c[0] == 'f' and c[1] == THIS and c[2] == f:
            return True
        return any(mentions_field(x, f) for x in c)
    return False


def known_true(F, pi, c):
    v = pi.final.get(c)
    if v is not None and F.decide(v) is True:
        return True
    return False


def known_false(F, pi, c, m):
    v = pi.final.get(c)
    if v is not None:
        return F.decide(v) is False
    return F.decide(('sym', ('f', THIS, c), 'bool')) is False
