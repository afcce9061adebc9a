"""Path-sensitive abstract interpreter over the exported, type-checked program.

Fixpoint-based (loops run to a fixpoint over canonicalised head states; no solver,
no execution). Repo functions are inlined, standard-library operations are modelled
in stl.py. The result of a function is its finite set of abstract path summaries.
"""
import re
from terms import *


class Undecided(Exception):
    pass


class St:
    __slots__ = ('env', 'F', 'ev', 'locks', 'imprecise', 'exc', 'cnt', 'seen')

    def __init__(self):
        self.seen = ()
        self.env, self.F, self.ev, self.locks = {}, Facts(), (), ()
        self.imprecise = ()
        self.exc = None
        self.cnt = {}

    def copy(self):
        s = St()
        s.env, s.F, s.ev, s.locks = dict(self.env), self.F.copy(), self.ev, self.locks
        s.imprecise, s.exc, s.cnt = self.imprecise, self.exc, dict(self.cnt)
        return s

    def get(self, l):
        """value of a location at the end of an iteration, the element just visited included"""
        v = self.env.get(l)
        return v if v is not None else dict(self.seen).get(l)

    def event(self, *e):
        self.ev = self.ev + (e,)

    def fork(self, cond, line=None):
        """-> [(state, bool)] over the feasible truth values of cond"""
        d = self.F.decide(cond)
        if d is not None:
            return [(self, d)]
        out = []
        for pol in (True, False):
            s = self.copy()
            if s.F.assume(cond, pol, line):
                out.append((s, pol))
        return out


class Exc:
    """a thrown exception"""
    def __init__(self, typ, val, line, f=''):
        self.typ, self.val, self.line, self.file = typ, val, line, f

    def __repr__(self):
        return 'throw %s@%s' % (self.typ, self.line)


THROW = ('throw',)


class LoopRec:
    def __init__(self, lid, node, fn):
        self.lid, self.node, self.fn = lid, node, fn
        self.line = node.get('l')
        self.file = node.get('f')
        self.variants = {}     # key -> head state
        self.iters = []        # (variant key, head state, back state, back key)
        self.exits = []        # (variant key, kind, state)
        self.entries = []
        self.M = []
        self.kind = 'general'
        self.cont = None       # foreach: container value
        self.cloc = None
        self.elem = None
        self.entry = None

    def __repr__(self):
        return 'Loop#%s@%s' % (self.lid, self.line)


class Path:
    def __init__(self, st, kind, val):
        self.st, self.kind, self.val = st, kind, val

    @property
    def ev(self):
        return self.st.ev


def flat_events(ev):
    """events of a path, loops not descended"""
    return ev


def rootgone(l):
    """a place inside an element that was removed from its container"""
    while isinstance(l, tuple) and l:
        if l[0] == 'gone':
            return l
        if l[0] not in ('e', 'f', 'pf'):
            return None
        l = l[1]
    return None


class Interp:
    MAXPATHS = 6000

    def __init__(self, P, opaque=None, shared=None, hooks=None):
        """opaque(fn, qn) -> None | handler ; shared: set of root locs havocked at lock/wait"""
        self.P = P
        self.opaque = opaque or (lambda f: False)
        self.shared = shared
        self.hooks = hooks or {}
        self.loops = []
        self.stack = []
        self.lidn = 0
        self.analysed = set()
        self.sites = 0
        self.types = {}
        self.npaths = 0
        import stl
        self.stl = stl
        self.mt = MayThrow(P)

    # ------------------------------------------------------------ locations
    def vloc(self, node):
        if node.get('cv') is not None:
            return ('g', '%s#%s' % (node['g'], node['cv']))      # a constant: the value is part of its name
        if node.get('g'):
            return ('g', node['g'])
        return ('v', self.depth_of(node['id']), node['id'])

    def depth_of(self, vid):
        # innermost frame that declares the variable
        for i in range(len(self.stack) - 1, -1, -1):
            if vid in self.stack[i]['vars']:
                return i
        return len(self.stack) - 1

    def sym(self, base, typ):
        """a fresh symbolic value of a type, named by the structural term base"""
        t = strip(typ)
        if t == 'std::string':
            return ('s', (('w', ('sym', base, t)),))
        if self.is_container(t):
            return ('c', 'sym', ('sym', base, t))
        if re.match(r'std::(basic_)?[io]?(string)?stream', t) or t.startswith('std::basic_stringstream') or t.startswith('std::basic_istringstream') or t.startswith('std::basic_ostringstream'):
            return ('ss', (('w', ('sym', base, t)),), tuple(('sym', ('f', base, '#' + n), 'int') for n in self.stl.FIELDS) if base[0] == 'g' and str(base[1]).startswith('static:') else self.stl.FMT0)
        return ('sym', base, t)

    def is_container(self, t):
        return not t.endswith('*') and bool(re.match(r'std::(map|unordered_map|multimap|list|vector|queue|deque|set|unordered_set|forward_list|stack|priority_queue|array|multiset)<', t))

    def rec(self, t):
        return self.P.records.get(strip(t))

    def read(self, st, loc, typ='?'):
        v = st.env.get(loc)
        if v is not None:
            if v[0] == 'ref':
                return self.read(st, v[1], typ)
            return v
        k = loc[0]
        if k == 'g' and '#' in loc[1]:
            return I(int(loc[1].rsplit('#', 1)[1]))
        t = strip(typ)
        if t == '?':
            t = strip(self.loc_type(loc))
        r = self.rec(t)
        if r is not None and not t.endswith('*'):
            return self.snapshot(st, loc, r)
        if k == 'e':
            c = self.read(st, loc[1])
            v = self.stl.select(self, st, c, loc[2], t)
            return v
        if k == 'pf':          # field of a pair/element
            if loc[1][0] == 'e' and loc[2] == 'first' and not (loc[1][2][0] == 'op' and loc[1][2][1] == 'ix'):
                return loc[1][2]
            b = self.read(st, loc[1])
            if b[0] == 'pair':
                return b[1] if loc[2] == 'first' else b[2]
            return self.sym(('F', b, loc[2]), t)
        if k == 'f':
            b = st.env.get(loc[1])
            if b is not None and b[0] == 'obj':
                for n, fv in b[2]:
                    if n == loc[2]:
                        return fv
            if b is not None and b[0] in ('sym', 'L'):
                return self.sym(('F', b, loc[2]), t)
            if b is not None and b[0] == 'pair':
                return b[1] if loc[2] == 'first' else b[2]
            # element objects of containers
            if loc[1][0] == 'e':
                bv = self.read_elem(st, loc[1])
                if bv[0] == 'obj':
                    for n, fv in bv[2]:
                        if n == loc[2]:
                            return fv
                return self.sym(('F', bv, loc[2]), t)
        ver = st.cnt.get(('ver', self.rootloc(loc)), 0)
        return self.sym((loc, ver) if ver else loc, t)

    def read_elem(self, st, loc):
        """the value of a container element without the changes made to its fields since"""
        v = st.env.get(loc)
        if v is not None and v[0] != 'ref':
            return v
        return self.stl.select(self, st, self.read(st, loc[1]), loc[2], strip(self.loc_type(loc)))

    def rootloc(self, loc):
        """the field (of an object) or variable a location is part of"""
        while True:
            if loc[0] == 'f' and loc[1][0] in ('obj', 'd', 'h', 'v', 'g', 't'):
                return loc
            if loc[0] in ('f', 'e', 'pf', 'idx'):
                loc = loc[1]
                continue
            return loc

    def snapshot(self, st, loc, r):
        fs = []
        rr = r
        for b in rr['bases']:
            br = self.rec(b['t'])
            if br is not None:
                fs += list(self.snapshot(st, loc, br)[2])
        for f in rr['fields']:
            fs.append((f['n'], self.read(st, ('f', loc, f['n']), f['t'])))
        return ('obj', r['key'], tuple(fs))

    def drop_sub(self, st, loc):
        dead = [l for l in st.env if l != loc and self.under(l, loc)]
        for l in dead:
            del st.env[l]

    def under(self, l, loc):
        while l[0] in ('f', 'e', 'pf', 'idx'):
            l = l[1]
            if l == loc:
                return True
        return False

    def write(self, st, loc, v, line=None, drop=True, op='='):
        b = st.env.get(loc)
        if b is not None and b[0] == 'ref':
            loc = b[1]
        if loc[0] == 'e':
            # other elements of the same container may be the same one
            for l in [l for l in st.env if l[0] == 'e' and l[1] == loc[1] and l[2] != loc[2]]:
                if not (loc[2][0] == 'i' and l[2][0] == 'i'):
                    if l[1][0] not in ('v', 't', 'h'):
                        del st.env[l]
            pl = st.env.get(loc[1])
            if pl is not None and pl[0] == 's' and v[0] != 'obj':
                # one character of a string
                self.write(st, loc[1], S(('setat', pl, loc[2], v)), line)
                return
        if drop:
            self.drop_sub(st, loc)
        self.touch(st, 'wr', loc, line, v, op)
        if v[0] == 'obj':
            st.env.pop(loc, None)
            for n, fv in v[2]:
                if fv[0] == 'obj':
                    self.write(st, ('f', loc, n), fv, line)
                else:
                    st.env[('f', loc, n)] = fv
            if not v[2]:
                st.env[loc] = v
        else:
            st.env[loc] = v

    def touch(self, st, kind, loc, line, v=None, op=None):
        r = self.rootloc(loc)
        if r[0] == 'f' and r[1][0] in ('obj', 'd', 'h') or r[0] in ('g', 'd') or r[0] == 'f':
            st.event(kind, line, loc, v, op, st.locks)
        elif self.hooks.get('trace_all'):
            st.event(kind, line, loc, v, op, st.locks)

    def deref_event(self, s, line, v):
        """a pointer is followed; the last field says whether it is null here"""
        s.event('deref', line, v, s.F, False if v[0] == 'ptr' else True if v[0] == 'null' else s.F.decide(('eqt', ('null',), v)))

    def ptr_loc(self, p):
        if p[0] == 'ptr':
            return p[1]
        return ('d', p)

    # ------------------------------------------------------------ calls
    def run(self, fn, args=None, this=('obj', 'this'), st=None, pre=None):
        """analyse fn from its entry; -> [Path]"""
        st = st or St()
        self.loops = []
        self.stack = []
        self.npaths = 0
        if pre:
            pre(self, st)
        vals = []
        for i, p in enumerate(fn['params']):
            if args and i < len(args) and args[i] is not None:
                vals.append(args[i])
            else:
                t = p['t']
                if t.strip().endswith('&'):
                    vals.append(('loc', ('obj', 'arg:' + str(i))))
                    l = ('obj', 'arg:' + str(i))
                    b = strip(t)
                    if self.rec(b) is None:
                        st.env[l] = self.sym(('arg', i), b)
                else:
                    r = self.rec(t)
                    if r is not None:
                        vals.append(self.snapshot(st, ('obj', 'arg:' + str(i)), r))
                    else:
                        vals.append(self.sym(('arg', i), t))
        res = []
        for s, k, v in self.call_fn(fn, this, vals, st, None):
            res.append(Path(s, k, v))
        return res

    def ground(self, v):
        return v[0] in ('i', 'fl', 'null') or v[0] == 'dur' and v[1][0] == 'i' or \
            v[0] == 's' and all(p[0] == 'lit' for p in v[1])

    def bind_params(self, st, depth, params, vals):
        for p, v in zip(params, vals):
            l = ('v', depth, p['id'])
            if v[0] == 'loc':
                if p['t'].strip().endswith('&'):
                    st.env[l] = ('ref', v[1])
                else:
                    self.write_init(st, l, self.read(st, v[1], p['t']))
            elif p['t'].strip().endswith('&'):
                t = self.newtemp(st)
                self.write_init(st, t, v)
                st.env[l] = ('ref', t)
            else:
                self.write_init(st, l, v)

    def write_init(self, st, loc, v):
        if v[0] == 'obj':
            self.drop_sub(st, loc)
            st.env.pop(loc, None)
            for n, fv in v[2]:
                self.write_init(st, ('f', loc, n), fv)
            if not v[2]:
                st.env[loc] = v
        else:
            self.drop_sub(st, loc)
            st.env[loc] = v

    def newtemp(self, st):
        d = len(self.stack)
        n = st.cnt.get(('tmp', d), 0)
        st.cnt[('tmp', d)] = n + 1
        return ('t', d, n)

    def call_fn(self, fn, this, vals, st, node):
        """-> [(st, 'ret'|'throw', value)]"""
        key = fn['key']
        self.analysed.add(key)
        nact = len([1 for f in self.stack if f.get('key') == key])
        if nact and not (nact < 3 and vals and all(self.ground(self.argval(st, v)) for v in vals)) or len(self.stack) > 24:
            return self.opaque_call(fn, this, vals, st, node, 'rcall')
        vars_ = {}
        self.collect_vars(fn.get('body'), vars_)
        for p in fn['params']:
            vars_[p['id']] = p['t']
        frame = {'key': key, 'this': this, 'vars': vars_, 'fn': fn, 'rt': fn['ret']}
        self.stack.append(frame)
        try:
            d = len(self.stack) - 1
            self.bind_params(st, d, fn['params'], vals)
            outs = []
            sts = [st]
            if fn['kind'] == 'ctor':
                sts = self.ctor_inits(fn, this, st)
            for s in sts:
                if s.exc:
                    outs.append((s, 'throw', None))
                    continue
                for s2, k, v in self.block_exec(fn['body'], s):
                    if k in ('norm', 'ret'):
                        outs.append((s2, 'ret', v))
                    elif k == 'throw':
                        outs.append((s2, 'throw', v))
            if fn['kind'] == 'dtor':
                outs = [self.dtor_members(fn, this, o) for o in outs]
        finally:
            self.stack.pop()
        for s, k, v in outs:
            dead = [l for l in s.env if self.base(l)[0] == 'v' and self.base(l)[1] == d or self.base(l)[0] == 't' and self.base(l)[1] > d]
            if v is not None and v[0] == 'loc' and v[1] in dead:
                pass
            for l in dead:
                del s.env[l]
            s.cnt.pop(('tmp', d + 1), None)
        self.npaths = max(self.npaths, len(outs))
        if len(outs) > self.MAXPATHS:
            raise Undecided('too many paths in %s' % key)
        return outs

    def base(self, l):
        while l[0] in ('f', 'e', 'pf', 'idx'):
            l = l[1]
        return l

    def collect_vars(self, s, out):
        if isinstance(s, dict):
            if s.get('k') == 'decl':
                for v in s['v']:
                    out[v['id']] = v['t']
            elif s.get('k') in ('rfor',):
                out[s['v']['id']] = s['v']['t']
            elif s.get('k') == 'try':
                for h in s['h']:
                    if 'id' in h:
                        out[h['id']] = h['t']
            elif s.get('k') == 'lambda':
                return
            if s.get('cv') and isinstance(s['cv'], dict):
                out[s['cv']['id']] = s['cv']['t']
            for v in s.values():
                if isinstance(v, (dict, list)):
                    self.collect_vars(v, out)
        elif isinstance(s, list):
            for x in s:
                self.collect_vars(x, out)

    def ctor_inits(self, fn, this, st):
        sts = [st]
        for i in fn.get('inits', []):
            nxt = []
            for s in sts:
                if s.exc:
                    nxt.append(s)
                    continue
                if i.get('f'):
                    loc = ('f', this, i['f'])
                    for s2, v in self.init_into(i['init'], s, loc, i['ft']):
                        nxt.append(s2)
                elif i.get('base') or i.get('deleg'):
                    for s2, v in self.init_into(i['init'], s, this, i.get('base', '?')):
                        nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def dtor_members(self, fn, this, out):
        return out

    def init_into(self, e, st, loc, typ):
        """construct the value of e into loc -> [(st, None|THROW)]"""
        if e is None:
            return [(st, None)]
        if typ.strip().endswith('&'):
            res = []
            for s, l in self.lval(e, st):
                if s.exc:
                    res.append((s, THROW))
                    continue
                s.env[loc] = ('ref', l)
                res.append((s, None))
            return res
        if e['k'] == 'ctor' and not (e.get('cp') or e.get('mv')):
            return self.construct(e, st, loc)
        res = []
        for s, v in self.rval(e, st):
            if s.exc:
                res.append((s, THROW))
                continue
            self.write_init(s, loc, v)
            if self.rootloc(loc)[0] == 'f' and self.rootloc(loc)[1][0] in ('obj', 'd', 'h'):
                self.touch(s, 'init', loc, e.get('l'), v, 'init')
            res.append((s, None))
        return res

    def construct(self, e, st, loc):
        """run constructor expression e on loc"""
        qn = e['qn']
        fn = self.P.funcs.get(e['key'])
        res = []
        for s, args in self.eval_args(e['args'], e.get('pt', []), st, qn):
            if s.exc:
                res.append((s, THROW))
                continue
            if fn is not None and fn['has'] and self.rec(e['rk']) is not None:
                if self.is_exception_type(e['rk']) and not self.hooks.get('inline_exc'):
                    self.write_init(s, loc, ('obj', e['rk'], (('#args', ('tuple',) + tuple(self.argval(s, a) for a in args)),)))
                    s.event('excctor', e.get('l'), e['rk'], tuple(self.argval(s, a) for a in args))
                    res.append((s, None))
                    continue
                op = self.opaque(fn)
                if op:
                    for s2, k, v in self.opaque_call(fn, loc, args, s, e, 'call'):
                        s2.env.setdefault(loc, self.sym(('made', fn['qn'], e.get('l')), e['rk']))
                        res.append((s2, THROW if k == 'throw' else None))
                    continue
                for s2, k, v in self.call_fn(fn, loc, args, s, e):
                    res.append((s2, THROW if k == 'throw' else None))
            else:
                for s2, v in self.stl.construct(self, s, e, loc, args):
                    if s2.exc is None and e['args']:
                        self.stl.moved(self, s2, e['args'], args)
                    if s2.exc is None and v is not None:
                        self.write_init(s2, loc, v)
                        self.touch(s2, 'init', loc, e.get('l'), v, 'init')
                    res.append((s2, THROW if s2.exc else None))
        return res

    def is_exception_type(self, t):
        t = strip(t)
        if t in ('std::runtime_error', 'std::exception', 'std::logic_error', 'std::out_of_range', 'std::invalid_argument'):
            return True
        r = self.rec(t)
        return bool(r and any(a in ('std::exception', 'std::runtime_error') for a in r['pubanc']))

    def argval(self, st, a):
        if a[0] == 'loc':
            return self.readany(st, a[1])
        return a

    def readany(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return self.readany(st, v[1]) if v[0] == 'ref' else v
        fs = tuple((l[2], st.env[l]) for l in sorted(st.env, key=repr) if l[0] == 'f' and l[1] == loc)
        if fs:
            return ('obj', '?', fs)
        t = self.loc_type(loc)
        return self.read(st, loc, t)

    def loc_type(self, loc):
        if loc[0] == 'f':
            # find by field name in any record of the program
            ts = set(f['t'] for r in self.P.records.values() for f in r['fields'] if f['n'] == loc[2])
            if len(ts) == 1:
                return ts.pop()
        if loc[0] == 'v' and loc[1] < len(self.stack):
            return self.stack[loc[1]]['vars'].get(loc[2], '?')
        if loc[0] == 'e':
            t = strip(self.loc_type(loc[1]))
            if self.is_container(t):
                return self.stl.val_type(t) or '?'
        return '?'

    def negated(self, st, line, v, t):
        """the least value of a signed type has no negative"""
        lo = RANGES.get(strip(t), (0, 0))[0]
        if lo < -2 ** 30 and v[0] != 'i' and st.F.irange(v)[0] <= lo:
            st.event('minneg', line, v, strip(t))

    def as_cstr(self, a, pt, nxt):
        """the text of a string object handed over as a pointer to a text that ends at its first NUL"""
        if strip(pt) != 'const char *' and pt.strip() != 'const char *' or strip(nxt) in RANGES:
            return False
        while a is not None and a.get('k') in ('tmp', 'cast', 'ld'):
            a = a.get('e')
        return a is not None and a.get('k') == 'call' and a.get('mname') in ('c_str', 'data') and str(a.get('qn', '')).startswith('std::basic_string')

    def eval_args(self, args, pts, st, callee=None):
        """-> [(st, [value|('loc',l)])]; glvalue arguments bound to references are passed as locations"""
        states = [(st, [])]
        for i, a in enumerate(args):
            nxt = []
            pt = pts[i] if i < len(pts) else ''
            for s, vs in states:
                if s.exc:
                    nxt.append((s, vs))
                    continue
                if a is not None and a.get('lv') and (pt.strip().endswith('&') or not pt):
                    for s2, l in self.lval(a, s):
                        nxt.append((s2, vs + [('loc', l)]))
                elif a is not None and a['k'] == 'tmp' and pt.strip().endswith('&'):
                    for s2, l in self.lval(a, s):
                        nxt.append((s2, vs + [('loc', l)]))
                else:
                    for s2, v in self.rval(a, s):
                        if not s2.exc and self.as_cstr(a, pt, pts[i + 1] if i + 1 < len(pts) else ''):
                            s2.event('cut0', a.get('l'), v, callee)
                        nxt.append((s2, vs + [v]))
            states = nxt
        return states

    def opaque_call(self, fn, this, vals, st, node, kind):
        args = tuple(self.argval(st, v) for v in vals)
        n = len([1 for e in st.ev if e[0] in ('call', 'vcall', 'rcall')])
        st.event(kind, node.get('l') if node else None, fn['qn'], this, args, fn['key'], st.locks)
        out = []
        h = self.hooks.get('opaque_result')
        ts = self.mt.of(fn['key'])
        for t in sorted(ts):
            s = st.copy()
            s.exc = Exc(t, ('sym', ('exc', t), t), node.get('l') if node else None)
            s.event('throw', node.get('l') if node else None, t, 'via ' + fn['qn'])
            out.append((s, 'throw', None))
        # by-reference arguments may change
        for p, v in zip(fn['params'], vals):
            t = p['t'].strip()
            if v[0] == 'loc' and t.endswith('&') and not t.startswith('const '):
                self.havoc(st, v[1], strip(t), ('after', fn['qn'], n))
        if h:
            r = h(self, st, fn, this, args, node, n)
            if r is not None:
                return out + [(s, 'ret', v) for s, v in r]
        rt = fn['ret'].strip()
        if rt == 'void':
            v = None
        elif rt.endswith('&'):
            # reference result: usually *this or a stream argument
            v = ('loc', ('d', ('sym', ('res', fn['qn'], n, this, args), rt)))
            for p, a in zip(fn['params'], vals):
                if strip(p['t']) == strip(rt) and a[0] == 'loc':
                    v = ('loc', a[1])
            if fn.get('cls') and strip(rt) == strip(fn['cls']):
                v = ('loc', this)
        else:
            r = self.rec(rt)
            base = ('res', fn['qn'], n, this, args)
            v = self.sym(base, rt)
            if r is not None:
                v = self.snapshot(st, ('obj', base), r)
        out.append((st, 'ret', v))
        return out

    def havoc(self, st, loc, typ, tag):
        self.drop_sub(st, loc)
        r = self.rec(typ)
        if r is not None:
            for f in r['fields']:
                st.env[('f', loc, f['n'])] = self.sym((tag, loc, f['n']), f['t'])
        else:
            st.env[loc] = self.sym((tag, loc), typ)

    def havoc_shared(self, st, why):
        if not self.shared:
            return
        n = st.cnt.get('epoch', 0) + 1
        st.cnt['epoch'] = n
        for (f, t) in self.shared:
            loc = ('f', ('obj', 'this'), f)
            self.drop_sub(st, loc)
            st.env[loc] = self.sym((loc, 'epoch', n), t)

    # ------------------------------------------------------------ expressions
    def lval(self, e, st):
        """-> [(st, loc)]"""
        k = e['k']
        if k == 'var':
            l = self.vloc(e)
            v = st.env.get(l)
            if v is not None and v[0] == 'ref':
                if rootgone(v[1]):
                    st.event('dangling', e.get('l'), e.get('n'), rootgone(v[1])[2])
                return [(st, v[1])]
            if v is None and e.get('ref') and not e.get('g'):
                return [(st, ('obj', 'ref:%s' % e['n']))]
            # captured variables of an analysed lambda
            return [(st, l)]
        if k == 'mem':
            res = []
            if e.get('arrow'):
                it = []
                for s, v in self.rval(e['b'], st):
                    if not s.exc and v[0] != 'ptr':
                        self.deref_event(s, e.get('l'), v)
                    it.append((s, self.ptr_loc(v) if not s.exc else v))
            else:
                it = self.lval(e['b'], st) if e['b'].get('lv') or e['b']['k'] in ('tmp',) else [(s, self.to_temp(s, v)) for s, v in self.rval(e['b'], st)]
            for s, l in it:
                if s.exc:
                    res.append((s, l))
                    continue
                if e.get('ext'):
                    res.append((s, self.stl.ext_member(self, s, l, e)))
                    continue
                fl = ('f', l, e['n'])
                v = s.env.get(fl)
                if v is not None and v[0] == 'ref':
                    fl = v[1]
                res.append((s, fl))
            return res
        if k == 'un' and e['op'] == '*':
            res = []
            for s, v in self.rval(e['e'], st):
                if s.exc:
                    res.append((s, v))
                else:
                    self.deref_event(s, e.get('l'), v)
                    res.append((s, self.ptr_loc(v)))
            return res
        if k == 'un' and e['op'] in ('++', '--'):
            return self.incdec(e, st, want='loc')
        if k == 'asg':
            return self.assign(e, st, want='loc')
        if k == 'tmp':
            if e['e'].get('lv'):
                return self.lval(e['e'], st)
            t = self.newtemp(st)
            if e['e']['k'] == 'ctor' and not (e['e'].get('cp') or e['e'].get('mv')):
                return [(s, t) for s, v in self.construct(e['e'], st, t)]
            res = []
            for s, v in self.rval(e['e'], st):
                if not s.exc:
                    self.write_init(s, t, v)
                res.append((s, t))
            return res
        if k == 'cond':
            res = []
            for s, b in self.cond(e['c'], st):
                if s.exc:
                    res.append((s, THROW))
                else:
                    res += self.lval(e['a'] if b else e['b'], s)
            return res
        if k == 'cast':
            if e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'Dynamic', 'LValueBitCast'):
                return self.lval(e['e'], st)
        if k == 'idx':
            res = []
            for s, b in self.rval(e['b'], st):
                if s.exc:
                    res.append((s, b))
                    continue
                for s2, i in self.rval(e['i'], s):
                    res.append((s2, ('e', self.ptr_loc(b), i)))
            return res
        if k == 'call':
            res = []
            for s, v in self.call(e, st):
                if s.exc:
                    res.append((s, v))
                elif v is not None and v[0] == 'loc':
                    res.append((s, v[1]))
                else:
                    res.append((s, self.to_temp(s, v)))
            return res
        if k == 'bin' and e['op'] == ',':
            res = []
            for s, _ in self.discard(e['a'], st):
                res += self.lval(e['b'], s) if not s.exc else [(s, THROW)]
            return res
        if k == 'str':
            t = self.newtemp(st)
            st.env[t] = slit(''.join(chr(c) for c in e['v']))
            return [(st, t)]
        if k == 'throw':
            return self.rval(e, st)
        if k == 'fn':
            return [(st, ('fnloc', e['key'], e.get('qn')))]
        if k == 'this':
            return [(st, self.stack[-1]['this'])]
        if k in ('typeid',):
            t = self.newtemp(st)
            st.env[t] = ('sym', ('typeid', str(e.get('of') or (e.get('e') or {}).get('t'))), 'std::type_info')
            if e.get('pe') and e.get('e'):
                res = []
                for s, l in self.lval(e['e'], st):
                    res.append((s, t))
                return res
            return [(st, t)]
        # prvalue used as object
        res = []
        for s, v in self.rval(e, st):
            res.append((s, self.to_temp(s, v) if not s.exc else v))
        return res

    def to_temp(self, st, v):
        if v is not None and v[0] == 'loc':
            return v[1]
        t = self.newtemp(st)
        self.write_init(st, t, v if v is not None else ('sym', 'void', 'void'))
        return t

    def discard(self, e, st):
        """evaluate for effect"""
        if e['k'] in ('asg',):
            return self.assign(e, st, want='loc')
        if e['k'] == 'ld':
            return self.lval(e['e'], st)
        if e.get('lv') and e['k'] not in ('call',):
            return self.lval(e, st)
        return self.rval(e, st)

    def rval(self, e, st):
        """-> [(st, value)]"""
        if e is None:
            return [(st, None)]
        k = e['k']
        t = e.get('t', '?')
        if k == 'int':
            return [(st, ('i', int(e['v'])))]
        if k == 'flt':
            return [(st, ('fl', float(e['v'])))]
        if k == 'str':
            return [(st, slit(''.join(chr(c) for c in e['v'])))]
        if k == 'null':
            return [(st, NULL)]
        if k == 'this':
            return [(st, ('ptr', self.stack[-1]['this']))]
        if k == 'ld':
            if e['e']['k'] == 'var' and 'cv' in e['e']:
                return [(st, I(int(e['e']['cv'])))]
            res = []
            for s, l in self.lval(e['e'], st):
                if s.exc:
                    res.append((s, THROW))
                    continue
                self.touch(s, 'rd', l, e.get('l'))
                res.append((s, self.read(s, l, t)))
            return res
        if k == 'tmp':
            return self.rval(e['e'], st)
        if e.get('lv') and k in ('var', 'mem', 'idx', 'tmp', 'asg'):
            # class glvalue used as value
            res = []
            for s, l in self.lval(e, st):
                res.append((s, self.read(s, l, t) if not s.exc else THROW))
            return res
        if k == 'bin':
            return self.binop(e, st)
        if k == 'un':
            return self.unop(e, st)
        if k == 'asg':
            return self.assign(e, st, want='val')
        if k == 'cond':
            res = []
            for s, b in self.cond(e['c'], st):
                if s.exc:
                    res.append((s, THROW))
                else:
                    res += self.rval(e['a'] if b else e['b'], s)
            return res
        if k == 'cast':
            return self.cast(e, st)
        if k == 'call':
            res = []
            for s, v in self.call(e, st):
                if not s.exc and v is not None and v[0] == 'loc' and not e.get('lv'):
                    v = self.read(s, v[1], t)
                res.append((s, v))
            return res
        if k == 'ctor':
            if (e.get('cp') or e.get('mv')) and e['args']:
                a = e['args'][0]
                res = []
                if a.get('lv') or a['k'] == 'tmp':
                    for s, l in self.lval(a, st):
                        if s.exc:
                            res.append((s, THROW))
                            continue
                        v = self.readcopy(s, l, t)
                        if e.get('mv'):
                            self.stl.moved(self, s, [a], [('loc', l)])
                        res.append((s, v))
                else:
                    res = self.rval(a, st)
                return res
            tl = self.newtemp(st)
            res = []
            for s, v in self.construct(e, st, tl):
                res.append((s, self.read(s, tl, t) if not s.exc else THROW))
            return res
        if k == 'new':
            return self.new(e, st)
        if k == 'throw':
            return self.throw(e, st)
        if k == 'lambda':
            # capture by value now
            caps = []
            states = [(st, [])]
            for c in e['caps']:
                nxt = []
                for s, cs in states:
                    if c.get('this'):
                        nxt.append((s, cs + [('this', self.stack[-1]['this'])]))
                    elif c.get('ref'):
                        l = self.vloc({'id': c['id']})
                        v = s.env.get(l)
                        nxt.append((s, cs + [('ref', c['id'], v[1] if v is not None and v[0] == 'ref' else l)]))
                    else:
                        l = self.vloc({'id': c['id']})
                        v = self.read(s, l, self.loc_type(l))
                        nxt.append((s, cs + [('val', c['id'], v)]))
                states = nxt
            return [(s, ('lam', Node(e), tuple(cs), self.stack[-1]['this'])) for s, cs in states]
        if k == 'fn':
            return [(st, ('fnref', e['key'], e.get('qn')))]
        if k == 'zero':
            return [(st, self.zero(t))]
        if k == 'ilist':
            res = []
            for s, vs in self.eval_args(e['args'], [], st):
                vs = [self.argval(s, v) for v in vs]
                r = self.rec(t)
                if s.exc:
                    res.append((s, THROW))
                elif len(vs) == 1 and r is None and (is_int(t) or is_float(t)):
                    res.append((s, vs[0]))
                elif r is not None:
                    res.append((s, ('obj', r['key'], tuple((f['n'], v) for f, v in zip(r['fields'], vs)))))
                else:
                    res.append((s, ('tuple',) + tuple(vs)))
            return res
        if k == 'del':
            res = []
            for s, v in self.rval(e['e'], st):
                if not s.exc:
                    s.event('delete', e.get('l'), v)
                res.append((s, None))
            return res
        if k == 'typeid':
            return [(s, self.read(s, l)) for s, l in self.lval(e, st)]
        if k in ('var', 'mem', 'idx'):
            res = []
            for s, l in self.lval(e, st):
                res.append((s, self.read(s, l, t) if not s.exc else THROW))
            return res
        st.imprecise += (('expr', e.get('cls', k), e.get('l')),)
        return [(st, self.sym(('unk', e.get('l'), k, e.get('cls')), t))]

    def zero(self, t):
        b = strip(t)
        if b.endswith('*') or 'shared_ptr' in b or 'unique_ptr' in b:
            return NULL
        if is_float(b):
            return ('fl', 0.0)
        if is_int(b):
            return I(0)
        if b == 'std::string':
            return EMPTY_S
        if self.is_container(b):
            return ('c', 'empty')
        r = self.rec(b)
        if r is not None:
            return ('obj', r['key'], tuple((f['n'], self.zero(f['t'])) for f in r['fields']))
        return I(0) if '(' not in b and '<' not in b and ' ' not in b and b in self.P.enums else ('sym', ('zero', b), b)

    def readcopy(self, st, l, t):
        v = self.read(st, l, t)
        if v[0] == 'c':
            # keep element overrides in a copy
            ov = tuple(sorted(((x[2], st.env[x]) for x in st.env if x[0] == 'e' and x[1] == l), key=repr))
            if ov:
                return ('c', 'with', v, ov)
        self.touch(st, 'rd', l, None)
        return v

    def throw(self, e, st):
        res = []
        if e['e'] is None:
            st.exc = Exc('rethrow', None, e.get('l'), e.get('f'))
            cur = st.cnt.get('handling')
            if cur:
                st.exc = Exc(cur, None, e.get('l'), e.get('f'))
            st.event('throw', e.get('l'), st.exc.typ, 're')
            return [(st, THROW)]
        n0 = len(st.ev)
        for s, v in self.rval(e['e'], st):
            if not s.exc:
                s.exc = Exc(strip(e['et']), v, e.get('l'), e.get('f'))
                s.event('throw', e.get('l'), strip(e['et']), v)
            res.append((s, THROW))
        return res

    def new(self, e, st):
        at = e['at']
        site = ('h', e.get('l'), st.cnt.get(('new', e.get('l')), 0))
        st.cnt[('new', e.get('l'))] = site[2] + 1
        st.event('raw', e.get('l'), site, strip(at))
        res = []
        i = e.get('init')
        if i is not None and i['k'] == 'ctor':
            for s, v in self.construct(i, st, site):
                if not s.exc:
                    s.event('new', e.get('l'), site, at)
                    s.cnt[('type', site)] = strip(at)
                res.append((s, ('ptr', site) if not s.exc else THROW))
            return res
        if i is not None:
            for s, v in self.rval(i, st):
                if not s.exc:
                    self.write_init(s, site, v)
                res.append((s, ('ptr', site)))
            return res
        return [(st, ('ptr', site))]

    # ---- conditions: fork
    def cond(self, e, st):
        """-> [(st, bool)]"""
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, b if s.exc else not b) for s, b in self.cond(e['e'], st)]
        if k == 'bin' and e['op'] in ('&&', '||'):
            res = []
            for s, b in self.cond(e['a'], st):
                if s.exc:
                    res.append((s, b))
                elif (e['op'] == '&&') != b:
                    res.append((s, b))
                else:
                    res += self.cond(e['b'], s)
            return res
        if k == 'cast' and e['ck'] in ('IntegralToBoolean', 'PointerToBoolean', 'NoOp') or k == 'cast' and e['ck'] == 'IntegralCast' and e['e'].get('t') == 'bool':
            return self.cond(e['e'], st) if e['ck'] != 'IntegralCast' else self._cond_val(e, st)
        if k == 'cond':
            res = []
            for s, b in self.cond(e['c'], st):
                if s.exc:
                    res.append((s, b))
                else:
                    res += self.cond(e['a'] if b else e['b'], s)
            return res
        return self._cond_val(e, st)

    def _cond_val(self, e, st):
        res = []
        for s, v in self.rval(e, st):
            if s.exc:
                res.append((s, False))
                continue
            for s2, b in self.fork_val(s, v, e.get('l')):
                res.append((s2, b))
        return res

    def truth(self, v):
        """boolean condition term of a value"""
        if v is None:
            return FALSE
        if v[0] in ('le0', 'eq0', 'eqt', 'not', 'fcmp', 'i'):
            return v
        if v[0] == 'null':
            return FALSE
        if v[0] == 'fl':
            return I(1 if v[1] != 0 else 0)
        if v[0] == 'fop':
            return negate(('fcmp', '==', v, ('fl', 0.0)))
        if v[0] == 'lin':
            return negate(eq0(v))
        if is_float(tyof(v)):
            return negate(('fcmp', '==', v, ('fl', 0.0)))
        return v

    def fork_val(self, st, v, line):
        c = self.truth(v)
        if c[0] == 'or':
            res = []
            a, b = c[1], c[2]
            for s, x in st.fork(a, line):
                if x:
                    res.append((s, True))
                else:
                    res += s.fork(b, line)
            return res
        return st.fork(c, line)

    # ---- operators
    def binop(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            return [(s, I(1 if b else 0)) if not s.exc else (s, THROW) for s, b in self.cond(e, st)]
        if op == ',':
            res = []
            for s, _ in self.discard(e['a'], st):
                res += self.rval(e['b'], s) if not s.exc else [(s, THROW)]
            return res
        res = []
        for s, a in self.rval(e['a'], st):
            if s.exc:
                res.append((s, THROW))
                continue
            for s2, b in self.rval(e['b'], s):
                if s2.exc:
                    res.append((s2, THROW))
                    continue
                res += self.arith(s2, op, a, b, e.get('t', '?'), e.get('ot', '?'), e.get('l'))
        return res

    def arith(self, st, op, a, b, t, ot, line):
        """-> [(st, value)]"""
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return [(st, self.compare(st, op, a, b, ot))]
        if is_float(t) or a[0] in ('fl', 'fop') or b[0] in ('fl', 'fop'):
            if op in '+-*/':
                if a[0] == 'fl' and b[0] == 'fl':
                    r = fapply(op, (a[1], a[1], a[1] != a[1]), (b[1], b[1], b[1] != b[1]))
                    if r[0] == r[1] and not r[2]:
                        return [(st, ('fl', r[0]))]
                return [(st, ('fop', op, a, b))]
        if strip(ot).endswith('*') or a[0] == 'ptr' or b[0] == 'ptr':
            return [(st, ('op', 'ptr' + op, t, a, b))]
        if a[0] in ('le0', 'eq0', 'eqt', 'not', 'fcmp') or b[0] in ('le0', 'eq0', 'eqt', 'not', 'fcmp'):
            res = []
            for s, x in self.boolint(st, a):
                for s2, y in self.boolint(s, b):
                    res += self.arith(s2, op, x, y, t, ot, line)
            return res
        uns = strip(t).startswith('unsigned')
        if op == '+':
            v = add(a, b)
            return self.wrap(st, v, t, line)
        if op == '-':
            return self.wrap(st, sub(a, b), t, line)
        if op == '*':
            if a[0] == 'i':
                return self.wrap(st, mulc(b, a[1]), t, line)
            if b[0] == 'i':
                return self.wrap(st, mulc(a, b[1]), t, line)
            return [(st, ('op', 'i_mul', strip(t)) + tuple(sorted((a, b), key=repr)))]
        if op in ('/', '%') and a[0] == 'i' and b[0] == 'i' and b[1] != 0:
            q = abs(a[1]) // abs(b[1])
            if (a[1] < 0) != (b[1] < 0):
                q = -q
            return [(st, I(q if op == '/' else a[1] - q * b[1]))]
        if op in ('/', '%'):
            return [(st, ('op', 'i_div' if op == '/' else 'i_mod', strip(t), a, b))]
        if op in ('&', '|', '^', '<<', '>>') and a[0] == 'i' and b[0] == 'i':
            f = {'&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y}[op]
            return [(st, I(f(a[1], b[1])))]
        return [(st, ('op', 'i' + op, strip(t), a, b))]

    def boolint(self, st, a):
        if a[0] in ('le0', 'eq0', 'eqt', 'not', 'fcmp'):
            return [(s, I(1 if x else 0)) for s, x in st.fork(a)]
        return [(st, a)]

    def wrap(self, st, v, t, line=None):
        """results of unsigned arithmetic below zero wrap around"""
        tt = strip(t)
        if not tt.startswith('unsigned') or v[0] == 'i' and v[1] >= 0:
            return [(st, v)]
        lo, hi = st.F.irange(v)
        if lo >= 0:
            return [(st, v)]
        M = RANGES.get(tt, (0, 2 ** 64 - 1))[1] + 1
        res = []
        for s, neg in st.fork(le0(addc(v, 1)), line):
            res.append((s, addc(v, M) if neg else v))
        return res

    def compare(self, st, op, a, b, ot):
        if op in ('!=', '>', '>='):
            pass
        fl = lambda x: x[0] in ('fl', 'fop') or is_float(tyof(x)) or x[0] == 'op' and x[1] == 'i2f'
        if is_float(ot) or fl(a) or fl(b):
            if a[0] == 'fl' and b[0] == 'fl':
                r = {'<': a[1] < b[1], '<=': a[1] <= b[1], '>': a[1] > b[1], '>=': a[1] >= b[1], '==': a[1] == b[1], '!=': a[1] != b[1]}[op]
                return I(1 if r else 0)
            if op == '>':
                return ('fcmp', '<', b, a)
            if op == '>=':
                return ('fcmp', '<=', b, a)
            if op == '!=':
                return ('not', ('fcmp', '==', a, b))
            return ('fcmp', op, a, b)
        bt = ('le0', 'eq0', 'eqt', 'not', 'fcmp')
        if a[0] in bt and b[0] == 'i' and op in ('==', '!='):
            return a if (b[1] != 0) == (op == '==') else negate(a)
        if b[0] in bt and a[0] == 'i' and op in ('==', '!='):
            return b if (a[1] != 0) == (op == '==') else negate(b)
        num = ('i', 'lin', 'sym', 'op', 'L')
        isp = strip(ot).endswith('*') or 'ptr<' in ot or a[0] in ('ptr', 'null') or b[0] in ('ptr', 'null') or a[0] == 's' or b[0] == 's'
        if not isp and a[0] in num and b[0] in num:
            return cmp(op, a, b)
        if op in ('==', '!='):
            c = self.eqterm(st, a, b)
            return c if op == '==' else negate(c)
        return ('op', 'cmp' + op, 'bool', a, b)

    def eqterm(self, st, a, b):
        if a == b:
            return TRUE
        if a[0] == 's' and b[0] == 's':
            la = all(p[0] == 'lit' for p in a[1])
            lb = all(p[0] == 'lit' for p in b[1])
            if la and lb:
                return I(1 if a[1] == b[1] else 0)
            if not a[1] or not b[1]:
                return eq0(slen(b if not a[1] else a))
        d = st.F.decide_eqt(a, b)
        if d is not None:
            return I(1 if d else 0)
        x, y = sorted((a, b), key=repr)
        return ('eqt', x, y)

    def unop(self, e, st):
        op = e['op']
        if op in ('++', '--', 'post++', 'post--'):
            return self.incdec(e, st, want='val')
        if op == '!':
            return [(s, I(1 if b else 0) if not s.exc else THROW) for s, b in self.cond(e, st)]
        if op == '&':
            return [(s, ('ptr', l) if not s.exc else THROW) for s, l in self.lval(e['e'], st)]
        if op == '*':
            res = []
            for s, l in self.lval(e, st):
                res.append((s, self.read(s, l, e.get('t', '?')) if not s.exc else THROW))
            return res
        res = []
        for s, v in self.rval(e['e'], st):
            if s.exc:
                res.append((s, THROW))
            elif op == '-':
                if v[0] == 'fl':
                    res.append((s, ('fl', -v[1])))
                elif is_float(e.get('t', '?')):
                    res.append((s, ('fop', 'neg', v)))
                else:
                    self.negated(s, e.get('l'), v, e.get('t', '?'))
                    res += self.wrap(s, mulc(v, -1), e.get('t', '?'))
            elif op == '+':
                res.append((s, v))
            elif op == '~':
                if v[0] == 'i':
                    n = ~v[1]
                    r = RANGES.get(strip(e.get('t', 'int')))
                    if r and r[0] == 0:
                        n &= r[1]
                    res.append((s, I(n)))
                else:
                    res.append((s, ('op', 'i~', strip(e.get('t', '?')), v)))
            else:
                res.append((s, ('op', 'un' + op, strip(e.get('t', '?')), v)))
        return res

    def incdec(self, e, st, want):
        res = []
        d = 1 if '++' in e['op'] else -1
        t = e.get('t', '?')
        for s, l in self.lval(e['e'], st):
            if s.exc:
                res.append((s, THROW))
                continue
            v = self.read(s, l, t)
            self.touch(s, 'rd', l, e.get('l'))
            if v[0] in ('ptr', 'it') or strip(t).endswith('*'):
                vs = [(s, self.stl.it_step(self, s, v, d))]
            elif is_float(t):
                vs = [(s, ('fop', '+', v, ('fl', float(d))))]
            else:
                vs = self.wrap(s, addc(v, d), t, e.get('l'))
            for s2, nv in vs:
                self.write(s2, l, nv, e.get('l'), op=e['op'])
                if want == 'loc':
                    res.append((s2, l))
                else:
                    res.append((s2, v if e['op'].startswith('post') else nv))
        return res

    def assign(self, e, st, want):
        res = []
        op = e['op']
        # right operand first (C++17) or left first makes no difference here
        for s, l in self.lval(e['a'], st):
            if s.exc:
                res.append((s, THROW))
                continue
            for s2, b in self.rval(e['b'], s):
                if s2.exc:
                    res.append((s2, THROW))
                    continue
                t = e['a'].get('t', '?')
                if op == '=':
                    outs = [(s2, b)]
                else:
                    a = self.read(s2, l, t)
                    self.touch(s2, 'rd', l, e.get('l'))
                    ct = e.get('crt', t)
                    outs = []
                    ra, _ = self.conv(s2, a, t, e.get('ct', t))
                    for s3, v in self.arith(s2, op[:-1], ra, b, ct, e.get('ct', t), e.get('l')):
                        v2, _ = self.conv(s3, v, ct, t)
                        outs.append((s3, v2))
                for s3, v in outs:
                    self.write(s3, l, v, e.get('l'), op=op)
                    res.append((s3, l if want == 'loc' else v))
        return res

    def conv(self, st, v, ft, tt):
        if is_float(tt) and not is_float(ft) and v[0] not in ('fl', 'fop'):
            return (('fl', float(v[1])) if v[0] == 'i' else ('op', 'i2f', 'double', v)), st
        if is_float(ft) and is_int(tt):
            if v[0] == 'fl' and abs(v[1]) < 2 ** 62:
                return I(int(v[1])), st
            return ('op', 'f2i', strip(tt), v), st
        return v, st

    def cast(self, e, st):
        ck = e['ck']
        t = e.get('t', '?')
        res = []
        if ck in ('ToVoid',):
            return [(s, None) for s, _ in self.discard(e['e'], st)]
        if ck in ('ArrayToPointerDecay',):
            if e['e']['k'] == 'str':
                return self.rval(e['e'], st)
            return [(s, s.env[l] if not s.exc and l is not None and l[0] == 't' and (s.env.get(l) or ('',))[0] == 's' else ('ptr', l)) for s, l in self.lval(e['e'], st)]
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            for s, v in self.rval(e['e'], st):
                if s.exc:
                    res.append((s, THROW))
                else:
                    c = self.truth(v)
                    res.append((s, c if c[0] != 'lin' else negate(eq0(c))))
            return res
        for s, v in self.rval(e['e'], st):
            if s.exc or v is None:
                res.append((s, v))
                continue
            if ck == 'NullToPointer':
                res.append((s, NULL))
            elif ck == 'IntegralCast':
                res += self.intcast(s, v, e.get('ft', '?'), t, e.get('l'), e.get('xp'))
            elif ck == 'IntegralToFloating':
                for s1, v1 in self.boolint(s, v):
                    res.append((s1, ('fl', float(v1[1])) if v1[0] == 'i' else ('op', 'i2f', 'double', v1)))
            elif ck == 'FloatingToIntegral':
                if v[0] == 'fl' and abs(v[1]) < 2 ** 62:
                    res.append((s, I(int(v[1]))))
                else:
                    s.event('f2i', e.get('l'), v, t, s.F)
                    res.append((s, ('op', 'f2i', strip(t), v)))
            elif ck == 'FloatingCast' and strip(t) == 'float' and v[0] != 'fl':
                res.append((s, ('fop', 'tofloat', v)))
            elif ck == 'Dynamic':
                res.append((s, ('op', 'dyncast', t, v)))
            else:
                res.append((s, v))
        return res

    def intcast(self, st, v, ft, tt, line, xp=False):
        b = strip(tt)
        if b == 'bool':
            return [(st, self.truth(v))]
        if v[0] in ('le0', 'eq0', 'eqt', 'not', 'fcmp'):
            return [(st, v)]
        r = RANGES.get(b)
        if r is None:
            return [(st, v)]
        lo, hi = st.F.irange(v)
        if lo >= r[0] and hi <= r[1]:
            return [(st, v)]
        if v[0] == 'i':
            n = v[1] & ((r[1] - r[0]))
            if n > r[1]:
                n -= (r[1] - r[0] + 1)
            return [(st, I(n))]
        if r[0] == 0 and hi <= r[1]:       # signed -> unsigned
            res = []
            for s, neg in st.fork(le0(addc(v, 1)), line):
                res.append((s, addc(v, r[1] + 1) if neg else v))
            return res
        if lo > -INF and hi < INF and b not in ('char', 'signed char', 'unsigned char'):
            w = r[1] - r[0] + 1
            kk = (lo - r[0]) // w
            if kk == (hi - r[0]) // w:     # the whole range lands in the target after wrapping
                return [(st, addc(v, -kk * w))]
        # narrowing: values outside the target range change
        fr = RANGES.get(strip(ft))
        if fr and (fr[1] - fr[0]) > (r[1] - r[0]):
            st.event('narrow', line, v, strip(ft), b)
            if b in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short') or v == self.hooks.get('exact'):
                return [(st, ('op', 'cast', b, v))]
        elif fr and fr[0] == 0 and r[0] < 0 and hi > r[1]:
            st.event('resign', line, v, strip(ft), b)       # large values become negative
        return [(st, v)]

    # ------------------------------------------------------------ calls
    def call(self, e, st):
        """-> [(st, value | ('loc', l) | None)]"""
        self.sites += 1
        key = e.get('key')
        fn = self.P.funcs.get(key) if key else None
        if fn is not None and (fn['has'] or e.get('virt') or fn.get('pure')):
            # object
            objs = [(st, None)]
            if e.get('obj') is not None and not fn.get('static'):
                if e.get('arrow'):
                    objs = []
                    for s, v in self.rval(e['obj'], st):
                        if s.exc:
                            objs.append((s, THROW))
                        else:
                            if v[0] not in ('ptr',):
                                self.deref_event(s, e.get('l'), v)
                            objs.append((s, self.ptr_loc(v)))
                else:
                    objs = self.lval(e['obj'], st)
            res = []
            for s, o in objs:
                if s.exc:
                    res.append((s, THROW))
                    continue
                if fn.get('kind') == 'conv' and '(anonymous class)' in fn['key']:
                    # a lambda used as a plain function: calling it runs its body
                    v = self.read(s, o, '?')
                    res.append((s, v if v[0] == 'lam' else ('sym', ('fnptr', o), '?')))
                    continue
                for s2, args in self.eval_args(e['args'], e.get('pt', []), s, e.get('qn')):
                    if s2.exc:
                        res.append((s2, THROW))
                        continue
                    if fn['name'] == 'operator()' and '(anonymous class)' in fn['key'] and o is not None:
                        # a lambda: its body runs with what it captured
                        lam = self.read(s2, o, '?')
                        if lam[0] == 'lam':
                            res += self.call_lambda(lam, args, s2, e)
                            continue
                    for s3, k, v in self.dispatch(e, fn, o, args, s2):
                        res.append((s3, THROW if k == 'throw' else v))
            return res
        return self.stl.call(self, e, st)

    def dispatch(self, e, fn, o, args, st):
        if e.get('virt'):
            dt = None
            if o is not None:
                if o[0] == 'h':
                    dt = st.cnt.get(('type', o))
                if o == ('obj', 'this') and self.hooks.get('this_type'):
                    dt = self.hooks['this_type']
            if dt:
                f2 = self.final_overrider(dt, fn)
                if f2 is not None:
                    fn = f2
            else:
                ov = self.P.all_overriders(fn['key'])
                if len(ov) == 1 and not self.opaque(fn):
                    fn = ov[0]
                else:
                    return self.virtual_opaque(fn, ov, o, args, st, e)
        if not fn['has']:
            return self.opaque_call(fn, o, args, st, e, 'call')
        if self.opaque(fn):
            return self.opaque_call(fn, o, args, st, e, 'call')
        return self.call_fn(fn, o, args, st, e)

    def final_overrider(self, t, fn):
        r = self.rec(t)
        seen = []
        work = [r]
        while work:
            x = work.pop(0)
            if x is None:
                continue
            for f in self.P.funcs.values():
                if f.get('cls') == x['key'] and f['name'] == fn['name'] and [p['t'] for p in f['params']] == [p['t'] for p in fn['params']] and f['has']:
                    return f
            work += [self.rec(b['t']) for b in x['bases']]
        return None

    def virtual_opaque(self, fn, ov, o, args, st, node):
        a = tuple(self.argval(st, v) for v in args)
        n = len([1 for x in st.ev if x[0] in ('call', 'vcall', 'rcall')])
        st.event('vcall', node.get('l'), fn['qn'], o, a, fn['key'], st.locks)
        out = []
        ts = set()
        for f in ov:
            ts |= self.mt.of(f['key'])
        for t in sorted(ts):
            s = st.copy()
            s.exc = Exc(t, ('sym', ('exc', t), t), node.get('l'))
            s.event('throw', node.get('l'), t, 'via ' + fn['qn'])
            out.append((s, 'throw', None))
        rt = fn['ret'].strip()
        h = self.hooks.get('vresult')
        if h:
            r = h(self, st, fn, o, a, node, n)
            if r is not None:
                return out + [(s, 'ret', v) for s, v in r]
        # a query method all of whose overriders are side-effect free gives a stable value
        pure = all(self.is_pure(f) for f in ov)
        base = ('vres', fn['qn'], o) + (a if pure else (a, n))
        out.append((st, 'ret', None if rt == 'void' else self.sym(base, rt)))
        return out

    def is_pure(self, f):
        c = getattr(self, '_pure', None)
        if c is None:
            c = self._pure = {}
        if f['key'] in c:
            return c[f['key']]
        c[f['key']] = True
        bad = []

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') in ('asg', 'throw', 'new', 'del') or x.get('k') == 'un' and x.get('op') in ('++', '--', 'post++', 'post--'):
                    bad.append(x)
                if x.get('k') == 'call':
                    g = self.P.funcs.get(x.get('key'))
                    if g is None or not g['has'] or not self.is_pure(g):
                        if not x.get('const'):
                            bad.append(x)
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(f.get('body'))
        c[f['key']] = not bad
        return not bad

    def call_lambda(self, lam, vals, st, node=None):
        """-> [(st, value)] ; exceptions via st.exc"""
        if lam[0] == 'fnref':
            f = self.P.funcs.get(lam[1])
            if f is not None and f['has']:
                return [(s, v) for s, k, v in self.call_fn(f, None, vals, st, node)]
            return self.stl.call_fnref(self, st, lam, vals, node)
        if lam[0] != 'lam':
            return [(st, ('op', 'app', 'bool', lam) + tuple(self.argval(st, v) for v in vals))]
        n, caps, this = lam[1].n, lam[2], lam[3]
        vars_ = {}
        self.collect_vars(n['body'], vars_)
        for p in n['params']:
            vars_[p['id']] = p['t']
        for c in caps:
            if c[0] != 'this':
                vars_[c[1]] = '?'
        self.stack.append({'key': 'lambda:%s' % n.get('l'), 'this': this, 'vars': vars_, 'fn': self.stack[-1]['fn'] if self.stack else None, 'rt': n['ret']})
        try:
            d = len(self.stack) - 1
            for c in caps:
                if c[0] == 'ref':
                    st.env[('v', d, c[1])] = ('ref', c[2])
                elif c[0] == 'val':
                    self.write_init(st, ('v', d, c[1]), c[2])
            self.bind_params(st, d, n['params'], vals)
            outs = []
            for s, k, v in self.block_exec(n['body'], st):
                outs.append((s, v if k != 'throw' else THROW))
        finally:
            self.stack.pop()
        for s, v in outs:
            for l in [l for l in s.env if self.base(l)[0] == 'v' and self.base(l)[1] == d or self.base(l)[0] == 't' and self.base(l)[1] > d]:
                del s.env[l]
        return outs

    # ------------------------------------------------------------ statements
    def block_exec(self, b, st):
        """a scope: statements then destructors. -> [(st, kind, val)]"""
        if b is None:
            return [(st, 'norm', None)]
        if b['k'] != 'block':
            return self.stmt(b, st)
        decls = []
        outs = []
        cur = [st]
        d = len(self.stack) - 1
        for s in b['b']:
            nxt = []
            if s['k'] == 'decl':
                for v in s['v']:
                    if not v.get('static') and not v.get('ref'):
                        decls.append((('v', d, v['id']), v['t']))
            for c in cur:
                for s2, k, v in self.stmt(s, c):
                    if k == 'norm':
                        nxt.append(s2)
                    else:
                        outs.append((s2, k, v))
            cur = self.dedupe(nxt)
            if len(cur) + len(outs) > self.MAXPATHS:
                raise Undecided('too many paths')
            if not cur:
                break
        outs += [(c, 'norm', None) for c in cur]
        if not decls:
            return outs
        res = []
        for s, k, v in outs:
            if v is not None and v[0] == 'loc' and False:
                pass
            sts = [s]
            for loc, t in reversed(decls):
                nx = []
                for s1 in sts:
                    nx += self.destroy(s1, loc, t, v)
                sts = nx
            for s1 in sts:
                res.append((s1, k if not (k != 'throw' and s1.exc) else 'throw', v))
        return res

    def dedupe(self, sts):
        if len(sts) < 8:
            return sts
        seen, out = set(), []
        for s in sts:
            k = (frozenset(s.env.items()), s.ev, s.locks, s.F.pc)
            try:
                if k in seen:
                    continue
                seen.add(k)
            except TypeError:
                pass
            out.append(s)
        return out

    def destroy(self, st, loc, t, retval):
        v = st.env.get(loc)
        if v is None:
            if self.rec(t) is None:
                return [st]
        b = strip(t)
        if v is not None and v[0] == 'guard':
            if v[2]:
                self.unlock(st, v[1], None)
            st.env.pop(loc, None)
            return [st]
        r = self.rec(b)
        if r is not None and r.get('udtor') and r.get('dtor'):
            f = self.P.funcs.get(r['dtor'])
            if f is not None and f['has'] and not self.opaque(f) and any(self.under(l, loc) for l in st.env):
                exc = st.exc
                st.exc = None
                res = []
                for s, k, _ in self.call_fn(f, loc, [], st, None):
                    if exc:
                        s.exc = exc
                    res.append(s)
                return res
        m = re.match(r'std::unique_ptr<(.*)>$', b)
        if m and v is not None and v[0] == 'ptr' and v[1][0] == 'h':
            # still owned at scope end unless it is what is returned (moved out)
            if retval is not None and retval == v:
                st.env.pop(loc, None)
                return [st]
            r = self.rec(m.group(1))
            if r is not None and r.get('dtor'):
                f = self.P.funcs.get(r['dtor'])
                if f is not None and f['has'] and f.get('body'):
                    exc = st.exc
                    st.exc = None
                    st.event('owned-destroyed', None, v[1])
                    res = []
                    for s, k, _ in self.call_fn(f, v[1], [], st, None):
                        if exc:
                            s.exc = exc
                        res.append(s)
                    return res
        return [st]

    def lock(self, st, m, line):
        if m in st.locks:
            st.event('relock', line, m)
        st.locks = st.locks + (m,)
        st.event('lock', line, m)
        self.havoc_shared(st, 'lock')

    def unlock(self, st, m, line):
        if m in st.locks:
            l = list(st.locks)
            l.reverse()
            l.remove(m)
            l.reverse()
            st.locks = tuple(l)
        else:
            st.event('badunlock', line, m)
        st.event('unlock', line, m)

    def stmt(self, s, st):
        """-> [(st, kind, val)] kind in norm brk cont ret throw"""
        if s is None:
            return [(st, 'norm', None)]
        k = s['k']
        if k == 'block':
            return self.block_exec(s, st)
        if k == 'expr':
            e = s['e']
            lk = st.locks
            res = []
            for s2, v in self.discard(e, st):
                # an unnamed lock guard is released at once
                for l in [l for l in s2.env if l[0] == 't' and s2.env[l][0] == 'guard' and s2.env[l][2]]:
                    self.unlock(s2, s2.env[l][1], s.get('l'))
                    del s2.env[l]
                res.append((s2, 'throw' if s2.exc else 'norm', None))
            return res
        if k == 'decl':
            cur = [st]
            outs = []
            d = len(self.stack) - 1
            for v in s['v']:
                nxt = []
                for c in cur:
                    loc = ('v', d, v['id'])
                    if v.get('static'):
                        loc = ('g', v['static'])
                        c.env[('v', d, v['id'])] = ('ref', loc)
                        if loc not in c.env:
                            c.env[loc] = self.sym(loc, v['t'])
                        nxt.append(c)
                        continue
                    if v['init'] is None:
                        self.drop_sub(c, loc)
                        if self.rec(v['t']) is None:
                            c.env[loc] = self.undef(v)
                        nxt.append(c)
                        continue
                    self.drop_sub(c, loc)
                    for s2, r in self.init_into(v['init'], c, loc, v['t'] if not v.get('ref') else v['t'] + '&'):
                        if s2.exc:
                            outs.append((s2, 'throw', None))
                        else:
                            nxt.append(s2)
                cur = nxt
            return outs + [(c, 'norm', None) for c in cur]
        if k == 'if':
            pre = [(st, 'norm', None)]
            if s.get('init'):
                pre = self.stmt(s['init'], st)
            res = []
            for s0, kk, vv in pre:
                if kk != 'norm':
                    res.append((s0, kk, vv))
                    continue
                pp = [(s0, 'norm', None)]
                if s.get('cv'):
                    pp = self.stmt({'k': 'decl', 'v': [s['cv']], 'l': s.get('l')}, s0)
                for s00, k0, v0 in pp:
                    if k0 != 'norm':
                        res.append((s00, k0, v0))
                        continue
                    for s1, b in self.cond(s['c'], s00):
                        if s1.exc:
                            res.append((s1, 'throw', None))
                            continue
                        br = s['th'] if b else s.get('e')
                        if br is None:
                            res.append((s1, 'norm', None))
                        else:
                            res += self.block_exec(br, s1)
            return res
        if k == 'ret':
            fn = self.stack[-1]
            if s.get('e') is None:
                return [(st, 'ret', None)]
            rt = fn['rt'].strip()
            res = []
            if rt.endswith('&'):
                for s2, l in self.lval(s['e'], st):
                    res.append((s2, 'throw' if s2.exc else 'ret', ('loc', l)))
            else:
                for s2, v in self.rval(s['e'], st):
                    if v is not None and v[0] == 'loc' and not s2.exc:
                        v = self.read(s2, v[1], rt)
                    res.append((s2, 'throw' if s2.exc else 'ret', v))
            return res
        if k == 'brk':
            return [(st, 'brk', None)]
        if k == 'cont':
            return [(st, 'cont', None)]
        if k == 'null':
            return [(st, 'norm', None)]
        if k in ('while', 'do', 'for', 'rfor'):
            return self.loop(s, st)
        if k == 'switch':
            return self.switch(s, st)
        if k == 'try':
            return self.try_(s, st)
        if k in ('case', 'default'):
            return self.stmt(s['s'], st)
        st.imprecise += (('stmt', s.get('cls', k), s.get('l')),)
        return [(st, 'norm', None)]

    def undef(self, v):
        t = strip(v['t'])
        if t == 'std::string':
            return EMPTY_S
        if self.is_container(t):
            return ('c', 'empty')
        return ('sym', ('undef', v['id']), t)

    def switch(self, s, st):
        # flatten
        body = s['b']
        items = []

        def flat(x, labels):
            while x is not None and x['k'] in ('case', 'default'):
                labels = labels + [x]
                x = x['s']
            items.append((labels, x))
        for x in (body['b'] if body['k'] == 'block' else [body]):
            flat(x, [])
        cases = {}
        default = None
        for i, (labs, x) in enumerate(items):
            for l in labs:
                if l['k'] == 'default':
                    default = i
                elif 'v' in l:
                    for v in range(int(l['v']), int(l.get('v2', l['v'])) + 1):
                        cases[v] = i
        res = []
        pre = [st]
        if s.get('cv'):
            pre = [x for x, k, v in self.stmt({'k': 'decl', 'v': [s['cv']]}, st)]
        for s00 in pre:
            for s0, v in self.rval(s['c'], s00):
                if s0.exc:
                    res.append((s0, 'throw', None))
                    continue
                rest = [s0]
                starts = []
                for cv, i in sorted(cases.items()):
                    nr = []
                    for r in rest:
                        for r2, b in r.fork(eq0(addc(v, -cv)) if v[0] not in ('le0', 'eq0', 'not') else v, s.get('l')):
                            if b:
                                starts.append((r2, i))
                            else:
                                nr.append(r2)
                    rest = nr
                # an enum value outside its enumerators is not considered
                en = self.P.enums.get(strip(s.get('ct', '')))
                full = en and set(int(c['v']) for c in en['c']) <= set(cases)
                for r in rest:
                    if default is not None:
                        starts.append((r, default))
                    elif not full:
                        res.append((r, 'norm', None))
                for r, i in starts:
                    cur = [r]
                    for labs, x in items[i:]:
                        nx = []
                        for c in cur:
                            for s2, k, vv in self.stmt(x, c):
                                if k == 'norm':
                                    nx.append(s2)
                                elif k == 'brk':
                                    res.append((s2, 'norm', None))
                                else:
                                    res.append((s2, k, vv))
                        cur = nx
                        if not cur:
                            break
                    res += [(c, 'norm', None) for c in cur]
        return res

    def catches(self, h, typ):
        ht = strip(h)
        if h == '...' or ht == typ:
            return True
        r = self.rec(typ)
        if r is not None and ht in r['pubanc']:
            return True
        return ht in STD_EXC.get(typ, ())

    def try_(self, s, st):
        res = []
        for s2, k, v in self.block_exec(s['b'], st):
            if k != 'throw':
                res.append((s2, k, v))
                continue
            for h in s['h']:
                if self.catches(h['t'], s2.exc.typ):
                    exc = s2.exc
                    s2.exc = None
                    s2.event('caught', h['l'], exc.typ, h['t'])
                    old = s2.cnt.get('handling')
                    s2.cnt['handling'] = exc.typ
                    if 'id' in h:
                        s2.env[('v', len(self.stack) - 1, h['id'])] = exc.val if exc.val is not None and exc.val[0] != 'obj' else ('sym', ('exc', exc.typ), exc.typ)
                    for s3, k3, v3 in self.block_exec(h['b'], s2):
                        s3.cnt['handling'] = old
                        res.append((s3, k3, v3))
                    break
            else:
                res.append((s2, k, v))
        return res

    # ------------------------------------------------------------ loops
    def loop(self, s, st):
        self.lidn += 1
        lid = self.lidn
        rec = LoopRec(lid, s, self.stack[-1]['fn']['qn'] if self.stack and self.stack[-1]['fn'] else '?')
        d = len(self.stack) - 1
        k = s['k']
        outs = []
        entries = [st]
        if k == 'for' and s.get('i'):
            entries = []
            for s2, kk, v in self.stmt(s['i'], st):
                if kk == 'norm':
                    entries.append(s2)
                else:
                    outs.append((s2, kk, v))
        if k == 'rfor':
            for s2, cl in self.lval(s['r'], st):
                if s2.exc:
                    outs.append((s2, 'throw', None))
                    continue
                outs += self.foreach(s, s2, rec_for(self, s), cl)
            return outs
        for e in entries:
            if len(entries) > 1 or e is not st:
                pass
            outs += self.general_loop(s, e)
        return outs

    def general_loop(self, s, st0):
        self.lidn += 1
        lid = self.lidn
        rec = LoopRec(lid, s, self.stack[-1]['fn']['qn'] if self.stack and self.stack[-1]['fn'] else '?')
        rec.entry = st0
        k = s['k']
        rec.steppers = set()
        def stepped(x, only=None):
            if isinstance(x, dict):
                if x.get('k') == 'un' and x.get('op') in ('++', '--', 'post++', 'post--') and isinstance(x['e'], dict) and x['e'].get('k') == 'var' \
                        and (only is None or x['e'].get('id') in only):
                    rec.steppers.add(self.vloc(x['e']))
                for y in x.values():
                    stepped(y, only)
            elif isinstance(x, list):
                for y in x:
                    stepped(y, only)

        def named(x, out):
            if isinstance(x, dict):
                if x.get('k') == 'var' and 'id' in x:
                    out.add(x['id'])
                for y in x.values():
                    named(y, out)
            elif isinstance(x, list):
                for y in x:
                    named(y, out)
            return out
        if k == 'for' and s.get('s'):
            stepped(s['s'])
        elif s.get('c') is not None:
            stepped(s['b'], named(s['c'], set()))

        def iterate(head):
            """-> (backs, exits[(kind, st, val)])"""
            backs, exits = [], []
            if k == 'do':
                starts = [head]
            else:
                starts = []
                if s.get('cv'):
                    pre = []
                    for x, kk, vv in self.stmt({'k': 'decl', 'v': [s['cv']]}, head):
                        pre.append(x)
                else:
                    pre = [head]
                for h in pre:
                    if s.get('c') is None:
                        starts.append(h)
                    else:
                        for s1, b in self.cond(s['c'], h):
                            if s1.exc:
                                exits.append(('throw', s1, None))
                            elif b:
                                starts.append(s1)
                            else:
                                exits.append(('cond', s1, None))
            for s1 in starts:
                for s2, kk, v in self.block_exec(s['b'], s1):
                    if kk in ('norm', 'cont'):
                        nx = [s2]
                        if k == 'for' and s.get('s'):
                            nx = []
                            for s3, _ in self.discard(s['s'], s2):
                                if s3.exc:
                                    exits.append(('throw', s3, None))
                                else:
                                    nx.append(s3)
                        if k == 'do':
                            for s3 in nx:
                                for s4, b in self.cond(s['c'], s3):
                                    if s4.exc:
                                        exits.append(('throw', s4, None))
                                    elif b:
                                        backs.append(s4)
                                    else:
                                        exits.append(('cond', s4, None))
                        else:
                            backs += nx
                    elif kk == 'brk':
                        exits.append(('brk', s2, v))
                    else:
                        exits.append((kk, s2, v))
            return backs, exits
        return self.fixpoint(rec, st0, iterate)

    def foreach(self, s, st0, _u, cl):
        """range-for over the container at cl"""
        self.lidn += 1
        lid = self.lidn
        rec = LoopRec(lid, s, self.stack[-1]['fn']['qn'] if self.stack and self.stack[-1]['fn'] else '?')
        rec.entry = st0
        rec.kind = 'foreach'
        rec.cloc = cl
        rt = s.get('rt', '?')
        cv = self.read(st0, cl, rt)
        if cv[0] in ('sym', 'obj') and self.rec(rt) is not None or cv[0] == 'sym' and 'YAML' in strip(rt):
            cv = ('c', 'sym', cv)
        if cv[0] == 'tuple':
            cv = ('c', 'tuple', cv)
        self.touch(st0, 'rd', cl, s.get('l'))
        rec.cont = cv
        rec.elem = ('elt', lid)
        var = s['v']
        d = len(self.stack) - 1
        vl = ('v', d, var['id'])

        def iterate(head):
            backs, exits = [], []
            if self.read(head, cl, rt) in (EMPTY_S, ('c', 'empty')):
                return [], [('cond', head, None)]
            e0 = head.copy()
            exits.append(('cond', e0, None))
            h = head
            self.drop_sub(h, vl)
            self.stl.bind_elem(self, h, vl, var, cl, rec, rt)
            for s2, kk, v in self.block_exec(s['b'], h):
                if kk in ('norm', 'cont'):
                    backs.append(s2)
                elif kk == 'brk':
                    exits.append(('brk', s2, v))
                else:
                    exits.append((kk, s2, v))
            return backs, exits
        return self.fixpoint(rec, st0, iterate, foreach=True)

    def fixpoint(self, rec, st0, iterate, foreach=False):
        lid = rec.lid
        saved_loops = list(self.loops)
        M = []
        pre_ev = st0.ev
        st0.ev = ()
        d = len(self.stack) - 1
        entry_locs = set(st0.env)
        for rnd in range(40):
            self.loops = list(saved_loops)
            grew = False
            heads = {}     # key -> (state, numeric joins)
            work = []
            rec.iters, rec.exits, rec.variants = [], [], {}
            joins = {}

            def enter(st, frm):
                key, vals = self.abstract_key(st, M, lid, st0)
                j = joins.setdefault(key, {})
                changed = key not in heads
                for loc in M:
                    v = vals[loc]
                    if v[0] == 'num':
                        old = j.get(loc)
                        if old is None and rnd > 5:
                            # give up telling variants apart by their first value
                            for k3, j3 in joins.items():
                                if k3 != key and loc in j3:
                                    old = j[loc] = j3[loc]
                        new = v[1] if old is None else self.widen(old, v[1], rec, changed)
                        if new != old:
                            j[loc] = new
                            changed = True
                    elif v[0] == 'flt':
                        old = j.get(loc)
                        new = v[1] if old is None else self.fwiden(old, v[1])
                        if new != old:
                            j[loc] = new
                            changed = True
                if changed:
                    h = self.head_state(st0, M, key, vals, j, lid, rec)
                    heads[key] = h
                    if key not in work:
                        work.append(key)
                return key
            enter(st0, None)
            n = 0
            results = {}
            while work and not grew:
                key = work.pop(0)
                n += 1
                if n > 400:
                    raise Undecided('loop at line %s does not stabilise' % rec.line)
                head = heads[key].copy()
                head.ev = ()
                backs, exits = iterate(head)
                for b in backs:
                    if foreach:
                        moved = [rec.elem]
                    else:
                        moved = [v[3] if v[0] == 'it' else v for v in (heads[key].env[m] for m in M if m in heads[key].env and b.env.get(m) != heads[key].env[m])
                                 if v[0] == 'L' or v[0] == 'it' and v[2] == 'L']
                    if moved:
                        # what was known of the element just visited says nothing of the next one
                        for l in [l for l in b.env if l[0] in ('e', 'f', 'pf', 'idx') and any(keyed(l, v) for v in moved)]:
                            b.seen = b.seen + ((l, b.env[l]),)
                            del b.env[l]
                backs = [x for b in backs for x in self.split_flags(b, M, lid, st0)]
                results[key] = (backs, exits)
                for b in backs:
                    mod = self.modified(heads[key], b, M, entry_locs, d)
                    if mod:
                        for m in mod:
                            if m not in M:
                                M.append(m)
                        grew = True
                if grew:
                    break
                for b in backs:
                    enter(b, key)
            if grew:
                continue
            break
        else:
            import os
            if os.environ.get("DBGM"): [print("   M", m) for m in M]
            raise Undecided('loop at line %s: modified set does not stabilise' % rec.line)
        st0.ev = pre_ev
        W = []
        for key, (backs, exits) in results.items():
            for b in backs:
                for l, v in b.seen:
                    if l not in W and l not in M and any(e[0] == 'wr' and (e[2] == l or self.under(e[2], l) or self.under(l, e[2])) for e in flat_events(b.ev)):
                        W.append(l)
        rec.M = M + W          # W: parts of the element each iteration visits
        rec.heads = heads
        rec.joins = joins
        outs = []
        for key, (backs, exits) in results.items():
            for b in backs:
                bk, _ = self.abstract_key(b, M, lid, st0)
                rec.iters.append((key, heads[key], b, bk))
            for kind, s, v in exits:
                rec.exits.append((key, kind, s, v))
        self.loops.append(rec)
        rec.entry_key = self.abstract_key(st0, M, lid, st0)[0]
        self.stl.classify(self, rec)
        reentered = {bk for k_, h_, b_, bk in rec.iters}
        for key, kind, s, v in rec.exits:
            s = s.copy()
            if (foreach or rec.kind == 'foreach') and kind == 'cond' and rec.cont is not None and (rec.cont[0] == 's' or rec.cont[0] == 'c'):
                n_ = slen(rec.cont) if rec.cont[0] == 's' else clen(rec.cont)
                if key not in reentered:
                    if not s.F.assume(eq0(n_), True):
                        continue        # not left without a single iteration
                elif key != rec.entry_key:
                    if not s.F.assume(eq0(n_), False):
                        continue
            s.ev = pre_ev + (('loop', rec.line, rec, key, kind),) + s.ev
            self.stl.accelerate(self, rec, key, kind, s, st0)
            # drop body locals
            outs.append((s, 'norm' if kind in ('cond', 'brk') else kind, v))
        if rec.node['k'] == 'for' and False:
            pass
        return outs

    def modified(self, head, back, M, entry_locs, d):
        mod = []
        for l, v in back.env.items():
            if l in M:
                continue
            if l in head.env:
                if head.env[l] != v:
                    mod.append(l)
                continue
            b = self.base(l)
            if b[0] == 'v' and b[1] >= d and b not in entry_locs and not any(x in entry_locs for x in self.parents(l)):
                continue       # declared in the body
            if b[0] in ('t', 'h'):
                continue
            if any(p in M for p in self.parents(l)):
                if l[0] == 'e':
                    continue
            # a location first touched in the body: changed only if it differs from its initial symbol
            try:
                if self.read(head, l, self.vtype(v)) == v:
                    continue
            except Undecided:
                pass
            mod.append(l)
        for l in head.env:
            if l not in back.env and l not in M and self.base(l)[0] not in ('t',):
                mod.append(l)
        return mod

    def parents(self, l):
        out = []
        while l[0] in ('f', 'e', 'pf', 'idx'):
            l = l[1]
            out.append(l)
        return out

    def vtype(self, v):
        if v[0] == 's':
            return 'std::string'
        if v[0] in ('sym', 'op', 'L'):
            return tyof(v)
        return '?'

    def typeof_loc(self, st0, st, loc):
        t = self.loc_type(loc)
        if t != '?':
            return strip(t)
        v = st.env.get(loc)
        if v is None:
            return '?'
        return self.vtype(v)

    def split_flags(self, b, M, lid, st0, limit=3):
        """one state per value of the undecided flags a loop carries from one iteration to the next"""
        out = [b]
        for loc in M:
            if limit <= 0:
                break
            t = self.typeof_loc(st0, b, loc)
            v = b.env.get(loc)
            if v is None or v[0] in ('i', 'L') or not (t == 'bool' or v[0] in ('le0', 'eq0', 'not', 'eqt', 'fcmp')):
                continue
            if v[0] not in ('sym', 'op', 'le0', 'eq0', 'not', 'eqt', 'fcmp'):
                continue
            nxt = []
            for s in out:
                for s2, r in s.fork(v, None):
                    s2.env[loc] = I(1 if r else 0)
                    nxt.append(s2)
            if len(nxt) > len(out):
                limit -= 1
            out = nxt
        return out

    def abstract_key(self, st, M, lid, st0):
        key = []
        vals = {}
        for loc in M:
            t = self.typeof_loc(st0, st, loc)
            v = self.read(st, loc, t)
            if v[0] in ('le0', 'eq0', 'not', 'eqt', 'fcmp'):
                dd = st.F.decide(v)
                v = I(1 if dd else 0) if dd is not None else ('sym', ('unkbool', lid, loc), 'bool')
            en = t in self.P.enums
            if v[0] == 's':
                if v == EMPTY_S:
                    a = ('empty',)
                else:
                    lo, hi = st.F.irange(slen(v))
                    a = ('s', lo > 0)
            elif v[0] == 'c':
                if v == ('c', 'empty'):
                    a = ('empty',)
                else:
                    lo, hi = st.F.irange(clen(v))
                    a = ('c', lo > 0)
            elif v[0] == 'ss':
                a = ('ss', not v[1], v[2])
            elif v[0] == 'null':
                a = ('null',)
            elif v[0] == 'ptr':
                a = ('nn',)
            elif v[0] == 'it':
                a = ('it', v[1])
            elif v[0] in ('obj', 'pair', 'tuple', 'lam', 'guard'):
                a = ('val', v)
            elif t == 'bool' or en or (v[0] == 'i' and tyof(v) == 'bool'):
                dd = v if v[0] == 'i' else None
                if dd is None:
                    lo, hi = st.F.irange(v)
                    if lo == hi:
                        dd = I(lo)
                a = ('k', dd[1]) if dd is not None else ('kb',)
            elif is_float(t) or v[0] in ('fl', 'fop'):
                a = ('flt',)
                vals[loc] = ('flt', st.F.frange(v))
            elif is_int(t) or v[0] in ('i', 'lin'):
                a = ('num',)
                vals[loc] = ('num', (st.F.irange(v), st.F.icong(v)))
            elif t.endswith('*') or 'shared_ptr' in t or 'unique_ptr' in t:
                e = st.F.eqt.get(frozenset((v, NULL)))
                a = ('nn',) if e is False else (('null',) if e is True else ('p',))
            else:
                a = ('any',)
            if loc not in vals:
                vals[loc] = a
            key.append((loc, a))
        return tuple(key), vals

    def widen(self, old, new, rec, first):
        (l0, h0), (m0, r0) = old
        (l1, h1), (m1, r1) = new
        g = math.gcd(math.gcd(m0, m1), abs(r0 - r1))
        r = r0 % g if g else r0
        lo = l0 if l1 >= l0 else self.wlow(l1)
        hi = h0 if h1 <= h0 else self.whigh(h1)
        return ((lo, hi), (g, r))

    def wlow(self, x):
        for t in (0, -1, -2 ** 31, -2 ** 63):
            if x >= t:
                return t
        return -INF

    def whigh(self, x):
        for t in (0, 1, SIZE_MAX, 2 ** 31 - 1, 2 ** 32 - 1, 2 ** 63 - 1, 2 ** 64 - 1):
            if x <= t:
                return t
        return INF

    def fwiden(self, old, new):
        lo, hi, n = old
        a, b, m = new
        TH = [-INF, -1.7976931348623157e308, -1000.0, -10.0, -1.0, -0.1, -5e-324, 0.0, 5e-324, 0.1, 1.0, 10.0, 1000.0, 1.7976931348623157e308, INF]
        if a < lo:
            lo = max([t for t in TH if t <= a], default=-INF)
        if b > hi:
            hi = min([t for t in TH if t >= b], default=INF)
        return (lo, hi, n or m)

    def head_state(self, st0, M, key, vals, j, lid, rec=None):
        h = st0.copy()
        h.ev = ()
        for loc, a in key:
            t = self.typeof_loc(st0, st0, loc)
            L = ('L', lid, loc, t)
            tag = a[0]
            subs = [l for l in h.env if self.under(l, loc) and l not in M]
            for l in subs:
                del h.env[l]
            if tag == 'empty':
                h.env[loc] = EMPTY_S if t == 'std::string' or st0.env.get(loc, ('x',))[0] == 's' else ('c', 'empty')
                if t == '?' and st0.env.get(loc, ('x',))[0] == 'c':
                    h.env[loc] = ('c', 'empty')
            elif tag == 's':
                v = ('s', (('w', ('L', lid, loc, 'std::string')),))
                h.env[loc] = v
                if a[1]:
                    h.F._assume(le0(addc(mulc(slen(v), -1), 1)), True)
            elif tag == 'c':
                v = ('c', 'sym', ('L', lid, loc, t))
                h.env[loc] = v
                if a[1]:
                    h.F._assume(le0(addc(mulc(clen(v), -1), 1)), True)
            elif tag == 'ss':
                h.env[loc] = ('ss', () if a[1] else (('w', ('L', lid, loc, 'ss')),), a[2])
            elif tag == 'null':
                h.env[loc] = NULL
            elif tag in ('nn', 'p'):
                if t == '?':
                    L = ('L', lid, loc, 'void *')
                h.env[loc] = L
                if tag == 'nn':
                    h.F.eqt[frozenset((L, NULL))] = False
            elif tag == 'k':
                h.env[loc] = I(a[1])
            elif tag == 'kb':
                h.env[loc] = ('L', lid, loc, 'bool')
            elif tag == 'flt':
                L = ('L', lid, loc, 'double')
                h.env[loc] = L
                h.F.fl[L] = j[loc]
            elif tag == 'num':
                if t == '?' or not is_int(t):
                    L = ('L', lid, loc, 'int' if t == '?' else t)
                h.env[loc] = L
                (lo, hi), (m, r) = j[loc]
                if lo == hi and loc not in getattr(rec, 'steppers', ()):
                    h.env[loc] = I(lo)
                else:
                    b = atom_range(L)
                    h.F.rng[((L, 1),)] = (max(lo, b[0]), min(hi, b[1]))
                    if m != 1:
                        h.F.cong[L] = (m, r)
            elif tag == 'it':
                h.env[loc] = ('it', a[1], 'L', ('L', lid, loc, 'iterator'))
            elif tag == 'val':
                h.env[loc] = a[1]
            else:
                h.env[loc] = L
        return h


def keyed(l, v):
    while l[0] in ('f', 'e', 'pf', 'idx'):
        if l[0] == 'e' and mentions(l[2], v):
            return True
        l = l[1]
    return False


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


class Node:
    """identity-hashed AST node holder (for lambdas)"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return hash((self.n.get('l'), len(self.n.get('params', []))))

    def __eq__(self, o):
        return isinstance(o, Node) and self.n is o.n

    def __repr__(self):
        return 'lambda@%s' % self.n.get('l')


def rec_for(I_, s):
    return None


STD_EXC = {
    'std::out_of_range': ('std::logic_error', 'std::exception'),
    'std::invalid_argument': ('std::logic_error', 'std::exception'),
    'std::length_error': ('std::logic_error', 'std::exception'),
    'std::logic_error': ('std::exception',),
    'std::bad_typeid': ('std::exception',),
    'std::bad_cast': ('std::exception',),
    'std::bad_function_call': ('std::exception',),
    'std::runtime_error': ('std::exception',),
    'YAML::BadFile': ('YAML::Exception', 'std::runtime_error', 'std::exception'),
    'YAML::ParserException': ('YAML::Exception', 'std::runtime_error', 'std::exception'),
    'YAML::BadConversion': ('YAML::RepresentationException', 'YAML::Exception', 'std::runtime_error', 'std::exception'),
    'YAML::InvalidNode': ('YAML::RepresentationException', 'YAML::Exception', 'std::runtime_error', 'std::exception'),
    'YAML::BadSubscript': ('YAML::RepresentationException', 'YAML::Exception', 'std::runtime_error', 'std::exception'),
    'YAML::Exception': ('std::runtime_error', 'std::exception'),
}


class MayThrow:
    """per function: types of exceptions that may leave it (syntactic, transitive closure)"""
    def __init__(self, P):
        self.P = P
        self.res = {k: set() for k in P.funcs}
        self.sites = {}
        ch = True
        n = 0
        while ch and n < 30:
            ch = False
            n += 1
            for k, f in P.funcs.items():
                if not f['has']:
                    continue
                s = set()
                self.walk(f.get('body'), s)
                for i in f.get('inits', []):
                    self.walk(i.get('init'), s)
                if s - self.res[k]:
                    self.res[k] |= s
                    ch = True

    def of(self, key):
        return self.res.get(key, set())

    def caught(self, h, t):
        ht = strip(h)
        if h == '...' or ht == t:
            return True
        r = self.P.records.get(t)
        if r is not None and ht in r['pubanc']:
            return True
        return ht in STD_EXC.get(t, ())

    def walk(self, x, out):
        if isinstance(x, list):
            for y in x:
                self.walk(y, out)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if k == 'try':
            s = set()
            self.walk(x['b'], s)
            for t in s:
                if not any(self.caught(h['t'], t) for h in x['h']):
                    out.add(t)
            for h in x['h']:
                s2 = set()
                self.walk(h['b'], s2)
                if 'rethrow' in s2:
                    s2.discard('rethrow')
                    s2 |= {t for t in s if self.caught(h['t'], t)}
                out |= s2
            return
        if k == 'lambda':
            return
        if k == 'throw':
            out.add(strip(x['et']) if x.get('e') is not None else 'rethrow')
        if k in ('call', 'ctor'):
            f = self.P.funcs.get(x.get('key'))
            if f is not None:
                if x.get('virt'):
                    for g in self.P.all_overriders(x['key']):
                        out |= self.res.get(g['key'], set())
                else:
                    out |= self.res.get(x['key'], set())
            else:
                import stl
                out |= set(stl.may_throw(x))
        for kk, v in x.items():
            if isinstance(v, (dict, list)):
                self.walk(v, out)
