"""The property tree: lookups and reads, decided by classes of trees and paths.

The path and loop summaries of the lookup code look at a tree only through membership, elements and
scalar fields, so the trees and paths that matter are those that tell a summary's conditions apart:
every sequence of present and missing names up to the length at which no new transition is used."""
from .common import *
from .samples import NPOS, Unknown, parse_int
from .words import Env, Follow, Stop, feasible, ref_split, squash, pv_safe
import re

TREE = 'SoDa::PropertyTree'
NODE = 'SoDa::PropertyTree::PropNode'
NOTFOUND, BADTYPE = NODE + '::PropertyNotFound', NODE + '::BadPropertyType'


class Node:
    def __init__(self, val='', term=False, **kids):
        self.val, self.term, self.d, self.l, self.parent, self.name = val, term, {}, (), None, 'root'
        for k, n in kids.items():
            self.put(k, n)

    def put(self, k, n):
        n.parent, n.name = self, k
        self.d[k] = n

    def __repr__(self):
        return (repr(self.parent) + ':' if self.parent else '') + self.name


class Exc:
    def __init__(self, typ):
        self.typ = typ

    def __eq__(self, o):
        return isinstance(o, Exc) and o.typ == self.typ

    def __hash__(self):
        return hash(self.typ)

    def __repr__(self):
        return 'throw ' + self.typ.split('::')[-1]


FLT = re.compile(r'[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)')


def conv(text, t):
    """what >> makes of a text, None if it fails"""
    if t in ('int', 'long', 'unsigned int', 'unsigned long', 'short'):
        return parse_int(text)
    if t in ('double', 'float'):
        m = FLT.match(text)
        return float(m.group(1)) if m else None
    if 'string' in t:
        w = text.split()
        return w[0] if w else None
    raise Unknown(('type', t))


class M(Env):
    def __init__(self, this, args, fields, m=(), fun=None):
        Env.__init__(self, m, fun)
        self.this, self.args, self.fields = this, args, fields

    def at(self, loc):
        if loc == THIS:
            return self.this
        if loc[0] == 'd':
            return self.val(loc[1])
        if loc[0] == 'f':
            return self.field(self.at(loc[1]), loc[2])
        if loc[0] == 'obj' and str(loc[1]).startswith('arg:'):
            return self.args[int(loc[1][4:])]
        if loc in self.m:
            return self.m[loc]
        raise Unknown(loc)

    def field(self, o, name):
        if o is None:
            raise Unknown(('null', name))
        r = self.fields.get(name)
        if r is None or not isinstance(o, (Node, Tree)):
            raise Unknown(('field', name))
        return getattr(o, r)

    def val(self, v):
        if v in self.m:
            return self.m[v]
        if v[0] == 'ptr':
            return self.at(v[1])
        if v[0] == 'null':
            return None
        if v[0] == 'obj' and len(v) > 2:
            return v
        if v[0] == 'sym':
            b = v[1]
            if b[0] == 'arg':
                return self.args[b[1]]
            if b[0] == 'f':
                return self.field(self.at(b[1]), b[2])
            if b[0] == 'res':
                if b[1] not in self.fun:
                    raise Unknown(v)
                r = self.fun[b[1]](None if b[3] is None else self.at(b[3]), *[self.val(x) for x in b[-1]])
                if isinstance(r, Exc):
                    raise Unknown(v)
                return r
            if b[0] == 'E':
                c = self.val(b[1])
                if isinstance(c, dict):
                    k = self.val(b[2])
                    if k in c:
                        return c[k]
                    raise Unknown(v)
            if b[0] == 'd':
                return self.val(b[1])
            if b[0] == 'behind':
                k = self.val(b[2])
                ks = sorted(x for x in self.val(b[1]) if x > k)
                if not ks:
                    raise Unknown(v)
                return ks[0]
        if v[0] == 'op' and v[1] == 'parse':
            r = conv(self.text(v[3]), v[2])
            if r is None:
                raise Unknown(v)
            return r
        if v[0] == 'op' and v[1] == 'cstr':
            return self.text(v[3])
        return Env.val(self, v)

    def num(self, v):
        if v[0] == 'sym' and v not in self.m:
            r = self.val(v)
            if isinstance(r, (bool, int)):
                return int(r)
            raise Unknown(v)
        return Env.num(self, v)

    def lst(self, v):
        r = None
        if v[0] == 'c' and v[1] == 'sym':
            r = self.val(v[2])
        elif v[0] != 'c':
            r = self.val(v)
        if r is not None:
            return r
        return Env.lst(self, v)

    def cond(self, c):
        if c[0] == 'op' and c[1] == 'has':
            return self.val(c[4]) in self.val(c[3])
        if c[0] == 'op' and c[1] == 'behind':
            k = self.val(c[4])
            return any(x > k for x in self.val(c[3]))
        if c[0] == 'op' and c[1] == 'parses':
            return conv(self.text(c[3]), c[5]) is not None
        if c[0] == 'op' and c[1] == 'eof' and len(c[4]) == 1:
            t, s = c[4][0][0], self.text(c[3])
            rx = r'\s*[+-]?\d*' if 'int' in t or 'long' in t else r'\s*[+-]?\d*\.?\d*(?:[eE][+-]?\d*)?' if t in ('double', 'float') else r'\s*\S*'
            return re.match(rx, s).end() == len(s)
        if c[0] == 'sym' and c not in self.m:
            r = self.val(c)
            if isinstance(r, (bool, int)):
                return bool(r)
            return r is not None
        return Env.cond(self, c)


class Tree:
    def __init__(self, root):
        self.root = root


class Walk(Follow):
    """Follow, with calls answered by their specifications and recursion unrolled"""

    def env_of(self, env):
        return M(env.this, env.args, env.fields, env.m, env.fun)

    def walk(self, ev, pcs, env):
        ev = list(ev)
        for i, e in enumerate(ev):
            if e[0] in ('call', 'rcall', 'vcall'):
                nxt = next((x for x in ev[i + 1:] if x[0] in ('throw', 'call', 'rcall', 'vcall', 'loop')), None)
                via = nxt is not None and nxt[0] == 'throw' and str(nxt[3]).startswith('via ')
                if e[2] not in env.fun:
                    if via and nxt[2] not in (BADTYPE, NOTFOUND):
                        return False        # only failures of the formatting library itself
                    if via:
                        raise Unknown(('call', e[2]))
                    continue
                if not feasible(env, [c for c in self.before(e, pcs)]):
                    return False
                try:
                    r = env.fun[e[2]](None if e[3] is None else env.at(e[3]), *[env.val(x) for x in e[4]])
                except Unknown:
                    if not feasible_known(env, pcs):
                        return False
                    raise
                if isinstance(r, Exc) != via or via and nxt[2] != r.typ:
                    return False
            elif e[0] == 'loop':
                rec, key, kind = e[2], e[3], e[4]
                if not feasible(env, rec.entry.F.pc):
                    return False
                if not self.loop(rec, key, kind, env, pcs):
                    return False
        return feasible(env, pcs)

    def before(self, e, pcs):
        return []


def feasible_known(env, pcs):
    """False if some condition is known not to hold"""
    for c, pol, ln in pcs:
        try:
            if env.cond(c) != pol:
                return False
        except Unknown:
            return True
    return True


class Prog:
    """the library's lookup code with its summaries"""

    def __init__(self, ctx):
        self.ctx = ctx
        P = ctx.P
        self.fields = fields(ctx)
        self.follow = Walk()
        self.follow.envs = None
        self.depth = 0
        self.split = {'SoDa::split': lambda this, w, d, n=0: ref_split(squash(w), d, bool(n)),
                      'SoDa::splitVec': lambda this, w, d, n=0: ref_split(squash(w), d, bool(n)),
                      'SoDa::squashSpaces': lambda this, w: squash(w),
                      NODE + '::getPathName': lambda this: '?'}

    def opaque(self, g):
        return g['qn'] in self.split

    def outcome(self, f, this, args, extra=None, key='tree', opq=()):
        """-> set of (result | Exc, path, env)"""
        ctx = self.ctx
        I_, ps = ctx.run(f, key=(key,) + tuple(opq), opaque=lambda g: self.opaque(g) or g['qn'] in opq)
        fun = dict(self.split)
        fun.update(extra or {})

        def again(fq):
            def go(th, *a):
                self.depth += 1
                if self.depth > 12:
                    raise Unknown(('deep', fq))
                try:
                    g = [x for x in ctx.P.funcs.values() if x['qn'] == fq and x['has']]
                    if len(g) != 1:
                        raise Unknown(('call', fq))
                    rs = {r for r, p, e in self.outcome(g[0], th, list(a), extra, key, opq)}
                    if len(rs) != 1:
                        raise Unknown(('outcomes', fq, len(rs)))
                    return rs.pop()
                finally:
                    self.depth -= 1
            return go
        for p in ps:
            for e in all_events(p.ev):
                if e[0] == 'rcall' and e[2] not in fun:
                    fun[e[2]] = again(e[2])
        out = []
        for p in ps:
            env = M(this, args, self.fields, {}, fun)
            try:
                if not self.follow.walk(p.ev, p.st.F.pc, env):
                    continue
            except Stop:
                out.append((Exc('never ends'), p, env))
                continue
            if p.kind == 'throw':
                out.append((Exc(p.st.exc.typ), p, env))
            else:
                out.append((env.val(p.val) if p.val is not None and p.val != ('void',) else None, p, env))
        return out


def fields(ctx):
    """which field of a node plays which part"""
    P = ctx.P
    r = P.records.get(NODE)
    if r is None:
        raise Anchor(NODE)
    out = {}
    for f in r['fields']:
        t, n = f['t'], f['n']
        if 'map<' in t:
            out[n] = 'd'
        elif 'list<' in t or 'vector<' in t:
            out[n] = 'l'
        elif t == 'bool':
            out[n] = 'term'
        elif t.endswith('*'):
            out[n] = 'parent'
        elif 'string' in t:
            out[n] = 'val'
    t = P.records.get(TREE)
    if t is None:
        raise Anchor(TREE)
    for f in t['fields']:
        if f['t'].endswith('*') and 'PropNode' in f['t']:
            out[f['n']] = 'root'
    return out


def sample_tree():
    leaf = lambda v: Node(v, True)
    r = Node(a=Node(a=Node(a=leaf('3'), b=Node(c=leaf('deep'))), b=leaf('two words')), b=Node(a=leaf('12'), c=leaf('-7.5')), c=leaf('x'))
    r.put('n', leaf('42'))
    r.put('e', leaf(''))
    r.put('', leaf('empty name'))
    return r


def lookup(n, path):
    for k in ref_split(squash(path), ':', False):
        if k not in n.d:
            return None
        n = n.d[k]
    return n


def paths():
    out = ['']
    names = ['a', 'b', 'c', 'z']
    import itertools
    for n in (1, 2, 3, 4):
        for w in itertools.product(names[:4 if n < 3 else 3], repeat=n):
            out.append(':'.join(w))
    out += ['a%sb' % chr(i) for i in list(range(33, 127)) + list(range(128, 256)) if not chr(i).isalnum()]    # nothing else separates names
    return out + ['n', 'e', ':', '::', ':a', 'a:', 'a::b', 'z:a:b', 'a:a:b:c:d', 'a b', 'n:a', 'c:', 'b:a:']


def judge(ctx, rule, where, prog, f, cases, key='tree', opq=(), extra=None, final=None):
    """cases: (label, this, args, expected, expected final value of arg 0 or None)"""
    F = prog.follow
    unknown = None
    n = 0
    for label, this, args, expect, fin in cases:
        try:
            outs = prog.outcome(f, this, args, extra, key, opq)
        except Unknown as e:
            unknown = unknown or '%s: %s' % (label, pv_safe(e.args[0]))
            continue
        rs = {r for r, p, e in outs}
        if not rs:
            unknown = unknown or '%s: no path' % label
            continue
        if len(rs) > 1:
            unknown = unknown or '%s: paths disagree (%s)' % (label, rs)
            continue
        n += 1
        r, p, env = outs[0]
        if r != expect or type(r) is bool and type(expect) is not bool and r is not expect:
            if not (isinstance(r, int) and isinstance(expect, bool) and r == int(expect)):
                if p.st.imprecise:
                    unknown = unknown or label + ': imprecise'
                    continue
                ctx.bad(rule, where, '%s gives %s instead of %s' % (label, show(r), show(expect)), p)
                return
        if fin is not None:
            t = f['params'][0]['t'].replace('const ', '').rstrip('& ')
            try:
                v = p.I.read(p.st, ('obj', 'arg:0'), t)
                got = env.val(v) if v != ('obj', 'arg:0') else args[0]
            except Unknown as e:
                unknown = unknown or '%s: value %s' % (label, pv_safe(e.args[0]))
                continue
            if got != fin:
                ctx.bad(rule, where, '%s sets %r instead of %r' % (label, got, fin), p)
                return
    if unknown:
        ctx.unk(rule, where, unknown)
    else:
        ctx.ok(rule, where)


def show(r):
    return 'nothing' if r is None else repr(r) if not isinstance(r, Node) else 'node %r' % r


def untouched(ctx, rule, f, key, opq, prog):
    """no path writes a node's fields or makes an entry"""
    looked(ctx, rule, f, ctx.run(f, key=(key,) + tuple(opq), opaque=lambda g: prog.opaque(g) or g['qn'] in opq)[1], prog)


def looked(ctx, rule, f, ps, prog):
    for p in ps:
        for e in all_events(p.ev):
            if e[0] in ('wr', 'app') and len(e) > 2 and isinstance(e[2], tuple) and tree_loc(e[2], prog):
                ctx.bad(rule, '%s line %s' % (f['qn'], e[1]), 'a lookup writes %s' % ploc(e[2]), p)
                return
            if e[0] == 'autoins' and tree_loc(e[2], prog):
                ctx.bad(rule, '%s line %s' % (f['qn'], e[1]), 'a lookup makes an entry in %s' % pe(e), p)
                return
    ctx.ok(rule, f['qn'])


def tree_loc(l, prog):
    while isinstance(l, tuple) and l and l[0] in ('e', 'f', 'pf'):
        if l[0] == 'f' and l[2] in prog.fields:
            return True
        l = l[1]
    return False


def T01(ctx):
    prog = Prog(ctx)
    fs = ctx.fns_of(NODE, 'getProp')
    if not fs:
        raise Anchor(NODE + '::getProp')
    root = sample_tree()
    for f in fs:
        for start, nm in ((root, 'the root'), (root.d['a'], 'a'), (root.d['c'], 'a leaf')):
            def cases():
                for pth in paths():
                    for flag in (False, True):
                        want = lookup(start, pth)
                        yield 'looking up %r from %s%s' % (pth, nm, ' with exceptions' if flag else ''), start, [pth, flag], \
                            (Exc(NOTFOUND) if want is None and flag else want), None
            guarded(ctx, 'lookup', ctx.loc(f) + ' from ' + nm, lambda: judge(ctx, 'lookup', ctx.loc(f) + ' from ' + nm, prog, f, cases()))
        guarded(ctx, 'unchanged', f['qn'], lambda: untouched(ctx, 'unchanged', f, 'tree', (), prog))
        guarded(ctx, 'whole-name', f['qn'], lambda: cuts(ctx, 'whole-name', f['qn'], ctx.run(f, key=('tree',), opaque=prog.opaque)[1], free_text))
    for f in ctx.fns_of(TREE, 'get'):
        guarded(ctx, 'unchanged', f['key'], lambda: untouched(ctx, 'unchanged', f, 'tree', (NODE + '::getProp',), prog))
    for f in ctx.fns_of(NODE, 'get') + ctx.fns_of(NODE, 'getList') + ctx.fns_of(NODE, 'getKeys') + ctx.fns_of(NODE, 'getPathName'):
        guarded(ctx, 'unchanged', f['key'], lambda: untouched(ctx, 'unchanged', f, 'tree', (), prog))


TEXTS = ['', ' ', '5', '-12', '2.5', '-7.5e3', 'abc', 'two words', ' 7 8', 'x1', '+3', '.5', ' lead', 'trail ', 'a\tb', 'true', '-', 'two  blanks ']


def spec_getprop(this, path, flag=0):
    r = lookup(this, path)
    return Exc(NOTFOUND) if r is None and flag else r


def reads(ctx, prop):
    prog = Prog(ctx)
    fs = ctx.fns_of(TREE, 'get') + ctx.fns_of(NODE, 'get')
    if not fs:
        raise Anchor(TREE + '::get')
    n = 0
    for f in fs:
        t = f['params'][0]['t'].replace('const ', '').rstrip('& ')
        if (prop == 'T03') != ('string' in t):
            if not (prop == 'T02' and 'string' in t):
                continue
        n += 1
        w = '%s of %s' % (f['qn'], t)
        tree = f['cls'] == TREE

        def node_case(v, term, flag):
            nd = Node(v, term)
            if 'string' in t:
                r = nd.val if term else None
            else:
                r = conv(v, t)
            return nd, r

        def cases():
            init = 'old' if 'string' in t else 99
            for flag in (False, True):
                for v in TEXTS:
                    nd, r = node_case(v, True, flag)
                    yield from one(nd, r, flag, init, 'the text %r' % v)
                nd, r = node_case('', False, flag)
                nd.put('k', Node('1', True))
                yield from one(nd, r, flag, init, 'a node that is no text')
                if tree:
                    yield 'reading a missing property%s' % (' with exceptions' if flag else ''), Tree(Node()), [init, 'a:b', flag], Exc(NOTFOUND) if flag else False, None

        def one(nd, r, flag, init, what):
            exp = True if r is not None else (Exc(BADTYPE) if flag else False)
            lab = 'reading %s%s' % (what, ' with exceptions' if flag else '')
            if prop == 'T03' and r is None:
                return
            if tree:
                rt = Node()
                rt.put('k', nd)
                yield lab, Tree(rt), [init, 'k', flag], exp, r
            else:
                yield lab, nd, [init, flag], exp, r
        guarded(ctx, 'read', w, lambda: judge(ctx, 'read', w, prog, f, cases(), opq=(NODE + '::getProp',) if tree else (),
                                              extra={NODE + '::getProp': spec_getprop}))
    return n


def T02(ctx):
    reads(ctx, 'T02')
    kept(ctx)
    prog = Prog(ctx)
    root = sample_tree()
    for f in ctx.fns_of(NODE, 'getProp'):
        def cases():
            for pth in ('z', 'a:z', 'z:a', 'z:z:z', 'a:a:z', 'a:a:b:z', 'c:z', 'b:a:z:z', 'a:z:b', 'a:b', 'a:a:b:c'):
                for flag in (False, True):
                    want = lookup(root, pth)
                    yield 'finding %r%s' % (pth, ' with exceptions' if flag else ''), root, [pth, flag], \
                        (Exc(NOTFOUND) if want is None and flag else want), None
        guarded(ctx, 'missing', ctx.loc(f), lambda: judge(ctx, 'missing', ctx.loc(f), prog, f, cases()))


def kept(ctx):
    """the text read is the one the document has: the node made for it keeps it as it is"""
    prog = FillProg(ctx)
    for f in [f for f in ctx.P.funcs.values() if f['name'] == 'readFile' and f['has'] and 'YAML' in (f.get('cls') or '')]:
        docs = [(ymap(k=Y(2, t)), False) for t in TEXTS] + [(ymap(k=Y(3, [Y(2, t), Y(2, 'x')])), True) for t in TEXTS]
        guarded(ctx, 'kept-as-read', ctx.loc(f), lambda: kept_in(ctx, prog, f, docs))


def kept_in(ctx, prog, f, docs):
    for doc, listed in docs:
        w = Fill(prog)
        w.limit = prog.limit = 80
        tree, m = Tree(Node()), {}
        for p in prog.paths(f):
            syms(p, m, doc)
        good, kind = prog.fill(w, f['key'], tree, ['file.yaml'], m)
        n = tree.root.d.get('k') if kind != 'throw' else None
        want = doc.v[0][1]
        if listed:
            n, want = (n.l[0] if isinstance(n, Node) and n.l else None), want.v[0]
        if not isinstance(n, Node) or not n.term:
            ctx.ok('kept-as-read', ctx.loc(f))       # no text there: how a document is laid out is T04's
        elif n.val == want.v:
            ctx.ok('kept-as-read', ctx.loc(f))
        elif good[0].st.imprecise:
            ctx.unk('kept-as-read', ctx.loc(f), 'imprecise')
            return
        else:
            ctx.bad('kept-as-read', ctx.loc(f), 'the text %r is kept as %r, so reading it gives something else' % (want.v, n.val), good[0])
            return


def T03(ctx):
    reads(ctx, 'T03')
    kept(ctx)
    prog = Prog(ctx)
    for f in ctx.fns_of(TREE, 'get') + ctx.fns_of(NODE, 'get'):
        if 'string' in f['params'][0]['t']:
            opq = (NODE + '::getProp',) if f['cls'] == TREE else ()
            w = '%s of %s' % (f['qn'], f['params'][0]['t'])
            guarded(ctx, 'whole-text', w, lambda: cuts(ctx, 'whole-text', w, ctx.run(
                f, key=('tree',) + opq, opaque=lambda g: prog.opaque(g) or g['qn'] in opq)[1], held_text))


def held_text(v):
    """a text a node holds"""
    if not isinstance(v, tuple):
        return False
    if v[:1] == ('sym',) and len(v) > 2 and isinstance(v[1], tuple) and v[1]:
        return v[1][0] == 'f' and strip(v[2]) == 'std::string'
    return any(held_text(x) for x in v)


# ---- filling the tree from a document

class Y:
    """a YAML node: 1 null, 2 scalar, 3 sequence, 4 map"""

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v

    def __repr__(self):
        if self.kind == 1:
            return '~'
        if self.kind == 2:
            return repr(self.v)
        if self.kind == 3:
            return '[' + ', '.join(map(repr, self.v)) + ']'
        return '{' + ', '.join('%s: %r' % (k.v, x) for k, x in self.v) + '}'

    def __len__(self):
        return len(self.v) if self.kind in (3, 4) else 0


def ymap(**kw):
    return Y(4, [(Y(2, k), v) for k, v in kw.items()])


def documents():
    s = lambda t: Y(2, t)
    q = lambda *a: Y(3, list(a))
    n = Y(1)
    inner = [s('t'), s('two  words'), s(''), q(), q(s('1')), q(s('1'), s('2'), s('1')), ymap(), ymap(x=s('deep')), ymap(x=s('1'), y=ymap(z=s('2'))), ymap(x=q(s('8'), s('9'))),
             q(q(s('1'), s('2')), q(s('3'))), q(ymap(x=s('1')), ymap(x=s('2'))), q(s('a'), ymap(x=s('1')), s('b')), q(ymap(l=q(s('1'), s('2'))))]
    out = [ymap()]
    for i in inner:
        out.append(ymap(k=i))
        out.append(ymap(o=ymap(k=i)))
        out.append(ymap(k=i, m=s('other')))
        out.append(ymap(m=s('other'), k=i))
        out.append(ymap(m=n, k=i))
    for i in inner[:8]:
        for j in inner[3:10]:
            out.append(ymap(k=i, j=j))
            out.append(ymap(o=ymap(k=i, j=j), k=j))
    out.append(ymap(a=ymap(a=ymap(a=ymap(a=s('4')))), b=s('5')))
    many = ymap(a=s('1'), b=s('2'), c=q(s('1'), s('2'), s('3'), s('4'), s('5')), d=ymap(x=s('6')), e=s('7'), f=s('8'))
    out += [many, ymap(o=many), ymap(o=ymap(o=many, p=many)), ymap(l=q(many, many, many))]
    out.append(q(s('1'), s('2')))
    out.append(q(ymap(k=s('1')), s('2')))
    return out


def agree(doc, node, where):
    """None, or what differs between a document and the node made for it"""
    if doc.kind == 2:
        if not node.term or node.val != doc.v or node.d:
            return '%s holds %r instead of the text %r' % (where, node.val if node.term else 'no text', doc.v)
    elif doc.kind == 4:
        want = [k.v for k, v in doc.v if v.kind != 1]
        for k in want:
            if k not in node.d:
                return '%s has no entry %r' % (where, k)
        for k in node.d:
            if k not in want and not any(x.v == k for x, v in doc.v):
                return '%s has an entry %r that is not in the file' % (where, k)
        for k, v in doc.v:
            if v.kind != 1:
                r = agree(v, node.d[k.v], where + ':' + k.v) if isinstance(node.d[k.v], Node) else '%s:%s is null' % (where, k.v)
                if r:
                    return r
        if node.term:
            return '%s counts as text' % where
    elif doc.kind == 3:
        if len(node.l) != len(doc.v):
            return 'the list of %s has %d elements instead of %d' % (where, len(node.l), len(doc.v))
        for i, (a, b) in enumerate(zip(doc.v, node.l)):
            r = agree(a, b, '%s[%d]' % (where, i))
            if r:
                return r
    return None


class FM(M):
    def at(self, loc):
        if loc[0] == 'e':
            c = self.at(loc[1])
            k = self.val(loc[2])
            if isinstance(c, dict) and k in c:
                return c[k]
            raise Unknown(loc)
        return M.at(self, loc)

    def index(self, k):
        """position an iterator key stands for"""
        if k == ('first',):
            return 0
        if k[0] == 'pos':
            return self.pos(k[1])
        return self.m[k] if k in self.m and isinstance(self.m[k], int) else None

    def pos(self, v):
        if v in self.m:
            return self.m[v]
        if v[0] == 'it':
            k = v[2]
            if k == 'begin':
                return 0
            if k == 'end':
                return len(self.at(v[1]))
            if k == 'L':
                return self.pos(v[3])
            if k == 'step':
                return self.pos(v[3][0]) + v[3][1]
        raise Unknown(v)

    def val(self, v):
        if v in self.m:
            return self.m[v]
        if v[0] == 'it':
            return self.pos(v)
        if v[0] == 'op' and v[1] == 'ix':
            i = self.index(v[3])
            if i is not None:
                return i
            raise Unknown(v)
        if v[0] == 'op' and v[1] == 'ykind':
            return self.val(v[3]).kind
        if v[0] == 'op' and v[1] == 'yas':
            y = self.val(v[3])
            if y.kind == 2:
                return y.v
            raise Unknown(v)
        if v[0] == 'op' and v[1] == 'size':
            y = v[3]
            if y[0] == 'c' and y[1] == 'sym':
                y = y[2]
            y = self.val(y)
            if isinstance(y, (Y, dict, list, tuple)):
                return len(y)
            raise Unknown(v)
        if v[0] == 'sym' and v[1][0] == 'E':
            c = self.val(v[1][1])
            if isinstance(c, Y):
                i = self.val(v[1][2])
                if isinstance(i, int) and 0 <= i < len(c):
                    return c.v[i]
                raise Unknown(v)
        if v[0] == 'sym' and v[1][0] == 'F':
            c = self.val(v[1][1])
            if isinstance(c, tuple) and len(c) == 2 and v[1][2] in ('first', 'second'):
                return c[0 if v[1][2] == 'first' else 1]
            raise Unknown(v)
        return M.val(self, v)

    def num(self, v):
        if v[0] == 'op' and v[1] in ('ykind', 'ix', 'size') and v not in self.m:
            r = self.val(v)
            if isinstance(r, int):
                return r
        return M.num(self, v)

    def cond(self, c):
        if c[0] == 'op' and c[1] == 'atend':
            v = c[3]
            return self.pos(v) >= len(self.at(v[1]))
        return M.cond(self, c)

    def lst(self, v):
        if v[0] == 'c' and v[1] == 'ins':
            d = dict(self.lst(v[2]))
            d.setdefault(self.val(v[3]), None)
            return d
        return M.lst(self, v)


class Fill(Walk):
    """Walk that also carries out the recorded writes on the model tree, undone when a path turns out infeasible"""

    def __init__(self, prog):
        Walk.__init__(self, 80)
        self.prog, self.journal = prog, []

    def env_of(self, env):
        return FM(env.this, env.args, env.fields, env.m, env.fun)

    def undo(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    def setattr(self, o, name, v):
        old = getattr(o, name)
        self.journal.append(lambda: setattr(o, name, old))
        setattr(o, name, v)

    def live(self, m, env):
        if m[0] in ('f', 'e') and tree_loc(m, self.prog):
            try:
                v = env.at(m)
            except Unknown:
                return None
            return dict(v) if isinstance(v, dict) else v
        return None

    def walk(self, ev, pcs, env):
        mark = len(self.journal)
        try:
            if self.walk2(ev, pcs, env):
                return True
        except Unknown:
            self.undo(mark)
            raise
        self.undo(mark)
        return False

    def walk2(self, ev, pcs, env):
        pending = []
        ev = list(ev)
        for e in ev:
            if e[0] == 'throw' and str(e[3]).startswith(('std', 'via ')):
                return False            # loading and converting succeed for the documents used
            if e[0] == 'new':
                env.m[e[2]] = Node()
        for c in pcs:
            try:
                if env.cond(c[0]) != c[1]:
                    return False
            except Unknown:
                pending.append(c)
        for i, e in enumerate(ev):
            if e[0] in ('wr', 'init') and isinstance(e[2], tuple):
                self.write(e, env)
            elif e[0] == 'throw' and str(e[3]).startswith('std'):
                return False
            elif e[0] in ('call', 'rcall', 'vcall'):
                nxt = next((x for x in ev[i + 1:] if x[0] in ('throw', 'call', 'rcall', 'vcall', 'loop')), None)
                if nxt is not None and nxt[0] == 'throw' and str(nxt[3]).startswith('via '):
                    return False            # the documents convert
                if e[0] == 'rcall':
                    self.prog.fill(self, e[5], env.at(e[3]) if e[3] is not None else None, [env.val(x) for x in e[4]])
                elif e[2] not in env.fun:
                    raise Unknown(('call', e[2]))
            elif e[0] == 'loop':
                if not self.loop(e[2], e[3], e[4], env, pcs):
                    return False
        for c, pol, ln in pending:
            if env.cond(c) != pol:
                return False
        return True

    def setheads(self, rec, key, vals, env):
        for m in rec.M:
            v = self.live(m, env)
            if v is not None:
                vals[m] = v
        Walk.setheads(self, rec, key, vals, env)

    def write(self, e, env):
        loc, v, op = e[2], e[3], e[4]
        if not tree_loc(loc, self.prog) and not (loc[0] == 'f' and loc[1][0] == 'h'):
            return
        if loc[0] == 'e':
            c = env.at(loc[1])
            if not isinstance(c, dict):
                raise Unknown(loc)
            k, x = env.val(loc[2]), env.val(v)
            had, old = k in c, c.get(k)
            self.journal.append(lambda: c.__setitem__(k, old) if had else c.pop(k, None))
            c[k] = x
            return
        if loc[0] != 'f':
            raise Unknown(loc)
        o = env.at(loc[1])
        part = self.prog.fields.get(loc[2])
        if part is None or o is None:
            raise Unknown(loc)
        if part == 'd':
            if v == ('c', 'empty'):
                self.setattr(o, 'd', {})
            elif v[0] == 'c' and v[1] in ('ins', 'with'):
                c = o.d
                k = env.val(v[3])
                had, old = k in c, c.get(k)
                if v[1] == 'with':
                    x = env.val(v[4])
                elif had:
                    return
                else:
                    x = None
                self.journal.append(lambda: c.__setitem__(k, old) if had else c.pop(k, None))
                c[k] = x
            else:
                raise Unknown(v)
        elif part == 'l':
            if v == ('c', 'empty'):
                self.setattr(o, 'l', ())
            elif v[0] == 'c' and v[1] == 'push_back':
                self.setattr(o, 'l', tuple(o.l) + (env.val(v[3]),))
            elif v[0] == 'c' and v[1] == 'push_front':
                self.setattr(o, 'l', (env.val(v[3]),) + tuple(o.l))
            else:
                raise Unknown(v)
        else:
            x = env.val(v)
            self.setattr(o, part, bool(x) if part == 'term' else x)


class FillProg(Prog):
    def __init__(self, ctx):
        Prog.__init__(self, ctx)
        self.level, self.limit = 0, 0

    def paths(self, f):
        return self.ctx.run(f, key='fill', opaque=lambda g: False)[1]

    def fill(self, w, key, this, args, m=()):
        self.level += 1
        try:
            if self.level > 12 + self.limit:
                raise Unknown(('deep', key))
            f = self.ctx.P.funcs.get(key)
            if f is None:
                raise Unknown(('call', key))
            for p in self.paths(f):
                env = FM(this, args, self.fields, m, {})
                try:
                    ok = w.walk(p.ev, p.st.F.pc, env)
                except Stop:
                    raise Unknown(('no end', key))
                if ok:
                    return [p], p.kind
            raise Unknown(('no path', key))
        finally:
            self.level -= 1


def T04(ctx):
    P = ctx.P
    prog = FillProg(ctx)
    fs = [f for f in P.funcs.values() if f['name'] == 'readFile' and f['has'] and 'YAML' in (f.get('cls') or '')]
    if not fs:
        raise Anchor('PropertyTreeYAML::readFile')
    for f in fs:
        guarded(ctx, 'fill', ctx.loc(f), lambda: filled(ctx, prog, f))
        guarded(ctx, 'load-failure', ctx.loc(f), lambda: failures(ctx, prog, f))
    for f in P.funcs.values():
        if f.get('cls') == fs[0].get('cls') and f['kind'] == 'ctor' and f['has'] and not f.get('implicit') and f['params'] and 'string' in f['params'][0]['t']:
            guarded(ctx, 'constructor', ctx.loc(f), lambda: ctor(ctx, f, fs))


def reached(ctx, prog, f):
    """every path of the function and of those it calls by recursion"""
    todo, done = [f['key']], set()
    while todo:
        k = todo.pop()
        if k in done or k not in ctx.P.funcs:
            continue
        done.add(k)
        for p in prog.paths(ctx.P.funcs[k]):
            yield p
            for e in all_events(p.ev):
                if e[0] == 'rcall':
                    todo.append(e[5])


def amounts(ps):
    """the numbers, other than kinds of nodes, that conditions compare with"""
    out = {0}

    def go(t):
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'lin':
            if not all(isinstance(a, tuple) and a[:2] == ('op', 'ykind') for a, k in t[2]):
                out.add(abs(t[1]))
            for a, k in t[2]:
                go(a)
            return
        if t[0] == 'i':
            out.add(abs(t[1]))
            return
        for x in t[1:] if t[0] != 'op' else t[3:]:
            go(x)

    def conds(F):
        for c, pol, ln in F.pc:
            if not (c[0] in ('le0', 'eq0') and c[1][0] == 'op' and c[1][1] == 'ykind'):
                go(c)
    seen = set()
    for p in ps:
        conds(p.st.F)
        for e in all_events(p.ev):
            if e[0] == 'loop' and id(e[2]) not in seen:
                seen.add(id(e[2]))
                for it in e[2].iters:
                    if it[2] is not None:
                        conds(it[2].F)
                for x in e[2].exits:
                    conds(x[2].F)
    return out


def large(n):
    """documents with more than n of everything"""
    s = lambda i: Y(2, 't%d' % i)
    seq = Y(3, [s(i) for i in range(n + 2)])
    m = Y(4, [(Y(2, 'k%d' % i), s(i)) for i in range(n + 2)])
    yield ymap(k=seq)
    yield m
    yield ymap(k=Y(2, 'x' * (n + 2)))
    if n <= 1000:
        yield ymap(o=m, l=Y(3, [m, m]))
        yield ymap(k=Y(3, [Y(3, [s(i)]) for i in range(n + 2)]))
    if n <= 400:
        d = s(0)
        for i in range(n + 2):
            d = ymap(k=d)
        yield d
        d = s(0)
        for i in range(n + 2):
            d = Y(3, [d])
        yield ymap(k=d)


def brief(doc):
    r = repr(doc)
    return r if len(r) < 100 else r[:80] + '... (%d characters)' % len(r)


def yaml_text(v):
    if not isinstance(v, tuple):
        return False
    return v[:2] == ('op', 'yas') or any(yaml_text(x) for x in v)


def filled(ctx, prog, f):
    ps = list(reached(ctx, prog, f))
    guarded(ctx, 'whole-text', ctx.loc(f), lambda: cuts(ctx, 'whole-text', ctx.loc(f), ps, yaml_text))
    most = max(amounts(ps))
    limit = 5000
    w = Fill(prog)
    w.limit = prog.limit = min(most, limit) + 80
    docs = documents() + ([] if most < 3 else list(large(most)) if most <= limit else [])
    unknown = None
    if most > limit:
        unknown = 'the library compares with %d' % most
    n = 0
    for p in prog.paths(f):
        for e in p.ev:
            if e[0] == 'yload' and e[3][0] == 's' and e[3] != ('s', (('w', ('sym', ('arg', 0), 'std::string')),)):
                ctx.bad('fill', ctx.loc(f), 'the file read is not the one named', p)
                return
    for doc in docs:
        tree = Tree(Node())
        m = {}
        for p in prog.paths(f):
            syms(p, m, doc)
        try:
            good, kind = prog.fill(w, f['key'], tree, ['file.yaml'], m)
        except Unknown as e:
            unknown = unknown or '%s: %s' % (brief(doc), pv_safe(e.args[0]))
            continue
        n += 1
        if kind == 'throw':
            r = 'loading throws'
        else:
            r = agree(doc, tree.root, 'the root')
        if r:
            if good[0].st.imprecise:
                unknown = unknown or '%s: imprecise' % brief(doc)
                continue
            ctx.bad('fill', ctx.loc(f), 'for the document %s: %s' % (brief(doc), r), good[0])
            return
    if unknown:
        ctx.unk('fill', ctx.loc(f), unknown)
    if unknown is None:
        for i in range(n):
            ctx.ok('fill', '%s document class %d' % (ctx.loc(f), i))


def syms(p, m, doc):
    """the symbols that stand for the document loaded"""
    def go(t):
        if isinstance(t, tuple):
            if len(t) > 2 and t[0] == 'sym' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'yload':
                m[t] = doc
                return
            for x in t:
                go(x)
    for e in p.ev:
        if e[0] in ('rcall', 'call', 'wr'):
            go(e[2:5])
        if e[0] == 'loop':
            go((e[2].cont,))
            m2 = e[2].cloc
            if m2 is not None:
                v = e[2].entry.env.get(m2)
                if v is not None and v[0] == 'sym' and v[1][0] == 'yload':
                    m[m2] = doc
    for c, pol, ln in p.st.F.pc:
        go(c)
    for l, v in p.st.env.items():
        if isinstance(v, tuple) and v and v[0] == 'sym' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'yload':
            m[l] = doc


def failures(ctx, prog, f):
    """a file that cannot be opened or parsed"""
    P = ctx.P
    fnf = TREE + '::FileNotFound'
    seen = 0
    for p in prog.paths(f):
        first = next((e for e in p.ev if e[0] == "throw" and str(e[2]).startswith('YAML::')), None)
        if first is None:
            continue
        seen += 1
        w = '%s on %s' % (ctx.loc(f), first[2])
        if p.kind != 'throw':
            ctx.bad('load-failure', w, 'a %s is swallowed' % first[2], p)
        elif first[2] == 'YAML::BadFile':
            ctx.check(p.st.exc.typ == fnf, 'load-failure', w, 'a file that cannot be opened gives %s instead of FileNotFound' % p.st.exc.typ, p)
        else:
            ctx.check(is_lib(P, p.st.exc.typ), 'load-failure', w, 'a file that cannot be parsed gives %s' % p.st.exc.typ, p)
    if not seen:
        ctx.unk('load-failure', ctx.loc(f), 'no failing load seen')


def is_lib(P, t):
    r = P.records.get(t)
    return t == 'SoDa::Exception' or r is not None and any(is_lib(P, b['qn']) for b in r.get('bases', []))


def ctor(ctx, f, fs):
    names = {x['qn'] for x in fs}
    I_, ps = ctx.run(f, key='ctor', opaque=lambda g: g['qn'] in names)
    for p in ps:
        calls = [e for e in p.ev if e[0] in ('call', 'vcall') and e[2] in names]
        if p.kind == 'throw':
            continue
        ctx.check(len(calls) == 1 and calls[0][4] == (('s', (('w', ('sym', ('arg', 0), 'std::string')),)),), 'constructor', ctx.loc(f),
                  'the constructor does not read the file it is given', p)


# ---- listing a node

class LM(FM):
    """what a summary sees of a node's dictionary and list while it goes through them"""

    def ordered(self, c):
        return sorted(c.items()) if isinstance(c, dict) else list(c)

    def val(self, v):
        if v in self.m:
            return self.m[v]
        if v[0] == 'sym' and isinstance(v[1], tuple):
            b = v[1]
            if b[0] == 'key' and len(b) == 2 and b[1] in self.m:
                c = self.over.get(b[1])
                if c is not None:
                    return self.ordered(c)[self.m[b[1]]][0]
            if b[0] == 'E':
                c = self.val(b[1])
                if isinstance(c, (tuple, list)):
                    i = self.val(b[2])
                    if isinstance(i, int) and 0 <= i < len(c):
                        return c[i]
                    raise Unknown(v)
        return FM.val(self, v)

    @property
    def over(self):
        return self.m.setdefault(('over',), {})

    def cond(self, c):
        if c[0] == 'eqt':
            return self.val(c[1]) is self.val(c[2])
        return FM.cond(self, c)


class Listing(Fill):
    def __init__(self, prog):
        Fill.__init__(self, prog)
        self.text = []

    def env_of(self, env):
        return LM(env.this, env.args, env.fields, env.m, env.fun)

    def setheads(self, rec, key, vals, env):
        if rec.kind == 'foreach':
            env.over[rec.elem] = env.val(rec.cont)
        Fill.setheads(self, rec, key, vals, env)

    def walk2(self, ev, pcs, env):
        pending = []
        ev = list(ev)
        for c in pcs:
            try:
                if env.cond(c[0]) != c[1]:
                    return False
            except Unknown:
                pending.append(c)
        for i, e in enumerate(ev):
            if e[0] == 'out':
                n = len(self.text)
                self.journal.append(lambda n=n: self.text.__delitem__(slice(n, None)))
                self.text.append(env.text(e[4]) if e[4][0] == 's' else str(env.val(e[4])))
            elif e[0] == 'rcall':
                r = self.prog.result(self, e[5], env.at(e[3]) if e[3] is not None else None, ['the stream' if x[:1] == ('ss',) else env.at(x[1]) if x[:1] == ('loc',) else env.val(x) for x in e[4]])
                env.fun = dict(env.fun)
                env.fun[e[2]] = lambda *a, r=r: r
            elif e[0] in ('call', 'vcall'):
                raise Unknown(('call', e[2]))
            elif e[0] == 'loop':
                if not self.loop(e[2], e[3], e[4], env, pcs):
                    return False
        for c, pol, ln in pending:
            if env.cond(c) != pol:
                return False
        return True


class ListProg(FillProg):
    def result(self, w, key, this, args):
        self.level += 1
        try:
            if self.level > 20 + self.limit:
                raise Unknown(('deep', key))
            f = self.ctx.P.funcs.get(key)
            if f is None:
                raise Unknown(('call', key))
            for p in self.paths(f):
                env = LM(this, args, self.fields, {}, {})
                mark = len(w.journal)
                try:
                    ok = w.walk(p.ev, p.st.F.pc, env)
                except Stop:
                    return Exc('never ends')
                if ok:
                    w.last = p
                    if p.kind == 'throw':
                        return Exc(p.st.exc.typ)
                    if p.val is None or p.val[0] in ('void', 'loc', 'ptr'):
                        return None
                    return env.lst(p.val) if p.val[0] == 'c' else env.text(p.val) if p.val[0] == 's' else env.val(p.val)
                w.undo(mark)
            raise Unknown(('no path', key))
        finally:
            self.level -= 1


def spec_path(n):
    out = []
    while n.parent is not None:
        out.insert(0, n.name)
        n = n.parent
    return ':'.join(out)


def by_names(n):
    """is the node reached from the root by names alone?"""
    while n.parent is not None:
        if n.parent.d.get(n.name) is not n:
            return False
        n = n.parent
    return True


def held(n):
    """the names and texts below a node, in order"""
    if n.term:
        return [n.val]
    return [x for e in n.l for x in held(e)] + [x for k in sorted(n.d) for x in [k] + held(n.d[k])]


def T05(ctx):
    prog = ListProg(ctx)
    for f in [f for n in ('getKeys', 'getList', 'getPathName', 'dump') for f in ctx.fns_of(NODE, n)] + ctx.fns_of(TREE, 'dump'):
        guarded(ctx, 'looking-changes-nothing', ctx.loc(f), lambda: looked(ctx, 'looking-changes-nothing', f, prog.paths(f), prog))
        guarded(ctx, 'nothing-carried-over', ctx.loc(f), lambda: carried(ctx, 'nothing-carried-over', f, prog.paths(f)))
    for name, want in (('getKeys', lambda n: tuple(sorted(n.d))), ('getList', lambda n: tuple(n.l)), ('getPathName', spec_path)):
        fs = ctx.fns_of(NODE, name)
        if not fs:
            raise Anchor(NODE + '::' + name)
        for f in fs:
            guarded(ctx, name, ctx.loc(f), lambda: lists(ctx, name, prog, f, [(lab, n) for lab, n in nodes(prog, ctx, f) if name != 'getPathName' or by_names(n)], want))
            guarded(ctx, 'whole-text', ctx.loc(f), lambda: cuts(ctx, 'whole-text', ctx.loc(f), prog.paths(f), lambda v: free_text(v) or held_text(v)))
    fs = ctx.fns_of(NODE, 'dump') + ctx.fns_of(TREE, 'dump')
    if not fs:
        raise Anchor(NODE + '::dump')
    for f in fs:
        guarded(ctx, 'dump', ctx.loc(f), lambda: dumps(ctx, prog, f))
        guarded(ctx, 'whole-text', ctx.loc(f), lambda: cuts(ctx, 'whole-text', ctx.loc(f), prog.paths(f), lambda v: free_text(v) or held_text(v)))


def lists(ctx, name, prog, f, cases, want):
    for lab, n in cases:
        w = Listing(prog)
        try:
            r = prog.result(w, f['key'], n, [])
        except Unknown as e:
            ctx.unk(name, ctx.loc(f), '%s of %s: %s' % (name, lab, pv_safe(e.args[0])))
            return
        if isinstance(r, list):
            r = tuple(r)
        if r != want(n):
            if w.last.st.imprecise:
                ctx.unk(name, ctx.loc(f), '%s of %s: imprecise' % (name, lab))
                return
            ctx.bad(name, ctx.loc(f), '%s of %s gives %s instead of %s' % (name, lab, brief(r), brief(want(n))), w.last)
            return
        ctx.ok(name, '%s of %s' % (name, lab))


def dumps(ctx, prog, f):
    tree = f['cls'] == TREE
    for lab, n in nodes(prog, ctx, f):
        if tree and n.parent is not None:
            continue
        w = Listing(prog)
        try:
            r = prog.result(w, f['key'], Tree(n) if tree else n, ['the stream'] + ([''] if len(f['params']) > 1 else []))
        except Unknown as e:
            ctx.unk('dump', ctx.loc(f), 'dump of %s: %s' % (lab, pv_safe(e.args[0])))
            return
        what = isinstance(r, Exc) and repr(r)
        text, at = ''.join(w.text), 0
        if not what:
            for x in held(n):
                i = text.find(x, at)
                if i < 0:
                    what = ('%r is missing' if x not in text else '%r is not in its place') % x
                    break
                if len(x) > 3 and held(n).count(x) != text.count(x):
                    what = '%r is written %d times instead of %d' % (x, text.count(x), held(n).count(x))
                    break
                at = i + len(x)
        if what:
            if w.last.st.imprecise:
                ctx.unk('dump', ctx.loc(f), 'dump of %s: imprecise' % lab)
                return
            ctx.bad('dump', ctx.loc(f), 'dump of %s: %s' % (lab, what), w.last)
            return
        ctx.ok('dump', '%s of %s' % (f['qn'], lab))


def nodes(prog, ctx, f):
    out = []

    def go(n, nm):
        out.append((nm, n))
        for k in n.d:
            go(n.d[k], nm + ':' + k)
        for i, x in enumerate(n.l):
            go(x, '%s[%d]' % (nm, i))
    c = [0]

    def leaf(v=None):
        c[0] += 1
        return Node('text-%d.' % c[0] if v is None else v, True)

    def fill(n, *kids):
        for k in kids:
            k.parent, k.name = n, ''
        n.l = tuple(kids)
        return n
    r = Node(a1=Node(b1=Node(c1=leaf(), d1=leaf()), c2=leaf()), b2=leaf(), c3=fill(Node(), leaf('same.'), leaf('same.'), leaf()))
    r.put('d2', Node(z1=leaf(), y1=fill(Node(), Node(k1=leaf(), l1=leaf()), leaf(), fill(Node(), leaf(), leaf(''))), y2=leaf('two  words.')))
    r.put('m1', fill(Node(k2=leaf()), leaf()))
    r.put('n1', Node())
    r.put('e e', leaf())
    r.put('em', leaf(''))
    r.put('', Node(k3=leaf()))
    go(r, 'the root')
    go(Node(), 'an empty root')
    go(fill(Node(), leaf(), leaf(), fill(Node(), leaf())), 'a root with a list')
    deep = leaf()
    for i in range(6):
        deep = Node(**{'n%d' % i: deep})
    go(deep, 'a deep tree')
    most = max(amounts(reached(ctx, prog, f)))
    if most > 300:
        ctx.unk('sizes', ctx.loc(f), 'the library compares with %d' % most)
    elif most > 2:
        prog.limit = most + 80
        many = fill(Node(**{'name%04d' % i: leaf() for i in range(most + 2)}), *[leaf() for i in range(most + 2)])
        many.put('long', leaf('x' * (most + 2)))
        go(Node(o=many), 'a large tree')
        deep = leaf()
        for i in range(most + 2):
            deep = Node(k=deep)
        go(deep, 'a very deep tree')
    return out
