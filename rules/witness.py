"""N01, H01: programs that must (not) compile, judged by the compiler's type system and linker alone (nothing is run)."""
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import frontend
from .common import *

REPO = frontend.REPO
INC = os.path.join(REPO, 'include')
COMPILERS = (('g++', ['g++']), ('clang++', [frontend.CLANG]))


def cc(cmd, src=None, d=None, timeout=300):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, cwd=d)
    return r.returncode, r.stdout


# ------------------------------------------------------------------ N01
HEAD = '''
#include <type_traits>
#include <utility>
#include <memory>
#include <string>
#include "NoCopy.hxx"
#include "Barrier.hxx"
#include "MailBox.hxx"
namespace W {
  struct D1 : public SoDa::NoCopy { int x; };
  class D2 : SoDa::NoCopy { public: D2(int a) : a(a) { } int get() const { return a; } private: int a; std::string s; };
  struct D3 : public D1 { std::string more; };
  struct D4 : public SoDa::NoCopy { virtual ~D4() { } std::unique_ptr<int> p; };
  struct Other { int o; Other() : o(0) { } };
  struct D5 : public Other, private SoDa::NoCopy { };
  struct H1 { SoDa::NoCopy n; };
  struct HB { HB() : b("b", 2) { } SoDa::Barrier b; };
  struct DB : public SoDa::Barrier { DB() : SoDa::Barrier("b", 2) { } };
  struct Msg { int v; };
  struct DM : public SoDa::MailBox<Msg> { DM() : SoDa::MailBox<Msg>("m") { } };
  struct HM { HM() : m("m") { } SoDa::MailBox<std::string> m; };
  template <class T> struct Probe {
    template <class A, class = decltype(A(std::declval<const A &>()))> static char cc(int); template <class> static long cc(...);
    template <class A, class = decltype(std::declval<A &>() = std::declval<const A &>())> static char ca(int); template <class> static long ca(...);
    template <class A, class = decltype(std::declval<A &>() = std::declval<A &>())> static char cn(int); template <class> static long cn(...);
  };
}
'''
TYPES = ['SoDa::NoCopy', 'SoDa::Barrier', 'SoDa::MailBox<W::Msg>', 'SoDa::MailBox<int>', 'SoDa::MailBox<std::string>',
         'W::D1', 'W::D2', 'W::D3', 'W::D4', 'W::D5', 'W::H1', 'W::HB', 'W::DB', 'W::DM', 'W::HM']
FORMS = [
    ('copy construction', '!std::is_constructible<T, const T &>::value'),
    ('copy construction from a non-const object', '!std::is_constructible<T, T &>::value'),
    ('move construction', '!std::is_constructible<T, T &&>::value'),
    ('construction from a const temporary', '!std::is_constructible<T, const T &&>::value'),
    ('copy assignment', '!std::is_assignable<T &, const T &>::value'),
    ('assignment from a non-const object', '!std::is_assignable<T &, T &>::value'),
    ('move assignment', '!std::is_assignable<T &, T &&>::value'),
    ('implicit conversion from a copy', '!std::is_convertible<const T &, T>::value'),
]
SUBS = [
    ('copy construction', '!std::is_constructible<T, const T &>::value'),
    ('copy construction from a non-const object', '!std::is_constructible<T, T &>::value'),
    ('copy assignment', '!std::is_assignable<T &, const T &>::value'),
    ('assignment from a non-const object', '!std::is_assignable<T &, T &>::value'),
]
EXPR = [   # whole programs that must be refused: (what, type, statement)
    ('return by value from a factory of copies', 'SoDa::Barrier', 'SoDa::Barrier f(SoDa::Barrier & b) { return b; }'),
    ('assignment', 'SoDa::Barrier', 'void f(SoDa::Barrier & a, SoDa::Barrier & b) { a = b; }'),
    ('assignment from a constant object', 'SoDa::Barrier', 'void f(SoDa::Barrier & a, const SoDa::Barrier & b) { a = b; }'),
    ('pass by value', 'SoDa::MailBox<int>', 'void g(SoDa::MailBox<int>); void f(SoDa::MailBox<int> & a) { g(a); }'),
    ('swap', 'SoDa::MailBox<int>', 'void f(SoDa::MailBox<int> & a, SoDa::MailBox<int> & b) { std::swap(a, b); }'),
    ('assignment', 'SoDa::MailBox<int>', 'void f(SoDa::MailBox<int> & a, SoDa::MailBox<int> & b) { a = b; }'),
    ('slicing assignment', 'W::D1', 'void f(W::D1 & a, W::D3 & b) { a = b; }'),
    ('base assignment', 'SoDa::NoCopy', 'void f(SoDa::NoCopy & a, W::D1 & b) { a = b; }'),
    ('move', 'W::D4', 'W::D4 f(W::D4 & a) { return std::move(a); }'),
    ('copying a subscription', 'SoDa::MailBox<int>::Subscription', 'void f(SoDa::MailBox<int>::Subscription & s) { auto t = s; (void) t; }'),
    ('assigning a subscription', 'SoDa::MailBox<int>::Subscription', 'void f(SoDa::MailBox<int>::Subscription & s, SoDa::MailBox<int>::Subscription & t) { s = t; }'),
    ('passing a subscription by value', 'SoDa::MailBox<int>::Subscription', 'void g(SoDa::MailBox<int>::Subscription); void f(SoDa::MailBox<int>::Subscription & s) { g(s); }'),
]
USE = 'void use() { SoDa::Barrier b("b", 2); auto bp = SoDa::makeBarrier("c", 2); auto m = SoDa::makeMailBox<int>("m"); SoDa::MailBox<int>::Subscription s = m->subscribe(); m->put(std::make_shared<int>(1)); m->get(s); W::D1 d; W::D2 e(1); (void) d; e.get(); }'


def N01(ctx):
    for t in ('SoDa::Barrier', 'SoDa::NoCopy'):
        if t not in ctx.P.records:
            raise Anchor(t)
    d = tempfile.mkdtemp(prefix='soda-wit-')
    try:
        def syntax(i, comp, text):
            f = os.path.join(d, '%s.cxx' % i)
            with open(f, 'w') as o:
                o.write(text)
            return cc(comp + ['-std=c++11', '-w', '-fsyntax-only', '-I' + INC, f])
        # 0. ordinary use compiles: the refusals below are not for an unrelated reason
        for n, comp in COMPILERS:
            rc, out = syntax('use' + n, comp, HEAD + USE)
            if rc:
                raise Undecided('a program using barriers and mailboxes normally does not compile with %s: %s' % (n, first_error(out)))
        asserts, names = [], {}
        for t in TYPES:
            for what, c in FORMS:
                k = 'W%d' % len(names)
                names[k] = (t, what)
                asserts.append('static_assert(%s, "%s.");' % (c.replace('<T,', '<%s,' % t).replace('const T &', 'const %s &' % t).replace('T &', '%s &' % t).replace(', T>', ', %s>' % t), k))
        for t in ('SoDa::MailBox<int>::Subscription', 'SoDa::MailBox<W::Msg>::Subscription'):
            for what, c in SUBS:
                k = 'W%d' % len(names)
                names[k] = (t, what)
                asserts.append(('static_assert(%s, "%s.");' % (c, k)).replace('<T,', '<%s,' % t).replace('const T &', 'const %s &' % t).replace('T &', '%s &' % t))
        jobs = [(n, comp) for n, comp in COMPILERS]
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda j: syntax('asserts' + j[0], j[1] + ['-ferror-limit=0'] if 'clang' in j[0] else j[1], HEAD + '\n'.join(asserts)), jobs))
            es = list(ex.map(lambda j: syntax('e%d%s' % (j[0], j[1][0]), j[1][1], HEAD + EXPR[j[0]][2]),
                             [(i, c) for i in range(len(EXPR)) for c in COMPILERS]))
        for (n, comp), (rc, out) in zip(jobs, rs):
            bad = set(re.findall(r'"?(W\d+)\."?', '\n'.join(l for l in out.splitlines() if 'error' in l)))
            other = [l for l in out.splitlines() if 'error' in l and not re.search(r'W\d+\.', l)]
            if other:
                ctx.unk('not-duplicable', n, 'unexpected: ' + other[0][:200])
                continue
            for k, (t, what) in names.items():
                ctx.check(k not in bad, 'not-duplicable', '%s: %s' % (t, what), 'this compiles (%s)' % n)
        for (i, c), (rc, out) in zip([(i, c) for i in range(len(EXPR)) for c in COMPILERS], es):
            what, t, s = EXPR[i]
            ctx.check(rc != 0, 'program-refused', '%s: %s' % (t, what), 'the program "%s" compiles with %s' % (s, c[0]))
        ctx.sites += len(names) + len(EXPR)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first_error(out):
    for l in out.splitlines():
        if 'error' in l:
            return l.strip()[:300]
    return out.strip()[:300]


# ------------------------------------------------------------------ H01
USES = {
    'Barrier.hxx': 'void u@() { auto b = SoDa::makeBarrier("x", 2); b->wait(1000); b->wait(); SoDa::Barrier c("y", 2); c.wait(std::chrono::milliseconds(5)); try { c.wait(1); } catch (SoDa::Barrier::Timeout & e) { } catch (SoDa::Barrier::Corrupt & e) { } catch (SoDa::Barrier::Exception & e) { } }',
    'Exception.hxx': 'void u@() { try { throw SoDa::Exception("x"); } catch (std::runtime_error & e) { (void) e.what(); } }',
    'Format.hxx': 'struct F@ : public SoDa::Format_ext<F@> { F@(const std::string & s) : SoDa::Format_ext<F@>(s, this) { } };\nvoid u@() { SoDa::Format f("%0 %1"); f.addI(1).addS("x").addF(1.0, \'e\').addU(3); std::string s = f.str(); f.reset(); F@ g("%0"); g.addI(1).addU(2).addF(1.0).addS("x"); s = g.str(); }',
    'MailBox.hxx': 'struct M@ { int a; };\nvoid u@() { auto m = SoDa::makeMailBox<M@>("m"); SoDa::MailBox<M@>::Subscription s = m->subscribe(); m->put(std::make_shared<M@>()); m->put(std::make_shared<M@>(), s); auto g = m->get(s); m->clear(s); m->readyCount(s); m->minReadyCount(); m->subscriberCount(); SoDa::MailBoxPtr<M@> q = SoDa::MailBoxBase::convert<SoDa::MailBox<M@>>(m); }',
    'NoCopy.hxx': 'struct N@ : public SoDa::NoCopy { int a; };\nvoid u@() { N@ n; (void) n; }',
    'Options.hxx': 'int u@(int c, char ** v) { SoDa::Options o; int i; unsigned u; double d; std::string s; bool b; std::vector<int> vi; std::vector<std::string> vs; o.add(&i, "int", \'i\', 3, "doc"); o.add(&u, "uns", \'u\', 3U, "doc"); o.add(&d, "dbl", \'d\', 3.0, "doc"); o.add(&s, "str", \'s\', std::string("x"), "doc"); o.addP(&b, "bool", \'b\'); o.addV(&vi, "vi", \'V\'); o.addV(&vs, "vs", \'W\'); return o.parse(c, v) ? o.numPosArgs() : 1; }',
    'PropertyTree.hxx': 'bool u@(SoDa::PropertyTree & t) { int i; unsigned u; double d; std::string s; return t.get<int>(i, "a") && t.get<unsigned int>(u, "a") && t.get<double>(d, "a") && t.get<std::string>(s, "a"); }',
    'PropertyTreeYAML.hxx': 'bool u@() { SoDa::PropertyTreeYAML t; t.readFile("x"); std::string s; return t.get<std::string>(s, "a"); }',
    'Utils.hxx': 'unsigned u@() { auto l = SoDa::split("a b", " "); auto v = SoDa::splitVec("a b", " ", true); return l.size() + v.size() + SoDa::squashSpaces("a  b").size(); }',
    'UtilsBase.hxx': 'std::string u@() { SoDa::UtilsBase b; return b.getVersion() + b.getGitID(); }',
}


def H01(ctx):
    hdrs = sorted(f for f in os.listdir(INC) if f.endswith(('.hxx', '.hpp', '.h')))
    ctx.need([h for h in hdrs if h in USES], 'public headers in include/')
    d = tempfile.mkdtemp(prefix='soda-hdr-')
    try:
        jobs = []

        def tu(name, incs, uses, comp, mode, tag):
            f = os.path.join(d, name + '.cxx')
            with open(f, 'w') as o:
                for i in incs:
                    o.write('#include "%s"\n' % i)
                for j, u in enumerate(uses):
                    o.write(USES[u].replace('@', '_%s_%d' % (tag, j)) + '\n')
            return f

        def add(rule, where, incs, uses, n, comp, tag='x'):
            name = 't%d' % len(jobs)
            f = tu(name, incs, uses, comp, None, tag)
            jobs.append((rule, where, n, comp + ['-std=c++11', '-w', '-fsyntax-only', '-I' + INC, f]))
        for h in hdrs:
            for n, comp in COMPILERS:
                add('works-alone', h, [h], [], n, comp)
                if h in USES:
                    add('usable-alone', h, [h], [h], n, comp)
                add('works-twice', h, [h, h], [], n, comp)
        for a in hdrs:
            for b in hdrs:
                if a != b:
                    n, comp = COMPILERS[1]
                    add('works-together', '%s then %s' % (a, b), [a, b], [x for x in (a, b) if x in USES], n, comp)
        if ctx.tier == 'thorough':
            for a in hdrs:
                for b in hdrs:
                    if a != b:
                        n, comp = COMPILERS[0]
                        add('works-together', '%s then %s' % (a, b), [a, b], [x for x in (a, b) if x in USES], n, comp)
                    for c in hdrs:
                        if len({a, b, c}) == 3:
                            n, comp = COMPILERS[1]
                            add('works-together', '%s, %s, %s' % (a, b, c), [a, b, c], [], n, comp)
        for n, comp in COMPILERS:
            al = [h for h in hdrs]
            add('works-together', 'all headers', al, [h for h in al if h in USES], n, comp)
            add('works-together', 'all headers, reversed', al[::-1], [h for h in al if h in USES], n, comp)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda j: cc(j[3]), jobs))
        ctx.sites += len(jobs)
        for (rule, where, n, cmd), (rc, out) in zip(jobs, rs):
            ctx.check(rc == 0, rule, where, 'does not compile with %s -std=c++11: %s' % (n, first_error(out) if rc else ''))
        # several source files of one program: objects combined by the linker
        al = hdrs
        uses = [h for h in al if h in USES]
        pair = [('one', al), ('two', al)] + [('h%d%s' % (i, x), [h]) for i, h in enumerate(al) for x in 'ab']
        objs = {}

        def comp1(a):
            nm, incs = a
            f = tu('l' + nm, incs, [h for h in incs if h in USES], None, None, nm)
            o = f[:-4] + '.o'
            return nm, o, cc(['g++', '-std=c++11', '-w', '-O0', '-c', '-I' + INC, f, '-o', o])
        srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cxx'))
        vdir = os.path.join(d, 'gen')
        os.makedirs(vdir)
        if ctx.P.version_header:
            with open(os.path.join(vdir, 'UtilsVersion.hxx'), 'w') as o:
                o.write(ctx.P.version_header)

        def comp2(s):
            o = os.path.join(d, 'src_' + s + '.o')
            return s, o, cc(['g++', '-std=gnu++11', '-w', '-O0', '-c', '-I' + INC, '-I' + vdir, os.path.join(REPO, 'src', s), '-o', o])
        with ThreadPoolExecutor(8) as ex:
            r1 = list(ex.map(comp1, pair))
            r2 = list(ex.map(comp2, srcs))
        okobj = {nm: o for nm, o, (rc, out) in r1 if rc == 0}
        for nm, o, (rc, out) in r1:
            if rc:
                ctx.bad('usable-alone', nm, 'does not compile: ' + first_error(out))

        def link(where, a, b):
            rc, out = cc(['g++', '-r', '-nostdlib', a, b, '-o', os.path.join(d, 'r%s.o' % re.sub(r'\W', '_', where))])
            dup = sorted(set(re.findall(r"multiple definition of `([^']*)'", out)))
            if rc and not dup:
                ctx.unk('links-in-many-files', where, first_error(out))
            else:
                ctx.check(rc == 0, 'links-in-many-files', where, 'two source files including it define the same thing twice: %s' % dup[:3])
        if 'one' in okobj and 'two' in okobj:
            link('all headers', okobj['one'], okobj['two'])
        for i, h in enumerate(al):
            if 'h%da' % i in okobj and 'h%db' % i in okobj:
                link(h, okobj['h%da' % i], okobj['h%db' % i])
        lib = [o for s, o, (rc, out) in r2 if rc == 0]
        if len(lib) == len(srcs) and 'one' in okobj and 'two' in okobj:
            mf = os.path.join(d, 'main.cxx')
            with open(mf, 'w') as o:
                o.write('int main() { return 0; }\n')
            rc, out = cc(['g++', '-std=c++11', mf, okobj['one'], okobj['two']] + lib + ['-lyaml-cpp', '-pthread', '-o', os.path.join(d, 'prog')])
            und = sorted(set(re.findall(r"undefined reference to `(SoDa::[^']*)'", out)))
            dup = sorted(set(re.findall(r"multiple definition of `([^']*)'", out)))
            if rc and not und and not dup:
                ctx.unk('program-links', 'library and two source files', first_error(out))
            else:
                ctx.check(rc == 0, 'program-links', 'library and two source files', 'undefined: %s; defined twice: %s' % (und[:3], dup[:3]))
        else:
            ctx.unk('program-links', 'library and two source files', 'not all sources compile')
        # everything declared for users is defined
        for f in ctx.P.funcs.values():
            if f.get('access') in (None, 'public') and not f.get('deleted') and not f.get('pure') and not f.get('implicit') and not f.get('deflt') and f['qn'].startswith('SoDa::'):
                ctx.check(bool(f['has']), 'declared-is-defined', f['key'], 'declared in a public header but defined nowhere')
    finally:
        shutil.rmtree(d, ignore_errors=True)
