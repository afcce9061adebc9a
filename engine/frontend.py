"""Front end: get the resolved program of /repo's current working tree.

Configures the project with cmake in a scratch directory (real flags, generated
version header), compiles the exporter plugin if it is not there yet, parses
every library source plus driver.cxx (template instantiations) with clang, and
merges the exported units into one Program.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SODA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++'


class FrontError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plugin():
    src = os.path.join(HERE, 'export.cxx')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    so = os.path.join(BUILD, 'export-%s.so' % h)
    if os.path.exists(so):
        return so
    os.makedirs(BUILD, exist_ok=True)
    tmp = so + '.%d.tmp' % os.getpid()
    r = sh([CLANG, '-O0', '-fPIC', '-shared', '-fno-rtti', '-std=c++17', '-w',
            '-I/usr/lib/llvm-18/include', src, '-o', tmp])
    if r.returncode:
        raise FrontError('exporter does not build:\n' + r.stdout[-3000:])
    os.rename(tmp, so)
    return so


def configure(scratch):
    b = os.path.join(scratch, 'cm')
    r = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
            '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DDISABLE_DOXYGEN=ON',
            '-DBUILD_TESTING=ON', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'])
    if r.returncode:
        raise FrontError('cmake configure failed:\n' + r.stdout[-3000:])
    db = json.load(open(os.path.join(b, 'compile_commands.json')))
    units = {}
    incs = []
    for e in db:
        f = os.path.realpath(os.path.join(e['directory'], e['file']))
        args = e.get('command', '').split()
        flags = [a for a in args if re.match(r'-(I|D|std=|f|m|U)', a)]
        i = 0
        while i < len(args):
            if args[i] == '-isystem':
                flags += [args[i], args[i + 1]]
                i += 1
            i += 1
        units.setdefault(f, flags)
        for a in flags:
            if a.startswith('-I') and a not in incs:
                incs.append(a)
    src = {f: fl for f, fl in units.items() if f.startswith(os.path.realpath(REPO) + '/src/')}
    return b, src, incs


def shorten(s):
    s = s.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    s = s.replace('std::basic_string<char>', 'std::string')
    for n in ('ostream', 'istream', 'stringstream', 'ostringstream', 'istringstream', 'ios', 'iostream'):
        s = s.replace('std::basic_%s<char, std::char_traits<char>, std::allocator<char>>' % n, 'std::' + n)
        s = s.replace('std::basic_%s<char, std::char_traits<char>>' % n, 'std::' + n)
        s = s.replace('std::basic_%s<char>' % n, 'std::' + n)
    s = s.replace('__gnu_cxx::__normal_iterator', 'std::__normal_iterator')
    # defaulted allocator / comparator / deleter arguments
    for _ in range(6):
        t = re.sub(r', std::allocator<[^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>[^<>]*)*>[^<>]*)*>', '', s)
        t = re.sub(r', std::less<[^<>]*>', '', t)
        t = re.sub(r', std::default_delete<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>', '', t)
        if t == s:
            break
        s = t
    s = re.sub(r'std::queue<(std::shared_ptr<[^<>]*>), std::deque<\1>>', r'std::queue<\1>', s)
    return s


class Program:
    def __init__(self):
        self.funcs = {}      # key -> function
        self.records = {}    # key -> record
        self.enums = {}
        self.globals = []
        self.units = []
        self.overriders = {}
        self.byqn = {}

    def add_unit(self, name, d, idx):
        self.units.append(name)
        for f in d['funcs']:
            f['unit'] = name
            f['u'] = idx
            o = self.funcs.get(f['key'])
            if o is None or (f['has'] and not o['has']):
                self.funcs[f['key']] = f
        for r in d['records']:
            self.records.setdefault(r['key'], r)
        for e in d['enums']:
            self.enums[e['qn']] = e
        for g in d['globals']:
            g['unit'] = name
            self.globals.append(g)

    def finish(self):
        for f in self.funcs.values():
            self.byqn.setdefault(f['qn'], []).append(f)
            for o in f.get('over', []):
                self.overriders.setdefault(o, []).append(f['key'])
        # base class with known field offset order
        return self

    def fn(self, qn, pred=None):
        r = [f for f in self.byqn.get(qn, []) if f['has'] and not f.get('implicit') and not f.get('deflt')]
        if pred:
            r = [f for f in r if pred(f)]
        return r

    def all_overriders(self, key):
        res, work, seen = [], [key], set()
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.funcs.get(k)
            if f and f['has']:
                res.append(f)
            work += self.overriders.get(k, [])
        return res

    def derived_from(self, tkey, anc):
        """is record type tkey the same as, or publicly derived from, anc"""
        if tkey == anc:
            return True
        r = self.records.get(tkey)
        return bool(r and anc in r['pubanc'])


def reconfigured(b, conf):
    """give the configured headers other values, as another configuration would"""
    for root, _, files in os.walk(b):
        for n in files:
            if n.endswith('ersion.hxx'):
                p = os.path.join(root, n)
                t = open(p).read()
                for k, v in conf.items():
                    t = re.sub(r'(#[ \t]*define[ \t]+%s[ \t]+).*' % k, lambda m: m.group(1) + v, t)
                open(p, 'w').write(t)


def load(extra_units=(), conf=None):
    so = plugin()
    scratch = tempfile.mkdtemp(prefix='soda-verif-')
    try:
        b, src, incs = configure(scratch)
        if not src:
            raise FrontError('no library sources in the compilation database')
        if conf:
            reconfigured(b, conf)
        jobs = []
        std = None
        for f, fl in sorted(src.items()):
            jobs.append((f, fl))
            for a in fl:
                if a.startswith('-std='):
                    std = a
        drv = os.path.join(HERE, 'driver.cxx')
        inc = list(incs)
        if '-I%s/include' % REPO not in inc:
            inc.append('-I%s/include' % REPO)
        jobs.append((drv, inc + ([std] if std else ['-std=gnu++11'])))
        for f in extra_units:
            jobs.append((f, inc + ([std] if std else ['-std=gnu++11'])))

        def one(j):
            i, (f, fl) = j
            out = os.path.join(scratch, 'u%d.json' % i)
            pa = []
            for a in (out, os.path.realpath(REPO) + '/', HERE + '/'):
                pa += ['-Xclang', '-plugin-arg-soda-export', '-Xclang', a]
            r = sh([CLANG, '-fsyntax-only', '-w'] + fl + ['-Xclang', '-load', '-Xclang', so,
                   '-Xclang', '-plugin', '-Xclang', 'soda-export'] + pa + [f])
            if r.returncode or not os.path.exists(out):
                raise FrontError('%s does not parse:\n%s' % (f, r.stdout[-3000:]))
            return json.loads(shorten(open(out, encoding='utf-8', errors='replace').read()))

        P = Program()
        P.flags = {os.path.basename(f): fl for f, fl in jobs}
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, list(enumerate(jobs))))
        for i, ((f, fl), d) in enumerate(zip(jobs, res)):
            P.add_unit(os.path.basename(f), d, i)
        vh = os.path.join(b, 'UtilsVersion.hxx')
        P.version_header = None
        for root, _, files in os.walk(b):
            for n in files:
                if n.endswith('Version.hxx') or n == 'version.hxx':
                    P.version_header = open(os.path.join(root, n)).read()
        P.incs = [a.replace(b, '@BUILD@') for a in inc]
        return P.finish()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    P = load()
    print(len(P.funcs), 'functions', len(P.records), 'records')
    for k, f in sorted(P.funcs.items()):
        if f['has']:
            print(k, f['line'])
