"""short rendering of abstract values, for reports"""


def pv(v, d=0):
    try:
        return pv_(v, d)
    except Exception:
        return str(v)[:100]


def pv_(v, d=0):
    if v is None:
        return 'void'
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if d > 9:
        return '…'
    k = v[0]
    r = lambda x: pv(x, d + 1)
    if k == 'i':
        return str(v[1])
    if k == 'fl':
        return repr(v[1])
    if k == 'null':
        return 'null'
    if k == 's':
        return '"' + '·'.join(pp(p, d + 1) for p in v[1]) + '"'
    if k == 'sym':
        return pbase(v[1], d)
    if k == 'L':
        return 'L%s:%s' % (v[1], ploc(v[2]))
    if k == 'lin':
        return '(' + '+'.join((str(c) + '*' if c != 1 else '') + r(t) for t, c in v[2]) + ('%+d' % v[1] if v[1] else '') + ')'
    if k == 'op':
        return '%s(%s)' % (v[1], ','.join(r(x) for x in v[3:]))
    if k == 'fop':
        return 'f%s(%s)' % (v[1], ','.join(r(x) for x in v[2:]))
    if k in ('le0', 'eq0'):
        return r(v[1]) + ('<=0' if k == 'le0' else '==0')
    if k == 'not':
        return '!' + r(v[1])
    if k == 'eqt':
        return '(%s == %s)' % (r(v[1]), r(v[2]))
    if k == 'fcmp':
        return '(%s %s %s)' % (r(v[2]), v[1], r(v[3]))
    if k == 'ptr':
        return '&' + ploc(v[1], d)
    if k == 'c':
        if v[1] == 'sym':
            return r(v[2])
        return 'C%s(%s)' % (v[1], ','.join(r(x) for x in v[2:]))
    if k == 'obj':
        return '%s{%s}' % (str(v[1]).split('::')[-1], ','.join('%s=%s' % (n, r(x)) for n, x in v[2]))
    if k == 'dur':
        return 'dur(%s*%s/%s s)' % (r(v[1]), v[2], v[3])
    if k == 'loc':
        return '@' + ploc(v[1], d)
    if k == 'it':
        return 'it(%s,%s)' % (ploc(v[1], d), ','.join(pv(x, d + 1) if isinstance(x, tuple) else str(x) for x in v[2:]))
    if k == 'ss':
        return 'ss<%s>' % '·'.join(pp(p, d + 1) for p in v[1])
    return '%s(%s)' % (k, ','.join(r(x) if isinstance(x, tuple) else str(x) for x in v[1:]))


def pp(p, d=0):
    if p[0] == 'lit':
        return repr(p[1])[1:-1] if len(p[1]) < 40 else repr(p[1][:37])[1:-1] + '...'
    if p[0] == 'w':
        return '<' + pv(p[1], d) + '>'
    return p[0] + '(' + ','.join(pv(x, d) if isinstance(x, tuple) else str(x) for x in p[1:]) + ')'


def pbase(b, d=0):
    if not isinstance(b, tuple):
        return str(b)
    if b and b[0] in ('f', 'e', 'v', 'd', 'pf', 'obj', 'h', 'g', 't', 'idx'):
        return ploc(b, d)
    if b and b[0] == 'arg':
        return 'arg%s' % b[1]
    return '<' + ' '.join(pbase(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('f', 'e', 'v', 'd', 'pf', 'obj', 'arg', 'h')
                          else (pv(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x)) for x in b) + '>'


def ploc(l, d=0):
    if d > 12:
        return '…'
    if not isinstance(l, tuple):
        return str(l)
    if l[0] == 'f':
        return ploc(l[1], d + 1) + '.' + str(l[2])
    if l[0] == 'pf':
        return ploc(l[1], d + 1) + '.' + str(l[2])
    if l[0] == 'e':
        return ploc(l[1], d + 1) + '[' + pv(l[2], d + 1) + ']'
    if l[0] == 'obj':
        return str(l[1]) if not isinstance(l[1], tuple) else pbase(l[1])
    if l[0] == 'd':
        return '*' + pv(l[1], d + 1)
    if l[0] in ('v', 't', 'h'):
        return '%s%s' % (l[0], '_'.join(str(x) for x in l[1:]))
    return str(l)


def pe(e):
    k = e[0]
    if k in ('rd', 'wr', 'init'):
        return '%s@%s %s%s%s' % (k, e[1], ploc(e[2]), '' if k == 'rd' else ' %s %s' % (e[4], pv(e[3])), ' [locked]' if e[5] else '')
    if k in ('lock', 'unlock', 'relock', 'badunlock'):
        return '%s@%s %s' % (k, e[1], ploc(e[2]))
    if k in ('call', 'vcall', 'rcall'):
        return '%s@%s %s(%s)' % (k, e[1], e[2], ','.join([ploc(e[3])] + [pv(x) for x in e[4]]))
    if k == 'loop':
        return 'loop@%s %s exit=%s' % (e[1], e[2].kind, e[4])
    if k == 'deref':
        return 'deref@%s %s' % (e[1], pv(e[2]))
    if k == 'bound':
        return 'bound@%s %s %s %s' % (e[1], e[2], pv(e[3]), e[5])
    out = []
    for x in e[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out.append(ploc(x) if x[0] in ('f', 'obj', 'd', 'v', 'h') else pv(x))
        else:
            out.append(str(x))
    return k + '@' + ' '.join(out)


def pc(F):
    return [('' if pol else 'not ') + pv(c) for c, pol, ln in F.pc]
