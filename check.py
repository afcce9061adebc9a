#!/usr/bin/env python3
"""check.py <property>: decide one property from /repo's current source.

exit 0 held / 1 with a VIOLATION line / 2 analysis broken."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

TABLE = json.load(open(os.path.join(HERE, 'rules', 'table.json')))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import frontend
    from rules import common
    try:
        P = frontend.load()
    except frontend.FrontError as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        return 2
    ctx = common.Ctx(P, prop)
    ctx.tier = tier
    info = TABLE[prop]
    mod = importlib.import_module('rules.' + info['module'])
    try:
        getattr(mod, info.get('fn', prop))(ctx)
    except common.Anchor as e:
        print('ANALYSIS-BROKEN property=%s: anchor not found: %s' % (prop, e))
        return 2
    except common.Undecided as e:
        ctx.unk('whole-property', prop, 'not analysable: %s' % e)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        ctx.unk('whole-property', prop, 'analysis gave up: %r at %s:%s' % (e, os.path.basename(tb.filename), tb.lineno))
    ob = len(ctx.obls)
    done = len([o for o in ctx.obls if o[2] is True])
    und = len([o for o in ctx.obls if o[2] is None])
    rules = {}
    for r, w, o in ctx.obls:
        d = rules.setdefault(r, {'instances': 0, 'held': 0, 'violated': 0, 'undecided': 0})
        d['instances'] += 1
        d['held' if o is True else ('violated' if o is False else 'undecided')] += 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': info['how'],
            'units_parsed': P.units,
            'functions_analysed': sorted(ctx.fns),
            'functions_analysed_count': len(ctx.fns),
            'call_sites_evaluated': ctx.sites,
            'abstract_paths': ctx.paths,
            'loops_solved': ctx.loops,
            'obligations': ob, 'discharged': done, 'undecided_count': und,
            'rules': rules,
            'undecided': [{'rule': r, 'where': w, 'why': y} for r, w, y in ctx.und][:60],
            'violations': ctx.viol[:40],
            'samples': [{'rule': r, 'where': w, 'held': o} for r, w, o in ctx.obls[:12]],
        },
        'wall_s': round(time.time() - t0, 2),
    }
    known = load_known(prop)
    new = []
    for v in ctx.viol:
        k = '%s | %s' % (v['rule'], v['where'])
        if k in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        else:
            new.append(v)
    ev['coverage']['known_findings_seen'] = len(ctx.viol) - len(new)
    d = os.environ.get('VERIF_EVIDENCE_DIR') or os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for r, w, y in ctx.und[:20]:
        print('UNDECIDED %s at %s: %s' % (r, w, y[:300]))
    for v in new:
        print('violated: %s at %s: %s' % (v['rule'], v['where'], v['what'][:500]))
        for l in v.get('path', [])[:60]:
            print('    ' + l)
    print('%s: %d obligations, %d hold, %d undecided, %d violated (%.1f s)' % (prop, ob, done, und, len(ctx.viol), time.time() - t0))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if done == 0:
        print('ANALYSIS-BROKEN property=%s: no obligation could be decided' % prop)
        return 2
    return 0


def load_known(prop):
    out = set()
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % prop):
                out.add(l.split(' ', 2)[2].strip())
    return out


if __name__ == '__main__':
    sys.exit(main())
