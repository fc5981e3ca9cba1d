#!/usr/bin/env python3
"""Decides one property of /properties.jsonl from /repo's current source.

exit 0: every obligation of the property's rules is discharged (known findings aside)
exit 1: at least one violated obligation; a line VIOLATION property=<id> replay=<path>
exit 2: the analysis lost an anchor it needs (neither a pass nor a violation)
"""
import argparse, importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=('quick', 'thorough'),
                    default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    from program import AnalysisBroken
    from rules.common import Ctx
    ctx = None
    try:
        ctx = Ctx(a.property, a.tier)
        mod = importlib.import_module('rules.' + a.property.lower())
        mod.run(ctx)
        ctx.finish_rules()
    except AnalysisBroken as e:
        if ctx is None or not ctx.violations():
            print('ANALYSIS-BROKEN property=%s: %s' % (a.property, e))
            sys.exit(2)
        print('note: part of the analysis was skipped: %s' % e)
    except Exception:
        if ctx is None or not ctx.violations():
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s: internal error' % a.property)
            sys.exit(2)
    known = {}
    kf = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf))['findings']:
            if k['property'] == a.property:
                known[k['key']] = k
    new, old = [], []
    for v in ctx.violations():
        (old if v['key'] in known else new).append(v)
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (a.property, known[v['key']]['what']))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = {'property': a.property, 'tier': a.tier, 'seed': seed, 'level': 'other',
              'coverage': ctx.coverage(), 'assumptions': ctx.assumptions,
              'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
        with open(os.path.join(HERE, 'evidence', a.property + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1)
    print('%s: %d rules, %d obligations, %d discharged, %d violated, %d known (%.1f s)' % (
        a.property, len(ctx.rules), ctx.total(), ctx.total() - len(ctx.violations()), len(new),
        len(old), time.time() - t0))
    if new:
        d = os.path.join(HERE, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, a.property + '.txt')
        with open(p, 'w') as fd:
            for v in new:
                fd.write('%s\n  rule: %s\n  at: %s\n  %s\n\n' % (
                    v['key'], ctx.rules.get(v['rule'], v['rule']), v['at'], v['msg']))
        for v in new[:12]:
            print('  %s at %s: %s' % (v['key'], v['at'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (a.property, p))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
