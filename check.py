#!/usr/bin/env python3
"""Decide one property of /repo statically: python3 check.py <ID>."""
import argparse
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)


def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property='):
                    pid, _, rest = line[len('finding: property='):].\
                        partition(' ')
                    key, _, what = rest.partition(' -- ')
                    out[(pid, key)] = what
    return out


def clean(s):
    return ' '.join(str(s).split())[:400]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--strict', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    from program import AnalysisError
    from rulekit import Ctx, Enough
    from rules import kept
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    try:
        ctx = Ctx(a.id, a.repo, tier)
        mod = importlib.import_module('rules.' + a.id.lower())
        ctx.strict = a.strict
        try:
            with ctx.group('analysis', 'kept'):
                kept.check(ctx)
            with ctx.group('analysis', 'check'):
                mod.check(ctx)
        except Enough:
            pass
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.id, clean(e)))
        return 2
    wall = time.time() - t0
    ok = [o for o in ctx.obligations if o[2] == 'ok']
    kn = known()
    new, old = [], []
    seen = set()
    for rule, construct, detail in ctx.violations:
        key = '%s:%s' % (rule, construct)
        if key in seen:
            continue
        seen.add(key)
        (old if (a.id, key) in kn else new).append((rule, construct, detail))
    need = getattr(mod, 'MIN_OBLIGATIONS', 1)
    replay = os.path.join('evidence', '%s.violations.txt' % a.id)
    ev = {
        'property': a.id, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': ' '.join((mod.__doc__ or '').split()),
            'rule_obligations': len(ctx.obligations),
            'obligations': len(ctx.obligations),
            'discharged': len(ok),
            'undecided': len(ctx.undecided),
            'undecided_items': [clean('%s: %s: %s' % u)
                                for u in ctx.undecided[:20]],
            'functions_analysed': sorted(ctx.visited),
            'abstract_outcomes': ctx.outcomes,
            'sites': sorted(str(s) for s in ctx.sites)[:400],
            'samples': [clean('%s: %s %s' % (o[0], o[1], o[3]))
                        for o in ok[:8]],
            'exhaustive': not ctx.undecided,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 3),
        'violations': len(new),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.id + '.json'), 'w',
                  encoding='utf-8') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
    if a.v:
        for o in ctx.obligations:
            print('%-9s %s | %s | %s' % (o[2], o[0], o[1], clean(o[3])[:200]))
    for u in ctx.undecided:
        print('undecided %s: %s: %s' % tuple(clean(x) for x in u))
    for rule, construct, detail in old:
        print('KNOWN-FINDING: property=%s %s:%s' % (a.id, rule, construct))
    print('property=%s obligations=%d ok=%d undecided=%d violations=%d '
          'functions=%d wall=%.2fs' % (
              a.id, len(ctx.obligations), len(ok), len(ctx.undecided),
              len(new), len(ctx.visited), wall))
    if new:
        if not a.no_evidence:
            with open(os.path.join(HERE, replay), 'w',
                      encoding='utf-8') as f:
                for v in new:
                    f.write('%s | %s | %s\n' % tuple(clean(x) for x in v))
        for rule, construct, detail in new:
            print('  %s: %s: %s' % (rule, construct, clean(detail)))
        print('VIOLATION property=%s replay=%s' % (a.id, replay))
        return 1
    if not ok or a.strict and len(ok) < need:
        print('ANALYSIS-BROKEN property=%s only %d obligations, expected at '
              'least %d' % (a.id, len(ok), need))
        return 2
    if len(ok) < need:
        print('ANALYSIS-INCOMPLETE property=%s' % a.id)
    if a.strict and ctx.undecided:
        return 3
    return 0


if __name__ == '__main__':
    rc = [2]

    def run():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code or 0
        except BaseException:
            traceback.print_exc()
            rc[0] = 2
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
