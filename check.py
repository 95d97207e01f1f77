#!/usr/bin/env python3
"""Decides one property of /repo by static analysis of its current source.

    python3 check.py --property C16 [--tier quick|thorough] [--root /repo]

exit 0: every obligation of the property holds (or is listed as undecided / known finding)
exit 1: a violation, named on stdout with the construct
exit 2: the analysis itself is broken (an anchor vanished, a source file cannot be parsed, ...)
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.world import World, AnalysisError          # noqa: E402
from sa.spec import Ctx                             # noqa: E402
from sa.registry import RULES, MINIMUM, EXPLAIN     # noqa: E402


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out[key.strip()] = text.strip() or key.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--root', default='/repo')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    if pid not in RULES:
        print('unknown property', pid)
        return 2
    try:
        world = World(a.root)
        ctx = Ctx(world)
        ctx.tier = a.tier
        for fn in RULES[pid]:
            ctx.run(fn)
    except AnalysisError as e:
        print('ANALYSIS BROKEN property=%s: %s' % (pid, e))
        return 2
    extra = {}
    if a.tier == 'thorough':
        from sa import selftest
        extra['self_test'] = selftest.run(pid, a.root)
    n = len(ctx.obligations)
    held = sum(1 for o in ctx.obligations if o[2] == 'holds')
    if not held and not ctx.findings:
        print('ANALYSIS BROKEN property=%s: %s' % (pid, ctx.undecided[:1]))
        return 2
    kn = known(pid)
    fresh, listed = [], []
    seen = set()
    for f in ctx.findings:
        if f.key() in seen:
            continue
        seen.add(f.key())
        (listed if f.key() in kn else fresh).append(f)
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'wall_s': round(wall, 3),
        'coverage': dict({
            'explanation': EXPLAIN.get(pid, '') or 'static effect analysis',
            'functions_analysed': sorted(ctx.functions),
            'function_count': len(ctx.functions),
            'obligations': n, 'discharged': held,
            'undecided': ['%s: %s' % (r, t[:300]) for r, t in ctx.undecided],
            'code_sites_matched': ctx.sites,
            'rules': sorted({o[0] for o in ctx.obligations}),
            'obligation_list': ['[%s] %s: %s' % (s, r, t[:300]) for r, t, s in ctx.obligations],
            'known_findings': [f.key() for f in listed],
            'source_digest': world.digest(),
        }, **extra),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    if n < MINIMUM.get(pid, 1):
        print('ANALYSIS BROKEN property=%s: only %d obligations were found, at least %d are expected'
              % (pid, n, MINIMUM.get(pid, 1)))
        return 2
    for f in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, kn[f.key()]))
    print('property=%s tier=%s functions=%d obligations=%d hold=%d undecided=%d violated=%d wall=%.2fs'
          % (pid, a.tier, len(ctx.functions), n, held, len(ctx.undecided), len(fresh), wall))
    if fresh:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w', encoding='utf-8') as fh:
            for f in fresh:
                fh.write('rule: %s\nwhere: %s\nwhat: %s\n\n' % (f.rule, f.where, f.what))
            fh.write('reproduce: cd %s && python3 check.py --property %s\n' % (HERE, pid))
        for f in fresh[:20]:
            print('  [%s] %s\n      at %s' % (f.rule, f.what, f.where))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
