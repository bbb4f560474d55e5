#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]: decide a property from the source of /repo."""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa import registry     # noqa: E402


def known_findings(prop):
    """[(key, text)] recorded for the property."""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip('\n')
            if line.startswith('finding: property=%s ' % prop):
                body = line[len('finding: property=%s ' % prop):]
                key, _, text = body.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    res = registry.run(a.property, a.repo, a.tier, seed)
    known = known_findings(a.property)
    listed, new = [], []
    for f in res['findings']:
        hit = [k for k in known if k[0] == f.key]
        (listed if hit else new).append(f)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    for name in os.listdir(os.path.join(ev, 'replay')):
        if name.startswith(a.property + '-'):
            os.unlink(os.path.join(ev, 'replay', name))
    for f in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.property, f.key, f.message))
    for i, f in enumerate(new[:20]):
        path = os.path.join(ev, 'replay', '%s-%d.json' % (a.property, i))
        with open(path, 'w') as fp:
            json.dump({'property': a.property, 'rule': f.rule, 'construct': f.construct, 'site': f.site,
                       'message': f.message, 'detail': f.detail}, fp, indent=1, default=str)
        print('%s: %s [%s] %s' % (a.property, f.rule, f.construct, f.message))
        print('VIOLATION property=%s replay=%s' % (a.property, path))
    out = {
        'property': a.property, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
        'coverage': res['coverage'], 'assumptions': res.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    with open(os.path.join(ev, a.property + '.json'), 'w') as fp:
        json.dump(out, fp, indent=1, default=str)
    print('%s: %d violations, %d known findings, %.1f s' % (a.property, len(new), len(listed), out['wall_s']))
    for m in res.get('broken', []):
        print('cannot decide: ' + m)
    if new:
        return 1
    return 2 if res.get('broken') else 0


if __name__ == '__main__':
    sys.exit(main())
