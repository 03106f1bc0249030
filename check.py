#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property from /repo's current source.

exit 0: held (KNOWN-FINDING lines for listed findings); exit 1: a VIOLATION line; anything else: error.
Nothing of the library is executed: its sources are compiled to LLVM IR and analysed."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known():
    out = {}
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            l = l.rstrip('\n')
            if l.startswith('known: '):
                p, key, what = l[7:].split(' | ')
                out[(p.split('=')[1].strip(), key.strip())] = what
    return out


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from ztsa import checks
    t0 = time.time()
    c = checks.REGISTRY[pid]
    ctx = checks.Ctx(pid, tier)
    c.fn(ctx)
    kn = known()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    bad, hit = [], []
    for r in ctx.reports:
        k = '%s: %s' % (r['rule'], r['key'])
        (hit if (pid, k) in kn else bad).append((k, r))
    cov = dict(ctx.coverage)
    cov.setdefault('explanation', c.explanation)
    doc = dict(property=pid, tier=tier, seed=seed, level=c.level, coverage=cov, assumptions=ctx.assumptions,
               wall_s=round(time.time() - t0, 2), violations=len(bad))
    if bad:
        doc['coverage']['violations_detail'] = [dict(rule=r['rule'], key=r['key'], where=r['where'], msg=r['msg'], root=r.get('root', '')) for _, r in bad]
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    for k, r in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if bad:
        path = os.path.join(ev, pid + '.violation.txt')
        with open(path, 'w') as f:
            for k, r in bad:
                f.write('%s\n  at %s\n  %s\n  analysed from: %s\n' % (k, r['where'], r['msg'], r.get('root', '')))
                for s in r.get('path') or []:
                    f.write('    %s\n' % s)
        for k, r in bad:
            print('%s\n    %s' % (k, r['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s: held (%s)' % (pid, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main())
