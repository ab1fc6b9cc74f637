"""run every contract (or those matching a pattern): python3-vt -m vc.all [-w] [-wb] [-proved|-open] [pattern...]
-w records newly proved contracts in baseline.json; -wb also redoes the bounded stand-ins"""
import json
import os
import sys
import time
from . import build, work


def main():
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    ob = 30
    for a in sys.argv[1:]:
        if a.startswith('-t'):
            ob = int(a[2:])
    d = build.prepare()
    mir = os.path.join(d, 'mir.json')
    names = sorted(n for n in build.contracts() if not pats or any(p in n for p in pats))
    bp = os.path.join(build.ROOT, 'baseline.json')
    base = json.load(open(bp)) if os.path.exists(bp) else {}
    names.sort(key=lambda n: -base.get(n, {}).get('wall', 30))
    if '-proved' in sys.argv:
        names = [n for n in names if base.get(n, {}).get('level') == 'proved']
    if '-open' in sys.argv:
        names = [n for n in names if base.get(n, {}).get('level') != 'proved']
    work.program(mir)
    jobs = [(mir, n, 1, 150, ob, 240, None, 6) for n in names]
    t0 = time.time()
    if '-bonly' in sys.argv:
        # only the bounded stand-ins of the contracts that are not proved
        res = [{'contract': n, 'error': 'not tried', 'obls': [], 'wall': 0.0, 'paths': 0} for n in names]
    else:
        res = work.run_many(jobs, 8, time.time() + 36000)
    for r in sorted(res, key=lambda r: r['contract']):
        ok = r['error'] is None and all(o['status'] == 'proved' for o in r['obls'])
        nb = {}
        for o in r['obls']:
            nb[o['status']] = nb.get(o['status'], 0) + 1
        if not ok or r['wall'] > 20:
            print('%-34s paths=%d exec=%.1f wall=%.1f %s %s' % (r['contract'], r['paths'], r.get('exec_s', 0), r['wall'], nb, r['error'] or ''))
        seen = set()
        for o in r['obls']:
            if o['status'] not in ('proved', 'skipped') and '-q' not in sys.argv:
                k = (o['kind'], o['name'], o['status'])
                if k in seen:
                    continue
                seen.add(k)
                print('      ', o['status'], o['kind'], o['name'], o['where'], o['why'], o['s'])
        if ('-w' in sys.argv or '-wb' in sys.argv) and ok and r['paths'] > 0:
            base[r['contract']] = {'level': 'proved', 'wall': r['wall']}
    if '-wb' in sys.argv:
        # bounded stand-ins for the rest
        rest = [r for r in res if not (r['error'] is None and all(o['status'] == 'proved' for o in r['obls']))]
        bj = [(mir, r['contract'], 1, 100, 20, 150, k, 6) for r in rest for k in (1, 2, -1)]
        br = work.run_many(bj, 8, time.time() + 36000)
        for r in rest:
            n = r['contract']
            good = {}
            for b in br:
                if b['contract'] == n and b['error'] is None and all(o['status'] == 'proved' for o in b['obls']) and b['paths'] > 0:
                    good[b['bounded']] = b['wall']
            ks = sorted(k for k in good)
            if ks:
                base[n] = {'level': 'bounded', 'bounds': ks, 'wall': sum(good.values())}
            else:
                base[n] = {'level': 'none', 'wall': 0.0}
            print('%-34s %s' % (n, base[n]))
    if '-w' in sys.argv or '-wb' in sys.argv:
        for n in list(base):
            if n not in build.contracts():
                del base[n]
        json.dump(base, open(bp, 'w'), indent=0, sort_keys=True)
    print('%d contracts, %d proved, %.0fs' % (len(res), sum(r['error'] is None and all(o['status'] == 'proved' for o in r['obls']) for r in res), time.time() - t0))


if __name__ == '__main__':
    main()
