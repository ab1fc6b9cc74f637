"""check one property:  python3-vt -m vc.check C01 [quick|thorough]"""
import json
import os
import re
import struct
import subprocess
import sys
import threading
import time

from . import build
from . import work

ROOT = build.ROOT
PROCS = max(2, min(8, os.cpu_count() or 8))


# ------------------------------------------------------------------ constants occurring in the code a contract reaches
def hints(mirpath, names):
    m = json.load(open(mirpath))
    types, insts = m['types'], m['insts']
    local = {}
    callee = {}

    def scan(i):
        if i in local:
            return
        cs = set()
        out = set()
        b = insts[i]['body']
        mine = b is not None and '/rustlib/' not in (b.get('file') or '') and not (b.get('file') or '').startswith('/rustc')

        def ty(t):
            if isinstance(t, int) and 0 <= t < len(types):
                x = types[t].get('inst')
                if x is not None:
                    out.add(x)

        def kon(v):
            if not isinstance(v, dict):
                return
            if v.get('k') == 'f64':
                f = struct.unpack('<d', struct.pack('<Q', int(v['v'])))[0]
                if f == f and abs(f) < 1e12:
                    cs.add(f)
            elif v.get('k') == 'int':
                n = int(v['v'])
                if 2 < n < 10**9:
                    cs.add(float(n))
            for z in v.get('fs', ()) if isinstance(v.get('fs'), list) else ():
                kon(z)
            if isinstance(v.get('v'), dict):
                kon(v['v'])

        def go(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == 'k' and isinstance(x[1], int):
                    ty(x[1])
                    if mine:
                        kon(x[2])
                if x and x[0] == 'call' and len(x) > 2:
                    ty(x[2])
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                for y in x.values():
                    go(y)
        if b is not None:
            for t in b['locals']:
                ty(t)
            go(b['blocks'])
        local[i] = cs
        callee[i] = out
    roots = m['roots']
    if isinstance(roots, list):
        roots = dict(roots)
    res = {}
    for n in names:
        if n not in roots:
            continue
        seen = set()
        st = [roots[n]]
        cs = set()
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            scan(i)
            cs |= local[i]
            st.extend(callee[i])
        res[n] = sorted(cs)
    return res


# ------------------------------------------------------------------ native side
class Native:
    def __init__(self, d, names, seed, replay_dir):
        self.bin = os.path.join(d, 'native')
        self.dir = d
        self.seed = seed
        self.replay_dir = replay_dir
        self.hfile = os.path.join(replay_dir, 'hints')
        self.h = {}
        try:
            self.h = hints(os.path.join(d, 'mir.json'), names)
        except Exception as e:
            print('note: no hints (%r)' % e)
        with open(self.hfile, 'w') as f:
            for n, cs in self.h.items():
                f.write(n + ' ' + ' '.join(repr(c) for c in cs) + '\n')

    def run(self, args, timeout):
        try:
            r = subprocess.run([self.bin] + args, capture_output=True, text=True, timeout=timeout)
            out = r.stdout
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
            rc = 'timeout'
        rows = []
        for l in out.splitlines():
            try:
                rows.append(json.loads(l))
            except ValueError:
                pass
        return rc, rows

    def search(self, names, secs, iters=10**9, seed=None, timeout=None):
        """(failures, done rows, samples, crashed contract or None)"""
        fails, done, samples = [], [], []
        todo = list(names)
        while todo:
            rc, rows = self.run(['search', str(seed or self.seed), str(secs), str(iters), self.hfile] + todo, timeout or (secs * len(todo) + 20))
            fails += [r for r in rows if r['kind'] == 'fail']
            samples += [r for r in rows if r['kind'] == 'sample']
            dn = [r for r in rows if r['kind'] == 'done']
            done += dn
            fin = {r['contract'] for r in dn}
            rest = [n for n in todo if n not in fin]
            if rc == 0 or not rest:
                break
            # the first unfinished contract did not come back: hang or abort
            done.append({'kind': 'done', 'contract': rest[0], 'runs': 0, 'met_precondition': 0, 'failing': 0, 'checks': 0, 'note': 'did not terminate (%s)' % rc})
            todo = rest[1:]
        return fails, done, samples

    def replay(self, name, model):
        p = os.path.join(self.replay_dir, 'model-%s-%d' % (name, int(time.time() * 1e6) % 10**9))
        with open(p, 'w') as f:
            for k, v in model:
                f.write('%s %r\n' % (k, float(v)))
        rc, rows = self.run(['replay', name, p], 20)
        os.unlink(p)
        for r in rows:
            if r['kind'] == 'fail':
                return r
        return None


# ------------------------------------------------------------------ known findings
def known():
    p = os.path.join(ROOT, 'known_findings.json')
    try:
        return json.load(open(p))
    except OSError:
        return []


def known_lines(prop, native):
    """each listed finding is re-run natively; it is announced only while it still fails"""
    for k in known():
        if k.get('property') != prop or k.get('kind') != 'finding':
            continue
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))


# ------------------------------------------------------------------ main
def tier_params(tier):
    if tier == 'thorough':
        return dict(exec_s=400, ob_s=120, total_s=900, deadline=2700, search=20.0, research=40.0, bounds=(0, 1, 2, 3))
    return dict(exec_s=150, ob_s=30, total_s=240, deadline=560, search=2.0, research=12.0, bounds=(1, 2))


SLOW = 45.0


def baseline():
    try:
        return json.load(open(os.path.join(ROOT, 'baseline.json')))
    except OSError:
        return {}


def proved(r):
    # a run with list lengths fixed may have no input at all (e.g. length 0 of a non-empty list)
    return r['error'] is None and (r['paths'] > 0 or r['bounded'] is not None) and all(o['status'] == 'proved' for o in r['obls'])


def all_proved(rs):
    """not vacuous: at least one run has a path (code without any panic site has no obligation)"""
    return bool(rs) and all(proved(r) for r in rs) and any(r['paths'] > 0 for r in rs)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a[2:] for a in sys.argv[3:] if a.startswith('-o')]
    P = tier_params(tier)
    t0 = time.time()
    deadline = t0 + P['deadline']
    rdir = os.path.join(build.BUILD, 'replay', prop)
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        os.unlink(os.path.join(rdir, f))
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    pre = 'h_%s_' % prop.lower()
    names = sorted(n for n in build.contracts() if n.startswith(pre))
    if only:
        names = [n for n in names if any(o in n for o in only)]
    base = baseline()
    try:
        d = build.prepare()
    except build.BuildError as e:
        p = os.path.join(rdir, 'build.txt')
        open(p, 'w').write('the contracts no longer build against /repo\n\n' + str(e))
        write_evidence(evdir, prop, tier, seed, [], [], [], t0, [{'obligation': 'build', 'replay': p}], {})
        print(str(e)[-2000:])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        return 1
    mir = os.path.join(d, 'mir.json')
    nat = Native(d, names, seed, rdir)
    # native replay/search runs beside the verifier
    srch = {}

    def bg():
        srch['r'] = nat.search(names, P['search'])
    th = threading.Thread(target=bg)
    th.start()
    work.program(mir)
    jobs = []
    # longest first, by the recorded time
    cost = lambda n: -base.get(n, {}).get('wall', 30.0)
    skipped = {}
    for n in sorted(names, key=cost):
        b = base.get(n, {})
        if tier == 'quick' and b.get('level') == 'bounded' and not b.get('try'):
            for k in b.get('bounds', P['bounds']):
                jobs.append((mir, n, seed, P['exec_s'], P['ob_s'], P['total_s'], k))
            skipped[n] = 'bounded'
        elif tier == 'quick' and b.get('level') == 'none':
            skipped[n] = 'none'
        else:
            # room for a machine slower than the one the baseline was recorded on
            ob = max(P['ob_s'], min(90, 2.5 * b.get('wall', 0)))
            jobs.append((mir, n, seed, P['exec_s'], ob, P['total_s'], None))
    res = work.run_many(jobs, PROCS - 1 if names else 1, deadline)
    th.join()
    fails, done, samples = srch.get('r', ([], [], []))
    by = {}
    for r in res:
        by.setdefault(r['contract'], []).append(r)
    violations = []
    seen_viol = set()

    def violate(n, obligation, text, found):
        if n in seen_viol and not found:
            return
        seen_viol.add(n)
        p = os.path.join(rdir, '%s.txt' % n)
        open(p, 'a').write(text + '\n')
        violations.append({'contract': n, 'obligation': obligation, 'replay': p, 'input_found': found})

    def show(f):
        return ('property %s\ncontract %s (harness/src/contracts)\nfailed postcondition: %s\n%s\ninputs:\n%s\n\nreplay: %s replay %s <file with the lines above>\n' % (
            prop, f['contract'], f['label'], f['detail'], '\n'.join('%s %s' % (k, v) for k, v in f['inputs']), nat.bin, f['contract']))
    for f in fails:
        violate(f['contract'], f['label'], show(f), True)
    # obligations the verifier did not discharge
    again = []
    state = {}
    for n in names:
        rs = by.get(n, [])
        if skipped.get(n) == 'none':
            state[n] = ('none', None)
            continue
        ok = all_proved(rs)
        if ok:
            state[n] = ('bounded' if skipped.get(n) == 'bounded' else 'proved', None)
            continue
        state[n] = ('open', rs)
        if n in seen_viol:
            continue
        hit = None
        for r in rs:
            for o in r['obls']:
                if o.get('model') and not hit:
                    hit = nat.replay(n, o['model'])
        if hit:
            violate(n, hit['label'], show(hit), True)
        else:
            again.append(n)
    # a longer native search for these, and bounded proofs
    if again:
        per = min(P['research'], max(2.0, (deadline - time.time()) * 0.25 / max(1, (len(again) + PROCS - 1) // PROCS)))
        out = {}

        def one(n):
            out[n] = nat.search([n], per, seed=seed + 7919)
        ths = []
        for n in again:
            t = threading.Thread(target=one, args=(n,))
            t.start()
            ths.append(t)
            while sum(x.is_alive() for x in ths) >= PROCS:
                time.sleep(0.05)
        for t in ths:
            t.join()
        for n in again:
            for f in out[n][0]:
                violate(n, f['label'], show(f), True)
            done += out[n][1]
        left = [n for n in again if n not in seen_viol]
        bj = []
        for n in left:
            if skipped.get(n) == 'bounded':
                continue
            for k in P['bounds']:
                bj.append((mir, n, seed, 60 if tier == 'quick' else 200, 15, 90 if tier == 'quick' else 300, k))
        bres = work.run_many(bj, PROCS, max(deadline, time.time() + 60) + 100)
        bb = {}
        for r in bres:
            bb.setdefault(r['contract'], []).append(r)
        for n in left:
            rs = bb.get(n, [])
            hit = None
            for r in rs:
                for o in r['obls']:
                    if o.get('model') and not hit:
                        hit = nat.replay(n, o['model'])
            if hit:
                violate(n, hit['label'], show(hit), True)
                continue
            if all_proved(rs):
                state[n] = ('bounded', rs)
                res += rs
                continue
            lv = base.get(n, {}).get('level')
            if lv in ('none', 'bounded') or (lv == 'proved' and base[n].get('wall', 0) > SLOW and slow(by.get(n, []))):
                # never discharged for all lengths, or a proof that needs minutes ran out of time: the native monitor decides
                state[n] = ('none', rs)
                res += rs
                continue
            txt, ob = describe(n, by.get(n, []), rs)
            violate(n, ob, 'property %s\n' % prop + txt + '\nNo failing input was found by replaying the verifier\'s models or by native search.\n', False)
    write_evidence(evdir, prop, tier, seed, names, res, done, t0, violations, state, samples)
    for n in names:
        s = state[n][0]
        w = sum(r['wall'] for r in res if r['contract'] == n)
        no = sum(len(r['obls']) for r in res if r['contract'] == n)
        print('%-40s %-8s %4d obligations %7.1fs' % (n, s if n not in seen_viol else 'VIOLATED', no, w))
        if s in ('open', 'none') or n in seen_viol:
            for r in by.get(n, []):
                if r['error']:
                    print('      ', 'b=%s' % r['bounded'], r['error'])
                for o in r['obls']:
                    if o['status'] != 'proved' and o['status'] != 'skipped':
                        print('      ', 'b=%s' % r['bounded'], o['status'], o['kind'], o['name'], o['where'], o['why'], o['s'])
    known_lines(prop, nat)
    print('%s: %d contracts, %.1fs' % (prop, len(names), time.time() - t0))
    if violations:
        done_p = set()
        # one line per contract; concrete ones first
        for v in sorted(violations, key=lambda v: not v['input_found']):
            if v['replay'] in done_p:
                continue
            done_p.add(v['replay'])
            print('VIOLATION property=%s replay=%s%s' % (prop, v['replay'], '' if v['input_found'] else ' no-failing-input-found'))
        return 1
    return 0


def slow(rs):
    """did the proof end for lack of time (and not with a refutation)?"""
    return not any(o.get('model') for r in rs for o in r['obls'])


def describe(n, rs, bs):
    out = []
    ob = None
    for r in rs + bs:
        tag = 'all lengths' if r['bounded'] is None else 'length %s' % r['bounded']
        if r['error']:
            out.append('contract %s (%s): the verifier could not translate the code: %s' % (n, tag, r['error']))
            ob = ob or 'translation'
        for o in r['obls']:
            if o['status'] not in ('proved', 'skipped'):
                ob = ob or o['name']
                out.append('contract %s (%s): obligation "%s" (%s) at %s not discharged: %s %s\n  path: %s\n  goal: %s\n  model: %s' % (
                    n, tag, o['name'], o['kind'], o['where'], o['status'], o['why'], o.get('pc'), o.get('goal'), o.get('model')))
    return '\n'.join(out), ob or 'unknown'


TRUST = [
    'the verifier itself: driver/ (MIR export through rustc_private) and vc/ (symbolic execution, normal form, interval analysis, z3 glue)',
    'rustc 1.101-nightly MIR construction; z3',
    'f64 arithmetic is treated as exact real arithmetic (constants compared to 11-12 digits) in all obligations except kind "finite", which use IEEE-754 outward-rounded intervals',
    'assumed contracts (models) for core/std functions listed under models',
    'overflow, index and slice panics are obligations; allocation failure is not modelled',
]


def write_evidence(evdir, prop, tier, seed, names, res, done, t0, violations, state, samples=()):
    obl = sum(len(r['obls']) for r in res)
    dis = sum(1 for r in res for o in r['obls'] if o['status'] == 'proved')
    backs = {}
    for r in res:
        for o in r['obls']:
            if o['status'] == 'proved':
                backs[o['backend']] = backs.get(o['backend'], 0) + 1
    fns = sorted({f for r in res for f in r['functions'] if f.startswith('skillratings')})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3-vt -m vc.check %s %s' % (prop, tier),
            'trusted_base': TRUST,
            'contracts': {n: {'decided': state.get(n, ('?',))[0],
                              'obligations': sum(len(r['obls']) for r in res if r['contract'] == n),
                              'bound': sorted({r['bounded'] for r in res if r['contract'] == n and r['bounded'] is not None}),
                              'paths': sum(r['paths'] for r in res if r['contract'] == n)} for n in names},
            'functions_under_contract': fns,
            'discharged_by_backend': backs,
            'solver_s': round(sum(r['solver_s'] for r in res), 2),
            'models_of_std': sorted({m for r in res for m in r['models']}),
            'native_search': {'runs': sum(x.get('runs', 0) for x in done), 'met_precondition': sum(x.get('met_precondition', 0) for x in done),
                              'checks': sum(x.get('checks', 0) for x in done),
                              'role': 'only used to find failing inputs; accepts nothing'},
            'samples': [{'contract': s['contract'], 'inputs': s['inputs'][:12]} for s in samples[:6]],
        },
        'assumptions': TRUST[2:] + ['preconditions: the input ranges written in harness/src/contracts'],
        'violations': len(violations),
        'violation_list': violations,
        'wall_s': round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
