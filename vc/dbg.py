import sys, time, traceback, os
sys.setrecursionlimit(200000)
import threading
threading.stack_size(1 << 29)
from . import build
from .exec import *
from .prover import Prover
from . import terms as tm


def main():
    d = build.prepare()
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    bounded = None
    for a in sys.argv[1:]:
        if a.startswith('-b'):
            bounded = {'*': int(a[2:])}
    prog = Program(os.path.join(d, 'mir.json'))
    for r in sorted(prog.roots):
        if not any(p in r for p in pats):
            continue
        t0 = time.time()
        pr = Prover(1)
        ex = Exec(prog, pr)
        ex.bounded = bounded
        try:
            outs = ex.run_root(r, time.time() + 120)
        except Exception as e:
            print(r, 'EXEC FAIL', type(e).__name__, e)
            if verbose or not isinstance(e, (Unsupported, LoopFail)):
                traceback.print_exc()
            continue
        t1 = time.time()
        n = {}
        bad = []
        for o in ex.obls:
            try:
                x = pr.prove(o, time.time() + 30)
            except Exception as e:
                traceback.print_exc()
                x = None
                bad.append((o, 'EXC %r' % e))
                continue
            n[x.backend or x.status] = n.get(x.backend or x.status, 0) + 1
            if x.status != 'proved':
                bad.append((o, x))
        print(r, 'paths=%d obls=%d exec=%.2fs prove=%.2fs' % (len(outs), len(ex.obls), t1 - t0, time.time() - t1), n)
        for o, x in bad[:40 if verbose else 6]:
            print('   ', o.kind, o.name, o.where, x if isinstance(x, str) else (x.status, x.why, '%.1fs' % x.time))
            if verbose:
                print("      pc:", [tm.show(c) for c in o.pc][-12:])
                print('      goal:', tm.show(o.goal)[:3000] if o.goal is not None else [tm.show(z)[:1500] for z in o.data])
                if not isinstance(x, str) and x.model:
                    print('      model:', x.model)


t = threading.Thread(target=main)
t.start()
t.join()
