"""One contract: symbolic execution of the MIR, then every obligation to the prover."""
import hashlib
import os
import sys
import time
import traceback

_prog = {}


def program(path):
    from .exec import Program
    p = _prog.get(path)
    if p is None:
        p = Program(path)
        _prog[path] = p
    return p


def run_contract(mir, name, seed, exec_s, ob_s, total_s, bounded=None, stop_after=4):
    """returns a plain dict"""
    from .exec import Exec, Unsupported, LoopFail
    from .prover import Prover
    from . import terms as tm
    t0 = time.time()
    end = t0 + total_s
    prog = program(mir)
    pr = Prover(seed)
    ex = Exec(prog, pr)
    ex.bounded = {'*': bounded} if bounded is not None else None
    out = {'contract': name, 'bounded': bounded, 'obls': [], 'error': None, 'paths': 0}
    try:
        outs = ex.run_root(name, min(end, time.time() + exec_s))
        out['paths'] = len(outs)
    except (Unsupported, LoopFail) as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        out['error'] = 'recursion limit'
    except Exception as e:          # a construct outside the verifier's subset
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out['error'] = '%s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    out['exec_s'] = round(time.time() - t0, 3)
    bad = 0
    if out['error'] is None:
        done = {}
        order = ex.obls
        for o in order:
            key = (o.kind, o.pc, o.goal, tuple(x for x in (o.data or ()) if isinstance(x, tm.T)))
            if key in done:
                r = done[key]
                # the same formula under another name: counted, not re-proved
                rec = dict(r, name=o.name, where=o.where, s=0.0)
                out['obls'].append(rec)
                continue
            rec = {'name': o.name, 'kind': o.kind, 'where': o.where}
            if bad >= stop_after or time.time() > end:
                rec.update(status='skipped', backend='', why='budget', s=0.0)
            else:
                try:
                    x = pr.prove(o, min(end, time.time() + ob_s))
                    rec.update(status=x.status, backend=x.backend, why=x.why, s=round(x.time, 3))
                    if x.model:
                        rec['model'] = [[_key(k), float(v)] for k, v in x.model.items()]
                    if x.status != 'proved':
                        bad += 1
                        rec['goal'] = (tm.show(o.goal) if o.goal is not None else ' ; '.join(tm.show(z) for z in o.data))[:1500]
                        rec['pc'] = [tm.show(c)[:300] for c in o.pc][:20]
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    rec.update(status='unknown', backend='', why='%s %s %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), s=0.0)
                    bad += 1
            done[key] = rec
            out['obls'].append(rec)
    out['functions'] = sorted(n for n in ex.fn_seen if n.startswith('skillratings') or '::' in n)
    out['models'] = sorted(getattr(ex, 'model_seen', ()))
    out['notes'] = sorted(ex.notes)
    out['solver_s'] = round(pr.solver_time, 3)
    out['wall'] = round(time.time() - t0, 3)
    return out


def _key(k):
    if isinstance(k, tuple):
        if len(k) == 1:
            return str(k[0])
        return '%s[%s]' % (k[0], ','.join(str(x) for x in k[1:]))
    return str(k)


def child(conn, args):
    import threading
    import resource
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass

    def go():
        try:
            r = run_contract(*args)
        except MemoryError:
            r = {'contract': args[1], 'bounded': args[6], 'obls': [], 'error': 'memory', 'paths': 0, 'wall': 0, 'solver_s': 0, 'functions': [], 'models': [], 'notes': []}
        except BaseException as e:
            r = {'contract': args[1], 'bounded': args[6], 'obls': [], 'error': repr(e), 'paths': 0, 'wall': 0, 'solver_s': 0, 'functions': [], 'models': [], 'notes': []}
        conn.send(r)
        conn.close()
    t = threading.Thread(target=go)
    t.start()
    t.join()


def run_many(jobs, procs, deadline, grace=20):
    """jobs: list of argument tuples for run_contract; returns results in completion order"""
    import multiprocessing as mp
    from multiprocessing import connection
    ctx = mp.get_context('fork')
    todo = list(jobs)
    live = {}
    res = []
    while todo or live:
        while todo and len(live) < procs and time.time() < deadline:
            a = todo.pop(0)
            left = max(5.0, deadline - time.time())
            a = a[:5] + (min(a[5], left),) + a[6:]
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, a), daemon=True)
            p.start()
            w.close()
            live[r] = (p, a, time.time() + a[5] + grace)
        if todo and time.time() >= deadline:
            for a in todo:
                res.append(empty(a, 'no time left'))
            todo = []
        if not live:
            continue
        for r in connection.wait(list(live), timeout=1.0):
            p, a, _ = live.pop(r)
            try:
                res.append(r.recv())
            except (EOFError, OSError):
                res.append(empty(a, 'verifier process ended'))
            p.join(1)
            if p.is_alive():
                p.kill()
        now = time.time()
        for r in [r for r, v in live.items() if now > v[2]]:
            p, a, _ = live.pop(r)
            p.kill()
            p.join(5)
            res.append(empty(a, 'time budget (killed)'))
    return res


def empty(a, why):
    return {'contract': a[1], 'bounded': a[6] if len(a) > 6 else None, 'obls': [], 'error': why, 'paths': 0, 'wall': a[5], 'solver_s': 0, 'functions': [], 'models': [], 'notes': [], 'exec_s': 0}
