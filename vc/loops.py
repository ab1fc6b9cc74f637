"""Loop rules.

A loop whose exit decision is concrete is executed.  A loop over a symbolic number of
iterations is replaced by its inductive summary: the executor runs ONE iteration from a
state in which every location the loop changes is an arbitrary value (so the summary is
an induction step, not an unrolling), and classifies what each location does:

  * induction variables   x' = x + c            ->  x0 + c*k
  * accumulators          s' = s + f(k)         ->  s0 + Sum_{i<k} f(i)
  * pushed sequences      v' = v ++ [f(k)]      ->  v0 ++ map(f)
  * in-place updates      v'[k] = f(k, v[k])    ->  pointwise update
  * any other recurrence  x' = g(k, x, ...)     ->  loop(k, x0, g), an inductive term
  * data-dependent exits                        ->  exists a first index / while-term

The same rule serves MIR loops and the consuming iterator methods.
"""
from .values import *
from .terms import *
from . import terms as tm
from . import nf


MAX_UNROLL = 64


def handle_loop(ex, st, fr, h, blocks):
    live = ex.prog.live(fr.iid)[h]

    def iterate(s):
        backs, exits = [], []
        for kind, s2, x in ex.run(s, fr, h, (h, blocks)):
            if kind == 'ret':
                exits.append((s2, ('ret', None)))
            elif x == h:
                backs.append(s2)
            else:
                exits.append((s2, ('stop', x)))
        return backs, exits

    nl = len(fr.body['locals'])

    def relevant(s):
        """cells that matter at the loop header"""
        r = set()
        for c in s.cells:
            if fr.base <= c < fr.base + nl:
                if (c - fr.base) in live:
                    r.add(c)
            else:
                r.add(c)
        # locals reachable through references from relevant cells
        todo = list(r)
        while todo:
            c = todo.pop()
            for d in refs_of(s.cells.get(c)):
                if d not in r and d in s.cells:
                    r.add(d)
                    todo.append(d)
        return r

    outs = drive(ex, st, iterate, relevant, 'loop in ' + fr.name)
    return [(k[0], s, k[1]) for s, k in outs]


def refs_of(v, acc=None):
    if acc is None:
        acc = []
    if isinstance(v, Ref):
        acc.append(v.cell)
    elif isinstance(v, BoxV):
        acc.append(v.cell)
    elif isinstance(v, (Agg, It, Base)):
        for f in v.fields:
            refs_of(f, acc)
    elif isinstance(v, CSeq):
        for f in v.items:
            refs_of(f, acc)
    elif isinstance(v, EnumS):
        for fs in v.vals.values():
            for f in fs:
                refs_of(f, acc)
    elif isinstance(v, MapV):
        for k, f in v.items:
            refs_of(f, acc)
    return acc


def drive(ex, st, iterate, relevant, what):
    """returns list of (state, exit_tag)"""
    results = []
    cur = [(st, 0)]
    while cur:
        s, n = cur.pop()
        obs0 = len(ex.obls)
        ex.tick()
        backs, exits = iterate(s)
        if backs and exits and symbolic_exit(ex, s, backs, exits):
            keep = ex.obls[obs0:]
            del ex.obls[obs0:]
            res = None
            concrete = concrete_progress(ex, s, backs, relevant)
            if not concrete or n == 0:
                snap = len(ex.obls)
                try:
                    res = summarise(ex, s, iterate, relevant, what)
                except (LoopFail, MergeFail) as e:
                    del ex.obls[snap:]
                    if not concrete:
                        raise Unsupported('loop summary: %s (%s)' % (e, what))
            if res is not None:
                results.extend(res)
                continue
            ex.obls.extend(keep)
        elif backs and not exits and n == 0 and symbolic_bound(ex, s, backs, relevant):
            # the first iterations are certain to run (length known to be at least that), but the
            # length itself is symbolic: summarise at once instead of peeling
            keep = ex.obls[obs0:]
            del ex.obls[obs0:]
            try:
                results.extend(summarise(ex, s, iterate, relevant, what))
                continue
            except (LoopFail, MergeFail):
                del ex.obls[obs0:]
            ex.obls.extend(keep)
        if n > MAX_UNROLL * 4 or (backs and exits and n > MAX_UNROLL):
            raise Unsupported('loop bound exceeded (%s)' % what)
        # concrete iteration: merge back-states if there are several
        results.extend(exits)
        if len(backs) > 1:
            m = ex.try_merge(s, [(b, UNIT) for b in backs])
            backs = [b for b, _ in m]
        for b in backs:
            cur.append((b, n + 1))
        if len(cur) > 600:
            raise Unsupported('too many loop paths (%s)' % what)
    return results


def symbolic_exit(ex, s, backs, exits):
    return True


def leaves(v, path=()):
    """yield (path, leaf)"""
    if isinstance(v, (Agg, It, Base)):
        for i, f in enumerate(v.fields):
            yield from leaves(f, path + (i,))
    elif isinstance(v, CSeq):
        for i, f in enumerate(v.items):
            yield from leaves(f, path + (i,))
    else:
        yield (path, v)


def diff(a, b, path=()):
    """list of (path, old, new); structure mismatches reported at the mismatch point"""
    if same(a, b):
        return []
    if type(a) is type(b):
        if isinstance(a, (Agg,)) and a.variant == b.variant and len(a.fields) == len(b.fields):
            out = []
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                out += diff(x, y, path + (i,))
            return out
        if isinstance(a, (It, Base)) and a.kind == b.kind and len(a.fields) == len(b.fields):
            out = []
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                out += diff(x, y, path + (i,))
            return out
        if isinstance(a, CSeq) and len(a.items) == len(b.items):
            out = []
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                out += diff(x, y, path + (i,))
            return out
    return [(path, a, b)]


def get_at(v, path):
    for i in path:
        v = v.items[i] if isinstance(v, CSeq) else v.fields[i]
    return v


def set_at(v, path, new):
    if not path:
        return new
    i = path[0]
    if isinstance(v, CSeq):
        l = list(v.items)
        l[i] = set_at(l[i], path[1:], new)
        return CSeq(l)
    f = list(v.fields)
    f[i] = set_at(f[i], path[1:], new)
    if isinstance(v, Agg):
        return Agg(v.ty, v.variant, f)
    return type(v)(v.kind, f)


def changed(ex, s0, s1, relevant):
    out = []
    rel = relevant(s0)
    for c in sorted(rel):
        a = s0.cells.get(c)
        b = s1.cells.get(c)
        if a is b:
            continue
        if b is None:
            continue          # dead after the iteration (moved / dropped frame)
        if isinstance(b, Opaque) or isinstance(a, Opaque):
            if isinstance(a, Opaque) and not isinstance(b, Opaque):
                continue      # initialised inside the loop body; not read before being written
            continue
        for p, x, y in diff(a, b):
            out.append((c, p, x, y))
    # live locals that do not exist yet at entry are (re)initialised in the body
    return out


def concrete_progress(ex, s, backs, relevant):
    for b in backs:
        for c, p, x, y in changed(ex, s, b, relevant):
            if isinstance(x, T) and isinstance(y, T) and x.sort == 'I' and is_c(x) and is_c(y):
                if is_iter_bound_concrete(s, c, p):
                    return True
    return False


def symbolic_bound(ex, s, backs, relevant):
    for b in backs:
        for c, p, x, y in changed(ex, s, b, relevant):
            if isinstance(x, T) and isinstance(y, T) and x.sort == 'I' and is_c(x) and is_c(y):
                try:
                    par = get_at(s.cells.get(c), p[:-1]) if p else None
                except Exception:
                    par = None
                if isinstance(par, It) and par.kind == 'ra' and not is_c(par.fields[2]):
                    return True
    return False


def is_iter_bound_concrete(s, c, p):
    # an iterator [front, back) with concrete back
    v = s.cells.get(c)
    try:
        par = get_at(v, p[:-1]) if p else None
    except Exception:
        par = None
    if isinstance(par, It) and par.kind == 'ra':
        return is_c(par.fields[2])
    if isinstance(par, Agg) and len(par.fields) == 2 and p[-1] == 0:
        # core::ops::Range
        return all(isinstance(x, T) and x.sort == 'I' and is_c(x) for x in par.fields)
    return False


class Leaf:
    __slots__ = ('cell', 'path', 'init', 'kind', 'sym', 'delta', 'body', 'uid')

    def __init__(self, cell, path, init):
        self.cell = cell
        self.path = path
        self.init = init
        self.kind = None
        self.sym = None
        self.delta = None
        self.body = None


def install(s, L, v):
    s.cells[L.cell] = set_at(s.cells[L.cell], L.path, v)


def summarise(ex, st, iterate, relevant, what):
    # ---- 1. discover the changed locations (fixpoint)
    leafs = {}
    ex.quiet += 1
    try:
        for rnd in range(8):
            s = st.copy()
            for L in leafs.values():
                install(s, L, L.sym)
            backs, exits = iterate(s)
            if not backs:
                raise LoopFail('no back edge after havoc')
            m = ex.merge_outs(s, [(b, UNIT) for b in backs])[0]
            new = False
            for c, p, x, y in changed(ex, s, m, relevant):
                if (c, p) in leafs:
                    continue
                # a strict prefix or extension of an existing leaf?
                init = get_at(st.cells[c], p)
                L = Leaf(c, p, init)
                if isinstance(init, T):
                    L.sym = tm.fresh('X', init.sort)
                elif isinstance(init, (CSeq, SSeq)):
                    L.uid = 'S%d' % len(leafs)
                    L.sym = SeqPH(init, (c, p), tm.fresh('len', 'I', 0))
                else:
                    raise LoopFail('changed location of kind %s -> %s' % (type(init).__name__, type(y).__name__))
                # drop leaves strictly below this one
                for (c2, p2) in list(leafs):
                    if c2 == c and p2[:len(p)] == p:
                        del leafs[(c2, p2)]
                leafs[(c, p)] = L
                new = True
            if not new:
                break
        else:
            raise LoopFail('no fixpoint of changed locations')
        order = sorted(leafs)
        Ls = [leafs[k] for k in order]

        # ---- 2. induction variables and pushes
        k = tm.fresh('k', 'I', 0)
        for L in Ls:
            v = get_at(m.cells[L.cell], L.path)
            if isinstance(L.sym, SeqPH):
                if not isinstance(v, SeqPH) or v.uid != L.sym.uid:
                    raise LoopFail('sequence replaced in loop')
                if v.pushed and not v.upd:
                    L.kind = 'push'
                    L.delta = len(v.pushed)
                    if L.delta != 1:
                        raise LoopFail('several pushes per iteration')
                elif v.upd and not v.pushed:
                    L.kind = 'upd'
                elif not v.upd and not v.pushed:
                    L.kind = 'same'
                else:
                    raise LoopFail('push and update mixed')
            elif L.sym.sort == 'I':
                d = nf.psub(nf.norm(v), nf.norm(L.sym))
                if nf.is_const(d) and nf.cv(d).denominator == 1:
                    L.kind = 'ind'
                    L.delta = int(nf.cv(d))

        def at_k(kk):
            """state of the closed-form leaves at iteration kk"""
            r = {}
            for L in Ls:
                if L.kind == 'ind':
                    r[L] = add(L.init, kk if L.delta == 1 else mul(I(L.delta), kk))
                elif L.kind == 'push':
                    r[L] = SeqPH(L.init, L.sym.uid, add(seq_len(L.init), kk))
                elif L.kind in ('upd', 'same'):
                    r[L] = SeqPH(L.init, L.sym.uid, seq_len(L.init))
                else:
                    r[L] = L.sym
            return r

        def symbolic_iter():
            s = st.copy()
            s.pc = st.pc + (le(I(0), k),)
            for L, v in at_k(k).items():
                install(s, L, v)
            return s

        s = symbolic_iter()
        backs, exits = iterate(s)
    finally:
        ex.quiet -= 1

    # ---- 3. trip count
    n0 = len(s.pc)
    N, gx = None, None
    for i, (s2, tag) in enumerate(exits):
        d = s2.pc[n0:]
        if len(d) == 1:
            n = trip(ex, d[0], k)
            if n is not None:
                N, gx = n, i
                break
    if N is None:
        return summarise_while(ex, st, s, k, Ls, backs, exits, iterate, what)
    if not ex.prover.int_nonneg(N, st.pc):
        N = fmax(I(0), N)
    guard = exits[gx][0].pc[n0]

    # ---- 4. one arbitrary iteration with k < N; invariants for the free recurrences
    rec = [L for L in Ls if L.kind is None]
    s = st.copy()
    s.pc = st.pc + (le(I(0), k), lt(k, N))
    for L, v in at_k(k).items():
        install(s, L, v)
    infer_bounds(ex, s, rec, iterate, k)
    # final pass, with obligations
    obs0 = len(ex.obls)
    backs, exits2 = iterate(s)
    n1 = len(s.pc)
    # the guard exit is infeasible now (k < N); drop it if it survived the feasibility test
    others = []
    for s2, tag in exits2:
        d = s2.pc[n1:]
        if len(d) >= 1 and d[0] is guard:
            continue
        others.append((s2, tag))
    if not backs:
        raise LoopFail('no back edge')
    backs = [strip_lit(b, n1, lnot(guard)) for b in backs]
    others = [(strip_lit(b, n1, lnot(guard)), t) for b, t in others]
    m = ex.merge_outs(s, [(b, UNIT) for b in backs])[0]

    # ---- 5. closed forms
    for L in Ls:
        v = get_at(m.cells[L.cell], L.path)
        if L.kind == 'ind':
            d = nf.psub(nf.norm(v), nf.norm(add(L.init, mul(I(L.delta), k))))
            if not (nf.is_const(d) and nf.cv(d) == L.delta):
                raise LoopFail('induction variable not stable')
        elif L.kind == 'push':
            if not isinstance(v, SeqPH) or len(v.pushed) != 1 or v.upd:
                raise LoopFail('push not stable')
            L.body = v.pushed[0]
        elif L.kind == 'upd':
            if not isinstance(v, SeqPH) or v.pushed or len(v.upd) != 1:
                raise LoopFail('update not stable')
            idx, val = v.upd[0]
            d = nf.psub(nf.norm(idx), nf.norm(k))
            if k in nf_fs(d):
                raise LoopFail('update index is not k + c')
            L.delta = nf.poly2term(d, 'I')
            for r in v.reads:
                e = nf.psub(nf.norm(r), nf.norm(idx))
                if not (nf.is_const(e) and nf.cv(e) >= 0):
                    raise LoopFail('reads modified elements')
            L.body = val
        elif L.kind == 'same':
            pass
        else:
            L.body = v
            if not isinstance(v, T):
                raise LoopFail('recurrence of non-scalar')
    # additive accumulators
    syms = [L.sym for L in rec]
    symset = set(syms)
    done = {}
    pending = list(rec)
    progress = True
    add_f = {}
    while progress:
        progress = False
        for L in list(pending):
            if L.sym.sort == 'B':
                continue
            f = additive(L.body, L.sym)
            if f is not None and not (f.fs & symset):
                add_f[L] = f
                pending.remove(L)
                progress = True
    # pending ones may depend on additive ones: keep all in one recurrence system
    sysL = pending
    # obligations of the iteration: accumulators at iteration k are init + sum of the first k terms
    if add_f and len(ex.obls) > obs0:
        mp = {}
        for L, f in add_f.items():
            kk = tm.fresh('k', 'I', 0)
            mp[L.sym] = add(L.init, close('sum', k, kk, subst(f, {k: kk})))
        for o in ex.obls[obs0:]:
            o.pc = tuple(subst(c, mp) for c in o.pc)
            if o.goal is not None:
                o.goal = subst(o.goal, mp)
            if o.data:
                o.data = tuple(subst(z, mp) if isinstance(z, T) else z for z in o.data)

    # substitute additive closed forms into the others (they are functions of k)
    def closed(kk):
        r = {}
        for L, f in add_f.items():
            r[L.sym] = add(L.init, close('sum', kk, k, f))
        if sysL:
            sub_add = {L.sym: add(L.init, close('sum', k, k2, subst(f, {k: k2}))) for L, f in add_f.items() for k2 in (tm.fresh('k', 'I'),)}
            bodies = [subst(L.body, sub_add) for L in sysL]
            ss = [L.sym for L in sysL]
            ini = [L.init for L in sysL]
            for j, L in enumerate(sysL):
                r[L.sym] = tm.mkloop(kk, k, ss, ini, bodies, j)
        return r

    def close_sum(kk, f):
        return close('sum', kk, k, f)

    def final_state(base, kk):
        """base state with every changed leaf at its value after kk iterations"""
        s = base
        cl = closed(kk)
        clk = {}
        for L in Ls:
            if L.kind == 'ind':
                v = add(L.init, kk if L.delta == 1 else mul(I(L.delta), kk))
            elif L.kind == 'same':
                v = L.init
            elif L.kind == 'push':
                v = push_closed(L, kk)
            elif L.kind == 'upd':
                v = upd_closed(L, kk)
            else:
                v = cl[L.sym]
            install(s, L, v)
        return s

    def elem_at(L, j):
        mm = dict(closed(j))
        mm2 = {a: b for a, b in mm.items()}
        # symbols refer to iteration k = j
        v = subst_val(L.body, {a: tm.fresh('h', a.sort) for a in ()})
        mapping = {k: j}
        v = subst_val(v, {**mapping, **mm2})
        return v

    def push_closed(L, kk):
        n0_ = seq_len(L.init)
        if isinstance(L.init, CSeq) and not L.init.items:
            return SSeq(kk, lambda j: elem_at(L, j))

        def fn(j):
            old = seq_get(L.init, j, default=True)
            newv = elem_at(L, sub(j, n0_))
            if old is None:
                return newv
            return merge(lt(j, n0_), old, newv)
        return SSeq(add(n0_, kk), fn)

    def upd_closed(L, kk):
        c = L.delta
        n = seq_len(L.init)

        def fn(j):
            old = seq_get(L.init, j)
            newv = elem_at(L, sub(j, c))
            inside = land(le(c, j), lt(j, add(c, kk)))
            if simp_true(ex, inside, n, j, c, kk):
                return newv
            return merge(inside, newv, old)
        return SSeq(n, fn)

    results = []
    # ---- 6. early exits
    E = []
    for s2, tag in others:
        c = land(*s2.pc[n1:])
        if c.fs & symset:
            raise LoopFail('early exit depends on a recurrence')
        E.append((c, s2, tag))
    noexit = lnot(lor(*[c for c, _, _ in E])) if E else TRUE
    for c, s2, tag in E:
        mm = tm.fresh('m', 'I', 0)
        pc = st.pc + (le(I(0), mm), lt(mm, N))
        if noexit is not TRUE:
            pc = pc + (close('forall', mm, k, noexit),)
        pc = pc + tuple(subst(x, {k: mm}) for x in s2.pc[n1:])
        ns = s2.copy()
        mapping = dict(closed(mm))
        mapping[k] = mm
        cells = {}
        for cid, v in ns.cells.items():
            if st.cells.get(cid) is v:
                cells[cid] = v
                continue
            cells[cid] = resolve_ph(subst_or_ph(v, mapping, Ls, mm, push_closed, upd_closed))
        ns.cells = cells
        ns.pc = pc
        results.append((ns, tag))
    # ---- 7. normal exit: state after N iterations, then take the guard exit once
    ns = st.copy()
    # locations initialised inside the body but dead outside are left as they were at entry
    ns = final_state(ns, N)
    if noexit is not TRUE:
        ns.pc = ns.pc + (close('forall', N, k, noexit),)
    ex.quiet += 1
    try:
        b3, e3 = iterate(ns)
    finally:
        ex.quiet -= 1
    ok = False
    for s2, tag in e3:
        d = s2.pc[len(ns.pc):]
        # the guard literal at k=N is valid
        results.append((restore_pc(s2, ns), tag))
        ok = True
        break
    if not ok:
        raise LoopFail('no normal exit')
    return results


def restore_pc(s2, ns):
    s2 = s2.copy()
    s2.pc = ns.pc
    return s2


def strip_lit(b, n1, lit):
    if lit in b.pc[n1:]:
        b = b.copy()
        b.pc = b.pc[:n1] + tuple(x for x in b.pc[n1:] if x is not lit)
    return b


def nf_fs(p):
    r = set()
    for m in p:
        for i, e in m:
            r |= nf.atoms[i].fs
    return r


def simp_true(ex, inside, n, j, c, kk):
    # whole-sequence update: c = 0 and kk = n
    if is_c(c) and cval(c) == 0:
        d = nf.psub(nf.norm(kk), nf.norm(n))
        return not d
    return False


def subst_or_ph(v, mapping, Ls, mm, push_closed, upd_closed):
    if isinstance(v, SeqPH):
        for L in Ls:
            if isinstance(L.sym, SeqPH) and L.sym.uid == v.uid:
                if L.kind == 'same':
                    base = L.init
                else:
                    base = push_closed(L, mm) if L.kind == 'push' else upd_closed(L, mm)
                for x in v.pushed:
                    base = seq_push(base, subst_val(x, mapping))
                for i, x in v.upd:
                    base = seq_set(base, subst(i, mapping), subst_val(x, mapping))
                return base
        raise LoopFail('placeholder')
    if isinstance(v, Agg):
        return Agg(v.ty, v.variant, [subst_or_ph(x, mapping, Ls, mm, push_closed, upd_closed) for x in v.fields])
    if isinstance(v, (It, Base)):
        return type(v)(v.kind, [subst_or_ph(x, mapping, Ls, mm, push_closed, upd_closed) for x in v.fields])
    if isinstance(v, CSeq):
        return CSeq([subst_or_ph(x, mapping, Ls, mm, push_closed, upd_closed) for x in v.items])
    return subst_val(v, mapping)


def resolve_ph(v):
    return v


def additive(body, sym):
    """body = sym + f  with f free of sym?  returns f"""
    if body is sym:
        return R(0) if sym.sort == 'R' else I(0)
    if body.op == '+':
        a, b = body.args
        if sym not in b.fs:
            f = additive(a, sym)
            return None if f is None else add(f, b)
        if sym not in a.fs:
            f = additive(b, sym)
            return None if f is None else add(a, f)
        return None
    if body.op == '-':
        a, b = body.args
        if sym not in b.fs:
            f = additive(a, sym)
            return None if f is None else sub(f, b)
        return None
    if body.op == 'ite':
        c, a, b = body.args
        if sym in c.fs:
            return None
        fa = additive(a, sym)
        fb = additive(b, sym)
        if fa is None or fb is None:
            return None
        return ite(c, fa, fb)
    # fall back on the normal form
    if body.sort == 'R' and sym in body.fs:
        try:
            d = nf.psub(nf.norm(body), nf.norm(sym))
        except (nf.Blowup, ZeroDivisionError):
            return None
        if sym not in nf_fs(d):
            return nf.poly2term(d)
    return None


def trip(ex, g, k):
    """exit condition g(k) (an int comparison, linear in k): number of iterations"""
    if g.op in ('le', 'lt') and g.args[0].sort == 'I':
        # exit iff a <= b  (or a < b):  continue iff b < a  (b <= a)
        p = nf.psub(nf.norm(g.args[0]), nf.norm(g.args[1]))       # exit iff p <= 0 (p < 0)
        off = 0 if g.op == 'le' else 1
    elif g.op == 'eq' and g.args[0].sort == 'I':
        p = nf.psub(nf.norm(g.args[0]), nf.norm(g.args[1]))
        off = 0
    else:
        return None
    km = ((nf.atom('t', k), 1),)
    c = p.get(km)
    if c is None:
        return None
    rest = {m: v for m, v in p.items() if m != km}
    if k in nf_fs(rest):
        return None
    if g.op == 'eq' and c == 1:
        c = -1
        rest = nf.pscale(rest, -1)
    if c == -1:
        # rest - k <= 0  -> continue iff k < rest ; (p<0): continue iff k <= rest
        n = nf.poly2term(rest, 'I')
        if g.op == 'eq' and not ex.prover.int_nonneg(n, ()):
            return None
        return add(n, I(off)) if off else n
    return None


def infer_bounds(ex, s, rec, iterate, k):
    """interval invariants for the recurrence symbols, by iteration with widening"""
    rs = [L for L in rec if L.sym.sort in ('R', 'I')]
    if not rs:
        return
    ex.quiet += 1
    try:
        backs, _ = iterate(s)
        if not backs:
            return
        try:
            m = ex.merge_outs(s, [(b, UNIT) for b in backs])[0]
        except (MergeFail,):
            return
        cand = {}
        for L in rs:
            lo, hi = ex.prover.bounds(L.init, s.pc)
            cand[L] = (lo, hi)
        thresholds = sorted(set([-1e9, -900.0, -1.0, 0.0, 1.0, 100.0, 1e9]))
        for rnd in range(6):
            ex.prover.push_bounds({L.sym: cand[L] for L in rs})
            try:
                nxt = {}
                stable = True
                for L in rs:
                    v = get_at(m.cells[L.cell], L.path)
                    if not isinstance(v, T):
                        return
                    lo, hi = ex.prover.bounds(v, s.pc)
                    clo, chi = cand[L]
                    nlo, nhi = clo, chi
                    if lo is None or clo is None or lo < clo:
                        nlo = widen_lo(lo, thresholds) if rnd >= 1 else lo
                    if hi is None or chi is None or hi > chi:
                        nhi = widen_hi(hi, thresholds) if rnd >= 1 else hi
                    if rnd >= 3:
                        if nlo != clo:
                            nlo = None
                        if nhi != chi:
                            nhi = None
                    if (nlo, nhi) != (clo, chi):
                        stable = False
                    nxt[L] = (nlo, nhi)
            finally:
                ex.prover.pop_bounds()
            cand = nxt
            if stable:
                break
        else:
            return
        for L in rs:
            lo, hi = cand[L]
            tm.var_info[L.sym] = dict(lo=lo, hi=hi)
            loopinv[L.sym] = (lo, hi)
        ex.prover.clear_cache()
    finally:
        ex.quiet -= 1


loopinv = {}


def widen_lo(x, th):
    if x is None:
        return None
    c = [t for t in th if t <= x]
    return c[-1] if c else None


def widen_hi(x, th):
    if x is None:
        return None
    c = [t for t in th if t >= x]
    return c[0] if c else None


def summarise_while(ex, st, s, k, Ls, backs, exits, iterate, what):
    """loop with a data-dependent guard: final values are 'loop' terms with a guard"""
    n0 = len(s.pc)
    for L in Ls:
        if isinstance(L.sym, SeqPH):
            raise LoopFail('sequence in while loop')
        if L.kind == 'ind':
            L.kind = None
    # redo with symbols for everything
    ss = st.copy()
    for L in Ls:
        install(ss, L, L.sym)
    infer_bounds(ex, ss, Ls, iterate, k)
    obs0 = len(ex.obls)
    backs, exits = iterate(ss)
    if not backs:
        raise LoopFail('no back edge')
    n0 = len(ss.pc)
    m = ex.merge_outs(ss, [(b, UNIT) for b in backs])[0]
    cont = lor(*[land(*b.pc[n0:]) for b in backs])
    cont = simplify_cont(backs, n0, exits)
    bodies = []
    for L in Ls:
        v = get_at(m.cells[L.cell], L.path)
        if not isinstance(v, T):
            raise LoopFail('non-scalar in while loop')
        bodies.append(v)
    syms = [L.sym for L in Ls]
    inits = [L.init for L in Ls]
    fin = {}
    for j, L in enumerate(Ls):
        fin[L.sym] = tm.mkloop(None, k, syms, inits, bodies, j, guard=cont)
    results = []
    for s2, tag in exits:
        ns = s2.copy()
        cells = {}
        for cid, v in ns.cells.items():
            cells[cid] = v if st.cells.get(cid) is v else subst_val(v, fin)
        ns.cells = cells
        ns.pc = st.pc + tuple(subst(x, fin) for x in s2.pc[n0:])
        BRANCHED.update(ns.pc[len(st.pc):])
        # the exit test holds for the final values
        results.append((ns, tag))
    ex.notes.add('while-loop termination assumed: ' + what)
    # nested dead symbols are fine
    return results


def simplify_cont(backs, n0, exits):
    if len(exits) == 1 and len(exits[0][0].pc) == n0 + 1:
        return lnot(exits[0][0].pc[n0])
    return lor(*[land(*b.pc[n0:]) for b in backs])
