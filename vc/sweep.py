"""Equality of two large real terms by sweeping: subterms that agree on sample points are merged
bottom-up, each merge justified by a small equality proof in which the maximal subterms both
sides already share are variables.  Samples only select candidates; every merge is proved."""
import itertools
import random
import time
from .terms import *
from . import terms as tm
from . import nf
from .intervals import IA, INFV
from .evalt import Ev, EvalError

LEAF = ('c', 'v', 'bv', 'inf', 'ninf', 'nan', 'app')
BIND = ('sum', 'loop', 'forall', 'exists')


def kids(x):
    if x.op in LEAF or x.op in BIND:
        return []
    return [a for a in x.args if isinstance(a, T)]


def topo(roots):
    out, seen = [], set()
    for r in roots:
        st = [(r, False)]
        while st:
            x, done = st.pop()
            if done:
                out.append(x)
                continue
            if x in seen:
                continue
            seen.add(x)
            st.append((x, True))
            for k in kids(x):
                if k not in seen:
                    st.append((k, False))
    return out


def remake(x, args):
    """x with its term arguments replaced"""
    it = iter(args)
    new = [next(it) if isinstance(a, T) else a for a in x.args]
    if x.op == 'powi':
        return powi(new[0], new[1])
    if x.op == 'r2i':
        return mk('r2i', tuple(new), 'I')
    return rebuild(x, new)


def close(u, v, tol=1e-11):
    return abs(u - v) <= tol * max(1e-9, abs(u), abs(v))


class Sweep:
    trace = False

    def __init__(self, pr, pc, deadline, depth=0):
        self.pr = pr
        self.pc = tuple(pc)
        self.deadline = deadline
        self.depth = depth
        self.absmemo = {}

    # ---- sample points of the path
    def points(self, goal, want=6):
        from .prover import Sample, mine_consts, pin
        consts, pins = set(), {}
        for c in self.pc:
            mine_consts(c, consts)
            pin(c, pins)
        mine_consts(goal, consts, 200)
        good, other = [], []
        for i in range(60):
            if len(good) >= want or time.time() > self.deadline:
                break
            rng = random.Random('sweep/%d' % i)
            sm = Sample(rng, i, pins, sorted(consts))
            ev = Ev({}, sm.app)
            try:
                ok = all(ev(c) for c in self.pc)
                if not ok and sm.repair(self.pc, Ev):
                    ok = True
                    ev = Ev({}, sm.app)
                if ok:
                    good.append(ev)
                else:
                    other.append(ev)
            except (EvalError, OverflowError, ValueError, ZeroDivisionError, RecursionError, KeyError):
                continue
        self.onpath = bool(good)
        return (good + other)[:want] if len(good) < 3 else good

    def value(self, x):
        out = []
        for ev in self.evs:
            try:
                v = ev(x)
            except (EvalError, OverflowError, ValueError, ZeroDivisionError, RecursionError, KeyError):
                v = None
            if isinstance(v, (int, float)) and not isinstance(v, bool) and (v != v or v in (INFV, -INFV)):
                v = None
            out.append(v)
        return out

    def like(self, u, v, sign=1, tol=1e-11):
        n = 0
        for a, b in zip(u, v):
            if a is None or b is None:
                continue
            if isinstance(a, bool) or isinstance(b, bool):
                if a != b:
                    return False
            elif not close(a, sign * b, tol):
                return False
            n += 1
        return n >= 2

    # ---- main
    def equal(self, a, b):
        from .prover import simplify
        goal = eq(a, b)
        if goal is TRUE:
            return True
        self.evs = self.points(goal)
        if self.onpath and not self.like(self.value(a), self.value(b), 1, 1e-7):
            return False
        self.rep = {}
        self.table = {}
        self.classes = []
        self.facts = set(self.pc)
        self.learned = set()
        order = topo(list(self.pc) + [a, b])
        for x in order:
            if time.time() > self.deadline:
                return False
            self.rep[x] = self.merge(x)
            if x in self.facts and x.sort == 'B':
                if self.learn(self.rep[x]):
                    return True
        x, y = self.rep[a], self.rep[b]
        return x is y or self.local(x, y)

    def learn(self, c):
        """a fact of the path; true when it contradicts an earlier one (no execution takes the path)"""
        if c is FALSE or lnot(c) in self.learned:
            return True
        if any(self.implied(f, c) is False for f in self.learned):
            return True
        self.learned.add(c)
        self.facts.add(c)
        return False

    def truth(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        if c in self.facts:
            return True
        if lnot(c) in self.facts:
            return False
        for f in self.facts:
            r = self.implied(f, c)
            if r is not None:
                return r
        return self.pr_ia().truth(c)

    def pr_ia(self):
        ia = getattr(self, '_ia', None)
        if ia is None:
            ia = self._ia = IA(self.pc, False, self.pr.extra[-1])
        return ia

    def implied(self, f, c):
        """a path fact that decides c, after the shared subterms have become variables"""
        if f.op not in ('lt', 'le') or c.op not in ('lt', 'le') or f.args[0].sort != c.args[0].sort:
            return None
        m = self.shared(f, c)
        ff, cc = self.apply(f, m), self.apply(c, m)
        if size(ff) + size(cc) > 60:
            return None
        old = nf.LIMIT[0]
        nf.LIMIT[0] = 250
        try:
            k, q = nf.cond(ff), nf.cond(cc)
            nk = nf._argkey
            if nk(k) == nk(q):
                return True
            if nk(k) == nk(nf.cnot(q)):
                return False
            if k[0] == 'lt':
                z = nf.clt(nf.pscale(k[1], -1))
                if nk(z) == nk(q):
                    return False
                if nk(nf.cnot(z)) == nk(q):
                    return True
        except (nf.Blowup, ZeroDivisionError, OverflowError, ValueError):
            pass
        finally:
            nf.LIMIT[0] = old
        return None

    def merge(self, x):
        ks = kids(x)
        y = remake(x, [self.rep[k] for k in ks]) if ks else x
        if y.op in LEAF or any(v.op == 'bv' for v in y.fs):
            return y
        if y in self.table:
            return self.table[y]
        if y.op == 'ite':
            tr = self.truth(y.args[0])
            if tr is not None:
                return y.args[1] if tr else y.args[2]
        elif y.op in ('abs', 'min', 'max') and y.sort == 'R':
            if y.op == 'abs':
                for z, s in ((le(R(0), y.args[0]), 1), (le(y.args[0], R(0)), -1)):
                    if self.truth(z) is True:
                        return y.args[0] if s == 1 else neg(y.args[0])
            else:
                p, q = y.args
                if self.truth(le(p, q)) is True:
                    return p if y.op == 'min' else q
                if self.truth(le(q, p)) is True:
                    return q if y.op == 'min' else p
        if y.sort == 'B':
            if y.op in ('lt', 'le', 'eq', 'not') and y not in self.facts and x not in self.facts:
                tr = self.truth(y)
                if tr is not None:
                    return TRUE if tr else FALSE
            self.table[y] = y
            return y
        if y.sort != 'R':
            self.table[y] = y
            return y
        v = self.value(x)
        if sum(z is not None for z in v) >= 2:
            if y.op not in ('neg',):
                tried = 0
                for (z, w) in self.classes:
                    for sign in (1, -1):
                        if self.like(v, w, sign) and not (sign == -1 and self.like(v, w, 1)):
                            tried += 1
                            if tried > 4:
                                break
                            zz = z if sign == 1 else neg(z)
                            if self.local(y, zz):
                                self.table[y] = zz
                                return zz
            self.classes.append((y, v))
        self.table[y] = y
        return y

    # ---- small equality proofs
    def shared(self, a, b, skip=()):
        """maximal closed subterms of both a and b -> variables"""
        sa = set(topo([a]))
        sb = set(topo([b]))
        both = {x for x in sa & sb if x.op not in LEAF and x.sort == 'R' and x not in skip}
        out = {}
        seen = set()

        def go(x):
            if x in seen:
                return
            seen.add(x)
            if x in both and x is not a and x is not b:
                out[x] = self.var(x)
                return
            for k in kids(x):
                go(k)
        go(a)
        go(b)
        return out

    def var(self, x):
        v = self.absmemo.get(x)
        if v is None:
            lo, hi, bad = self.pr_ia().ev(x)
            v = self.absmemo[x] = tm.fresh('sw', 'R', None if lo == -INFV or bad else lo, None if hi == INFV or bad else hi)
        return v

    def apply(self, t, m):
        memo = {}

        def go(z):
            r = memo.get(z)
            if r is None:
                if z in m:
                    r = m[z]
                else:
                    ks = kids(z)
                    r = remake(z, [go(k) for k in ks]) if ks else z
                memo[z] = r
            return r
        return go(t)

    def by_cases(self, a, b, depth):
        """split on a condition of one side: equal in both cases"""
        c = None
        for t in (a, b):
            for x in reversed(topo([t])):
                if x.op == 'ite' and not any(v.op == 'bv' for v in x.args[0].fs):
                    c = x.args[0]
                    break
            if c is not None:
                break
        if c is None:
            return None
        if c.op == 'and' or c.op == 'or':
            c = c.args[0]
        return all(self.local(self.assume(a, c, v), self.assume(b, c, v), depth + 1) for v in (True, False))

    def assume(self, t, c, val):
        lit = c if val else lnot(c)
        neg_ = lnot(lit)
        memo = {}
        pos, nonpos = set(), set()
        if lit.op in ('lt', 'le') and is_c(lit.args[0]) and cval(lit.args[0]) >= 0:
            pos.add(lit.args[1])
        if lit.op in ('lt', 'le') and is_c(lit.args[1]) and cval(lit.args[1]) <= 0:
            nonpos.add(lit.args[0])

        def go(z):
            r = memo.get(z)
            if r is not None:
                return r
            if z is lit:
                r = TRUE
            elif z is neg_:
                r = FALSE
            elif z.op == 'ite':
                d = go(z.args[0])
                r = go(z.args[1]) if d is TRUE else go(z.args[2]) if d is FALSE else ite(d, go(z.args[1]), go(z.args[2]))
            elif z.op == 'abs' and z.args[0] in pos:
                r = go(z.args[0])
            elif z.op == 'abs' and z.args[0] in nonpos:
                r = neg(go(z.args[0]))
            else:
                ks = kids(z)
                r = remake(z, [go(k) for k in ks]) if ks else z
            memo[z] = r
            return r
        return go(t)

    def local(self, a, b, depth=0):
        if a is b:
            return True
        if depth < 4 and (a.op == 'ite' or b.op == 'ite' or depth):
            r = self.by_cases(a, b, depth)
            if r is not None:
                return r
        skip = set()
        for level in range(4):
            if time.time() > self.deadline:
                return False
            m = self.shared(a, b, skip)
            x, y = self.apply(a, m), self.apply(b, m)
            if x is y:
                return True
            if size(x) + size(y) <= 120:
                old = nf.LIMIT[0]
                nf.LIMIT[0] = 250
                try:
                    if self.pr.nfeq(eq(x, y)):
                        return True
                finally:
                    nf.LIMIT[0] = old
            if self.trace:
                print('LOCAL', level, tm.show(x, 7)[:300], '  ==  ', tm.show(y, 7)[:300])
            if not m:
                break
            skip |= set(m)
        if a.op == b.op and a.op in ('sum', 'loop') and self.depth < 3:
            return self.bound(a, b)
        return False

    def sub(self, pc):
        return Sweep(self.pr, pc, self.deadline, self.depth + 1)

    def bound(self, a, b):
        if a.op == 'sum':
            if not self.pr.nfeq(eq(a.args[0], b.args[0])):
                return False
            k = tm.fresh('sk', 'I', 0)
            return self.sub(self.pc + (le(I(0), k), lt(k, a.args[0]))).equal(subst(a.args[2], {a.args[1]: k}), subst(b.args[2], {b.args[1]: k}))
        n, kb, syms, inits, bodies, guard, which = a.args
        n2, kb2, syms2, inits2, bodies2, guard2, which2 = b.args
        if len(syms) != len(syms2) or len(syms) > 4 or (n is None) != (n2 is None) or (guard is None) != (guard2 is None):
            return False
        if n is not None and not self.pr.nfeq(eq(n, n2)):
            return False
        from .mono import Mono
        mono = Mono(self.pr, self.pc, min(self.deadline, time.time() + 5))
        for p in itertools.permutations(range(len(syms))):
            if p[which] != which2 or any(syms[i].sort != syms2[p[i]].sort for i in range(len(syms))):
                continue
            if not all(self.same(inits[i], inits2[p[i]]) for i in range(len(syms))):
                continue
            k = tm.fresh('sk', 'I', 0)
            npc = self.pc + (le(I(0), k),)
            if n is not None:
                npc = npc + (lt(k, n),)
            vs = []
            for i, s in enumerate(syms):
                v = None
                if s.sort == 'R':
                    u = tm.mk('loop', a.args[:-1] + (i,), 'R')
                    lo, hi, bad = self.pr_ia().ev(u)
                    v = tm.fresh('lx', 'R', None if lo == -INFV or bad else lo, None if hi == INFV or bad else hi)
                    if (bad or lo <= 0) and mono.pos(u, True):
                        npc = npc + (lt(R(0), v),)
                else:
                    v = tm.fresh('lx', s.sort)
                vs.append(v)
            ma = {kb: k}
            ma.update({s: v for s, v in zip(syms, vs)})
            mb = {kb2: k}
            mb.update({syms2[p[i]]: vs[i] for i in range(len(syms))})
            if guard is not None:
                g, h = subst(guard, ma), subst(guard2, mb)
                try:
                    if g is not h and nf._argkey(nf.cond(g)) != nf._argkey(nf.cond(h)):
                        continue
                except (nf.Blowup, ZeroDivisionError, OverflowError):
                    continue
                npc = npc + (g,)
            if all(self.pr.equal_terms(npc, subst(bodies[i], ma), subst(bodies2[p[i]], mb), self.deadline, self.depth + 1) for i in range(len(syms))):
                return True
        return False

    def same(self, a, b):
        return a is b or self.pr.nfeq(eq(a, b))


def size(t):
    return len(topo([t]))
