"""Order reasoning on the structure of terms: a <= b / a < b over the reals from monotonicity of
the operations, with products, quotients and square roots cleared.  Every rule is a sufficient
condition; the leaves are interval bounds, path facts, equality of normal forms, the sign of a
polynomial normal form, or a short nonlinear solver call on an abstraction in which conditional
subterms are variables."""
import math
import time
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import nf
from .intervals import IA, INFV

ABS = ('min', 'max', 'ite', 'sum', 'loop', 'round', 'floor', 'ceil', 'ln', 'exp', 'powf', 'abs')


class Mono:
    def __init__(self, pr, pc, deadline):
        self.pr = pr
        self.pc = tuple(pc)
        self.ia = IA(pc, False, pr.extra[-1])
        self.facts = set()
        for c in pc:
            self.facts.add(c)
            if c.op == 'and':
                self.facts.update(c.args)
        self.deadline = deadline
        self.memo = {}
        self.pmemo = {}
        self.active = set()
        self.leaf = {}
        self.abst = {}
        self.used = []
        self.steps = 0
        self.smts = 0

    # ---- signs
    def pos(self, t, strict, fuel=14):
        k = (t, strict)
        r = self.pmemo.get(k)
        if r is not None and (r[0] or r[1] >= fuel):
            return r[0]
        if fuel <= 0 or k in self.active:
            return False
        self.active.add(k)
        try:
            v = self._pos(t, strict, fuel)
        finally:
            self.active.discard(k)
        self.pmemo[k] = (v, fuel)
        return v

    def _pos(self, t, strict, fuel):
        if t.sort != 'R':
            lo = self.ia.ev(t)[0]
            return lo > 0 or (lo >= 0 and not strict)
        if time.time() > self.deadline:
            return False
        lo = self.ia.ev(t)[0]
        if lo > 0 or (lo >= 0 and not strict):
            return True
        if (lt(R(0), t) if strict else le(R(0), t)) in self.facts or lt(R(0), t) in self.facts:
            return True
        op = t.op
        a = t.args
        f = fuel - 1
        if op == 'exp':
            return True
        if op == 'powf':
            return self.pos(a[0], True, f)
        if op == 'sqrt':
            return not strict or self.pos(a[0], True, f)
        if op == '*':
            if a[0] is a[1]:
                return not strict or self.pos(a[0], True, f) or self.pos(neg(a[0]), True, f)
            if self.pos(a[0], strict, f) and self.pos(a[1], strict, f):
                return True
            return a[0].op in ('neg', '-') and a[1].op in ('neg', '-') and self.pos(neg(a[0]), strict, f) and self.pos(neg(a[1]), strict, f)
        if op == '/':
            return self.pos(a[1], True, f) and self.pos(a[0], strict, f)
        if op == '+':
            if self.pos(a[0], False, f) and self.pos(a[1], False, f):
                return not strict or self.pos(a[0], True, f) or self.pos(a[1], True, f)
            if a[0].op == 'neg':
                return self.cmp(a[0].args[0], a[1], strict, f)
            if a[1].op == 'neg':
                return self.cmp(a[1].args[0], a[0], strict, f)
            return False
        if op == '-':
            return self.cmp(a[1], a[0], strict, f)
        if op == 'powi':
            n = a[1]
            if n % 2 == 0 and not strict:
                return True
            return self.pos(a[0], strict, f)
        if op == 'abs':
            return not strict or self.pos(a[0], True, f)
        if op == 'max':
            return self.pos(a[0], strict, f) or self.pos(a[1], strict, f)
        if op == 'min':
            return self.pos(a[0], strict, f) and self.pos(a[1], strict, f)
        if op == 'ite':
            return self.cases(t, lambda m, x: m.pos(x, strict, f))
        if op == 'sum' and (not strict or self.ia.ev(a[0])[0] >= 1):
            k = tm.fresh('mk', 'I', 0)
            m = Mono(self.pr, self.pc + (le(I(0), k), lt(k, a[0])), self.deadline)
            return m.pos(subst(a[2], {a[1]: k}), strict, f)
        if op == 'neg':
            x = a[0]
            if x.op == '-':
                return self.cmp(x.args[0], x.args[1], strict, f)
            if x.op == 'neg':
                return self.pos(x.args[0], strict, f)
            if x.op == '*':
                for u, v in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    if self.pos(u, strict, f) and self.pos(neg(v), strict, f):
                        return True
            if x.op == '/':
                return self.pos(x.args[1], True, f) and self.pos(neg(x.args[0]), strict, f)
            if x.op == '+':
                return self.pos(neg(x.args[0]), strict, f) and self.pos(neg(x.args[1]), strict, f)
            if x.op == 'ln':
                return self.cmp(x.args[0], R(1), strict, f)
            if x.op == 'ite':
                return self.cases(x, lambda m, y: m.pos(neg(y), strict, f))
            if x.op == 'min':
                return self.pos(neg(x.args[0]), strict, f) or self.pos(neg(x.args[1]), strict, f)
            return False
        if op == 'ln':
            return self.cmp(R(1), a[0], strict, f)
        if op == 'loop':
            return self.loop_pos(t, strict, f)
        return False

    def cases(self, t, go):
        c, x, y = t.args
        tr = self.ia.truth(c)
        for lit, z in ((c, x), (lnot(c), y)):
            if (tr is True and lit is not c) or (tr is False and lit is c):
                continue
            if c.sort == 'B' and not any(v.op == 'bv' for v in c.fs):
                npc = self.pc + (lit,)
                if not self.pr.feasible(npc):
                    continue
                m = Mono(self.pr, npc, self.deadline)
                m.steps = self.steps
                m.smts = self.smts
                if not go(m, z):
                    return False
                self.steps = m.steps
                self.smts = m.smts
            elif not go(self, z):
                return False
        return True

    def loop_pos(self, t, strict, f):
        """positivity is an invariant of the recurrence (the other components unconstrained)"""
        n, kb, syms, inits, bodies, guard, which = t.args
        if not self.pos(inits[which], strict, f):
            return False
        m = {kb: tm.fresh('mk', 'I', 0)}
        fs = [tm.fresh('mx', s.sort) for s in syms]
        m.update(dict(zip(syms, fs)))
        pc = self.pc + ((lt if strict else le)(R(0), fs[which]),)
        if n is not None:
            pc = pc + (lt(m[kb], n),)
        return Mono(self.pr, pc, self.deadline).pos(subst(bodies[which], m), strict, f)

    def loop_bound(self, t, bound, upper, f):
        """staying on one side of a constant bound is an invariant of the recurrence"""
        n, kb, syms, inits, bodies, guard, which = t.args
        if not (self.cmp(inits[which], bound, False, f) if upper else self.cmp(bound, inits[which], False, f)):
            return False
        m = {kb: tm.fresh('mk', 'I', 0)}
        fs = [tm.fresh('mx', s.sort) for s in syms]
        m.update(dict(zip(syms, fs)))
        pc = self.pc + ((le(fs[which], bound) if upper else le(bound, fs[which])),)
        for i, x in enumerate(fs):
            if x.sort == 'R':
                u = tm.mk('loop', t.args[:-1] + (i,), 'R')
                for strict in (True, False):
                    if self.pos(u, strict, f):
                        pc = pc + ((lt if strict else le)(R(0), x),)
                        break
        if n is not None:
            pc = pc + (lt(m[kb], n),)
        if guard is not None:
            pc = pc + (subst(guard, m),)
        b = subst(bodies[which], m)
        sub = Mono(self.pr, pc, self.deadline)
        for target in (fs[which], bound):
            if sub.cmp(b, target, False, f) if upper else sub.cmp(target, b, False, f):
                return True
        return False

    # ---- order
    def cmp(self, a, b, strict, fuel=14):
        k = (a, b, strict)
        r = self.memo.get(k)
        if r is not None and (r[0] or r[1] >= fuel):
            return r[0]
        if fuel <= 0 or k in self.active:
            return False
        self.steps += 1
        if self.steps > 3000 or time.time() > self.deadline:
            return False
        self.active.add(k)
        try:
            v = self._cmp(a, b, strict, fuel)
        finally:
            self.active.discard(k)
        self.memo[k] = (v, fuel)
        return v

    def _cmp(self, a, b, strict, fuel):
        if a is b:
            return not strict
        if (lt if strict else le)(a, b) in self.facts or lt(a, b) in self.facts:
            return True
        A, B = self.ia.ev(a), self.ia.ev(b)
        if A[1] < B[0] or (A[1] <= B[0] and not strict):
            return True
        f = fuel - 1
        if is_c(a) and cval(a) == 0:
            if self.pos(b, strict, f):
                return True
        if is_c(b) and cval(b) == 0:
            if self.pos(neg(a), strict, f):
                return True
        # refutation by the bounds
        if A[0] > B[1]:
            return False
        if not strict and a.op == 'loop' and self.loop_bound(a, b, True, f):
            return True
        if not strict and b.op == 'loop' and self.loop_bound(b, a, False, f):
            return True
        # same monotone operation
        if a.op == b.op and a.op in ('sqrt', 'exp', 'ln'):
            return self.cmp(a.args[0], b.args[0], strict, f)
        if a.op == b.op == 'powf' and a.args[0] is b.args[0] and self.cmp(R(1), a.args[0], True, 3):
            return self.cmp(a.args[1], b.args[1], strict, f)
        if a.op == b.op == 'powi' and a.args[1] == b.args[1] and self.pos(a.args[0], False, f):
            if self.cmp(a.args[0], b.args[0], strict, f):
                return True
        # lattice operations and cases
        if a.op == 'max':
            return all(self.cmp(x, b, strict, f) for x in a.args)
        if b.op == 'min':
            return all(self.cmp(a, x, strict, f) for x in b.args)
        if a.op == 'min' and any(self.cmp(x, b, strict, f) for x in a.args):
            return True
        if b.op == 'max' and any(self.cmp(a, x, strict, f) for x in b.args):
            return True
        if a.op == 'abs':
            return self.cmp(a.args[0], b, strict, f) and self.cmp(neg(a.args[0]), b, strict, f)
        if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
            c = a.args[0]
            ok = True
            for lit, x, y in ((c, a.args[1], b.args[1]), (lnot(c), a.args[2], b.args[2])):
                npc = self.pc + (lit,)
                if not self.pr.feasible(npc):
                    continue
                m = Mono(self.pr, npc, self.deadline)
                if not m.cmp(x, y, strict, f):
                    ok = False
                    break
            if ok:
                return True
        if a.op == 'ite':
            return self.cases(a, lambda m, x: m.cmp(x, b, strict, f))
        if b.op == 'ite':
            return self.cases(b, lambda m, x: m.cmp(a, x, strict, f))
        if self.poly(a, b, strict):
            return True
        # a quotient against a constant, a square against a square number
        for x, y, isA in ((a, b, True), (b, a, False)):
            q = quotient(x)
            if q is not None and is_c(y) and cval(y) > 0 and is_c(q[0]) and cval(q[0]) > 0 and self.pos(q[1], True, f):
                c = R(cval(q[0]) / cval(y))
                if (self.cmp(c, q[1], strict, f) if isA else self.cmp(q[1], c, strict, f)):
                    return True
            z = x.args[0] if (x.op == 'powi' and x.args[1] == 2) or (x.op == '*' and x.args[0] is x.args[1]) else None
            if z is not None and is_c(y) and cval(y) >= 0 and self.pos(z, False, f):
                c = Fraction(cval(y))
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    c = R(Fraction(n, d))
                    if (self.cmp(z, c, strict, f) if isA else self.cmp(c, z, strict, f)):
                        return True
        # clear quotients
        for x, isA in ((a, True), (b, False)):
            q = quotient(x)
            if q is not None and self.pos(q[1], True, f):
                n, d = q
                if (self.cmp(n, mul(b, d), strict, f) if isA else self.cmp(mul(a, d), n, strict, f)):
                    return True
        # clear square roots
        if a.op == 'sqrt' and self.pos(b, False, f):
            return self.cmp(a.args[0], square(b), strict, f)
        if b.op == 'sqrt':
            if self.pos(a, False, f):
                return self.cmp(square(a), b.args[0], strict, f)
            if not strict and self.pos(neg(a), False, f):
                return True
        # common or bounded factors
        if a.op == '*' and b.op == '*':
            for i in (0, 1):
                for j in (0, 1):
                    if a.args[i] is b.args[j] and self.pos(a.args[i], strict, f):
                        if self.cmp(a.args[1 - i], b.args[1 - j], strict, f):
                            return True
        if a.op == '*' and b.op == '*' and self.pos(b, False, f):
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if self.pos(x, False, f) and self.pos(y, False, f) and self.cmp(x, b.args[0], strict, f // 2) and self.cmp(y, b.args[1], strict, f // 2):
                    return True
        if a.op == '*':
            for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if self.pos(x, False, f):
                    lo, hi, _ = self.ia.ev(y)
                    if hi <= 1 or self.cmp(y, R(1), False, f // 2):
                        if self.cmp(x, b, strict, f):
                            return True
        if b.op == '*':
            for x, y in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                if self.pos(x, False, f) and self.cmp(R(1), y, False, f // 2) and self.cmp(a, x, strict, f):
                    return True
        # sums
        if a.op in ('+', '-') and b.op in ('+', '-'):
            for (x, y) in addpairs(a):
                for (u, v) in addpairs(b):
                    if x is u and self.cmp(y, v, strict, f):
                        return True
                    if self.cmp(x, u, False, 2) and self.cmp(y, v, strict, f):
                        return True
        for (x, y) in addpairs(a):
            if self.pos(neg(y), False, f // 2) and self.cmp(x, b, strict, f):
                return True
        for (x, y) in addpairs(b):
            if self.pos(y, False, f // 2) and self.cmp(a, x, strict, f):
                return True
        if self.smts < 40 and any(c.op in ('not', 'or', 'and') for c in self.pc):
            self.smts += 1
            if self.pr.lin_valid(self.pc, (lt if strict else le)(a, b), 500):
                return True
        return self.solver(a, b, strict, fuel)

    # ---- leaves
    def abstract(self, t):
        """conditional and transcendental subterms become variables with the bounds known for them"""
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.sort != 'R' or is_c(x) or x.op in ('v', 'app'):
                r = x
            elif x.op in ABS or x.op == 'sqrt':
                r = self.abst.get(x)
                if r is None:
                    lo, hi, bad = self.ia.ev(x)
                    r = tm.fresh('ab', 'R', None if lo == -INFV else lo, None if hi == INFV else hi)
                    self.abst[x] = r
                    if self.pos(x, True, 6):
                        self.used.append(lt(R(0), r))
                        if lo < 0:
                            tm.var_info[r]['lo'] = 0
                    if x.op == 'sqrt' and self.pos(x.args[0], False, 6):
                        self.used.append(eq(mul(r, r), go(x.args[0])))
                    if x.op in ('min', 'max'):
                        for y in x.args:
                            self.used.append(le(r, go(y)) if x.op == 'min' else le(go(y), r))
            elif x.op in ('+', '-', '*', '/'):
                u, v = go(x.args[0]), go(x.args[1])
                r = add(u, v) if x.op == '+' else sub(u, v) if x.op == '-' else mul(u, v) if x.op == '*' else div(u, v)
            elif x.op == 'neg':
                r = neg(go(x.args[0]))
            elif x.op == 'powi':
                r = powi(go(x.args[0]), x.args[1])
            else:
                r = x
            memo[x] = r
            return r
        return go(t)

    def poly(self, a, b, strict):
        key = (a, b)
        p = self.leaf.get(key)
        if p is None:
            try:
                p = nf.psub(nf.norm(self.abstract(b)), nf.norm(self.abstract(a)))
            except (nf.Blowup, ZeroDivisionError, OverflowError, ValueError):
                p = False
            self.leaf[key] = p
        if p is False:
            return False
        try:
            if nf.is_zero(p):
                return not strict
            if not nf.pnonneg(p):
                return False
        except nf.Blowup:
            self.leaf[key] = False
            return False
        if not strict:
            return True
        # one monomial whose factors are all strictly positive
        for m, c in p.items():
            if all(self.atom_pos(i) for i, e in m):
                return True
        return False

    def atom_pos(self, i):
        a = nf.atoms[i]
        if a.kind == 'E':
            return True
        try:
            t = nf.atom2term(i)
        except nf.Blowup:
            return False
        if t.op == 'v' and lt(R(0), t) in self.used:
            return True
        return self.pos(t, True, 4)

    def solver(self, a, b, strict, fuel):
        if self.smts > 25 or fuel < 4:
            return False
        self.smts += 1
        try:
            g = (lt if strict else le)(self.abstract(a), self.abstract(b))
        except (nf.Blowup, ZeroDivisionError, OverflowError, ValueError):
            return False
        if size(g) > 120:
            return False
        return bool(self.pr.smt(tuple(self.used), g, self.deadline, 1500))


def size(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return 0
    seen.add(t)
    return 1 + sum(size(x, seen) for x in t.args if isinstance(x, T))


def square(t):
    if t.op == 'sqrt':
        return t.args[0]
    if t.op == '*':
        return mul(square(t.args[0]), square(t.args[1]))
    if t.op == '/':
        return div(square(t.args[0]), square(t.args[1]))
    return mul(t, t)


def quotient(t):
    """t as n / d when a division occurs at the top of a product"""
    if t.op == '/':
        q = quotient(t.args[0])
        if q is not None:
            return q[0], mul(q[1], t.args[1])
        if t.args[1].op == '/':
            # x / (u / v) = x v / u
            return mul(t.args[0], t.args[1].args[1]), t.args[1].args[0]
        return t.args
    if t.op == '*':
        for i in (0, 1):
            q = quotient(t.args[i])
            if q is not None:
                return mul(q[0], t.args[1 - i]), q[1]
    return None


def addpairs(t):
    if t.op == '+':
        return [(t.args[0], t.args[1]), (t.args[1], t.args[0])]
    if t.op == '-':
        return [(t.args[0], neg(t.args[1]))]
    return []
