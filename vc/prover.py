"""Discharging obligations.

Back ends, in order: normal form (nf.py) for equalities; interval analysis (intervals.py)
for orderings; case analysis on the conditions occurring in the goal; z3 and cvc5 on the
real-closed-field abstraction of the normal form.  Numeric evaluation is used only to
refute (to find a concrete input to replay), never to accept."""
import math
import random
import time
import z3
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import nf
from .intervals import IA, INFV
from .evalt import Ev, EvalError


class Result:
    __slots__ = ('status', 'backend', 'model', 'why', 'time')

    def __init__(self, status, backend='', model=None, why=''):
        self.status = status      # proved | refuted | unknown
        self.backend = backend
        self.model = model
        self.why = why
        self.time = 0.0


def collect(t, acc, seen):
    """all subterms (not below binders' bound structure separately)"""
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        acc.append(x)
        st.extend(kids(x))
    return acc


def closed_subterms(t):
    """subterms free of bound variables"""
    return [x for x in collect(t, [], set()) if not any(v.op == 'bv' for v in x.fs)]


# ------------------------------------------------------------------ z3 (linear abstraction, term level)
_gran = {}


def gran(t):
    """g > 0 such that every value of t is an integer multiple of g, or None"""
    r = _gran.get(t, 0)
    if r == 0:
        r = _gran_(t)
        _gran[t] = r
    return r


def _fgcd(a, b):
    if a is None or b is None:
        return None
    if a == 0:
        return b
    if b == 0:
        return a
    return Fraction(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


def _gran_(t):
    op = t.op
    if t.sort == 'I':
        return Fraction(1)
    if op == 'c':
        g = abs(Fraction(cval(t)))
        return g if g.denominator <= 1000 else None
    if op == 'i2r':
        return Fraction(1)
    if op in ('round', 'floor', 'ceil'):
        return Fraction(1)
    if op == 'ite':
        return _fgcd(gran(t.args[1]), gran(t.args[2]))
    if op in ('+', '-', 'min', 'max'):
        return _fgcd(gran(t.args[0]), gran(t.args[1]))
    if op in ('neg', 'abs'):
        return gran(t.args[0])
    if op == '*':
        a, b = gran(t.args[0]), gran(t.args[1])
        return None if a is None or b is None else a * b
    if op == 'sum':
        return gran(t.args[2])
    return None


class Lin:
    """translation used for path feasibility: linear arithmetic, everything else opaque"""

    def __init__(self, lits=()):
        self.memo = {}
        self.side = []
        self.lits = lits
        self._ia = None

    @property
    def ia(self):
        if self._ia is None:
            self._ia = IA(self.lits, False, {})
        return self._ia

    def opaque(self, t):
        nm = 't%d' % t.id
        if t.sort == 'R':
            v = z3.Real(nm)
        elif t.sort == 'I':
            v = z3.Int(nm)
        else:
            return z3.Bool(nm)
        b = None
        if t.op == 'v':
            b = tm.var_info.get(t)
        elif t.op == 'app':
            b = tm.app_info.get(t.args[0])
        if b:
            if b.get('lo') is not None:
                self.side.append(v >= _num(b['lo'], t.sort))
            if b.get('hi') is not None:
                self.side.append(v <= _num(b['hi'], t.sort))
        elif t.op in ('exp', 'abs', 'sqrt'):
            self.side.append(v >= 0)
        elif t.op == 'sum' and t.sort == 'R':
            n, kb, body = t.args
            lo, hi, bad = IA((), False, {}).ev(body)
            nn = z3.ToReal(self(n))
            if lo not in (INFV, -INFV):
                self.side.append(v >= _num(Fraction(lo), 'R') * nn)
            if hi not in (INFV, -INFV):
                self.side.append(v <= _num(Fraction(hi), 'R') * nn)
            g = gran(body)
            if g:
                m = z3.Int('g%d' % t.id)
                self.side.append(v == _num(g, 'R') * z3.ToReal(m))
        elif t.op == '/' and t.args[0].op == 'sum':
            lo, hi, bad = self.ia.ev(t)
            if lo not in (INFV, -INFV):
                self.side.append(v >= _num(Fraction(lo), 'R'))
            if hi not in (INFV, -INFV):
                self.side.append(v <= _num(Fraction(hi), 'R'))
        elif t.op == 'r2i' and t.args[0].op in ('round', 'floor', 'ceil', 'trunc'):
            lo, hi, bad = self.ia.ev(t.args[0])
            if lo > t.args[1] and hi < t.args[2]:
                self.side.append(z3.ToReal(v) == self(t.args[0]))
        elif t.op in ('round', 'floor', 'ceil'):
            x = self(t.args[0])
            m = z3.Int('g%d' % t.id)
            self.side.append(v == z3.ToReal(m))
            if t.op == 'round':
                self.side += [v - x <= z3.RealVal('1/2'), x - v <= z3.RealVal('1/2')]
            elif t.op == 'floor':
                self.side += [v <= x, x < v + 1]
            else:
                self.side += [v >= x, v < x + 1]
        return v

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.tr(t)
            self.memo[t] = r
        return r

    def tr(self, t):
        op = t.op
        if op == 'c':
            if t.sort == 'B':
                return z3.BoolVal(t is TRUE)
            return _num(cval(t), t.sort)
        if op in ('+', '-'):
            a, b = self(t.args[0]), self(t.args[1])
            return a + b if op == '+' else a - b
        if op == 'neg':
            return -self(t.args[0])
        if op == '*' and (is_c(t.args[0]) or is_c(t.args[1])):
            return self(t.args[0]) * self(t.args[1])
        if op == '/' and is_c(t.args[1]) and cval(t.args[1]) != 0:
            return self(t.args[0]) / self(t.args[1])
        if op == 'i2r':
            return z3.ToReal(self(t.args[0]))
        if op == 'ite':
            return z3.If(self(t.args[0]), self(t.args[1]), self(t.args[2]))
        if op in ('min', 'max'):
            a, b = self(t.args[0]), self(t.args[1])
            return z3.If(a <= b, a, b) if op == 'min' else z3.If(a >= b, a, b)
        if op == 'abs':
            a = self(t.args[0])
            return z3.If(a >= 0, a, -a)
        if op in ('lt', 'le'):
            a, b = t.args
            if a.sort == 'R' and is_c(b) and not is_c(a):
                g = gran(a)
                if g:
                    q = cval(b) / g
                    n = math.floor(q) if op == 'le' or q.denominator != 1 else q.numerator - 1
                    return self(a) <= _num(g * n, 'R')
            elif a.sort == 'R' and is_c(a) and not is_c(b):
                g = gran(b)
                if g:
                    q = cval(a) / g
                    n = math.ceil(q) if op == 'le' or q.denominator != 1 else q.numerator + 1
                    return self(b) >= _num(g * n, 'R')
            return self(a) < self(b) if op == 'lt' else self(a) <= self(b)
        if op == 'eq':
            return self(t.args[0]) == self(t.args[1])
        if op == 'not':
            return z3.Not(self(t.args[0]))
        if op == 'and':
            return z3.And([self(a) for a in t.args])
        if op == 'or':
            return z3.Or([self(a) for a in t.args])
        if op == 'idiv' and is_c(t.args[1]) and cval(t.args[1]) > 0:
            q = z3.Int('q%d' % t.id)
            a = self(t.args[0])
            d = cval(t.args[1])
            self.side.append(z3.If(a >= 0, z3.And(q * d <= a, a < q * d + d), z3.And(q * d >= a, a > q * d - d)))
            return q
        return self.opaque(t)


def _num(x, sort):
    if sort == 'I':
        return z3.IntVal(int(x))
    x = Fraction(x)
    return z3.RealVal('%d/%d' % (x.numerator, x.denominator))


class Prover:
    def __init__(self, seed=1):
        self.extra = [{}]
        self.ordmemo = {}
        self.ordtime = 0.0
        self._feas = {}
        self.seed = seed
        self.stats = {}
        self.solver_time = 0.0
        self.hints = []
        self.quick = False

    # ---- services for the executor
    def push_bounds(self, m):
        d = dict(self.extra[-1])
        for k, (lo, hi) in m.items():
            d[k] = (-INFV if lo is None else lo, INFV if hi is None else hi)
        self.extra.append(d)

    def pop_bounds(self):
        self.extra.pop()

    def clear_cache(self):
        self._feas.clear()

    def bounds(self, t, pc=()):
        lo, hi, bad = IA(pc, False, self.extra[-1]).ev(t)
        return (None if lo == -INFV else lo, None if hi == INFV else hi)

    def ibounds(self, t):
        return self.bounds(t, ())

    def int_in(self, v, rg, pc):
        lo, hi = self.bounds(v, pc)
        return lo is not None and hi is not None and lo >= rg[0] and hi <= rg[1]

    def int_nonneg(self, t, pc):
        if is_c(t):
            return cval(t) >= 0
        lo, hi = self.bounds(t, pc)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        try:
            p = nf.norm(t)
            if nf.pnonneg(p):
                return True
        except nf.Blowup:
            pass
        # linear integer reasoning under the path condition
        return self.lin_valid(pc, le(I(0), t))

    def lin_valid(self, pc, goal, timeout=300):
        key = (pc, goal)
        r = self._feas.get(key)
        if r is not None:
            return r
        r = self.lin_check(tuple(pc) + (lnot(goal),), timeout) == 'unsat'
        self._feas[key] = r
        return r

    def lin_check(self, lits, timeout=300, every=False):
        t0 = time.time()
        L = Lin(lits)
        s = z3.Solver()
        s.set('timeout', timeout)
        # only literals connected to the last one
        if not every:
            lits = relevant_lits(lits)
        for c in lits:
            s.add(L(c))
        for c in L.side:
            s.add(c)
        r = s.check()
        if TRACE and every:
            print('LIN', r, s.sexpr()[:3000], r == z3.sat and s.model())
        self.solver_time += time.time() - t0
        return 'unsat' if r == z3.unsat else 'sat' if r == z3.sat else 'unknown'

    def feasible(self, pc):
        if not pc:
            return True
        r = self._feas.get(pc)
        if r is not None:
            return r
        r = self._feasible(pc)
        self._feas[pc] = r
        return r

    def _feasible(self, pc):
        last = pc[-1]
        s = set(pc)
        if last is FALSE or lnot(last) in s:
            return False
        try:
            # deep terms: case splits inside the bounds would multiply
            ia = IA(pc[:-1], False, self.extra[-1], light=any(self.big(c, 150) for c in pc))
            if ia.truth(last) is False:
                return False
        except RecursionError:
            pass
        if last.op == 'exists':
            # a witness
            k = tm.fresh('w', 'I', 0)
            return self.feasible(pc[:-1] + (lt(k, last.args[0]), tm.open_binder(last, k)))
        if last.op == 'forall':
            return True
        return self.lin_check(pc) != 'unsat'

    # ---- sampling
    def sampler(self, terms, rng, mode, smart):
        return Sampler(self, terms, rng, mode, smart)

    def find_sample(self, pc, goal_terms, want, tries=120, deadline=None):
        """look for an assignment satisfying pc and want(ev); returns (env dict, nsat)"""
        consts = set()
        for c in pc:
            mine_consts(c, consts)
        for c in goal_terms:
            mine_consts(c, consts, 200)
        pins = {}
        for c in pc:
            pin(c, pins)
        nsat = 0
        for i in range(tries):
            if deadline and time.time() > deadline:
                break
            rng = random.Random('%s/%d' % (self.seed, i))
            sm = Sample(rng, i, pins, sorted(consts))
            ev = Ev({}, sm.app)
            try:
                ok = True
                for c in pc:
                    if not ev(c):
                        ok = False
                        break
                if not ok:
                    if i % 2 == 0 or nsat == 0:
                        # local repair: try to re-draw the variables of the failing literal
                        ok = sm.repair(pc, Ev)
                    if not ok:
                        continue
                    ev = Ev({}, sm.app)
                nsat += 1
                if want(ev):
                    return sm.values(), nsat
            except (EvalError, OverflowError, ValueError, ZeroDivisionError, RecursionError, KeyError):
                continue
        return None, nsat

    # ---- main entry
    def prove(self, ob, deadline=None):
        t0 = time.time()
        try:
            self.ordtime = 0.0
            r = self._prove(ob, deadline)
        except RecursionError:
            r = Result('unknown', '', why='recursion')
        r.time = time.time() - t0
        self.stats[r.backend] = self.stats.get(r.backend, 0) + 1
        return r

    def _prove(self, ob, deadline):
        if ob.kind == 'finite':
            return self.prove_finite(ob, deadline)
        goal = ob.goal
        if goal is TRUE:
            return Result('proved', 'trivial')
        terms = [goal]
        if ob.kind == 'eq' and ob.data[0].sort == 'R':
            a, b = ob.data
            if is_c(a) and is_c(b) and abs(cval(a) - cval(b)) <= max(abs(cval(a)), abs(cval(b))) * Fraction(1, 10**12):
                return Result('proved', 'constants')

            def want(ev):
                x, y = ev(a), ev(b)
                if x != x or y != y or x in (INFV, -INFV) or y in (INFV, -INFV):
                    return False
                return abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y))
        elif ob.kind == 'le' and ob.data[0].sort == 'R':
            a, b = ob.data

            def want(ev):
                x, y = ev(a), ev(b)
                if x != x or y != y:
                    return False
                return x - y > 1e-6 * max(1.0, abs(x), abs(y))
        else:
            def want(ev):
                return not ev(goal)
        # fast acceptance first
        r = self.accept(ob.pc, goal, fast=True)
        if r:
            return Result('proved', r)
        model, nsat = self.find_sample(ob.pc, terms, want, tries=150, deadline=deadline)
        if model is not None:
            return Result('refuted', 'sampling', model)
        r = self.accept(ob.pc, goal, fast=False, deadline=deadline)
        if r:
            return Result('proved', r)
        # not provable, not refuted: is the path reachable at all?
        return Result('unknown', '', why='nsat=%d' % nsat)

    def accept(self, pc, goal, fast, deadline=None):
        if goal is TRUE:
            return 'trivial'
        if goal.op == 'and':
            bs = []
            for g in goal.args:
                r = self.accept(pc, g, fast, deadline)
                if not r:
                    return None
                bs.append(r)
            return max(bs, key=len)
        if FALSE in pc:
            return 'infeasible'
        if goal.op == 'forall':
            n, kb, body = goal.args
            k = tm.fresh('sk', 'I', 0)
            return self.accept(tuple(pc) + (le(I(0), k), lt(k, n)), subst(body, {kb: k}), fast, deadline)
        if goal.op == 'eq' and goal.args[0].sort != 'B':
            if goal.args[0].sort == 'R' and self.big(goal, 200) and self.swept(pc, goal, 0, deadline):
                return 'sweep'
            if self.nfeq(goal):
                return 'normal-form'
            if not fast:
                # length 0 / length at least 1
                for v in sorted((x for x in goal.fs if x.op == 'v' and x.sort == 'I' and x.args[0].startswith('len:') and tm.var_info.get(x, {}).get('lo') == 0), key=lambda x: x.id):
                    w = tm.fresh(v.args[0], 'I', 0)
                    if self.nfeq(subst(goal, {v: add(w, I(1))})):
                        z = {v: I(0)}
                        npc = tuple(subst(c, z) for c in pc)
                        if FALSE in npc or self.accept(npc, subst(goal, z), False, deadline):
                            return 'normal-form'
        ia = IA(pc, False, self.extra[-1])
        if ia.truth(goal) is True:
            return 'interval'
        for c in pc:
            if ia_contradiction(pc, c, self):
                return 'infeasible'
        if goal.op in ('lt', 'le') and goal.args[0].sort == 'R':
            if self.sign(pc, goal, ia):
                return 'interval'
        if goal.sort == 'B' and (goal.op in ('lt', 'le', 'eq', 'not', 'or')):
            if self.lin_valid(tuple(pc), goal, 1000):
                return 'z3'
        if fast:
            return None
        if self.lin_check(tuple(pc), 3000, True) == 'unsat':
            return 'infeasible'
        if goal.op in ('lt', 'le') and goal.args[0].sort == 'R':
            from .mono import Mono
            dl = time.time() + 20
            if deadline:
                dl = min(dl, time.time() + max(1, (deadline - time.time()) * 0.7))
            if Mono(self, pc, dl).cmp(goal.args[0], goal.args[1], goal.op == 'lt'):
                return 'monotone'
        return self.split(tuple(pc), goal, 0, [0], deadline)

    def nfeq(self, goal):
        if goal is TRUE:
            return True
        if goal.op != 'eq':
            return False
        try:
            return nf.is_zero(nf.psub(nf.norm(goal.args[0]), nf.norm(goal.args[1])))
        except (nf.Blowup, ZeroDivisionError, OverflowError):
            return False

    def sign(self, pc, goal, ia):
        """p <= 0 or p < 0 from the normal form of the difference"""
        lo, hi = self.addends(goal.args[0], goal.args[1], ia)
        if hi < 0 or (goal.op == 'le' and hi <= 0):
            return True
        try:
            p = nf.psub(nf.norm(goal.args[0]), nf.norm(goal.args[1]))
        except (nf.Blowup, ZeroDivisionError):
            return False
        if goal.op == 'le' and nf.pneg_known(p):
            return True
        lo, hi = self.pbounds(p, ia)
        if hi < 0 or (goal.op == 'le' and hi <= 0):
            return True
        return False

    def addends(self, a, b, ia):
        """bounds of a - b after cancelling equal addends"""
        acc = {}

        def go(t, s):
            if t.op == '+':
                go(t.args[0], s)
                go(t.args[1], s)
            elif t.op == '-':
                go(t.args[0], s)
                go(t.args[1], -s)
            elif t.op == 'neg':
                go(t.args[0], -s)
            elif t.op == '*' and is_c(t.args[0]):
                go(t.args[1], s * cval(t.args[0]))
            elif t.op == '*' and is_c(t.args[1]):
                go(t.args[0], s * cval(t.args[1]))
            elif t.op == '/' and is_c(t.args[1]) and cval(t.args[1]) != 0:
                go(t.args[0], s / Fraction(cval(t.args[1])))
            else:
                acc[t] = acc.get(t, 0) + s
        go(a, Fraction(1))
        go(b, Fraction(-1))
        lo = hi = 0.0
        for t, c in acc.items():
            if c == 0:
                continue
            if is_c(t):
                v = float(cval(t) * c)
                l, h = v, v
            else:
                l, h, bad = ia.ev(t)
                l, h = _pz(l, float(c)), _pz(h, float(c))
                if l > h:
                    l, h = h, l
            lo += l - abs(l) * 1e-13 if abs(l) != INFV else l
            hi += h + abs(h) * 1e-13 if abs(h) != INFV else h
        if lo != lo:
            lo = -INFV
        if hi != hi:
            hi = INFV
        return lo, hi

    def pbounds(self, p, ia):
        """interval of a polynomial over atoms whose bounds come from the interval analysis"""
        lo = hi = 0.0
        for m, c in p.items():
            l, h = (1.0, 1.0)
            for i, e in m:
                al, ah = self.abounds(i, ia)
                if Fraction(e).denominator != 1 or e < 0:
                    if al <= 0:
                        al2, ah2 = (0.0, INFV) if nf.atom_nonneg(i) else (-INFV, INFV)
                    else:
                        try:
                            q = sorted([al ** float(e) if al != INFV else (0.0 if e < 0 else INFV), ah ** float(e) if ah != INFV else (0.0 if e < 0 else INFV)])
                        except OverflowError:
                            q = [0.0, INFV]
                        al2, ah2 = q[0] * (1 - 1e-12), q[1] * (1 + 1e-12)
                else:
                    n = int(e)
                    try:
                        if n % 2 == 0:
                            mx = max(abs(al), abs(ah))
                            al2, ah2 = (0.0 if al <= 0 <= ah else min(abs(al), abs(ah)) ** n), mx ** n if mx != INFV else INFV
                        else:
                            al2, ah2 = (al ** n if abs(al) != INFV else al), (ah ** n if abs(ah) != INFV else ah)
                    except OverflowError:
                        al2, ah2 = -INFV, INFV
                ps = [(_pz(x, y)) for x in (l, h) for y in (al2, ah2)]
                l, h = min(ps), max(ps)
            f = float(c)
            l, h = (l * f if l != 0 else 0.0, h * f if h != 0 else 0.0)
            if l > h:
                l, h = h, l
            lo += l - abs(l) * 1e-13 if abs(l) != INFV else l
            hi += h + abs(h) * 1e-13 if abs(h) != INFV else h
        if lo != lo:
            lo = -INFV
        if hi != hi:
            hi = INFV
        return lo, hi

    def abounds(self, i, ia):
        try:
            t = nf.atom2term(i)
        except nf.Blowup:
            return -INFV, INFV
        lo, hi, bad = ia.ev(t)
        if nf.atom_nonneg(i):
            lo = max(lo, 0.0)
        return lo, hi

    # ---- case analysis
    def split(self, pc, goal, depth, count, deadline, cdepth=0):
        count[0] += 1
        if count[0] > 600 or (deadline and time.time() > deadline):
            return None
        if goal.op == 'eq' and goal.args[0].sort == 'R' and cdepth <= 3 and self.big(goal) and self.swept(pc, goal, cdepth, deadline):
            return 'sweep'
        g = simplify(goal, pc, self)
        if g is TRUE:
            return 'case-analysis'
        ia = IA(pc, False, self.extra[-1])
        if ia.truth(g) is True:
            return 'interval'
        if g.op == 'and':
            for x in g.args:
                if not self.split(pc, x, depth, count, deadline):
                    return None
            return 'case-analysis'
        if g.op == 'or':
            # assume the negation of all but the last
            for x in g.args:
                if self.accept(pc, x, True):
                    return 'case-analysis'
            npc = pc + tuple(lnot(x) for x in g.args[:-1])
            if not self.feasible(npc):
                return 'case-analysis'
            return self.split(npc, g.args[-1], depth + 1, count, deadline)
        if g.op == 'forall':
            n, kb, body = g.args
            k = tm.fresh('sk', 'I', 0)
            return self.split(pc + (le(I(0), k), lt(k, n)), subst(body, {kb: k}), depth, count, deadline)
        if g.op == 'eq' and g.args[0].sort != 'B':
            if self.nfeq(g):
                return 'normal-form'
            if g.args[0].sort == 'R' and cdepth <= 3 and self.swept(pc, g, cdepth, deadline):
                return 'sweep'
            if g.args[0].sort == 'R' and self.congruence(pc, g, cdepth, deadline):
                return 'congruence'
        if g.op in ('lt', 'le') and g.args[0].sort == 'R' and self.sign(pc, g, ia):
            return 'interval'
        if self.lin_valid(pc, g, 500):
            return 'z3'
        if depth < 9:
            c = pick_cond(g, ia)
            if c is not None:
                used = None
                for lit in (c, lnot(c)):
                    npc = pc + (lit,)
                    if not self.feasible(npc) or self.nf_false(lit):
                        continue
                    r = self.split(npc, g, depth + 1, count, deadline, cdepth)
                    if not r:
                        return None
                    used = r
                return 'case-analysis'
        r = self.smt(pc, g, deadline)
        return r

    # ---- congruence: replace equal subterms, proved equal under the path condition
    CONG = ('sum', 'loop', 'max', 'min', 'abs', 'round', 'floor', 'ceil', 'sqrt', 'ln', 'exp', 'powf', 'ite', 'r2i')

    def outermost(self, t, other, acc, seen):
        if t in seen or t in other:
            return
        seen.add(t)
        if t.op in self.CONG:
            acc.append(t)
            return
        for x in t.args:
            if isinstance(x, T):
                self.outermost(x, other, acc, seen)

    def big(self, g, n=120):
        from .sweep import size
        return size(g) > n

    def swept(self, pc, goal, depth, deadline):
        from .sweep import Sweep
        dl = time.time() + 15
        if deadline:
            dl = min(dl, time.time() + max(1, (deadline - time.time()) * 0.5))
        return Sweep(self, pc, dl, depth).equal(goal.args[0], goal.args[1])

    def equal_terms(self, pc, a, b, deadline, depth):
        g = eq(a, b)
        if g is TRUE or (a.sort != 'B' and self.nfeq(g)):
            return True
        if a.sort == 'B':
            try:
                return nf._argkey(nf.cond(a)) == nf._argkey(nf.cond(b))
            except (nf.Blowup, ZeroDivisionError, OverflowError):
                return False
        return bool(self.split(tuple(pc), g, 2, [200], deadline, depth))

    def congruence(self, pc, goal, depth, deadline):
        if depth > 4:
            return False
        a, b = goal.args
        for rnd in range(6):
            if deadline and time.time() > deadline:
                return False
            sa = set(collect(a, [], set()))
            sb = set(collect(b, [], set()))
            la, lb = [], []
            self.outermost(a, sb, la, set())
            self.outermost(b, sa, lb, set())
            if not la or not lb or len(la) * len(lb) > 80:
                return False
            hit = False
            for x in la:
                for y in lb:
                    if x.op != y.op or x.sort != y.sort:
                        continue
                    if x is a and y is b and x.op == 'ite':
                        continue
                    key = ('cong', pc, x, y)
                    r = self._feas.get(key)
                    if r is None:
                        r = self.same_term(pc, x, y, depth, deadline)
                        self._feas[key] = r
                    if r:
                        a2 = replace(a, x, y)
                        if a2 is not a:
                            a = a2
                            hit = True
                            break
                if hit:
                    break
            if not hit:
                return False
            g = eq(a, b)
            if g is TRUE or self.nfeq(g):
                return True
        return False

    def same_term(self, pc, x, y, depth, deadline):
        def differ(ev):
            u, v = ev(x), ev(y)
            if u != u or v != v or abs(u) == INFV or abs(v) == INFV:
                return False
            return abs(u - v) > 1e-6 * max(1.0, abs(u), abs(v))
        if not any(v.op == 'bv' for v in x.fs | y.fs):
            m, ns = self.find_sample(pc, [x, y], differ, tries=25, deadline=deadline)
            if m is not None:
                return False
        g = eq(x, y)
        if g is TRUE or self.nfeq(g):
            return True
        dl = time.time() + 12
        if deadline:
            dl = min(dl, deadline)
        if x.op == 'sum':
            if not self.nfeq(eq(x.args[0], y.args[0])):
                return False
            k = tm.fresh('sk', 'I', 0)
            npc = tuple(pc) + (le(I(0), k), lt(k, x.args[0]))
            return self.equal(npc, subst(x.args[2], {x.args[1]: k}), subst(y.args[2], {y.args[1]: k}), depth + 1, dl)
        if x.op == 'loop':
            n, kb, syms, inits, bodies, guard, which = x.args
            n2, kb2, syms2, inits2, bodies2, guard2, which2 = y.args
            if guard is not None or guard2 is not None or len(syms) != 1 or len(syms2) != 1 or syms[0].sort != 'R' or syms2[0].sort != 'R':
                return False
            if not self.nfeq(eq(n, n2)) or not self.equal(pc, inits[0], inits2[0], depth + 1, dl):
                return False
            k = tm.fresh('sk', 'I', 0)
            lo, hi, bad = IA(pc, False, self.extra[-1]).ev(x)
            v = tm.fresh('lx', 'R', None if lo == -INFV else lo, None if hi == INFV else hi)
            npc = tuple(pc) + (le(I(0), k), lt(k, n))
            return self.equal(npc, subst(bodies[0], {kb: k, syms[0]: v}), subst(bodies2[0], {kb2: k, syms2[0]: v}), depth + 1, dl)
        if x.op == 'ite':
            return bool(self.split(tuple(pc), g, 2, [400], dl))
        xs = [z for z in x.args if isinstance(z, T)]
        ys = [z for z in y.args if isinstance(z, T)]
        if x.op in ('max', 'min') and is_c(xs[0]) != is_c(ys[0]):
            ys = ys[::-1]
        if len(xs) == len(ys) and all(self.equal(pc, u, v, depth + 1, dl) for u, v in zip(xs, ys)):
            return True
        return False

    def equal(self, pc, a, b, depth, deadline):
        g = eq(a, b)
        if g is TRUE or self.nfeq(g):
            return True
        if depth <= 4 and self.congruence(pc, g, depth, deadline):
            return True
        return bool(self.split(tuple(pc), g, 2, [300], deadline, depth))

    def nf_false(self, lit):
        try:
            return nf.cond(lit) == ('false',)
        except (nf.Blowup, ZeroDivisionError, OverflowError):
            return False

    # ---- nonlinear SMT on the normal form
    def smt(self, pc, goal, deadline=None, timeout=6000):
        if deadline:
            timeout = int(max(200, min(timeout, (deadline - time.time()) * 1000)))
        t0 = time.time()
        try:
            for eqs in (False, True):
                X = NFSmt(self, pc)
                s = z3.SolverFor('QF_NRA') if not eqs else z3.Solver()
                s.set('timeout', timeout // 2)
                try:
                    g = X.cond(goal)
                    lits = []
                    for c in (relevant_lits(tuple(pc) + (lnot(goal),))[:-1] if goal is not FALSE else pc):
                        try:
                            lits.append(X.cond(c))
                        except (nf.Blowup, Unsup, ZeroDivisionError):
                            pass
                except (nf.Blowup, Unsup, ZeroDivisionError, OverflowError) as e:
                    if TRACE:
                        print('SMT unsup', repr(e), tm.show(goal, 9))
                    return None
                X.lemmas(goal, pc)
                for c in lits + X.side:
                    s.add(c)
                s.add(z3.Not(g))
                r = s.check()
                if TRACE and r != z3.unsat:
                    print('SMT', r, tm.show(goal, 9), '\n   PC', [tm.show(c, 7) for c in pc])
                    if r == z3.sat:
                        print('   MODEL', s.model(), '\n', s.assertions())
                if r == z3.unsat:
                    return 'z3-nra'
                if r == z3.sat:
                    break
            return None
        except z3.Z3Exception:
            return None
        finally:
            self.solver_time += time.time() - t0

    # ---- finiteness (mode F)
    def prove_finite(self, ob, deadline):
        t = ob.data[0]

        def want(ev):
            x = ev(t)
            return x != x or x in (INFV, -INFV)
        r = self.finite(ob.pc, t, 0)
        if r:
            return Result('proved', 'ieee-interval')
        model, nsat = self.find_sample(ob.pc, [t], want, tries=150, deadline=deadline)
        if model is not None:
            return Result('refuted', 'sampling', model)
        if self.finite_split(tuple(ob.pc), t, 0, [0], deadline):
            return Result('proved', 'ieee-interval')
        return Result('unknown', '', why='nsat=%d' % nsat)

    def finite(self, pc, t, depth):
        lo, hi, bad = IA(pc, True, self.extra[-1]).ev(t)
        return not bad and lo != -INFV and hi != INFV

    def finite_split(self, pc, t, depth, count, deadline):
        count[0] += 1
        if count[0] > 400 or (deadline and time.time() > deadline):
            return False
        if self.finite(pc, t, depth):
            return True
        if depth >= 7:
            return False
        t = simplify(t, pc, self)
        if self.finite(pc, t, depth):
            return True
        c = pick_cond(t, IA(pc, True, self.extra[-1]))
        if c is None:
            return False
        for lit in (c, lnot(c)):
            npc = pc + (lit,)
            if not self.feasible(npc):
                continue
            if not self.finite_split(npc, t, depth + 1, count, deadline):
                return False
        return True


import os
TRACE = os.environ.get('VC_TRACE')


class Unsup(Exception):
    pass


def _pz(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def ia_contradiction(pc, c, pr):
    return False


def relevant_lits(lits):
    """literals connected (by shared symbols) to the last one"""
    lits = list(lits)
    if len(lits) < 3:
        return lits
    want = set(symset(lits[-1]))
    rest = lits[:-1]
    used = [False] * len(rest)
    ch = True
    while ch:
        ch = False
        for i, c in enumerate(rest):
            if not used[i]:
                s = symset(c)
                if not s or (s & want):
                    used[i] = True
                    n = len(want)
                    want |= s
                    ch = True
    return [c for i, c in enumerate(rest) if used[i]] + [lits[-1]]


_ss = {}


def symset(t):
    """variables and uninterpreted applications (by name) in t"""
    r = _ss.get(t.id)
    if r is None:
        r = set()
        for x in collect(t, [], set()):
            if x.op == 'v':
                r.add(x)
            elif x.op == 'app':
                r.add(x.args[0])
        r = frozenset(r)
        _ss[t.id] = r
    return r


def replace(t, x, y):
    memo = {}

    def go(z):
        r = memo.get(z)
        if r is not None:
            return r
        if z is x:
            r = y
        elif z.op in ('sum', 'loop', 'forall', 'exists', 'app', 'c', 'v', 'bv', 'inf', 'ninf', 'nan'):
            r = z
        elif z.op == 'powi':
            r = powi(go(z.args[0]), z.args[1])
        elif z.op == 'r2i':
            r = mk('r2i', (go(z.args[0]),) + z.args[1:], 'I')
        else:
            r = rebuild(z, [go(a) if isinstance(a, T) else a for a in z.args])
        memo[z] = r
        return r
    return go(t)


def mine_consts(t, acc, limit=60):
    n = 0
    for x in collect(t, [], set()):
        if x.op == 'c' and x.sort == 'R':
            v = float(x.args[0])
            if abs(v) > 1e-9 and abs(v) < 1e7:
                acc.add(v)
                n += 1
                if n > limit:
                    return


def pin(c, pins):
    if c.op == 'and':
        for x in c.args:
            pin(x, pins)
    if c.op == 'eq':
        a, b = c.args
        if is_c(a):
            a, b = b, a
        if is_c(b) and a.op in ('v', 'app'):
            key = a.args[0] if a.op == 'v' else (a.args[0],) + tuple(cval(i) if is_c(i) else None for i in a.args[1:])
            if a.op == 'v' or None not in key[1:]:
                pins[key] = cval(b)


class Sample:
    """lazily drawn assignment"""

    def __init__(self, rng, i, pins, consts):
        self.rng = rng
        self.i = i
        self.pins = pins
        self.consts = consts
        self.vals = {}
        self.nm = {}

    def info(self, name, idx):
        if idx:
            return tm.app_info.get(name, {})
        v = tm.mk('v', (name,), 'R') if ('v', (name,), 'R') in tm._table else None
        if v is not None and v in tm.var_info:
            return dict(tm.var_info[v], sort='R')
        v = tm.mk('v', (name,), 'I') if ('v', (name,), 'I') in tm._table else None
        if v is not None:
            return dict(tm.var_info.get(v, {}), sort='I')
        return {}

    def app(self, name, idx):
        key = (name,) + tuple(idx)
        v = self.vals.get(key)
        if v is None:
            v = self.draw(name, idx)
            self.vals[key] = v
        return v

    def draw(self, name, idx):
        p = self.pins.get(name if not idx else (name,) + tuple(idx))
        inf = self.info(name, idx)
        sort = inf.get('sort', 'R')
        if p is not None:
            return float(p) if sort == 'R' else int(p)
        lo, hi = inf.get('lo'), inf.get('hi')
        r = self.rng
        if sort == 'I':
            lo = 0 if lo is None else lo
            if name.startswith('len:') or '!' in name or hi is None or hi - lo > 12:
                m = r.choice([0, 1, 2, 3, 4])
                if hi is None:
                    hi = lo + 5
                return min(lo + m, hi) if r.random() < 0.9 else r.randint(lo, min(hi, lo + 200))
            return r.randint(lo, hi)
        lo = -1e4 if lo is None else float(lo)
        hi = 1e4 if hi is None else float(hi)
        u = r.random()
        if u < 0.12:
            return r.choice([lo, hi])
        if u < 0.35 and self.consts:
            c = r.choice(self.consts)
            c = c + r.choice([0, 0, 1e-3, -1e-3, 1, -1, 0.1, -0.1, 37.5, -37.5]) if r.random() < 0.8 else -c
            if lo <= c <= hi:
                return c
        if u < 0.5 and self.vals:
            # near another drawn value
            c = r.choice([v for v in self.vals.values()])
            if isinstance(c, float):
                c = c + r.choice([0.0, 1.0, -1.0, 100.0, -100.0, 400.0, -400.0, 0.01])
                if lo <= c <= hi:
                    return c
        if u < 0.65 and lo >= 0 and hi > 0:
            a = max(lo, hi * 1e-6, 1e-6)
            return math.exp(r.uniform(math.log(a), math.log(hi)))
        return r.uniform(lo, hi)

    def repair(self, pc, EvC, rounds=40):
        for _ in range(rounds):
            ev = EvC({}, self.app)
            bad = None
            for c in pc:
                if not ev(c):
                    bad = c
                    break
            if bad is None:
                return True
            names = symset(bad)
            keys = [k for k in self.vals if k[0] in names or any(isinstance(n, T) and n.args[0] == k[0] for n in names)]
            keys = [k for k in keys if (k[0] if len(k) == 1 else k) not in self.pins]
            if not keys:
                return False
            for k in self.rng.sample(keys, min(len(keys), 1 + self.rng.randrange(3))):
                self.vals[k] = self.draw(k[0], k[1:])
        return False

    def values(self):
        return dict(self.vals)


# ------------------------------------------------------------------ simplification under facts
def simplify(t, pc, pr):
    """replace conditions decided by the facts"""
    ia = IA(pc, False, pr.extra[-1])
    facts = set()
    for c in pc:
        facts.add(c)
        if c.op == 'and':
            facts.update(c.args)
    ckeys = None
    memo = {}
    nfk = {}
    for c in facts:
        try:
            nfk[nf._argkey(nf.cond(c))] = True
            nfk[nf._argkey(nf.cnot(nf.cond(c)))] = False
            k = nf.cond(c)
            if k[0] == 'lt':
                # p < 0  refutes -p < 0 and p = 0
                q = nf.clt(nf.pscale(k[1], -1))
                nfk[nf._argkey(q)] = False
                nfk[nf._argkey(nf.cnot(q))] = True
                e = nf.ceq(k[1])
                nfk[nf._argkey(e)] = False
                nfk[nf._argkey(nf.cnot(e))] = True
        except (nf.Blowup, ZeroDivisionError, OverflowError):
            pass

    def truth(c):
        if c in facts:
            return True
        if lnot(c) in facts:
            return False
        if c.op == 'le' and lt(c.args[0], c.args[1]) in facts:
            return True
        if any(v.op == 'bv' for v in c.fs):
            return None
        try:
            k = nfk.get(nf._argkey(nf.cond(c)))
            if k is not None:
                return k
        except (nf.Blowup, ZeroDivisionError, OverflowError):
            pass
        return ia.truth(c)

    def ordered(a, b):
        """a <= b by the structural order prover"""
        if a.sort != 'R' or any(v.op == 'bv' for v in a.fs) or any(v.op == 'bv' for v in b.fs):
            return False
        key = (frozenset(facts), a, b)
        r = pr.ordmemo.get(key)
        if r is None:
            from .mono import Mono
            pr.ordmemo[key] = False
            if pr.ordtime < 8:
                t0 = time.time()
                r = pr.ordmemo[key] = bool(Mono(pr, tuple(pc), t0 + 1.5).cmp(a, b, False))
                pr.ordtime += time.time() - t0
        return r

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        op = x.op
        if op in ('c', 'v', 'bv', 'inf', 'ninf', 'nan'):
            r = x
        elif op == 'ite':
            c = go(x.args[0])
            tr = truth(c)
            if tr is True:
                r = go(x.args[1])
            elif tr is False:
                r = go(x.args[2])
            else:
                r = ite(c, go(x.args[1]), go(x.args[2]))
        elif op in ('sum', 'forall', 'exists', 'loop', 'app'):
            r = x
        elif op == 'powi':
            r = powi(go(x.args[0]), x.args[1])
        elif op in ('lt', 'le', 'eq', 'not') and x.args[0].sort != 'B' or op == 'not':
            y = rebuild(x, [go(a) for a in x.args])
            tr = truth(y)
            r = TRUE if tr is True else FALSE if tr is False else y
        elif op == 'abs':
            a = go(x.args[0])
            z = R(0) if a.sort == 'R' else I(0)
            if truth(le(z, a)) is True:
                r = a
            elif truth(le(a, z)) is True:
                r = neg(a)
            else:
                r = fn1('abs', a)
        elif op in ('min', 'max'):
            a, b = go(x.args[0]), go(x.args[1])
            if truth(le(a, b)) is True:
                r = a if op == 'min' else b
            elif truth(le(b, a)) is True:
                r = b if op == 'min' else a
            elif ordered(a, b):
                r = a if op == 'min' else b
            elif ordered(b, a):
                r = b if op == 'min' else a
            else:
                r = fmin(a, b) if op == 'min' else fmax(a, b)
        elif op == 'r2i':
            r = mk('r2i', (go(x.args[0]),) + x.args[1:], 'I')
        else:
            r = rebuild(x, [go(a) if isinstance(a, T) else a for a in x.args])
        memo[x] = r
        return r
    return go(t)


def pick_cond(g, ia):
    """a condition occurring in g that is worth splitting on (closed, undecided)"""
    best = None
    for x in collect(g, [], set()):
        c = None
        if x.op == 'ite':
            c = x.args[0]
        elif x.op in ('min', 'max'):
            c = le(x.args[0], x.args[1])
        elif x.op == 'abs':
            c = le(R(0) if x.sort == 'R' else I(0), x.args[0])
        elif x.op in ('lt', 'le') and x is not g:
            c = x
        if c is None or c in (TRUE, FALSE):
            continue
        if any(v.op == 'bv' for v in c.fs):
            continue
        # split on an atomic literal
        while c.op in ('and', 'or', 'not'):
            c = c.args[0]
        if c.op in ('forall', 'exists') :
            continue
        if has_inner_cond(c):
            # prefer innermost conditions first
            cc = pick_cond(c, ia)
            if cc is not None:
                c = cc
        if best is None or c.id < best.id:
            best = c
    return best


def has_inner_cond(c):
    return any(x.op in ('ite', 'min', 'max', 'abs') for x in collect(c, [], set()))


# ------------------------------------------------------------------ NF -> z3
class NFSmt:
    def __init__(self, pr, pc):
        self.pr = pr
        self.side = []
        self.vars = {}
        self.pc = pc
        self.ia = IA(pc, False, pr.extra[-1])
        self.unit = {}
        self.sums = []
        self.exps = []
        self.memo = {}

    def cond(self, t):
        return self.c(nf.cond(t))

    def c(self, c):
        k = c[0]
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'not':
            return z3.Not(self.c(c[1]))
        if k == 'lt':
            return self.poly(c[1]) < 0
        if k == 'eq':
            return self.poly(c[1]) == 0
        if k in ('and', 'or'):
            x = [self.c(y) for y in c[1]]
            return z3.And(x) if k == 'and' else z3.Or(x)
        if k == 'b':
            return z3.Bool('b%d' % c[1].id)
        raise Unsup()

    def poly(self, p):
        terms = []
        for m, c in p.items():
            t = _num(c, 'R')
            for i, e in m:
                t = t * self.power(i, e)
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def power(self, i, e):
        e = Fraction(e)
        if nf.atoms[i].kind == 'E':
            # represent E^e for each exponent up to sign: E^-e = 1/E^e
            key = (i, abs(e))
            v = self.vars.get(key)
            if v is None:
                v = z3.Real('E%d_%d_%d' % (i, abs(e).numerator, abs(e).denominator))
                w = z3.Real('E%d_m%d_%d' % (i, abs(e).numerator, abs(e).denominator))
                self.vars[key] = v
                self.vars[(i, -abs(e))] = w
                self.side += [v > 0, w > 0, v * w == 1]
                self.exp_bounds(i, abs(e), v)
                # powers of the same atom
                for kk, u in list(self.vars.items()):
                    if not isinstance(kk, tuple) or not isinstance(kk[1], Fraction):
                        continue
                    j, f = kk
                    if j == i and f != abs(e) and f > 0:
                        q = abs(e) / f
                        if q.denominator == 1 and q <= 6:
                            self.side.append(v == _zp(u, int(q)))
                        elif (1 / q).denominator == 1 and 1 / q <= 6:
                            self.side.append(u == _zp(v, int(1 / q)))
                        else:
                            # monotone: base^a vs base^b
                            lo, hi = (u, v) if f < abs(e) else (v, u)
                            self.side.append(z3.And(z3.Implies(lo >= 1, hi >= lo), z3.Implies(lo <= 1, hi <= lo), (lo == 1) == (hi == 1)))
            return v if e > 0 else self.vars[(i, -abs(e))]
        if e.denominator != 1:
            raise Unsup()
        v = self.atom(i)
        n = int(e)
        if n > 0:
            return _zp(v, n)
        w = self.inv(i, v)
        return _zp(w, -n)

    def inv(self, i, v):
        key = ('inv', i)
        w = self.vars.get(key)
        if w is None:
            w = z3.Real('I%d' % i)
            self.vars[key] = w
            self.side.append(w * v == 1)
        return w

    def exp_bounds(self, i, e, v):
        try:
            t = nf.poly2term(nf.pscale(nf.atoms[i].args[0], e))
        except nf.Blowup:
            return
        lo, hi, bad = self.ia.ev(t)
        if lo > -700:
            self.side.append(v >= _num(Fraction(math.exp(min(lo, 700.0)) * (1 - 1e-12)), 'R'))
        if hi < 700:
            self.side.append(v <= _num(Fraction(math.exp(max(hi, -700.0)) * (1 + 1e-12)), 'R'))
        try:
            x = self.poly(nf.pscale(nf.atoms[i].args[0], e))
            # sign agreement and the tangent inequality e^x >= 1 + x
            self.side.append(v >= 1 + x)
            self.side.append(z3.And((v >= 1) == (x >= 0), (v <= 1) == (x <= 0)))
            for (y, u) in self.exps:
                self.side.append(z3.And((x <= y) == (v <= u), (x >= y) == (v >= u)))
            self.exps.append((x, v))
        except (Unsup, nf.Blowup):
            pass

    def atom(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        a = nf.atoms[i]
        k = a.kind
        if k == 'chi':
            c = self.c(a.args[0])
            v = z3.If(c, z3.RealVal(1), z3.RealVal(0))
            self.vars[i] = v
            return v
        if k == 't':
            t = a.args[0]
            if t.sort == 'I':
                n = z3.Int('i%d' % i)
                v = z3.ToReal(n)
                self.vars[i] = v
            else:
                v = z3.Real('a%d' % i)
            self.vars[i] = v
            lo, hi, bad = self.ia.ev(t)
            self._b(v, lo, hi)
            return v
        v = z3.Real('a%d' % i)
        self.vars[i] = v
        if k == 'inv':
            q = self.poly(a.args[0])
            self.side.append(v * q == 1)
        elif k == 'sqrt':
            q = self.poly(a.args[0])
            self.side += [v >= 0, v * v == q]
        elif k == 'abs':
            q = self.poly(a.args[0])
            self.side += [v == z3.If(q >= 0, q, -q)]
        elif k == 'fn' and a.args[0] == 'round':
            q = self.poly(a.args[1])
            n = z3.Int('n%d' % i)
            self.side += [v == z3.ToReal(n), v - q <= z3.RealVal('1/2'), q - v <= z3.RealVal('1/2')]
        elif k == 'fn' and a.args[0] in ('floor', 'ceil'):
            q = self.poly(a.args[1])
            self.side += [v <= q, q < v + 1] if a.args[0] == 'floor' else [v >= q, v < q + 1]
        elif k == 'ln':
            try:
                q = self.poly(a.args[0])
                self.side += [v <= q - 1, (v >= 0) == (q >= 1)]
            except Unsup:
                pass
        elif k == 'sum':
            self.sums.append(i)
        elif k == 'undef':
            return v
        try:
            t = nf.atom2term(i)
            lo, hi, bad = self.ia.ev(t)
            self._b(v, lo, hi)
        except (nf.Blowup, RecursionError):
            pass
        if nf.atom_nonneg(i):
            self.side.append(v >= 0)
        return v

    def _b(self, v, lo, hi):
        if lo not in (INFV, -INFV):
            self.side.append(v >= _num(Fraction(lo), 'R'))
        if hi not in (INFV, -INFV):
            self.side.append(v <= _num(Fraction(hi), 'R'))

    def lemmas(self, goal, pc):
        """instances for finite sums with non-negative bodies: sum >= any one term"""
        idx = set()
        for t in list(pc) + [goal]:
            for x in t.fs:
                if x.op == 'v' and x.sort == 'I' and ('idx!' in x.args[0] or 'm!' in x.args[0] or 'sk!' in x.args[0]):
                    idx.add(x)
        for i in list(self.sums):
            n, kb, body = nf.atoms[i].args
            try:
                bt = nf.poly2term(body)
                k = tm.fresh('lk', 'I', 0)
                lo, hi, bad = IA(tuple(pc) + (le(I(0), k), lt(k, nf.poly2term(n, 'I'))), False, self.pr.extra[-1]).ev(subst(bt, {kb: k}))
                nn = self.poly(n)
                if lo not in (INFV, -INFV):
                    self.side.append(self.atom(i) >= _num(Fraction(lo), 'R') * nn)
                if hi not in (INFV, -INFV):
                    self.side.append(self.atom(i) <= _num(Fraction(hi), 'R') * nn)
                if lo < 0 and not nf.pnonneg(body):
                    continue
                self.side.append(self.atom(i) >= 0)
                for j in idx:
                    ineq = lt(j, nf.poly2term(n, 'I'))
                    if ineq in pc or self.pr.lin_valid(tuple(pc), ineq):
                        b = nf.psubst(body, {kb: nf.norm(j)})
                        self.side.append(self.atom(i) >= self.poly(b))
            except (nf.Blowup, Unsup):
                pass


def _zp(v, n):
    r = v
    for _ in range(n - 1):
        r = r * v
    return r
