"""Interval analysis of terms.

mode R: bounds over the reals (used by the prover; transcendental results are widened
outward).  mode F: IEEE-754 double semantics, every operation rounded outward, infinities
are values and NaN is tracked (used for the finiteness obligations).
A result is (lo, hi, bad): `bad` is set when the operation may be undefined
(division by zero, sqrt of a negative, ln of a non-positive, NaN in mode F)."""
import math
from fractions import Fraction
from .terms import *
from . import terms as tm

INFV = math.inf


def dn(x):
    if isinstance(x, int) or x in (INFV, -INFV):
        return x
    return math.nextafter(x, -INFV)


def up(x):
    if isinstance(x, int) or x in (INFV, -INFV):
        return x
    return math.nextafter(x, INFV)


def fl(x):
    """Fraction/int -> float, for bounds"""
    try:
        return float(x)
    except OverflowError:
        return INFV if x > 0 else -INFV


def _mul(a, b):
    if a == 0 or b == 0:
        return 0 if isinstance(a, int) and isinstance(b, int) else 0.0
    return a * b


def _sexp(x):
    if x == -INFV:
        return 0.0
    if x > 709.7:
        return INFV
    return math.exp(x)


class IA:
    _nodiff = False

    def __init__(self, pc=(), fmode=False, extra=None, refine=None, budget=30000, light=False):
        self.F = fmode
        self.extra = extra or {}
        self.memo = {}
        self.ref = dict(refine) if refine else {}
        self.budget = budget
        self.depth = 12 if light else 0
        self.light = light
        self.facts = set()
        for c in pc:
            self.learn(c)
        self.trans(pc)

    def trans(self, pc):
        """a <= b and b <= c give the sign of a - c"""
        od = [c.args for c in pc if c.op in ('lt', 'le') and c.args[0].sort == 'R' and not is_c(c.args[0]) and not is_c(c.args[1])]
        if not 2 <= len(od) <= 10:
            return
        rel = set(od)
        for (a, b) in od:
            for (c, d) in od:
                if b is c and a is not d and (a, d) not in rel:
                    rel.add((a, d))
                    l, h = self.ref.get(sub(a, d), (-INFV, INFV))
                    self.ref[sub(a, d)] = (l, min(h, 0.0))
                    l, h = self.ref.get(sub(d, a), (-INFV, INFV))
                    self.ref[sub(d, a)] = (max(l, 0.0), h)
        self.memo.clear()

    # ---- refinement from literals
    def learn(self, c, depth=0):
        self.facts.add(c)
        if c.op == 'and':
            for x in c.args:
                self.learn(x)
            return
        if c.op in ('lt', 'le'):
            a, b = c.args
            if is_c(b):
                hi = self.num(b)
                if c.op == 'lt' and a.sort == 'I':
                    hi -= 1
                self.tighten(a, None, hi)
            elif is_c(a):
                lo = self.num(a)
                if c.op == 'lt' and a.sort == 'I':
                    lo += 1
                self.tighten(b, lo, None)
            elif self.light:
                return
            else:
                # a < b : use current bounds of the other side for simple terms
                try:
                    lo_a = self.ev(a)[0]
                    hi_b = self.ev(b)[1]
                except RecursionError:
                    return
                self.memo.clear()
                d = 1 if c.op == 'lt' and a.sort == 'I' else 0
                if hi_b != INFV:
                    self.tighten(a, None, hi_b - d if d else hi_b)
                if lo_a != -INFV:
                    self.tighten(b, lo_a + d if d else lo_a, None)
                if depth == 0 and not self._nodiff:
                    # the sign of the difference, should it occur
                    x, y = sub(b, a), sub(a, b)
                    z = 0 if a.sort == 'I' else 0.0
                    if not is_c(x):
                        l, h = self.ref.get(x, (-INFV, INFV))
                        self.ref[x] = (max(l, z), h)
                    if not is_c(y):
                        l, h = self.ref.get(y, (-INFV, INFV))
                        self.ref[y] = (l, min(h, z))
        elif c.op == 'eq':
            a, b = c.args
            if is_c(b):
                self.tighten(a, self.num(b), self.num(b))
            elif is_c(a):
                self.tighten(b, self.num(a), self.num(a))
        elif c.op == 'not' and c.args[0].op == 'eq' and c.args[0].args[0].sort == 'I':
            a, b = c.args[0].args
            if is_c(a):
                a, b = b, a
            if is_c(b):
                lo, hi = self.ref.get(a, (-INFV, INFV))
                l2, h2 = self.ev(a)[:2]
                self.memo.clear()
                v = cval(b)
                if l2 == v:
                    self.tighten(a, v + 1, None)
                elif h2 == v:
                    self.tighten(a, None, v - 1)

    def num(self, t):
        v = cval(t)
        return v if t.sort == 'I' else fl(v)

    def tighten(self, t, lo, hi, depth=0):
        l, h = self.ref.get(t, (-INFV, INFV))
        if lo is not None and lo > l:
            l = lo
        if hi is not None and hi < h:
            h = hi
        self.ref[t] = (l, h)
        self.memo.clear()
        if depth > 6 or self.light:
            return
        # propagate through simple invertible structure
        op = t.op
        if op in ('+', '-'):
            a, b = t.args
            al, ah = self.ev(a)[:2]
            bl, bh = self.ev(b)[:2]
            sl = 1 if t.sort == 'R' else 0
            if op == '+':
                self._tt(a, l - bh if l != -INFV and bh != INFV else None, h - bl if h != INFV and bl != -INFV else None, depth, sl)
                self._tt(b, l - ah if l != -INFV and ah != INFV else None, h - al if h != INFV and al != -INFV else None, depth, sl)
            else:
                self._tt(a, l + bl if l != -INFV and bl != -INFV else None, h + bh if h != INFV and bh != INFV else None, depth, sl)
                self._tt(b, al - h if h != INFV and al != -INFV else None, ah - l if l != -INFV and ah != INFV else None, depth, sl)
        elif op == 'abs' and h != INFV:
            self._tt(t.args[0], -h, h, depth, 0)
        elif op == 'i2r':
            a = t.args[0]
            self._tt(a, math.ceil(l) if l != -INFV else None, math.floor(h) if h != INFV else None, depth, 0)
        elif op == 'neg':
            self._tt(t.args[0], -h if h != INFV else None, -l if l != -INFV else None, depth, 0)
        elif op == '*' and is_c(t.args[0]) and cval(t.args[0]) != 0 and t.sort == 'R':
            c = fl(cval(t.args[0]))
            q = sorted([x for x in (l / c, h / c)])
            self._tt(t.args[1], q[0] if q[0] != -INFV else None, q[1] if q[1] != INFV else None, depth, 1)
        elif op == '*' and is_c(t.args[1]) and cval(t.args[1]) != 0 and t.sort == 'R':
            c = fl(cval(t.args[1]))
            q = sorted([x for x in (l / c, h / c)])
            self._tt(t.args[0], q[0] if q[0] != -INFV else None, q[1] if q[1] != INFV else None, depth, 1)
        elif op == '/' and is_c(t.args[1]) and cval(t.args[1]) != 0:
            c = fl(cval(t.args[1]))
            q = sorted([x for x in (l * c, h * c)])
            self._tt(t.args[0], q[0] if q[0] != -INFV else None, q[1] if q[1] != INFV else None, depth, 1)

    def _tt(self, t, lo, hi, depth, sl):
        if is_c(t):
            return
        if lo is not None and sl:
            lo = dn(lo - abs(lo) * 1e-15)
        if hi is not None and sl:
            hi = up(hi + abs(hi) * 1e-15)
        l, h = self.ref.get(t, (-INFV, INFV))
        if (lo is None or lo <= l) and (hi is None or hi >= h):
            return
        self.tighten(t, lo, hi, depth + 1)

    # ---- evaluation
    def ev(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            r = (-INFV, INFV, True)
            return r
        r = self._ev(t)
        q = self.ref.get(t)
        if q is not None:
            lo, hi, bad = r
            if q[0] > lo:
                lo = q[0]
            if q[1] < hi:
                hi = q[1]
            r = (lo, hi, bad)
        self.memo[t] = r
        return r

    def _ev(self, t):
        op = t.op
        if op == 'c':
            v = t.args[0]
            if t.sort == 'I':
                return (v, v, False)
            if t.sort == 'B':
                return (0, 1, False)
            f = fl(v)
            if Fraction(f) == v if math.isfinite(f) else False:
                return (f, f, False)
            return (dn(f), up(f), False)
        if op in ('v', 'bv'):
            e = self.extra.get(t)
            if e is not None:
                lo, hi = e
            else:
                inf = tm.var_info.get(t, {})
                lo, hi = inf.get('lo'), inf.get('hi')
            return self._vb(t, lo, hi)
        if op == 'app':
            inf = tm.app_info.get(t.args[0], {})
            return self._vb(t, inf.get('lo'), inf.get('hi'))
        if op == 'inf':
            return (INFV, INFV, not self.F)
        if op == 'ninf':
            return (-INFV, -INFV, not self.F)
        if op == 'nan':
            return (-INFV, INFV, True)
        if op == 'ite':
            return self._ite(t)
        if op == 'sum':
            return self._sum(t)
        if op == 'loop':
            return self._loop(t)
        if op == 'powi':
            return self._powi(self.ev(t.args[0]), t.args[1])
        if op == 'r2i':
            lo, hi, bad = self.ev(t.args[0])
            lo = max(lo, t.args[1])
            hi = min(hi, t.args[2])
            lo = math.trunc(lo) if abs(lo) < 1e300 else t.args[1]
            hi = math.trunc(hi) if abs(hi) < 1e300 else t.args[2]
            return (lo, hi, bad)
        if t.sort == 'B':
            return (0, 1, any(self.ev(a)[2] for a in t.args if isinstance(a, T) and a.sort != 'B'))
        a = [self.ev(x) for x in t.args]
        bad = any(x[2] for x in a)
        isI = t.sort == 'I'
        if op == '/' and t.args[0].op == 'sum' and t.args[1].op == 'i2r' and t.args[1].args[0] is t.args[0].args[0] and a[1][0] >= 1 and not bad:
            # a mean lies between the least and the greatest element
            n, kb, body = t.args[0].args
            k = tm.fresh('ik', 'I')
            s = IA((), self.F, {**self.extra, k: (0, a[1][1] - 1 if a[1][1] != INFV else INFV)}, self.ref, self.budget // 2)
            lo, hi, b2 = s.ev(subst(body, {kb: k}))
            sl = 1e-9 if self.F else 0.0
            lo, hi = (lo - abs(lo) * sl if abs(lo) != INFV else lo), (hi + abs(hi) * sl if abs(hi) != INFV else hi)
            if not b2:
                return self._r(lo, hi, False, False)
        if op in ('+', '-', '*'):
            A = a[0][:2]
            Bv = a[1][:2]
            if op == '*' and t.args[0] is t.args[1]:
                l, h = A
                c = sorted([abs(l), abs(h)])
                lo = 0 if isI else 0.0
                if l > 0 or h < 0:
                    lo = c[0] * c[0]
                hi = _big(c[1], c[1])
                return self._r(lo, hi, bad, isI)
            if op == '+':
                if self.F and ((A[1] == INFV and Bv[0] == -INFV) or (A[0] == -INFV and Bv[1] == INFV)):
                    bad = True
                lo = A[0] + Bv[0] if not (A[0] == -INFV or Bv[0] == -INFV) else -INFV
                hi = A[1] + Bv[1] if not (A[1] == INFV or Bv[1] == INFV) else INFV
                if A[0] == INFV or Bv[0] == INFV:
                    lo = lo if lo != lo or lo == -INFV else INFV
            elif op == '-':
                if self.F and ((A[1] == INFV and Bv[1] == INFV) or (A[0] == -INFV and Bv[0] == -INFV)):
                    bad = True
                lo = A[0] - Bv[1] if not (A[0] == -INFV or Bv[1] == INFV) else -INFV
                hi = A[1] - Bv[0] if not (A[1] == INFV or Bv[0] == -INFV) else INFV
                if t.args[1].op == 'max' and among(t.args[0], t.args[1], 'max') or t.args[0].op == 'min' and among(t.args[1], t.args[0], 'min'):
                    hi = min(hi, 0 if isI else 0.0)
                if t.args[1].op == 'min' and among(t.args[0], t.args[1], 'min') or t.args[0].op == 'max' and among(t.args[1], t.args[0], 'max'):
                    lo = max(lo, 0 if isI else 0.0)
            else:
                if self.F:
                    for x, y in ((A, Bv), (Bv, A)):
                        if x[0] <= 0 <= x[1] and (y[0] == -INFV or y[1] == INFV):
                            bad = True
                ps = [_big(x, y) for x in A for y in Bv]
                lo, hi = min(ps), max(ps)
            if op != '*' and not isI and lo == lo and hi == hi:
                if self.F and t.args[0].op != '*' and t.args[1].op != '*':
                    # rounding to nearest is monotone (a product here could belong to a fused multiply-add)
                    return (lo, hi, bad)
                if not self.F and (A[0] == 0 or Bv[0] == 0 or A[1] == 0 or Bv[1] == 0):
                    # adding zero is exact
                    r = self._r(lo, hi, bad, False)
                    b0, b1 = (Bv[0], Bv[1]) if op == '+' else (Bv[1], Bv[0])
                    return (lo if A[0] == 0 or b0 == 0 else r[0], hi if A[1] == 0 or b1 == 0 else r[1], bad)
            return self._r(lo, hi, bad, isI)
        if op == '/':
            A, Bv = a[0][:2], a[1][:2]
            if Bv[0] <= 0 <= Bv[1]:
                # possible division by zero
                if self.F:
                    return (-INFV, INFV, True)
                if Bv[0] == 0 and A[0] >= 0:
                    return (0.0, INFV, True)
                return (-INFV, INFV, True)
            if self.F and (A[1] == INFV or A[0] == -INFV) and (Bv[1] == INFV or Bv[0] == -INFV):
                bad = True
            ps = []
            for x in A:
                for y in Bv:
                    if x == 0:
                        ps.append(0.0)
                    elif y in (INFV, -INFV):
                        ps.append(0.0 if x not in (INFV, -INFV) else (0.0))
                        if x in (INFV, -INFV):
                            ps.append(x if y > 0 else -x)
                    elif x in (INFV, -INFV):
                        ps.append(x if y > 0 else -x)
                    else:
                        try:
                            ps.append(x / y)
                        except OverflowError:
                            ps.append(INFV if (x > 0) == (y > 0) else -INFV)
            lo, hi = min(ps), max(ps)
            if lo != lo or hi != hi:
                return (-INFV, INFV, True)
            if self.F:
                # rounding to nearest is monotone: the rounded endpoint quotients bound the rounded quotients
                return (lo, hi, bad)
            r = self._r(lo, hi, bad, False)
            # an endpoint x / x is exactly 1
            if lo == 1.0 and any(x == y for x in A for y in Bv):
                r = (1.0, r[1], bad)
            if hi == 1.0 and any(x == y for x in A for y in Bv):
                r = (r[0], 1.0, bad)
            return r
        if op == 'neg':
            return (-a[0][1], -a[0][0], bad)
        if op == 'i2r':
            lo, hi, _ = a[0]
            return self._r(fl(lo), fl(hi), bad, False)
        if op == 'exp':
            lo, hi = a[0][:2]
            l = _sexp(lo) * (1 - 1e-15) if lo > -745 else 0.0
            if l == INFV:
                l = 1.7e308
            h = _sexp(hi)
            h = h * (1 + 1e-15) if h < 1e308 else INFV
            if h == 0.0:
                h = 5e-324
            return (max(l, 0.0), h, bad)
        if op == 'ln':
            lo, hi = a[0][:2]
            if lo <= 0:
                return (-INFV, (math.log(hi) + 1e-12 if 0 < hi < INFV else INFV), True)
            return (_ln(lo) - 1e-13 * (1 + abs(_ln(lo))), (_ln(hi) + 1e-13 * (1 + abs(_ln(hi)))) if hi < INFV else INFV, bad)
        if op == 'sqrt':
            lo, hi = a[0][:2]
            if lo < 0:
                lo = 0.0
                # tiny negative values can only come from rounding; flag it
                bad = True
            return self._r(math.sqrt(lo) if lo < INFV else INFV, math.sqrt(hi) if 0 <= hi < INFV else (INFV if hi > 0 else 0.0), bad, False)
        if op == 'abs':
            lo, hi = a[0][:2]
            if lo >= 0:
                return (lo, hi, bad)
            if hi <= 0:
                return (-hi, -lo, bad)
            return (0 if isI else 0.0, max(-lo, hi), bad)
        if op == 'min':
            return (min(a[0][0], a[1][0]), min(a[0][1], a[1][1]), bad)
        if op == 'max':
            return (max(a[0][0], a[1][0]), max(a[0][1], a[1][1]), bad)
        if op in ('floor', 'ceil', 'round', 'trunc'):
            lo, hi = a[0][:2]
            f = lambda x: x if x in (INFV, -INFV) else float(math.floor(x) if op == 'floor' else math.ceil(x) if op == 'ceil' else math.trunc(x) if op == 'trunc' else math.floor(x + 0.5))
            g = lambda x: x if x in (INFV, -INFV) else float(math.floor(x) if op == 'floor' else math.ceil(x) if op == 'ceil' else math.trunc(x) if op == 'trunc' else math.ceil(x - 0.5))
            return (min(f(lo), g(lo)), max(f(hi), g(hi)), bad)
        if op == 'powf':
            A, Bv = a[0][:2], a[1][:2]
            if A[0] <= 0:
                if A[0] == 0 and Bv[0] > 0:
                    hi = max(_pow(A[1], Bv[0]), _pow(A[1], Bv[1]))
                    return (0.0, hi * (1 + 1e-14), bad)
                return (-INFV, INFV, True)
            ps = [_pow(x, y) for x in A for y in Bv]
            lo, hi = min(ps), max(ps)
            if any(p != p for p in ps):
                return (0.0, INFV, True)
            return (max(0.0, lo * (1 - 1e-14)) if lo < INFV else 1.7e308, hi * (1 + 1e-14) if hi < INFV else INFV, bad)
        if op in ('idiv', 'irem'):
            A, Bv = a[0][:2], a[1][:2]
            if Bv[0] <= 0:
                return (-INFV, INFV, True)
            if op == 'irem':
                if A[0] >= 0:
                    h = Bv[1] - 1
                    return (0, min(h, A[1]), bad)
                return (-Bv[1], Bv[1], bad)
            if A[0] >= 0 and Bv[1] != INFV:
                return (A[0] // Bv[1] if A[0] != INFV else 0, A[1] // Bv[0] if A[1] != INFV else INFV, bad)
            m = max(abs(A[0]), abs(A[1]))
            return (-m, m, bad)
        if op == 'tanh':
            return (-1.0, 1.0, bad)
        if op in ('sin', 'cos'):
            return (-1.0, 1.0, bad)
        if op == 'atan':
            return (-1.58, 1.58, bad)
        return (-INFV, INFV, True)

    def _vb(self, t, lo, hi):
        if lo is None:
            lo = -INFV
        if hi is None:
            hi = INFV
        if t.sort == 'R':
            lo = fl(lo) if lo != -INFV else lo
            hi = fl(hi) if hi != INFV else hi
        return (lo, hi, False)

    def _r(self, lo, hi, bad, isI):
        if isI:
            return (lo, hi, bad)
        if lo != lo or hi != hi:
            return (-INFV, INFV, True)
        if self.F:
            return (dn(lo) if lo not in (0.0,) else lo, up(hi) if hi != 0.0 else hi, bad) if True else None
        return (dn(lo) if lo != 0 else lo, up(hi) if hi != 0 else hi, bad)

    def _powi(self, A, n):
        lo, hi, bad = A
        if n % 2 == 0:
            m = [abs(lo), abs(hi)]
            l = 0.0 if lo <= 0 <= hi else _pw(min(m), n)
            return self._r(l, _pw(max(m), n), bad, False)
        return self._r(_pw(lo, n), _pw(hi, n), bad, False)

    def truth(self, c):
        """True/False/None under the current facts"""
        if c in self.facts:
            return True
        if lnot(c) in self.facts:
            return False
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        op = c.op
        if op in ('lt', 'le', 'eq'):
            if c.args[0].sort == 'B':
                return None
            A, Bv = self.ev(c.args[0]), self.ev(c.args[1])
            if op == 'lt':
                if A[1] < Bv[0]:
                    return True
                if A[0] >= Bv[1]:
                    return False
            elif op == 'le':
                if A[1] <= Bv[0]:
                    return True
                if A[0] > Bv[1]:
                    return False
            else:
                if A[1] < Bv[0] or A[0] > Bv[1]:
                    return False
                if A[0] == A[1] == Bv[0] == Bv[1]:
                    return True
            return None
        if op == 'not':
            r = self.truth(c.args[0])
            return None if r is None else not r
        if op == 'and':
            rs = [self.truth(x) for x in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if op == 'or':
            rs = [self.truth(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        return None

    def sub(self, c):
        r = IA((), self.F, self.extra, self.ref, self.budget // 2)
        r.facts = set(self.facts)
        r.depth = self.depth + 1
        r.learn(c)
        return r

    def _ite(self, t):
        c, a, b = t.args
        tr = self.truth(c)
        if tr is True:
            return self.ev(a)
        if tr is False:
            return self.ev(b)
        if t.sort != 'B' and chain(t) > 6:
            # a table (if-else chain of constants): walk it without nesting
            lo, hi, bad = self.ev(a)
            while b.op == 'ite' and is_c(b.args[1]):
                v = self.ev(b.args[1])
                lo, hi = min(lo, v[0]), max(hi, v[1])
                b = b.args[2]
            v = self.ev(b)
            return (min(lo, v[0]), max(hi, v[1]), v[2])
        if self.depth < 12:
            A = self.sub(c).ev(a)
            Bv = self.sub(lnot(c)).ev(b)
        else:
            A, Bv = self.ev(a), self.ev(b)
        return (min(A[0], Bv[0]), max(A[1], Bv[1]), A[2] or Bv[2])

    def _sum(self, t):
        n, kb, body = t.args
        N = self.ev(n)
        k = tm.fresh('ik', 'I')
        s = IA((), self.F, {**self.extra, k: (0, N[1] - 1 if N[1] != INFV else INFV)}, self.ref, self.budget // 2)
        s.facts = set(self.facts)
        s.depth = self.depth + 1
        lo, hi, bad = s.ev(subst(body, {kb: k})) if self.depth < 6 else (-INFV, INFV, True)
        isI = t.sort == 'I'
        nl, nh = max(N[0], 0), max(N[1], 0)
        if nh == 0:
            return (0, 0, False) if isI else (0.0, 0.0, False)
        L = _big(lo, nh) if lo < 0 else _big(lo, nl)
        H = _big(hi, nh) if hi > 0 else _big(hi, nl)
        if not isI:
            # accumulated rounding: n additions, each relative 2^-53
            sl = 1e-9 if self.F else 0.0
            if L not in (INFV, -INFV):
                L = L - abs(L) * sl if L > 0 else L * (1 + sl)
            if H not in (INFV, -INFV):
                H = H * (1 + sl) if H > 0 else H - abs(H) * sl * 0
        return self._r(L, H, bad, isI)

    def _loop(self, t):
        n, kb, syms, inits, bodies, guard, which = t.args
        if self.depth > 4:
            return (-INFV, INFV, True)
        cur = [self.ev(i) for i in inits]
        N = self.ev(n) if n is not None else (0, INFV, False)
        k = tm.fresh('ik', 'I')
        fs = [tm.fresh('ix', s.sort) for s in syms]
        m = {kb: k}
        m.update(dict(zip(syms, fs)))
        bs = [subst(b, m) for b in bodies]
        g = subst(guard, m) if guard is not None else None
        th = [-1e300, -1e100, -1e9, -900.0, -1.0, 0.0, 1e-300, 1e-12, 1e-6, 1.0, 100.0, 1e9, 1e100, 1e300]
        for rnd in range(9):
            ex = dict(self.extra)
            ex[k] = (0, N[1] - 1 if N[1] != INFV else INFV)
            for f, c in zip(fs, cur):
                ex[f] = (c[0], c[1])
            s = IA((), self.F, ex, self.ref, self.budget // 3)
            s.facts = set(self.facts)
            s.depth = self.depth + 1
            if g is not None:
                s.learn(g)
            nxt = []
            stable = True
            for c, b in zip(cur, bs):
                v = s.ev(b) if b.sort != 'B' else (0, 1, False)
                lo, hi = min(c[0], v[0]), max(c[1], v[1])
                if lo < c[0]:
                    stable = False
                    if rnd >= 2:
                        lo = max([x for x in th if x <= lo], default=-INFV) if rnd < 6 else -INFV
                if hi > c[1]:
                    stable = False
                    if rnd >= 2:
                        hi = min([x for x in th if x >= hi], default=INFV) if rnd < 6 else INFV
                bad = c[2] or v[2]
                if bad and not c[2]:
                    stable = False
                nxt.append((lo, hi, bad))
            cur = nxt
            if stable:
                break
            if rnd == 7:
                break
        if stable and not any(c[2] or c[0] == -INFV or c[1] == INFV for c in cur):
            return cur[which]
        r = self._loop_steps(t, N, k, fs, bs, g)
        if r is not None:
            return r[which]
        return cur[which] if stable else (-INFV, INFV, True)

    BIG = 1e15

    def _loop_steps(self, t, N, k, fs, bs, g, fixed=None):
        """components that drift by a bounded amount per iteration, for a bounded number of iterations"""
        n, kb, syms, inits, bodies, guard, which = t.args
        if N[1] == INFV or any(s.sort != 'R' for s in syms):
            return None
        init = [self.ev(i) for i in inits]
        if any(c[2] for c in init):
            return None
        fixed = fixed or {}
        drift = set(fixed)
        nonneg = set()
        cur = list(init)
        for rnd in range(12):
            ex = dict(self.extra)
            ex[k] = (0, N[1] - 1)
            for j, (f, c) in enumerate(zip(fs, cur)):
                ex[f] = fixed[j][:2] if j in fixed else (0.0 if j in nonneg else -self.BIG, self.BIG) if j in drift else (c[0], c[1])
            s = IA((), self.F, ex, self.ref, self.budget // 3)
            s.facts = set(self.facts)
            s.depth = self.depth + 1
            if g is not None:
                s.learn(g)
            stable = True
            for j, b in enumerate(bs):
                v = s.ev(b)
                if v[2]:
                    return None
                if j in drift:
                    if j not in nonneg and v[0] >= 0 and init[j][0] >= 0:
                        nonneg.add(j)
                        stable = False
                    continue
                lo, hi = min(cur[j][0], v[0]), max(cur[j][1], v[1])
                if lo < cur[j][0] or hi > cur[j][1]:
                    stable = False
                    # tolerate rounding: a component that only shrinks may creep by one ulp
                    if rnd >= 3:
                        lo, hi = lo - abs(lo) * 1e-9, hi + abs(hi) * 1e-9
                    if rnd >= 6:
                        drift.add(j)
                cur[j] = (lo, hi, False)
            if stable:
                break
        else:
            return None
        out = list(cur)
        for j in sorted(drift, key=lambda j: step(s, bs[j], fs[j]) is not None):
            d = step(s, bs[j], fs[j])
            if d is None:
                c = ratio(s, bs[j], fs[j])
                if c is None or c > 1 + 1e-13:
                    return None
                m = max(abs(init[j][0]), abs(init[j][1])) * 2
                v = s.ev(bs[j])
                # |x| grows by a factor of at most 1 + 1e-13 per iteration
                if c > 1 and N[1] > 1e12:
                    return None
                out[j] = (0.0 if v[0] >= 0 and init[j][0] >= 0 else -m, m, False)
                if j not in fixed:
                    fixed[j] = out[j]
                    return self._loop_steps(t, N, k, fs, bs, g, fixed)
                continue
            lo = init[j][0] + min(0.0, d[0] * 1.000001 - 1.0) * N[1]
            hi = init[j][1] + max(0.0, d[1] * 1.000001 + 1.0) * N[1]
            if lo < -self.BIG or hi > self.BIG:
                return None
            out[j] = (lo, hi, False)
        return out


def step(ia, b, f):
    """bounds of b - f when f is an addend of b (rounding of values below 1e15 is within the slack of 1)"""
    def go(t):
        """(coefficient of f, bounds of the rest)"""
        if t is f:
            return 1, 0.0, 0.0
        if f not in t.fs:
            l, h, bad = ia.ev(t)
            return None if bad else (0, l, h)
        if t.op in ('+', '-'):
            x, y = go(t.args[0]), go(t.args[1])
            if x is None or y is None:
                return None
            if t.op == '+':
                return x[0] + y[0], x[1] + y[1], x[2] + y[2]
            return x[0] - y[0], x[1] - y[2], x[2] - y[1]
        if t.op == 'ite':
            x, y = go(t.args[1]), go(t.args[2])
            if x is not None and y is not None and x[0] == y[0]:
                return x[0], min(x[1], y[1]), max(x[2], y[2])
        l, h, bad = ia.ev(t)
        return None if bad else (0, l, h)
    r = go(b)
    if r is None or r[0] != 1 or r[1] == -INFV or r[2] == INFV or r[1] != r[1] or r[2] != r[2]:
        return None
    return r[1], r[2]


def ratio(ia, b, f):
    """r with |b| <= r |f|"""
    def mag(t):
        l, h, bad = ia.ev(t)
        return INFV if bad else max(abs(l), abs(h))

    def go(t):
        """(d, c) with |t| <= c |f|^d"""
        if t is f:
            return 1, 1.0
        if t.op == 'powi' and t.args[1] > 0:
            r = go(t.args[0])
            return r[0] * t.args[1], r[1] ** t.args[1]
        if t.op == '*':
            x, y = go(t.args[0]), go(t.args[1])
            return x[0] + y[0], _big(x[1], y[1]) * (1 + 1e-15)
        if t.op == 'sqrt':
            x = go(t.args[0])
            return Fraction(x[0]) / 2, (math.sqrt(x[1]) if x[1] != INFV else INFV) * (1 + 1e-15)
        return 0, mag(t)
    d, c = go(b)
    return c if d == 1 and c == c and c < INFV else None


def among(x, t, op):
    if t is x:
        return True
    return t.op == op and any(among(x, y, op) for y in t.args)


def chain(t):
    n = 0
    while t.op == 'ite' and is_c(t.args[1]):
        n += 1
        t = t.args[2]
    return n


def _big(x, y):
    if x == 0 or y == 0:
        return 0 if isinstance(x, int) and isinstance(y, int) else 0.0
    try:
        return x * y
    except OverflowError:
        return INFV if (x > 0) == (y > 0) else -INFV


def _ln(x):
    return math.log(x) if x < INFV else INFV


def _pw(x, n):
    try:
        return x ** n
    except OverflowError:
        return INFV if x > 0 or n % 2 == 0 else -INFV


def _pow(a, b):
    try:
        if a == INFV or abs(b) == INFV:
            return math.pow(a, b)
        return math.pow(a, b)
    except OverflowError:
        return INFV
    except (ValueError, ZeroDivisionError):
        return INFV if a == 0 else math.nan
