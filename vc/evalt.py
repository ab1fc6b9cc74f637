"""Numeric evaluation of terms (double precision), used to refute candidate equalities
and to look for concrete inputs on a path.  Never used to accept an obligation."""
import math
from .terms import *


class EvalError(Exception):
    pass


def _exp(x):
    if x > 709.7:
        return math.inf
    return math.exp(x)


def _pow(a, b):
    try:
        return math.pow(a, b)
    except OverflowError:
        return math.inf
    except ValueError:
        if a == 0 and b < 0:
            return math.inf
        return math.nan


def _ln(x):
    if x > 0:
        return math.log(x)
    if x == 0:
        return -math.inf
    return math.nan


_fn = {
    'exp': _exp, 'ln': _ln, 'sqrt': lambda x: math.sqrt(x) if x >= 0 else math.nan,
    'abs': abs, 'floor': lambda x: float(math.floor(x)) if math.isfinite(x) else x,
    'ceil': lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
    'trunc': lambda x: float(math.trunc(x)) if math.isfinite(x) else x,
    'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) else x,
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'tanh': math.tanh,
    'sinh': math.sinh, 'cosh': math.cosh, 'asin': math.asin, 'acos': math.acos,
}


class Ev:
    """env: dict var T -> value; appf(name, idx tuple) -> value"""

    def __init__(self, env, appf, budget=400000):
        self.env = dict(env)
        self.appf = appf
        self.memo = {}
        self.budget = budget

    def __call__(self, t):
        return self.ev(t, self.env, self.memo)

    def ev(self, t, env, memo):
        r = memo.get(t.id)
        if r is not None:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise EvalError('budget')
        op = t.op
        if op == 'c':
            v = t.args[0]
            r = float(v) if t.sort == 'R' else v
        elif op in ('v', 'bv'):
            if t not in env:
                r = self.appf(t.args[0], ()) if op == 'v' else None
                if r is None:
                    raise EvalError('unbound %r' % t)
            else:
                r = env[t]
        elif op == 'inf':
            r = math.inf
        elif op == 'ninf':
            r = -math.inf
        elif op == 'nan':
            r = math.nan
        elif op == 'app':
            r = self.appf(t.args[0], tuple(self.ev(a, env, memo) for a in t.args[1:]))
        elif op == 'ite':
            r = self.ev(t.args[1] if self.ev(t.args[0], env, memo) else t.args[2], env, memo)
        elif op == 'and':
            r = all(self.ev(a, env, memo) for a in t.args)
        elif op == 'or':
            r = any(self.ev(a, env, memo) for a in t.args)
        elif op == 'powi':
            x = self.ev(t.args[0], env, memo)
            try:
                r = x ** t.args[1]
            except OverflowError:
                r = math.inf
        elif op in ('sum', 'forall', 'exists'):
            n, b, body = t.args
            n = self.ev(n, env, memo)
            if op == 'sum':
                r = 0.0 if t.sort == 'R' else 0
            else:
                r = op == 'forall'
            bad = None
            for i in range(int(n)):
                e2 = dict(env)
                e2[b] = i
                x = self.sub_ev(body, e2, memo, {b})
                if op == 'sum':
                    r = r + x
                elif op == 'forall':
                    if not x:
                        r = False
                        break
                elif x:
                    r = True
                    break
        elif op == 'loop':
            n, k, syms, inits, bodies, guard, which = t.args
            x = [self.ev(i, env, memo) for i in inits]
            i = 0
            lim = int(self.ev(n, env, memo)) if n is not None else 100000
            bound = set(syms) | {k}
            while i < lim:
                e2 = dict(env)
                e2[k] = i
                for s, v in zip(syms, x):
                    e2[s] = v
                m2 = {}
                if guard is not None and not self.sub_ev(guard, e2, memo, bound, m2):
                    break
                x = [self.sub_ev(b, e2, memo, bound, m2) for b in bodies]
                i += 1
            r = x[which]
        else:
            a = [self.ev(y, env, memo) if hasattr(y, 'op') else y for y in t.args]
            r = self.apply(op, a)
        memo[t.id] = r
        return r

    def sub_ev(self, body, env, memo, bound, m2=None):
        if m2 is None:
            m2 = {}
        return self.ev(body, env, _Overlay(memo, m2, bound, body))

    def apply(self, op, a):
        try:
            if op == '+':
                return a[0] + a[1]
            if op == '-':
                return a[0] - a[1]
            if op == '*':
                return a[0] * a[1]
            if op == '/':
                if a[1] == 0:
                    if a[0] == 0 or math.isnan(a[0]):
                        return math.nan
                    return math.copysign(math.inf, a[0]) * math.copysign(1, a[1])
                return a[0] / a[1]
            if op == 'neg':
                return -a[0]
            if op == 'i2r':
                return float(a[0])
            if op == 'r2i':
                return int(a[0])
            if op == 'lt':
                return a[0] < a[1]
            if op == 'le':
                return a[0] <= a[1]
            if op == 'eq':
                return a[0] == a[1]
            if op == 'not':
                return not a[0]
            if op == 'min':
                return a[1] if math.isnan(a[0]) else a[0] if math.isnan(a[1]) else min(a)
            if op == 'max':
                return a[1] if math.isnan(a[0]) else a[0] if math.isnan(a[1]) else max(a)
            if op == 'powf':
                return _pow(a[0], a[1])
            if op == 'idiv':
                q = abs(a[0]) // abs(a[1])
                return q if (a[0] >= 0) == (a[1] >= 0) else -q
            if op == 'irem':
                return int(math.fmod(a[0], a[1]))
            return _fn[op](a[0])
        except (OverflowError,):
            return math.inf
        except (ValueError, ZeroDivisionError):
            return math.nan


class _Overlay:
    """memo split: terms that do not mention the bound variables go to the outer memo"""
    __slots__ = ('outer', 'inner', 'bound')

    def __init__(self, outer, inner, bound, body):
        self.outer = outer
        self.inner = inner
        self.bound = bound

    def get(self, i):
        r = self.inner.get(i)
        if r is not None:
            return r
        return self.outer.get(i)

    def __setitem__(self, i, v):
        # conservative: anything computed under the binder stays in the inner memo
        self.inner[i] = v
