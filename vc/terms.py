"""Hash-consed terms: the raw DAG the symbolic executor builds from the MIR.

Sorts: 'R' (f64, read as exact reals in R-mode), 'I' (machine integers, read as
mathematical integers with explicit range obligations), 'B' (bool).
The DAG keeps the operations in the order in which the code performs them, so the
IEEE interval analysis (fmode.py) can replay them; nf.py computes a normal form.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(20000)

_table = {}
_count = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fs', 'h', 'cache')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_empty = frozenset()


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.sort = sort
    _count[0] += 1
    t.id = _count[0]
    t.cache = None
    fs = _empty
    h = 0
    if op in ('v', 'bv'):
        fs = frozenset((t,))
    elif op == 'c':
        pass
    elif op == 'app':
        for a in args[1:]:
            fs = fs | a.fs if fs else a.fs
            h = max(h, a.h)
    elif op in ('sum', 'forall', 'exists'):
        n, bv, body = args
        fs = n.fs | (body.fs - {bv})
        h = max(n.h, body.h, bv.args[0])
    elif op == 'loop':
        n, k, syms, inits, bodies, guard, which = args
        bound = set(syms)
        bound.add(k)
        fs = set()
        if n is not None:
            fs |= n.fs
            h = max(h, n.h)
        for i in inits:
            fs |= i.fs
            h = max(h, i.h)
        inner = set()
        for b in bodies:
            inner |= b.fs
            h = max(h, b.h)
        if guard is not None:
            inner |= guard.fs
            h = max(h, guard.h)
        fs = frozenset(fs | (inner - bound))
        h = max(h, k.args[0])
    else:
        for a in args:
            if isinstance(a, T):
                if a.fs:
                    fs = fs | a.fs if fs else a.fs
                if a.h > h:
                    h = a.h
    t.fs = fs
    t.h = h
    _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def R(x):
    if isinstance(x, Fraction):
        return mk('c', (x,), 'R')
    if isinstance(x, int):
        return mk('c', (Fraction(x),), 'R')
    x = float(x)
    if math.isinf(x):
        return INF if x > 0 else NINF
    if math.isnan(x):
        return NAN
    # a literal such as 1.02 stands for the decimal number written in the source
    d = repr(x)
    if sum(ch.isdigit() for ch in d.split('e')[0]) <= 15:
        return mk('c', (Fraction(d),), 'R')
    return mk('c', (Fraction(x),), 'R')


def I(x):
    return mk('c', (int(x),), 'I')


TRUE = mk('c', (True, 'b'), 'B')
FALSE = mk('c', (False, 'b'), 'B')
INF = mk('inf', (), 'R')
NINF = mk('ninf', (), 'R')
NAN = mk('nan', (), 'R')


def B(x):
    return TRUE if x else FALSE


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- variables
_fresh = [0]
var_info = {}      # T -> dict(lo=,hi=,name=)


def var(name, sort='R', lo=None, hi=None):
    t = mk('v', (name,), sort)
    if t not in var_info:
        var_info[t] = dict(lo=lo, hi=hi)
    return t


def fresh(prefix, sort='R', lo=None, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort, lo, hi)


app_info = {}      # name -> dict(lo, hi)


def app(name, idx, sort='R', lo=None, hi=None):
    if not idx:
        return var(name, sort, lo, hi)
    if name not in app_info:
        app_info[name] = dict(lo=lo, hi=hi, sort=sort)
    return mk('app', (name,) + tuple(idx), sort)


def bv(h, n, sort):
    return mk('bv', (h, n), sort)


# ---------------------------------------------------------------- arithmetic
def _special(a):
    return a.op in ('inf', 'ninf', 'nan')


EXACT = [True]


def add(a, b):
    if is_c(a) and is_c(b):
        return mk('c', (cval(a) + cval(b),), a.sort)
    if is_c(a) and cval(a) == 0:
        return b
    if is_c(b) and cval(b) == 0:
        return a
    if a.sort == 'I':
        # keep integer sums flat-ish: (x + c1) + c2
        if is_c(b) and a.op == '+' and is_c(a.args[1]):
            return add(a.args[0], I(cval(a.args[1]) + cval(b)))
        if is_c(a):
            return add(b, a)
    elif EXACT[0] and a.sort == 'R':
        # exact arithmetic only (not in obligations about rounding and overflow)
        if a.op == '-' and a.args[1] is b and not _special(b):
            return a.args[0]
        if b.op == '-' and b.args[1] is a and not _special(a):
            return b.args[0]
    return mk('+', (a, b), a.sort)


def sub(a, b):
    if is_c(a) and is_c(b):
        return mk('c', (cval(a) - cval(b),), a.sort)
    if is_c(b) and cval(b) == 0:
        return a
    if a is b and not _special(a):
        return mk('c', (cval(a) * 0 if is_c(a) else (Fraction(0) if a.sort == 'R' else 0),), a.sort)
    if a.sort == 'I':
        if is_c(b):
            return add(a, I(-cval(b)))
        if a.op == '+' and a.args[0] is b:
            return a.args[1]
        if a.op == '+' and a.args[1] is b:
            return a.args[0]
    elif EXACT[0] and a.sort == 'R':
        # exact arithmetic only (not in obligations about rounding and overflow)
        r = cancel(a, b)
        if r is not None:
            return r
    return mk('-', (a, b), a.sort)


_cancel = {}


def cancel(a, b):
    """a - b when b is visibly a summand of a (in every case of a common case distinction)"""
    if a is b and not _special(a):
        return R(0)
    if is_c(b) and cval(b) == 0:
        return a
    if a.op == '+' and not _special(b):
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if b.op == '-' and b.args[0] is a and not _special(a):
        return b.args[1]
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        k = (a, b)
        if k not in _cancel:
            x = cancel(a.args[1], b.args[1])
            y = None if x is None else cancel(a.args[2], b.args[2])
            _cancel[k] = None if y is None else ite(a.args[0], x, y)
        return _cancel[k]
    return None


def mul(a, b):
    if is_c(a) and is_c(b):
        return mk('c', (cval(a) * cval(b),), a.sort)
    if is_c(a) and cval(a) == 1:
        return b
    if is_c(b) and cval(b) == 1:
        return a
    if (is_c(a) and cval(a) == 0 and not _special(b)) or (is_c(b) and cval(b) == 0 and not _special(a)):
        return mk('c', (Fraction(0) if a.sort == 'R' else 0,), a.sort)
    return mk('*', (a, b), a.sort)


def div(a, b):
    if is_c(b) and cval(b) != 0 and is_c(a):
        return R(cval(a) / cval(b))
    if is_c(b) and cval(b) == 1:
        return a
    if _special(b) and b.op != 'nan' and not _special(a):
        return R(0)
    return mk('/', (a, b), 'R')


def neg(a):
    if is_c(a):
        return mk('c', (-cval(a),), a.sort)
    if a is INF:
        return NINF
    if a is NINF:
        return INF
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), a.sort)


def idiv(a, b):
    if is_c(a) and is_c(b) and cval(b) != 0:
        q = abs(cval(a)) // abs(cval(b))
        return I(q if (cval(a) >= 0) == (cval(b) >= 0) else -q)
    if is_c(b) and cval(b) == 1:
        return a
    return mk('idiv', (a, b), 'I')


def irem(a, b):
    if is_c(a) and is_c(b) and cval(b) != 0:
        return I(int(math.fmod(cval(a), cval(b))))
    return mk('irem', (a, b), 'I')


def i2r(a):
    if is_c(a):
        return R(cval(a))
    if a.op == 'ite':
        return ite(a.args[0], i2r(a.args[1]), i2r(a.args[2]))
    return mk('i2r', (a,), 'R')


def _f(fn, x):
    try:
        return fn(float(x))
    except (OverflowError, ValueError):
        return None


_unary = {
    'exp': math.exp, 'ln': math.log, 'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'atan': math.atan, 'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh,
    'asin': math.asin, 'acos': math.acos,
}


def fn1(op, a):
    if op == 'abs':
        if is_c(a):
            return mk('c', (abs(cval(a)),), a.sort)
        if a in (INF, NINF):
            return INF
        if a.op in ('abs', 'exp', 'sqrt'):
            return a
        if a.op == 'neg':
            return fn1('abs', a.args[0])
        if a.op == '*' and a.args[0] is a.args[1]:
            return a
        return mk('abs', (a,), a.sort)
    if op in ('floor', 'ceil', 'round', 'trunc', 'signum'):
        if is_c(a):
            v = cval(a)
            if op == 'floor':
                return R(math.floor(v))
            if op == 'ceil':
                return R(math.ceil(v))
            if op == 'trunc':
                return R(math.trunc(v))
            if op == 'signum':
                return R(1 if v >= 0 else -1)
            s = 1 if v >= 0 else -1
            return R(s * math.floor(abs(v) + Fraction(1, 2)))
        if op == 'signum':
            return ite(lt(a, R(0)), R(-1), R(1))
        if a.op in ('i2r', 'floor', 'ceil', 'round', 'trunc'):
            return a
        return mk(op, (a,), 'R')
    if is_c(a):
        if op == 'exp' and cval(a) == 0:
            return R(1)
        if op == 'ln' and cval(a) == 1:
            return R(0)
        v = _f(_unary[op], cval(a))
        if v is not None and math.isfinite(v):
            return R(v)
    if op == 'exp' and a is NINF:
        return R(0)
    if op == 'exp' and a is INF:
        return INF
    if op in ('sqrt', 'ln') and a is INF:
        return INF
    if op == 'ln' and a.op == 'exp':
        return a.args[0]
    if op == 'exp' and a.op == 'ln':
        return a.args[0]
    return mk(op, (a,), 'R')


def powi(a, n):
    if is_c(a) and (cval(a) != 0 or n > 0):
        if abs(n) <= 64:
            return R(cval(a) ** n)
    if n == 0:
        return R(1)
    if n == 1:
        return a
    if n < 0:
        return div(R(1), powi(a, -n))
    return mk('powi', (a, n), 'R')


def powf(a, b):
    if is_c(b):
        v = cval(b)
        if v == Fraction(1, 2):
            return fn1('sqrt', a)
        if v.denominator == 1 and abs(v) <= 64:
            return powi(a, int(v))
        if is_c(a):
            r = _f(lambda z: math.pow(float(cval(a)), z), v)
            if r is not None and math.isfinite(r):
                return R(r)
    if is_c(a) and cval(a) == 1:
        return R(1)
    return mk('powf', (a, b), 'R')


def fmin(a, b):
    if a is INF:
        return b
    if b is INF:
        return a
    if a is b:
        return a
    if is_c(a) and is_c(b):
        return a if cval(a) <= cval(b) else b
    return mk('min', (a, b), a.sort)


def fmax(a, b):
    if a is NINF:
        return b
    if b is NINF:
        return a
    if a is b:
        return a
    if is_c(a) and is_c(b):
        return a if cval(a) >= cval(b) else b
    return mk('max', (a, b), a.sort)


# ---------------------------------------------------------------- booleans
def lnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    if a.op == 'or':
        return land(*[lnot(x) for x in a.args])
    if a.op == 'and':
        return lor(*[lnot(x) for x in a.args])
    if a.op == 'forall':
        n, b, body = a.args
        return mk('exists', (n, b, lnot(body)), 'B')
    if a.op == 'exists':
        n, b, body = a.args
        return mk('forall', (n, b, lnot(body)), 'B')
    return mk('not', (a,), 'B')


def _flat(op, xs):
    out = []
    seen = set()
    for x in xs:
        if x.op == op:
            for y in x.args:
                if y not in seen:
                    seen.add(y)
                    out.append(y)
        elif x not in seen:
            seen.add(x)
            out.append(x)
    return out


def land(*xs):
    xs = [x for x in _flat('and', xs) if x is not TRUE]
    if any(x is FALSE for x in xs):
        return FALSE
    s = set(xs)
    if any(lnot(x) in s for x in xs if x.op not in ('and', 'or', 'forall', 'exists')):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return mk('and', tuple(xs), 'B')


def lor(*xs):
    xs = [x for x in _flat('or', xs) if x is not FALSE]
    if any(x is TRUE for x in xs):
        return TRUE
    s = set(xs)
    if any(lnot(x) in s for x in xs if x.op not in ('and', 'or', 'forall', 'exists')):
        return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return mk('or', tuple(xs), 'B')


def lt(a, b):
    if is_c(a) and is_c(b):
        return B(cval(a) < cval(b))
    if a is b:
        return FALSE
    if a is NAN or b is NAN:
        return FALSE
    if a is INF or b is NINF:
        return FALSE
    if a is NINF or b is INF:
        return TRUE
    return mk('lt', (a, b), 'B')


def le(a, b):
    if is_c(a) and is_c(b):
        return B(cval(a) <= cval(b))
    if a is b and a is not NAN:
        return TRUE
    if a is NAN or b is NAN:
        return FALSE
    if a is NINF or b is INF:
        return TRUE
    if a is INF or b is NINF:
        return FALSE
    return mk('le', (a, b), 'B')


def eq(a, b):
    if a.sort == 'B':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return lnot(b)
        if b is FALSE:
            return lnot(a)
    if a is b and a is not NAN:
        return TRUE
    if is_c(a) and is_c(b):
        return B(cval(a) == cval(b))
    if a is NAN or b is NAN:
        return FALSE
    if _special(a) or _special(b):
        if not (_special(a) and _special(b)) and a.op != 'ite' and b.op != 'ite':
            return FALSE
    if EXACT[0] and is_c(b) and cval(b) == 0 and a.op == '-' and a.args[0].op == 'exp' and is_c(a.args[1]) and cval(a.args[1]) == 1:
        return eq(a.args[0].args[0], R(0))          # exp(t) - 1 = 0
    if a.op == 'ite' and is_c(b) and (is_c(a.args[1]) or is_c(a.args[2])):
        return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and is_c(a) and (is_c(b.args[1]) or is_c(b.args[2])):
        return bite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if b.id < a.id:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def bite(c, a, b):
    return lor(land(c, a), land(lnot(c), b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return bite(c, a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if EXACT[0] and c.op in ('lt', 'le'):
        x, y = c.args
        if a is x and b is y:
            return fmin(a, b)
        if a is y and b is x:
            return fmax(a, b)
    if c.op == 'eq':
        r = _cases(c, a, b)
        if r is not None:
            return r
    if c in _conds:
        a, b = under(c, a, True), under(c, b, False)
        if a is b:
            return a
    else:
        _conds.add(c)
    return mk('ite', (c, a, b), a.sort)


_conds = set()
_under = {}


def under(c, t, val, depth=6):
    """t where c has the truth value val: case distinctions on c near the top are resolved"""
    if t.op in ('c', 'v', 'bv', 'app', 'sum', 'loop', 'forall', 'exists', 'r2i', 'powi') or depth == 0:
        return t
    k = (c, t, val, depth)
    r = _under.get(k)
    if r is None:
        if t.op == 'ite' and t.args[0] is c:
            r = under(c, t.args[1] if val else t.args[2], val, depth)
        else:
            d = depth if t.op == 'ite' else depth - 1
            args = [under(c, x, val, d) if isinstance(x, T) and x.sort != 'B' else x for x in t.args]
            r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t, args)
        _under[k] = r
    return r


def _key_eq(c):
    """c is x == const with x a declared variable of small range: (x, value, lo, hi)"""
    if c.op != 'eq' or c.args[0].sort != 'I':
        return None
    x, v = c.args
    if is_c(x):
        x, v = v, x
    if not is_c(v) or is_c(x):
        return None
    inf = var_info.get(x) if x.op == 'v' else app_info.get(x.args[0]) if x.op == 'app' else None
    if not inf or inf.get('lo') is None or inf.get('hi') is None or inf['hi'] - inf['lo'] > 3:
        return None
    return x, cval(v), inf['lo'], inf['hi']


def _cases(c, a, b):
    """canonical form of a case distinction over a variable with at most four values"""
    k = _key_eq(c)
    if k is None:
        return None
    x, v, lo, hi = k

    def at(t, w):
        while t.op == 'ite':
            q = _key_eq(t.args[0])
            if q is None or q[0] is not x:
                break
            t = t.args[1] if q[1] == w else t.args[2]
        return t
    if not lo <= v <= hi:
        return b
    vals = {w: at(a if w == v else b, w) for w in range(lo, hi + 1)}
    vs = list(vals.values())
    d = max(vs, key=lambda t: sum(u is t for u in vs))
    r = d
    for w in range(lo, hi + 1):
        if vals[w] is not d:
            r = mk('ite', (eq(x, I(w)), vals[w], r), r.sort)
    return r


# ---------------------------------------------------------------- binders
def close(op, n, k, body):
    """op in sum/forall/exists; k a free var term in body."""
    if op == 'sum':
        if k not in body.fs:
            return mul(body, i2r(n)) if body.sort == 'R' else mul(body, n)
        if is_c(n) and cval(n) == 0:
            return R(0) if body.sort == 'R' else I(0)
    else:
        if body is TRUE:
            return TRUE if op == 'forall' else lt(I(0), n)
        if body is FALSE:
            return FALSE if op == 'exists' else le(n, I(0))
        if k not in body.fs:
            return lor(le(n, I(0)), body) if op == 'forall' else land(lt(I(0), n), body)
    h = body.h + 1
    b = bv(h, 0, 'I')
    body2 = subst(body, {k: b})
    return mk(op, (n, b, body2), body.sort)


def open_binder(t, idx):
    n, b, body = t.args
    return subst(body, {b: idx})


def mkloop(n, k, syms, inits, bodies, which, guard=None):
    """final value of syms[which] after n iterations (guard None), or of the while
    loop with the given guard (n None). Canonicalised: only what `which` depends on."""
    idx = {s: i for i, s in enumerate(syms)}
    need = [which]
    seen = {which}
    gdeps = set()
    if guard is not None:
        for s in sorted(guard.fs, key=lambda x: x.id):
            if s in idx and idx[s] not in seen:
                seen.add(idx[s])
                need.append(idx[s])
    q = 0
    while q < len(need):
        j = need[q]
        q += 1
        for s in order_syms(bodies[j], idx):
            if idx[s] not in seen:
                seen.add(idx[s])
                need.append(idx[s])
    h = max([b.h for b in bodies] + ([guard.h] if guard is not None else [])) + 1
    kb = bv(h, 0, 'I')
    m = {k: kb}
    sb = []
    for p, j in enumerate(need):
        x = bv(h, p + 1, syms[j].sort)
        m[syms[j]] = x
        sb.append(x)
    nb = tuple(subst(bodies[j], m) for j in need)
    ng = subst(guard, m) if guard is not None else None
    if n is not None and is_c(n) and cval(n) == 0:
        return inits[which]
    if n is not None and nb[0] is sb[0]:
        return inits[which]
    return mk('loop', (n, kb, tuple(sb), tuple(inits[j] for j in need), nb, ng, 0), syms[which].sort)


def order_syms(t, idx):
    """symbols of idx occurring in t, in first-occurrence order"""
    out = []
    seen = set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x in idx:
            out.append(x)
            return
        if not any(s in idx for s in x.fs):
            return
        for a in kids(x):
            go(a)
    go(t)
    return out


def kids(t):
    if t.op in ('c', 'v', 'bv', 'inf', 'ninf', 'nan'):
        return ()
    if t.op == 'app':
        return t.args[1:]
    if t.op in ('sum', 'forall', 'exists'):
        return (t.args[0], t.args[2])
    if t.op == 'loop':
        n, k, syms, inits, bodies, guard, which = t.args
        return ((n,) if n is not None else ()) + inits + bodies + ((guard,) if guard is not None else ())
    if t.op == 'powi':
        return (t.args[0],)
    return tuple(a for a in t.args if isinstance(a, T))


_cons = {
    '+': add, '-': sub, '*': mul, '/': div, 'neg': neg, 'idiv': idiv, 'irem': irem, 'i2r': i2r,
    'powf': powf, 'min': fmin, 'max': fmax, 'lt': lt, 'le': le, 'eq': eq, 'ite': ite, 'not': lnot,
}


def rebuild(t, args):
    op = t.op
    if op in _cons:
        return _cons[op](*args)
    if op == 'and':
        return land(*args)
    if op == 'or':
        return lor(*args)
    if op in _unary or op in ('abs', 'floor', 'ceil', 'round', 'trunc', 'signum'):
        return fn1(op, args[0])
    return mk(op, tuple(args), t.sort)


def subst(t, m):
    keys = set(m)
    memo = {}

    def go(x):
        if not (x.fs and not keys.isdisjoint(x.fs)):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op in ('v', 'bv'):
            r = m.get(x, x)
        elif op == 'app':
            r = mk('app', (x.args[0],) + tuple(go(a) for a in x.args[1:]), x.sort)
        elif op == 'powi':
            r = powi(go(x.args[0]), x.args[1])
        elif op in ('sum', 'forall', 'exists'):
            n, b, body = x.args
            n2 = go(n)
            if keys.isdisjoint(body.fs - {b}):
                if op == 'sum':
                    r = mk(op, (n2, b, body), x.sort) if not (is_c(n2) and cval(n2) == 0) else close(op, n2, fresh('k', 'I'), subst(body, {b: fresh('k', 'I')}))
                else:
                    r = mk(op, (n2, b, body), x.sort)
            else:
                k = fresh('k', 'I')
                r = close(op, n2, k, go2(body, {b: k}))
        elif op == 'loop':
            n, kb, syms, inits, bodies, guard, which = x.args
            n2 = go(n) if n is not None else None
            i2 = tuple(go(i) for i in inits)
            k = fresh('k', 'I')
            fs = [fresh('x', s.sort) for s in syms]
            mm = {kb: k}
            mm.update(dict(zip(syms, fs)))
            b2 = [go2(b, mm) for b in bodies]
            g2 = go2(guard, mm) if guard is not None else None
            r = mkloop(n2, k, fs, i2, b2, which, g2)
        else:
            r = rebuild(x, [go(a) if isinstance(a, T) else a for a in x.args])
        memo[x.id] = r
        return r

    def go2(body, extra):
        return go(subst(body, extra))

    return go(t)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    op = t.op
    if op == 'c':
        v = t.args[0]
        if isinstance(v, Fraction):
            return repr(float(v)) if v.denominator != 1 else str(v.numerator)
        return str(v)
    if op == 'v':
        return t.args[0]
    if op == 'bv':
        return '#%d.%d' % t.args
    if depth == 0:
        return '..'
    if op == 'app':
        return '%s[%s]' % (t.args[0], ','.join(show(a, depth - 1) for a in t.args[1:]))
    if op in ('+', '-', '*', '/'):
        return '(%s %s %s)' % (show(t.args[0], depth - 1), op, show(t.args[1], depth - 1))
    if op in ('sum', 'forall', 'exists'):
        return '%s{%s<%s}(%s)' % (op, show(t.args[1]), show(t.args[0], depth - 1), show(t.args[2], depth - 1))
    if op == 'loop':
        n, k, syms, inits, bodies, guard, which = t.args
        return 'loop{n=%s,init=%s,body=%s%s}' % (n and show(n, depth - 1), [show(i, depth - 1) for i in inits], [show(b, depth - 1) for b in bodies], ',guard=' + show(guard, depth - 1) if guard is not None else '')
    return '%s(%s)' % (op, ', '.join(show(a, depth - 1) if isinstance(a, T) else str(a) for a in t.args))
