"""Normal form over the reals.

A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of (atom id,
exponent).  Non-polynomial subterms are atoms whose arguments are themselves normal forms.
exp() is split per monomial, so exp(a+b) = exp(a) exp(b); powf(c, x) = exp(ln c * x);
division is Inv of a scaled, content-free polynomial; sqrt(p)^2 = p; min/max are written
with abs; finite sums are distributed over monomials and invariant factors are pulled out.
Coefficients that came from transcendental functions of constants are doubles, so atom
keys compare coefficients to 12 significant digits.
"""
from fractions import Fraction
from . import terms as tm
from .terms import *


class Blowup(Exception):
    pass


LIMIT = [6000]
ONE = ()


def _tidy(c):
    if c.denominator.bit_length() > 512:
        n, d = c.numerator, c.denominator
        s = max(0, 300 - (abs(n).bit_length() - d.bit_length()))
        return Fraction((n << s) // d, 1 << s)
    return c


def _ck(c):
    return '%.11e' % float(c)


class Atom:
    __slots__ = ('id', 'kind', 'args', 'fs', 'h', 'key', 'pos', 'excl')


atoms = []
_akeys = {}


def pkey(p):
    return tuple(sorted((m, _ck(c)) for m, c in p.items()))


def _argkey(a):
    if isinstance(a, dict):
        return ('P', pkey(a))
    if isinstance(a, tuple):
        return tuple(_argkey(x) for x in a)
    return a


def atom(kind, *args):
    key = (kind,) + tuple(_argkey(a) for a in args)
    i = _akeys.get(key)
    if i is not None:
        return i
    a = Atom()
    a.id = len(atoms)
    a.kind = kind
    a.args = args
    a.key = key
    fs = set()
    h = 0

    def walk(x):
        nonlocal h
        if isinstance(x, dict):
            for m in x:
                for (j, e) in m:
                    fs.update(atoms[j].fs)
                    h = max(h, atoms[j].h)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, T):
            fs.update(x.fs)
            h = max(h, x.h)
    for x in args:
        walk(x)
    if kind == 'sum':
        # args: n, K, body
        fs.discard(args[1])
        # n must not mention K by construction
        h = max(h, args[1].args[0])
    elif kind == 'loop':
        n, k, syms, inits, bodies, guard = args
        for s in (k,) + syms:
            fs.discard(s)
        h = max(h, k.args[0])
    elif kind in ('qf', 'qe'):
        fs.discard(args[1])
        h = max(h, args[1].args[0])
    a.fs = frozenset(fs)
    a.h = h
    a.pos = None
    a.excl = None
    if kind == 'chi' and args[0][0] == 'eq':
        p = args[0][1]
        c0 = p.get((), Fraction(0))
        rest = {m: v for m, v in p.items() if m != ()}
        a.excl = (pkey(rest), c0)
    atoms.append(a)
    _akeys[key] = a.id
    return a.id


# ------------------------------------------------------------------ polynomials
def const(c):
    return {ONE: Fraction(c)} if c != 0 else {}


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        c = c * s
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            z = o + c
            if z == 0 or abs(z) < abs(o) * Fraction(1, 10**12):
                del r[m]
            else:
                r[m] = z
    return r


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, c):
    if c == 0:
        return {}
    return {m: _tidy(v * c) for m, v in a.items()}


def _sig(e):
    """canonical exponent for exp atoms"""
    if e.denominator <= 10**6 and abs(e.numerator) <= 10**9:
        return e
    r = Fraction('%.12e' % float(e))
    return r


def mmul(a, b):
    if not a:
        return b, None
    if not b:
        return a, None
    d = dict(a)
    extra = None
    for i, e in b:
        n = d.get(i, 0) + e
        k = atoms[i].kind
        if k == 'chi':
            n = 1
            x = atoms[i].excl
            if x is not None:
                for j in d:
                    if j != i and atoms[j].kind == 'chi' and atoms[j].excl is not None and atoms[j].excl[0] == x[0] and atoms[j].excl[1] != x[1]:
                        return (), [({}, 1)]
        if k == 'E' and n != 0:
            n = _sig(n)
            if abs(n) < Fraction(1, 10**12):
                n = 0
        if k == 'sqrt' and not (n == 0 or n == 1):
            q, rm = divmod(n, 2)
            n = rm
            extra = (extra or []) + [(atoms[i].args[0], int(q))]
        if k == 'abs' and n >= 2:
            q, rm = divmod(n, 2)
            n = rm
            extra = (extra or []) + [(atoms[i].args[0], int(2 * q))]
        if k == 'abs' and n <= -1:
            q, rm = divmod(n, 2)
            n = rm
            extra = (extra or []) + [(atoms[i].args[0], int(2 * q))]
        if n == 0:
            d.pop(i, None)
        else:
            d[i] = n
    return tuple(sorted(d.items())), extra


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT[0] * 4:
        raise Blowup()
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, extra = mmul(m1, m2)
            c = _tidy(c1 * c2)
            if extra:
                p = {m: c}
                for q, e in extra:
                    p = pmul(p, ppow(q, e))
                items = p.items()
            else:
                items = ((m, c),)
            for m, c in items:
                o = r.get(m)
                if o is None:
                    r[m] = c
                else:
                    z = o + c
                    if z == 0 or abs(z) < abs(o) * Fraction(1, 10**12):
                        del r[m]
                    else:
                        r[m] = z
    if len(r) > LIMIT[0]:
        raise Blowup()
    return r


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    if n == 0:
        return const(1)
    if len(p) == 1:
        (m, c), = p.items()
        if not any(atoms[i].kind in ('sqrt', 'abs') for i, e in m):
            return {tuple((i, e * n) for i, e in m): c ** n}
    r = p
    for _ in range(n - 1):
        r = pmul(r, p)
    return r


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def cv(p):
    return p.get(ONE, Fraction(0))


def content(p):
    """common monomial (min exponents over all monomials, treating absent as 0)"""
    it = iter(p)
    first = dict(next(it))
    acc = first
    for m in it:
        d = dict(m)
        acc = {i: min(e, d.get(i, 0)) for i, e in list(acc.items()) + [(j, 0) for j in d if j not in acc]}
        acc = {i: min(e, d.get(i, 0)) for i, e in acc.items()}
        acc = {i: e for i, e in acc.items() if e != 0}
    # drop inv/sqrt atoms' positive content only if uniform (already min)
    return tuple(sorted(acc.items()))


def minv(m):
    """inverse of a monomial, as polynomial"""
    r = const(1)
    for i, e in m:
        a = atoms[i]
        if a.kind == 'inv':
            r = pmul(r, ppow(a.args[0], int(e))) if e > 0 else pmul(r, {((i, -e),): Fraction(1)})
        elif a.kind == 'sqrt':
            # S^-e
            r = pmul(r, pmul(ppow(pinv(a.args[0]), int(e)), {((i, int(e)),): Fraction(1)}) if e == 1 else ppow({((i, 1),): Fraction(1)}, -int(e)))
        elif a.kind == 'abs' and e == 1:
            r = pmul(r, pmul(ppow(pinv(a.args[0]), 2), {((i, 1),): Fraction(1)}))
        else:
            r = pmul(r, {((i, -e),): Fraction(1)})
    return r


def lead(p):
    return min(p, key=lambda m: (len(m), m))


def pinv(p):
    if chis(p) is not None:
        return shannon(_pinv_safe, p)
    return _pinv0(p)


def _pinv_safe(p):
    try:
        return _pinv0(p)
    except (ZeroDivisionError, ValueError):
        return undef('pinv', p)


def _pinv0(p):
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        return pscale(minv(m), 1 / c)
    ct = content(p)
    ct = tuple((i, e) for i, e in ct if atoms[i].kind not in ('sqrt', 'abs', 'inv'))
    if ct:
        inv_ct = {tuple((i, -e) for i, e in ct): Fraction(1)}
        p = pmul(p, inv_ct)
    c = p[lead(p)]
    q = pscale(p, 1 / c)
    r = {((atom('inv', q), 1),): 1 / c}
    if ct:
        r = pmul(r, {tuple((i, -e) for i, e in ct): Fraction(1)})
    return r


def av(i, e=1):
    return {((i, e),): Fraction(1)}


def pexp(p):
    if chis(p) is not None:
        return shannon(_pexp_safe, p)
    return _pexp0(p)


def _pexp_safe(p):
    try:
        return _pexp0(p)
    except (ZeroDivisionError, ValueError):
        return undef('pexp', p)


def _pexp0(p):
    r = const(1)
    for m, c in p.items():
        if m == ONE:
            r = pscale(r, Fraction(math.exp(float(c))) if abs(float(c)) < 700 else _bad())
            continue
        if len(m) == 1 and m[0][1] == 1 and atoms[m[0][0]].kind == 'ln':
            q = atoms[m[0][0]].args[0]
            if c.denominator == 1 and abs(c) <= 16:
                r = pmul(r, ppow(q, int(c)))
                continue
            if (2 * c).denominator == 1 and abs(c) <= 16:
                r = pmul(r, ppow(psqrt(q), int(2 * c)))
                continue
        r = pmul(r, {((atom('E', {m: Fraction(1)}), _sig(c)),): Fraction(1)})
    return r


def _bad():
    raise Blowup()


def atom_nonneg(i):
    a = atoms[i]
    if a.pos is None:
        a.pos = _atom_nonneg(a)
    return a.pos


def _atom_nonneg(a):
    if a.kind in ('E', 'sqrt', 'abs', 'chi'):
        return True
    if a.kind == 't':
        t = a.args[0]
        inf = tm.var_info.get(t) if t.op == 'v' else tm.app_info.get(t.args[0]) if t.op == 'app' else None
        return bool(inf and inf.get('lo') is not None and inf['lo'] >= 0)
    if a.kind in ('inv', 'sum'):
        return pnonneg(a.args[0] if a.kind == 'inv' else a.args[2])
    return False


def pnonneg(p):
    for m, c in p.items():
        if c < 0:
            return False
        for i, e in m:
            if e % 2 == 0:
                continue
            if not atom_nonneg(i):
                return False
    return True


def pneg_known(p):
    return pnonneg(pscale(p, -1))


def psqrt(p):
    if chis(p) is not None:
        return shannon(_psqrt_safe, p)
    return _psqrt0(p)


def _psqrt_safe(p):
    try:
        return _psqrt0(p)
    except (ZeroDivisionError, ValueError):
        return undef('psqrt', p)


def _psqrt0(p):
    if is_const(p):
        return const(Fraction(math.sqrt(float(cv(p)))))
    ct = content(p)
    out = []
    keep = []
    for i, e in ct:
        k = atoms[i].kind
        if k == 'E':
            out.append((i, e))
        elif k in ('sqrt', 'abs', 'inv'):
            if k == 'inv' and e >= 2 and e % 2 == 0 and pnonneg(atoms[i].args[0]):
                out.append((i, e))
            continue
        elif atom_nonneg(i):
            ev = e - (e % 2)
            if ev:
                out.append((i, ev))
        else:
            ev = e - (e % 2)
            if ev and len(p) >= 1:
                keep.append((i, ev))
    r = const(1)
    if out:
        p = pmul(p, {tuple(sorted((i, -e) for i, e in out)): Fraction(1)}) if not any(atoms[i].kind == 'inv' for i, e in out) else _divm(p, out)
        r = {tuple(sorted((i, _half(e)) for i, e in out)): Fraction(1)}
    for i, e in keep:
        p = pmul(p, {((i, -e),): Fraction(1)})
        r = pmul(r, ppow(pabs(av(i)), int(e // 2)))
    if is_const(p):
        return pmul(r, const(Fraction(math.sqrt(float(cv(p))))))
    c = abs(p[lead(p)])
    q = pscale(p, 1 / c)
    return pmul(r, {((atom('sqrt', q), 1),): Fraction(math.sqrt(float(c)))})


def _divm(p, out):
    d = dict(out)
    r = {}
    for m, c in p.items():
        mm = dict(m)
        for i, e in d.items():
            n = mm.get(i, 0) - e
            if n:
                mm[i] = n
            else:
                mm.pop(i, None)
        r[tuple(sorted(mm.items()))] = c
    return r


def _half(e):
    h = Fraction(e) / 2
    return h.numerator if h.denominator == 1 else h


def pabs(p):
    if chis(p) is not None:
        return shannon(_pabs_safe, p)
    return _pabs0(p)


def _pabs_safe(p):
    try:
        return _pabs0(p)
    except (ZeroDivisionError, ValueError):
        return undef('pabs', p)


def _pabs0(p):
    if not p:
        return p
    if is_const(p):
        return const(abs(cv(p)))
    if pnonneg(p):
        return p
    if pneg_known(p):
        return pscale(p, -1)
    ct = content(p)
    out = tuple((i, e) for i, e in ct if atom_nonneg(i) and atoms[i].kind not in ('sqrt', 'abs', 'inv'))
    r = const(1)
    if out:
        p = pmul(p, {tuple((i, -e) for i, e in out): Fraction(1)})
        r = {out: Fraction(1)}
    l = lead(p)
    c = p[l]
    q = pscale(p, 1 / c)
    return pmul(r, {((atom('abs', q), 1),): abs(c)})


def pln(p):
    if chis(p) is not None:
        return shannon(_pln_safe, p)
    return _pln0(p)


def _pln_safe(p):
    try:
        return _pln0(p)
    except (ZeroDivisionError, ValueError):
        return undef('pln', p)


def _pln0(p):
    if is_const(p) and cv(p) > 0:
        return const(Fraction(math.log(float(cv(p)))))
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(atoms[i].kind == 'E' or atom_nonneg(i) for i, e in m):
            r = const(Fraction(math.log(float(c)))) if c != 1 else {}
            for i, e in m:
                if atoms[i].kind == 'E':
                    r = padd(r, pscale(atoms[i].args[0], Fraction(e)))
                elif atoms[i].kind == 'sqrt':
                    r = padd(r, pscale(pln(atoms[i].args[0]), Fraction(e) / 2))
                elif atoms[i].kind == 'inv':
                    r = padd(r, pscale(pln(atoms[i].args[0]), -Fraction(e)))
                else:
                    r = padd(r, pscale(av(atom('ln', av(i))), Fraction(e)))
            return r
    return av(atom('ln', p))


def ckey_neg(c):
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def pite(c, a, b):
    if c[0] == 'true':
        return a
    if c[0] == 'false':
        return b
    if pkey(a) == pkey(b):
        return a
    return padd(b, pmul(cpoly(c), psub(a, b)))


def cpoly(c):
    """0/1-valued polynomial of a condition (boolean ring over chi atoms)"""
    k = c[0]
    if k == 'true':
        return const(1)
    if k == 'false':
        return {}
    if k == 'not':
        return psub(const(1), cpoly(c[1]))
    if k == 'and':
        r = const(1)
        for x in c[1]:
            r = pmul(r, cpoly(x))
        return r
    if k == 'or':
        r = const(1)
        for x in c[1]:
            r = pmul(r, psub(const(1), cpoly(x)))
        return psub(const(1), r)
    return av(atom('chi', c))


def chis(p):
    for m in p:
        for i, e in m:
            if atoms[i].kind == 'chi':
                return i
    return None


def setchi(p, i, v):
    """p with chi atom i set to v (0/1)"""
    r = {}
    x = atoms[i].excl
    for m, c in p.items():
        mm = []
        drop = False
        for j, e in m:
            if j == i:
                if not v:
                    drop = True
                continue
            if v and x is not None and atoms[j].kind == 'chi' and atoms[j].excl is not None and atoms[j].excl[0] == x[0]:
                drop = True
            mm.append((j, e))
        if drop:
            continue
        mm = tuple(mm)
        o = r.get(mm, Fraction(0)) + c
        if o == 0 or abs(o) < abs(c) * Fraction(1, 10**12):
            r.pop(mm, None)
        else:
            r[mm] = o
    return r


def shannon(f, p):
    i = chis(p)
    if i is None:
        return f(p)
    r1 = shannon(f, setchi(p, i, 1))
    r0 = shannon(f, setchi(p, i, 0))
    return padd(r0, pmul(av(i), psub(r1, r0)))


def undef(what, p):
    return av(atom('undef', what, p))


def _linK(p, K):
    """p = s*K + rest with s = +-1 and rest free of K: (s, rest)"""
    s = 0
    rest = {}
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and atoms[m[0][0]].kind == 't' and atoms[m[0][0]].args[0] is K:
            s = c
        elif any(K in atoms[i].fs for i, e in m):
            return None
        else:
            rest[m] = c
    if s in (1, -1):
        return int(s), rest
    return None


def breakpoints(n, K, body):
    out = []
    seen = set()
    for m in body:
        for i, e in m:
            if i in seen or atoms[i].kind != 'chi' or K not in atoms[i].fs:
                continue
            seen.add(i)
            c = atoms[i].args[0]
            if c[0] not in ('lt', 'eq'):
                continue
            x = _linK(c[1], K)
            if x is None:
                continue
            s, rest = x
            if c[0] == 'lt':
                bp = pscale(rest, -1) if s == 1 else padd(rest, const(1))
                out.append(bp)
            else:
                bp = pscale(rest, -s)
                out.append(bp)
                out.append(padd(bp, const(1)))
    return out


def _always(K, hi, body):
    """drop chi(K < e) conditions that hold (fail) on the whole range 0 <= K < hi"""
    while True:
        hit = None
        for m in body:
            for i, e in m:
                a = atoms[i]
                if a.kind == 'chi' and K in a.fs and a.args[0][0] in ('lt', 'eq'):
                    x = _linK(a.args[0][1], K)
                    if x is None:
                        continue
                    s, rest = x
                    if a.args[0][0] == 'eq':
                        bp = pscale(rest, -s)
                        if pnonneg(psub(bp, hi)) or pnonneg(psub(const(-1), bp)):
                            hit = (i, 0)
                    elif s == 1:
                        e_ = pscale(rest, -1)          # K < e
                        if pnonneg(psub(e_, hi)):
                            hit = (i, 1)
                        elif pnonneg(pscale(e_, -1)):
                            hit = (i, 0)
                    else:
                        # rest < K
                        if pnonneg(psub(const(-1), rest)):
                            hit = (i, 1)
                        elif pnonneg(psub(padd(rest, const(1)), hi)):
                            hit = (i, 0)
                    if hit:
                        break
            if hit:
                break
        if not hit:
            return body
        body = setchi(body, *hit)


def min_shift(mono, K):
    """smallest c such that K occurs only inside sequence indices K + c; None otherwise"""
    found = []

    class Bad(Exception):
        pass

    def wt(t):
        if K not in t.fs:
            return
        if t.op == 'app':
            for a in t.args[1:]:
                if K in a.fs:
                    x = _linK(norm(a), K)
                    if x is None or x[0] != 1 or not is_const(x[1]):
                        raise Bad()
                    found.append(cv(x[1]))
            return
        raise Bad()

    def w(x):
        if isinstance(x, dict):
            for m in x:
                for i, e in m:
                    wa(i)
        elif isinstance(x, tuple):
            for y in x:
                w(y)
        elif isinstance(x, T):
            wt(x)

    def wa(i):
        a = atoms[i]
        if K not in a.fs:
            return
        w(a.args)
    try:
        for i, e in mono:
            wa(i)
    except Bad:
        return None
    if not found:
        return None
    c = min(found)
    return int(c) if c.denominator == 1 else None


def psum(n, K, body, depth=0):
    """n: poly, K: bound T var (free in body)"""
    r = {}
    if depth < 6 and any(atoms[i].kind == 'chi' and K in atoms[i].fs for m in body for i, e in m):
        body = _always(K, n, body)
        for e in breakpoints(n, K, body):
            if not e or pkey(e) == pkey(n) or not pnonneg(e) or not pnonneg(psub(n, e)):
                continue
            if is_const(e) and cv(e) <= 4:
                lo = {}
                for j in range(int(cv(e))):
                    lo = padd(lo, psubst(body, {K: const(j)}))
            else:
                lo = psum(e, K, _always(K, e, body), depth + 1)
            m2 = psub(n, e)
            if is_const(m2) and cv(m2) <= 4:
                hi = {}
                for j in range(int(cv(m2))):
                    hi = padd(hi, psubst(body, {K: padd(e, const(j))}))
            else:
                K2 = tm.fresh('sk', 'I', 0)
                hi = psum(m2, K2, psubst(body, {K: padd(av(atom('t', K2)), e)}), depth + 1)
            return padd(lo, hi)
    for m, c in body.items():
        inn = tuple((i, e) for i, e in m if K in atoms[i].fs)
        out = tuple((i, e) for i, e in m if K not in atoms[i].fs)
        if not inn:
            r = padd(r, pmul({out: c}, n))
            continue
        sh = min_shift(inn, K)
        if sh and 0 < sh <= 4:
            # sum of f(K + sh): count from 0 and take the first terms away
            f = psubst({inn: Fraction(1)}, {K: padd(av(atom('t', K)), const(-sh))})
            q = psum(padd(n, const(sh)), K, f, 9)
            for j in range(sh):
                q = psub(q, psubst(f, {K: const(j)}))
            r = padd(r, pmul({out: c}, q))
            continue
        hh = max([atoms[i].h for i, e in inn] + [0]) + 1
        kb = bv(hh, 0, 'I')
        ip = psubst({inn: Fraction(1)}, {K: av(atom('t', kb))})
        r = padd(r, pmul({out: c}, av(atom('sum', n, kb, ip))))
    return r


def psubst(p, m):
    """substitute T symbols by polynomials inside atoms"""
    r = {}
    for mono, c in p.items():
        acc = {ONE: c}
        for i, e in mono:
            a = atoms[i]
            if a.fs.isdisjoint(m):
                q = {((i, e),): Fraction(1)}
            else:
                b = asubst(a, m)
                if len(b) == 1 and list(b.values())[0] == 1 and len(list(b)[0]) == 1 and list(b)[0][0][1] == 1:
                    q = {((list(b)[0][0][0], e),): Fraction(1)}
                else:
                    q = _powx(b, e, a)
            acc = pmul(acc, q)
        r = padd(r, acc)
    return r


def _powx(b, e, a):
    if Fraction(e).denominator == 1:
        return ppow(b, int(e))
    if a.kind == 'E':
        # b is a monomial of E atoms
        if len(b) == 1:
            (m, c), = b.items()
            if c == 1:
                return {tuple((i, _sig(Fraction(x) * e)) for i, x in m): Fraction(1)}
        raise Blowup()
    raise Blowup()


def asubst(a, m):
    k = a.kind
    S = lambda p: psubst(p, m)
    if k == 't':
        t = a.args[0]
        if t in m:
            return m[t]
        if t.op == 'app':
            # index arguments are integer terms: need a term-level substitution
            mt = {s: poly2term(q, 'I') for s, q in m.items()}
            return norm(tm.subst(t, mt))
        mt = {s: poly2term(q, s.sort) for s, q in m.items()}
        return norm(tm.subst(t, mt))
    if k == 'inv':
        return pinv(S(a.args[0]))
    if k == 'E':
        return pexp(S(a.args[0]))
    if k == 'sqrt':
        return psqrt(S(a.args[0]))
    if k == 'abs':
        return pabs(S(a.args[0]))
    if k == 'ln':
        return pln(S(a.args[0]))
    if k == 'fn':
        return pfn(a.args[0], S(a.args[1]))
    if k == 'chi':
        return cpoly(csubst(a.args[0], m))
    if k == 'undef':
        return undef(a.args[0], S(a.args[1]))
    if k == 'sum':
        n, kb, body = a.args
        kk = tm.fresh('nk', 'I')
        return psum(S(n), kk, S(psubst(body, {kb: av(atom('t', kk))})))
    if k == 'loop':
        n, kb, syms, inits, bodies, guard = a.args
        kk = tm.fresh('nk', 'I')
        ss = [tm.fresh('nx', s.sort) for s in syms]
        mm = {kb: av(atom('t', kk))}
        for s, x in zip(syms, ss):
            mm[s] = av(atom('t', x))
        return nloop(S(n) if n is not None else None, kk, ss, [S(i) for i in inits], [S(psubst(b, mm)) for b in bodies],
                     csubst(csubst(guard, mm), m) if guard is not None else None)
    raise Blowup()


def csubst(c, m):
    k = c[0]
    if k in ('true', 'false'):
        return c
    if k == 'not':
        return cnot(csubst(c[1], m))
    if k in ('lt', 'eq'):
        p = psubst(c[1], m)
        return clt(p) if k == 'lt' else ceq(p)
    if k in ('and', 'or'):
        return cjoin(k, [csubst(x, m) for x in c[1]])
    if k == 'b':
        t = c[1]
        if t in m:
            q = m[t]
            if len(q) == 1:
                (mm, cc), = q.items()
                if len(mm) == 1 and cc == 1 and atoms[mm[0][0]].kind == 't':
                    return ('b', atoms[mm[0][0]].args[0])
        mt = {s: poly2term(q, s.sort) for s, q in m.items() if s in t.fs}
        return cond(tm.subst(t, mt))
    if k in ('qf', 'qe'):
        n, kb, body = c[1:]
        kk = tm.fresh('nk', 'I')
        return cquant(k, psubst(n, m), kk, csubst(csubst(body, {kb: av(atom('t', kk))}), m))
    raise Blowup()


def nloop(n, k, syms, inits, bodies, guard):
    """bodies/guard over free k, syms -> canonical loop atom; component 0 is the result"""
    hs = [1]

    def ph(p):
        for m in p:
            for i, e in m:
                hs.append(atoms[i].h + 1)

    def ch(c):
        if c[0] in ('lt', 'eq'):
            ph(c[1])
        elif c[0] == 'not':
            ch(c[1])
        elif c[0] in ('and', 'or'):
            for x in c[1]:
                ch(x)
        elif c[0] in ('qf', 'qe'):
            hs.append(c[2].args[0] + 1)
    for b in bodies:
        ph(b)
    if guard is not None:
        ch(guard)
    h = max(hs)
    kb = bv(h, 0, 'I')
    m = {k: av(atom('t', kb))}
    sb = []
    for j, s in enumerate(syms):
        x = bv(h, j + 1, s.sort)
        sb.append(x)
        m[s] = av(atom('t', x))
    nb = tuple(psubst(b, m) for b in bodies)
    g = csubst(guard, m) if guard is not None else None
    return av(atom('loop', n, kb, tuple(sb), tuple(inits), nb, g))


def pfn(op, p):
    if chis(p) is not None:
        return shannon(lambda q: pfn(op, q), p)
    if is_const(p):
        return norm(tm.fn1(op, tm.R(cv(p))))
    return av(atom('fn', op, p))


# ------------------------------------------------------------------ conditions
def cnot(c):
    if c[0] == 'true':
        return ('false',)
    if c[0] == 'false':
        return ('true',)
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def cjoin(k, cs):
    out = []
    keys = set()
    unit, zero = ('true', 'false') if k == 'and' else ('false', 'true')
    for c in cs:
        if c[0] == unit:
            continue
        if c[0] == zero:
            return (zero,)
        for x in (c[1] if c[0] == k else (c,)):
            kk = _argkey(x)
            if kk not in keys:
                keys.add(kk)
                out.append(x)
    for x in out:
        if _argkey(cnot(x)) in keys:
            return (zero,)
    if not out:
        return (unit,)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: repr(_argkey(x)))
    return (k, tuple(out))


def cshannon(f, p):
    i = chis(p)
    if i is None:
        return f(p)
    c = atoms[i].args[0]
    a, b = cshannon(f, setchi(p, i, 1)), cshannon(f, setchi(p, i, 0))
    if _argkey(a) == _argkey(b):
        return a
    return cjoin('or', [cjoin('and', [c, a]), cjoin('and', [cnot(c), b])])


def small_int(p):
    """p = c*t + d with t a small-range integer atom: (atom id, c, d, lo, hi)"""
    if len(p) > 2:
        return None
    it = None
    d = Fraction(0)
    for m, c in p.items():
        if m == ():
            d = c
        elif len(m) == 1 and m[0][1] == 1 and it is None and atoms[m[0][0]].kind == 't':
            it = (m[0][0], c)
        else:
            return None
    if it is None:
        return None
    t = atoms[it[0]].args[0]
    if t.sort != 'I':
        return None
    inf = tm.var_info.get(t) if t.op == 'v' else tm.app_info.get(t.args[0]) if t.op == 'app' else None
    if not inf or inf.get('lo') is None or inf.get('hi') is None or inf['hi'] - inf['lo'] > 5:
        return None
    return it[0], it[1], d, inf['lo'], inf['hi']


def int_case(si, pred):
    i, c, d, lo, hi = si
    good = [v for v in range(lo, hi + 1) if pred(c * v + d)]
    if len(good) == hi - lo + 1:
        return ('true',)
    if not good:
        return ('false',)

    def e(v):
        return ('eq', {((i, 1),): Fraction(1), (): Fraction(-v)} if v else {((i, 1),): Fraction(1)})
    if hi in good:
        return cnot(cjoin('or', [e(v) for v in range(lo, hi + 1) if v not in good]))
    return cjoin('or', [e(v) for v in good])


def clt(p):
    """p < 0"""
    if chis(p) is not None:
        return cshannon(clt, p)
    if is_const(p):
        return ('true',) if cv(p) < 0 else ('false',)
    if pnonneg(p):
        return ('false',)
    si = small_int(p)
    if si:
        return int_case(si, lambda x: x < 0)
    q = int_linear(p)
    if q is not None:
        # integer-valued: q + d < 0, canonical as (q < c) with a positive leading coefficient
        q, d = q
        c = math.ceil(-d)
        if q[lead(q)] < 0:
            q = pscale(q, -1)
            c = 1 - c
            r = padd(q, const(-c))
            return ('true',) if pnonneg(r) else ('not', ('lt', r))
        r = padd(q, const(-c))
        return ('false',) if pnonneg(r) else ('lt', r)
    c = abs(p[lead(p)])
    return ('lt', pscale(p, 1 / c))


def int_linear(p):
    """p = g*(q + d) with q an integer combination of integer atoms: (q, d)"""
    den = 1
    num = 0
    for m, c in p.items():
        if m == ():
            continue
        for i, e in m:
            a = atoms[i]
            if a.kind != 't' or a.args[0].sort != 'I' or e != int(e) or e < 1:
                return None
        if c.denominator > 10**6:
            c2 = Fraction(float(c)).limit_denominator(10**5)
            if abs(float(c2) - float(c)) > 1e-12 * abs(float(c)):
                return None
            c = c2
        den = den * c.denominator // math.gcd(den, c.denominator)
    if den > 10**7:
        return None
    for m, c in p.items():
        if m != ():
            num = math.gcd(num, abs(int(round(c * den))))
    if num == 0:
        return None
    g = Fraction(num, den)
    q = {}
    for m, c in p.items():
        if m != ():
            q[m] = Fraction(int(round(c / g)))
    d = p.get((), Fraction(0)) / g
    if d.denominator != 1:
        d2 = d.limit_denominator(10**5)
        if abs(float(d2) - float(d)) < 1e-12 * max(1.0, abs(float(d))):
            d = d2
    return q, d


def ceq(p):
    if chis(p) is not None:
        return cshannon(ceq, p)
    if is_const(p):
        return ('true',) if cv(p) == 0 else ('false',)
    si = small_int(p)
    if si:
        return int_case(si, lambda x: x == 0)
    q = int_linear(p)
    if q is not None:
        q, d = q
        if d.denominator != 1:
            return ('false',)
        if q[lead(q)] < 0:
            q, d = pscale(q, -1), -d
        return ('eq', padd(q, const(d)))
    c = p[lead(p)]
    return ('eq', pscale(p, 1 / c))


def cquant(k, n, K, body):
    if body[0] == 'true':
        return body if k == 'qf' else clt(pscale(n, -1))
    if body[0] == 'false':
        return body if k == 'qe' else cnot(clt(pscale(n, -1)))
    h = [1]

    def ph(p):
        for m in p:
            for i, e in m:
                h.append(atoms[i].h + 1)

    def ch(c):
        if c[0] in ('lt', 'eq'):
            ph(c[1])
        elif c[0] == 'not':
            ch(c[1])
        elif c[0] in ('and', 'or'):
            for x in c[1]:
                ch(x)
        elif c[0] in ('qf', 'qe'):
            h.append(c[2].args[0] + 1)
    ch(body)
    kb = bv(max(h), 0, 'I')
    return (k, n, kb, csubst(body, {K: av(atom('t', kb))}))


_cmemo = {}


def cond(t):
    r = _cmemo.get(t.id)
    if r is None:
        r = _cond(t)
        _cmemo[t.id] = r
    return r


def _cond(t):
    if t is TRUE:
        return ('true',)
    if t is FALSE:
        return ('false',)
    op = t.op
    if op == 'not':
        return cnot(cond(t.args[0]))
    if op == 'lt':
        return clt(psub(norm(t.args[0]), norm(t.args[1])))
    if op == 'le':
        return cnot(clt(psub(norm(t.args[1]), norm(t.args[0]))))
    if op == 'eq':
        if t.args[0].sort == 'B':
            return ('b', t)
        return ceq(psub(norm(t.args[0]), norm(t.args[1])))
    if op in ('and', 'or'):
        return cjoin(op, [cond(a) for a in t.args])
    if op in ('forall', 'exists'):
        k = tm.fresh('qk', 'I')
        n, b, body = t.args
        if op == 'exists':
            return cnot(cquant('qf', norm(n), k, cnot(cond(tm.subst(body, {b: k})))))
        return cquant('qf', norm(n), k, cond(tm.subst(body, {b: k})))
    return ('b', t)


# ------------------------------------------------------------------ normalise
_memo = {}


def norm(t):
    r = _memo.get(t.id)
    if r is None:
        r = _norm(t)
        _memo[t.id] = r
    return r


def _norm(t):
    op = t.op
    if op == 'c':
        return const(t.args[0])
    if op in ('v', 'bv'):
        return av(atom('t', t))
    if op == 'app':
        args = tuple(poly2term(norm(a), 'I') for a in t.args[1:])
        return av(atom('t', mk('app', (t.args[0],) + args, t.sort)))
    if op == '+':
        # flatten to avoid deep recursion on long sums
        return padd(norm(t.args[0]), norm(t.args[1]))
    if op == '-':
        return psub(norm(t.args[0]), norm(t.args[1]))
    if op == 'neg':
        return pscale(norm(t.args[0]), -1)
    if op == '*':
        return pmul(norm(t.args[0]), norm(t.args[1]))
    if op == '/':
        b = norm(t.args[1])
        if not b:
            raise Blowup()
        return pmul(norm(t.args[0]), pinv(b))
    if op == 'powi':
        return ppow(norm(t.args[0]), t.args[1])
    if op == 'powf':
        a, b = norm(t.args[0]), norm(t.args[1])
        return pexp(pmul(b, pln(a)))
    if op == 'i2r':
        return norm(t.args[0])
    if op == 'exp':
        return pexp(norm(t.args[0]))
    if op == 'ln':
        return pln(norm(t.args[0]))
    if op == 'sqrt':
        return psqrt(norm(t.args[0]))
    if op == 'abs':
        return pabs(norm(t.args[0]))
    if op in ('min', 'max'):
        a, b = norm(t.args[0]), norm(t.args[1])
        d = pabs(psub(a, b))
        s = padd(a, b)
        return pscale(padd(s, d, 1 if op == 'max' else -1), Fraction(1, 2))
    if op == 'ite':
        return pite(cond(t.args[0]), norm(t.args[1]), norm(t.args[2]))
    if op == 'sum':
        n, b, body = t.args
        k = tm.fresh('sk', 'I')
        return psum(norm(n), k, norm(tm.subst(body, {b: k})))
    if op == 'loop':
        n, kb, syms, inits, bodies, guard, which = t.args
        if any(s.sort == 'B' for s in syms):
            return av(atom('t', t))
        k = tm.fresh('lk', 'I')
        ss = [tm.fresh('lx', s.sort) for s in syms]
        m = {kb: k}
        m.update(dict(zip(syms, ss)))
        return nloop(norm(n) if n is not None else None, k, ss, [norm(i) for i in inits],
                     [norm(tm.subst(b, m)) for b in bodies], cond(tm.subst(guard, m)) if guard is not None else None)
    if op in ('inf', 'ninf', 'nan'):
        return av(atom('t', t))
    if op in ('idiv', 'irem', 'r2i'):
        return av(atom('t', mk(op, tuple(poly2term(norm(a), a.sort) if isinstance(a, T) else a for a in t.args), t.sort)))
    if len(t.args) == 1:
        return pfn(op, norm(t.args[0]))
    return av(atom('t', t))


# ------------------------------------------------------------------ back to terms
_pt = {}


def poly2term(p, sort='R'):
    key = (pkey(p), sort)
    r = _pt.get(key)
    if r is not None:
        return r
    acc = None
    for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])):
        t = None
        for i, e in m:
            if sort == 'I' and atoms[i].kind == 'chi':
                at = tm.ite(cond2term(atoms[i].args[0]), tm.I(1), tm.I(0))
            elif sort == 'I' and atoms[i].kind == 'abs':
                at = tm.fn1('abs', poly2term(atoms[i].args[0], 'I'))
            elif sort == 'I' and atoms[i].kind == 'sum':
                n_, kb_, body_ = atoms[i].args
                kk_ = tm.fresh('tk', 'I')
                at = tm.close('sum', poly2term(n_, 'I'), kk_, poly2term(psubst(body_, {kb_: av(atom('t', kk_))}), 'I'))
            else:
                at = atom2term(i)
            if sort == 'R' and at.sort == 'I':
                at = tm.i2r(at)
            if Fraction(e).denominator != 1:
                at = tm.powf(at, tm.R(Fraction(e)))
            elif e != 1:
                at = tm.powi(at, int(e)) if sort == 'R' else _ipow(at, int(e))
            t = at if t is None else tm.mul(t, at)
        cc = tm.R(c) if sort == 'R' else tm.I(int(c))
        t = cc if t is None else tm.mul(cc, t)
        acc = t if acc is None else tm.add(acc, t)
    if acc is None:
        acc = tm.R(0) if sort == 'R' else tm.I(0)
    _pt[key] = acc
    return acc


def _ipow(a, n):
    r = a
    for _ in range(n - 1):
        r = tm.mul(r, a)
    return r


def atom2term(i):
    a = atoms[i]
    k = a.kind
    if k == 't':
        return a.args[0]
    if k == 'inv':
        return tm.div(tm.R(1), poly2term(a.args[0]))
    if k == 'E':
        return tm.fn1('exp', poly2term(a.args[0]))
    if k in ('sqrt', 'abs', 'ln'):
        return tm.fn1(k, poly2term(a.args[0]))
    if k == 'fn':
        return tm.fn1(a.args[0], poly2term(a.args[1]))
    if k == 'chi':
        return tm.ite(cond2term(a.args[0]), tm.R(1), tm.R(0))
    if k == 'undef':
        return tm.app('undef!', (), 'R') if False else tm.var('undef!%d' % i, 'R')
    if k == 'sum':
        n, kb, body = a.args
        kk = tm.fresh('tk', 'I')
        return tm.close('sum', poly2term(n, 'I'), kk, poly2term(psubst(body, {kb: av(atom('t', kk))})))
    if k == 'loop':
        n, kb, syms, inits, bodies, guard = a.args
        kk = tm.fresh('tk', 'I')
        ss = [tm.fresh('tx', s.sort) for s in syms]
        m = {kb: av(atom('t', kk))}
        for s, x in zip(syms, ss):
            m[s] = av(atom('t', x))
        return tm.mkloop(poly2term(n, 'I') if n is not None else None, kk, ss, [poly2term(x, s.sort) for x, s in zip(inits, syms)],
                         [poly2term(psubst(b, m), s.sort) for b, s in zip(bodies, syms)], 0,
                         cond2term(csubst(guard, m)) if guard is not None else None)
    raise Blowup()


def cond2term(c):
    k = c[0]
    if k == 'true':
        return TRUE
    if k == 'false':
        return FALSE
    if k == 'not':
        return lnot(cond2term(c[1]))
    if k == 'lt':
        return tm.lt(poly2term(c[1]), tm.R(0))
    if k == 'eq':
        return tm.eq(poly2term(c[1]), tm.R(0))
    if k == 'and':
        return land(*[cond2term(x) for x in c[1]])
    if k == 'or':
        return lor(*[cond2term(x) for x in c[1]])
    if k == 'b':
        return c[1]
    if k in ('qf', 'qe'):
        n, kb, body = c[1:]
        kk = tm.fresh('tk', 'I')
        b = cond2term(csubst(body, {kb: av(atom('t', kk))}))
        return tm.close('forall' if k == 'qf' else 'exists', poly2term(n, 'I'), kk, b)
    raise Blowup()


# ------------------------------------------------------------------ zero test
def clear_denominators(p, rounds=60):
    """multiply out every Inv atom (top level)"""
    for _ in range(rounds):
        inv = {}
        for m in p:
            for i, e in m:
                if atoms[i].kind == 'inv' and e > 0:
                    inv[i] = max(inv.get(i, 0), e)
        if not inv:
            break
        # innermost-last: pick the atom with the largest id (built last)
        i = max(inv)
        e = inv[i]
        q = atoms[i].args[0]
        r = {}
        pows = {0: const(1)}
        for k in range(1, int(e) + 1):
            pows[k] = pmul(pows[k - 1], q)
        for m, c in p.items():
            d = dict(m)
            j = d.pop(i, 0)
            r = padd(r, pmul({tuple(sorted(d.items())): c}, pows[int(e - j)]))
            if len(r) > LIMIT[0]:
                raise Blowup()
        p = r
    return p


def fsum_mag(p):
    return sum(abs(float(c)) for c in p.values())


def is_zero(p):
    if not p:
        return True
    if any(atoms[i].kind == 'inv' for m in p for i, e in m):
        p = clear_denominators(p)
    return not p
