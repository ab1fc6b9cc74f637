"""Runtime values of the symbolic executor."""
from .terms import *
from . import terms as tm


class Unsupported(Exception):
    pass


class LoopFail(Exception):
    pass


class MergeFail(Exception):
    pass


class Agg:
    """struct, tuple, closure, or enum with a known variant"""
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(self, ty, variant, fields):
        self.ty = ty
        self.variant = variant
        self.fields = tuple(fields)

    def __repr__(self):
        return 'Agg(v%d,%s)' % (self.variant, list(self.fields))


class EnumS:
    """enum with a symbolic variant index"""
    __slots__ = ('ty', 'discr', 'vals')

    def __init__(self, ty, discr, vals):
        self.ty = ty
        self.discr = discr          # T, variant index
        self.vals = vals            # dict variant -> fields tuple (None where variant impossible)

    def __repr__(self):
        return 'EnumS(%r,%r)' % (self.discr, self.vals)


class CSeq:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'CSeq%r' % (list(self.items),)


class SSeq:
    """sequence of symbolic length; elem(i) is a pure function of the index term"""
    __slots__ = ('n', 'fn', 'memo')

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn
        self.memo = {}

    def elem(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.fn(i)
            self.memo[i] = r
        return r

    def __repr__(self):
        return 'SSeq(n=%r)' % (self.n,)


class SeqPH:
    """the value of a sequence at iteration k of a loop being summarised (opaque prefix)
    followed by pushed items; `upd` are in-place element updates (idx, value)."""
    __slots__ = ('base', 'uid', 'n', 'pushed', 'upd', 'reads')

    def __init__(self, base, uid, n, pushed=(), upd=(), reads=None):
        self.base = base
        self.uid = uid
        self.n = n
        self.pushed = tuple(pushed)
        self.upd = tuple(upd)
        self.reads = reads if reads is not None else []

    def __repr__(self):
        return 'SeqPH(%s,+%d,u%d)' % (self.uid, len(self.pushed), len(self.upd))


class Ref:
    __slots__ = ('cell', 'path', 'rng')

    def __init__(self, cell, path=(), rng=None):
        self.cell = cell
        self.path = path
        self.rng = rng              # (start T, len T) for sub-slices

    def __repr__(self):
        return 'Ref(%s,%s%s)' % (self.cell, self.path, '' if self.rng is None else ',rng=%r' % (self.rng,))

    def same(self, o):
        return isinstance(o, Ref) and self.cell == o.cell and self.path == o.path and self.rng == o.rng


class BoxV:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell

    def __repr__(self):
        return 'Box(%s)' % self.cell


class RcV(BoxV):
    pass


class It:
    """iterator; kind 'ra' = random access over base in [front, back)"""
    __slots__ = ('kind', 'fields')

    def __init__(self, kind, fields):
        self.kind = kind
        self.fields = tuple(fields)

    def __repr__(self):
        return 'It(%s,%r)' % (self.kind, self.fields)


class MapV:
    __slots__ = ('items',)      # tuple of (key python value, value)

    def __init__(self, items):
        self.items = tuple(items)


class FnV:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class FnPtr:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst


class StrV:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Base:
    """base of a random-access iterator"""
    __slots__ = ('kind', 'fields')

    def __init__(self, kind, fields):
        self.kind = kind
        self.fields = tuple(fields)

    def __repr__(self):
        return 'Base(%s,%r)' % (self.kind, self.fields)


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


UNIT = Agg(None, 0, ())


def same(a, b):
    """structural identity (sound: True only if equal)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, T):
        return a is b
    if isinstance(a, Agg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, CSeq):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, (Ref,)):
        return a.same(b)
    if isinstance(a, BoxV):
        return a.cell == b.cell
    if isinstance(a, (It, Base)):
        return a.kind == b.kind and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, EnumS):
        return a.discr is b.discr and a.vals.keys() == b.vals.keys() and all(
            len(a.vals[k]) == len(b.vals[k]) and all(same(x, y) for x, y in zip(a.vals[k], b.vals[k])) for k in a.vals)
    if isinstance(a, FnV):
        return a.ty == b.ty
    if isinstance(a, FnPtr):
        return a.inst == b.inst
    if isinstance(a, StrV):
        return a.s == b.s
    if isinstance(a, MapV):
        return len(a.items) == len(b.items) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.items, b.items))
    if isinstance(a, SeqPH):
        return a.uid == b.uid and len(a.pushed) == len(b.pushed) and len(a.upd) == len(b.upd) and all(
            same(x, y) for x, y in zip(a.pushed, b.pushed)) and all(x[0] is y[0] and same(x[1], y[1]) for x, y in zip(a.upd, b.upd))
    if isinstance(a, (int, str, float)):
        return a == b
    return False


def merge(c, a, b):
    """value that is a when c else b"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same(a, b):
        return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            raise MergeFail()
        return ite(c, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        # a value that is dead / uninitialised on one side may be anything there
        return Opaque('merged')
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.variant == b.variant and len(a.fields) == len(b.fields):
            return Agg(a.ty, a.variant, [merge(c, x, y) for x, y in zip(a.fields, b.fields)])
        return EnumS(a.ty, ite(c, I(a.variant), I(b.variant)), {a.variant: a.fields, b.variant: b.fields})
    if isinstance(a, (Agg, EnumS)) and isinstance(b, (Agg, EnumS)):
        da, va = (I(a.variant), {a.variant: a.fields}) if isinstance(a, Agg) else (a.discr, a.vals)
        db, vb = (I(b.variant), {b.variant: b.fields}) if isinstance(b, Agg) else (b.discr, b.vals)
        vals = {}
        for k in set(va) | set(vb):
            if k in va and k in vb:
                vals[k] = tuple(merge(c, x, y) for x, y in zip(va[k], vb[k]))
            else:
                vals[k] = va.get(k, vb.get(k))
        return EnumS(a.ty, ite(c, da, db), vals)
    if isinstance(a, CSeq) and isinstance(b, CSeq) and len(a.items) == len(b.items):
        return CSeq([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (CSeq, SSeq)) and isinstance(b, (CSeq, SSeq)):
        na, nb = seq_len(a), seq_len(b)
        return SSeq(ite(c, na, nb), lambda i, a=a, b=b: merge_elem(c, a, b, i))
    if isinstance(a, (It, Base)) and type(a) is type(b) and a.kind == b.kind and len(a.fields) == len(b.fields):
        return type(a)(a.kind, [merge(c, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, SeqPH) and isinstance(b, SeqPH) and a.uid == b.uid:
        if len(a.pushed) == len(b.pushed) and len(a.upd) == len(b.upd) and all(x[0] is y[0] for x, y in zip(a.upd, b.upd)):
            return SeqPH(a.base, a.uid, a.n, [merge(c, x, y) for x, y in zip(a.pushed, b.pushed)],
                         [(x[0], merge(c, x[1], y[1])) for x, y in zip(a.upd, b.upd)], a.reads + b.reads)
        if not a.pushed and not b.pushed and len(a.upd) + len(b.upd) == 1:
            i, v = (a.upd or b.upd)[0]
            old = ('old', i)
            x = v if a.upd else old
            y = v if b.upd else old
            raise MergeFail()
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and len(a.path) == len(b.path) and (a.rng is None) == (b.rng is None):
        path = []
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]:
                raise MergeFail()
            if x[0] == 'i':
                path.append(('i', ite(c, x[1], y[1])))
            elif x != y:
                raise MergeFail()
            else:
                path.append(x)
        rng = None if a.rng is None else (ite(c, a.rng[0], b.rng[0]), ite(c, a.rng[1], b.rng[1]))
        return Ref(a.cell, tuple(path), rng)
    if isinstance(a, StrV) and isinstance(b, StrV):
        return StrV('?')
    if isinstance(a, MapV) and isinstance(b, MapV) and len(a.items) == len(b.items):
        db = dict(b.items)
        if all(k in db for k, _ in a.items):
            return MapV([(k, merge(c, x, db[k])) for k, x in a.items])
    raise MergeFail('%r / %r' % (type(a), type(b)))


def merge_elem(c, a, b, i):
    x = seq_get(a, i, default=True)
    y = seq_get(b, i, default=True)
    if x is None:
        return y
    if y is None:
        return x
    return merge(c, x, y)


def seq_len(s):
    if isinstance(s, CSeq):
        return I(len(s.items))
    if isinstance(s, SSeq):
        return s.n
    if isinstance(s, SeqPH):
        return add(s.n, I(len(s.pushed)))
    raise Unsupported('len of %r' % (s,))


def seq_get(s, i, default=False):
    if isinstance(s, CSeq):
        if is_c(i):
            k = cval(i)
            if 0 <= k < len(s.items):
                return s.items[k]
            if default:
                return None
            raise Unsupported('constant index out of range')
        if not s.items:
            if default:
                return None
            raise Unsupported('index into empty')
        r = s.items[-1]
        for k in range(len(s.items) - 2, -1, -1):
            r = merge(eq(i, I(k)), s.items[k], r)
        return r
    if isinstance(s, SSeq):
        return s.elem(i)
    if isinstance(s, SeqPH):
        for (j, v) in reversed(s.upd):
            if j is i:
                return v
        if s.pushed or s.upd:
            raise LoopFail('read of modified sequence')
        s.reads.append(i)
        return seq_get(s.base, i)
    raise Unsupported('index of %r' % (s,))


def seq_set(s, i, v):
    if isinstance(s, CSeq):
        if is_c(i):
            l = list(s.items)
            l[cval(i)] = v
            return CSeq(l)
        return CSeq([merge(eq(i, I(k)), v, x) for k, x in enumerate(s.items)])
    if isinstance(s, SSeq):
        def fn(j, s=s, i=i, v=v):
            if j is i:
                return v
            return merge(eq(j, i), v, s.elem(j))
        return SSeq(s.n, fn)
    if isinstance(s, SeqPH):
        u = [x for x in s.upd if x[0] is not i] + [(i, v)]
        return SeqPH(s.base, s.uid, s.n, s.pushed, u, s.reads)
    raise Unsupported('update of %r' % (s,))


def seq_push(s, v):
    if isinstance(s, CSeq):
        return CSeq(s.items + (v,))
    if isinstance(s, SSeq):
        n = s.n

        def fn(j, s=s, n=n, v=v):
            if j is n:
                return v
            if same_len_below(j, n):
                return s.elem(j)
            return merge(lt(j, n), s.elem(j), v)
        return SSeq(add(n, I(1)), fn)
    if isinstance(s, SeqPH):
        return SeqPH(s.base, s.uid, s.n, s.pushed + (v,), s.upd, s.reads)
    raise Unsupported('push on %r' % (s,))


def same_len_below(j, n):
    return False


def seq_concat(a, b):
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        return CSeq(a.items + b.items)
    if isinstance(a, CSeq) and not a.items:
        return b
    if isinstance(b, CSeq):
        if isinstance(a, (SeqPH, SSeq)):
            for x in b.items:
                a = seq_push(a, x)
            return a
    if isinstance(a, SeqPH) or isinstance(b, SeqPH):
        raise LoopFail('concat in loop')
    na = seq_len(a)

    def fn(j):
        x = seq_get(a, j, default=True)
        y = seq_get(b, sub(j, na), default=True)
        if x is None:
            return y
        return merge(lt(j, na), x, y)
    return SSeq(add(na, seq_len(b)), fn)


def seq_slice(s, start, n):
    """sub-sequence value"""
    if isinstance(s, CSeq) and is_c(start) and is_c(n):
        return CSeq(s.items[cval(start):cval(start) + cval(n)])
    return SSeq(n, lambda i: seq_get(s, add(start, i)))


def subst_val(v, m):
    if not m:
        return v
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Agg):
        return Agg(v.ty, v.variant, [subst_val(x, m) for x in v.fields])
    if isinstance(v, EnumS):
        return EnumS(v.ty, subst(v.discr, m), {k: tuple(subst_val(x, m) for x in f) for k, f in v.vals.items()})
    if isinstance(v, CSeq):
        return CSeq([subst_val(x, m) for x in v.items])
    if isinstance(v, SSeq):
        return SSeq(subst(v.n, m), lambda i: subst_val(v.elem(i), m))
    if isinstance(v, Ref):
        return Ref(v.cell, tuple((p[0], subst(p[1], m)) if p[0] == 'i' else p for p in v.path),
                   None if v.rng is None else (subst(v.rng[0], m), subst(v.rng[1], m)))
    if isinstance(v, (It, Base)):
        return type(v)(v.kind, [subst_val(x, m) for x in v.fields])
    if isinstance(v, MapV):
        return MapV([(k, subst_val(x, m)) for k, x in v.items])
    if isinstance(v, SeqPH):
        raise LoopFail('placeholder escapes')
    return v


# conditions of assertions (each one is an obligation of its own) and of branches: where paths meet,
# a condition that was only ever asserted does not distinguish them
ASSERTED = set()
BRANCHED = set()
