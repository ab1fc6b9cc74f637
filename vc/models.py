"""Assumed contracts of the standard-library operations the code (and plausible
refactorings of it) uses, and of the specification intrinsics of the harness crate.

Every entry here is a trusted contract on a dependency; DESIGN.md lists them."""
import math
from .values import *
from .terms import *
from . import terms as tm
from . import loops

MODELS = {}
PREFIX = []
HARNESS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def one(st, v):
    return [(st, v)]


def NONE(dty=None):
    return Agg(dty, 0, ())


def SOME(v, dty=None):
    return Agg(dty, 1, (v,))


def deep(ex, st, v):
    """follow references to a value"""
    n = 0
    while isinstance(v, Ref) and n < 8:
        v = ex.read(st, v)
        n += 1
    return v


# ---------------------------------------------------------------- f64
def f64u(name, fn):
    def m(ex, st, ft, a, atys, dty, w):
        return one(st, fn(deep(ex, st, a[0])))
    for p in ('core::f64::<impl f64>::', 'std::f64::<impl f64>::', 'core::num::<impl f64>::', 'core::f64::math::'):
        MODELS[p + name] = m


def f64n(name, fn):
    def m(ex, st, ft, a, atys, dty, w):
        return one(st, fn(*[deep(ex, st, x) for x in a]))
    for p in ('core::f64::<impl f64>::', 'std::f64::<impl f64>::', 'core::num::<impl f64>::', 'core::f64::math::'):
        MODELS[p + name] = m


LN10 = R(math.log(10.0))
LN2 = R(math.log(2.0))
for _n in ('abs', 'exp', 'ln', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'signum', 'sin', 'cos', 'tan', 'atan', 'tanh', 'sinh', 'cosh', 'asin', 'acos'):
    f64u(_n, lambda x, _n=_n: fn1(_n, x))
f64u('recip', lambda x: div(R(1), x))
f64u('exp_m1', lambda x: sub(fn1('exp', x), R(1)))
f64u('ln_1p', lambda x: fn1('ln', add(R(1), x)))
f64u('exp2', lambda x: fn1('exp', mul(x, LN2)))
f64u('log10', lambda x: div(fn1('ln', x), LN10))
f64u('log2', lambda x: div(fn1('ln', x), LN2))
f64u('is_nan', lambda x: B(x is NAN))
f64u('is_infinite', lambda x: B(x in (INF, NINF)))
f64u('is_finite', lambda x: B(x not in (INF, NINF, NAN)))
f64u('is_normal', lambda x: lnot(eq(x, R(0))))
f64u('is_sign_negative', lambda x: lt(x, R(0)))
f64u('is_sign_positive', lambda x: le(R(0), x))
f64u('to_radians', lambda x: mul(x, R(math.pi / 180)))
f64n('max', fmax)
f64n('min', fmin)
f64n('midpoint', lambda a, b: div(add(a, b), R(2)))
f64n('hypot', lambda a, b: fn1('sqrt', add(mul(a, a), mul(b, b))))
f64n('mul_add', lambda a, b, c: add(mul(a, b), c))
f64n('powf', powf)
f64n('clamp', lambda x, a, b: fmax(a, fmin(x, b)))
f64n('copysign', lambda a, b: ite(lt(b, R(0)), neg(fn1('abs', a)), fn1('abs', a)))
f64n('log', lambda a, b: div(fn1('ln', a), fn1('ln', b)))


def _powi(x, n):
    if not is_c(n):
        if n.op == 'ite' and n.h == 0:
            return ite(n.args[0], _powi(x, n.args[1]), _powi(x, n.args[2]))
        raise Unsupported('powi with symbolic exponent')
    return powi(x, int(cval(n)))


f64n('powi', _powi)


def cmp_ord(a, b):
    """Ordering of two scalar terms"""
    if is_c(a) and is_c(b):
        return Agg('Ordering', 0 if cval(a) < cval(b) else 2 if cval(a) > cval(b) else 1, ())
    return EnumS('Ordering', ite(lt(a, b), I(0), ite(lt(b, a), I(2), I(1))), {0: (), 1: (), 2: ()})


def ord_index(o):
    return I(o.variant) if isinstance(o, Agg) else o.discr


@model('core::f64::<impl f64>::total_cmp')
def m_total_cmp(ex, st, ft, a, atys, dty, w):
    return one(st, cmp_ord(deep(ex, st, a[0]), deep(ex, st, a[1])))


# ---------------------------------------------------------------- integers
def intm(name, fn):
    for ty in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
        MODELS['core::num::<impl %s>::%s' % (ty, name)] = fn


def _rng(ex, ft, atys, dty, w):
    return None


def im(name):
    def deco(f):
        def mk_(ty):
            bits = 64 if ty.endswith('size') else int(ty[1:])
            from .exec import INT_RANGE
            rg = INT_RANGE[('int' if ty[0] == 'i' else 'uint', bits)]

            def m(ex, st, ft, a, atys, dty, w):
                return f(ex, st, [deep(ex, st, x) for x in a], rg, w)
            MODELS['core::num::<impl %s>::%s' % (ty, name)] = m
        for ty in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
            mk_(ty)
        return f
    return deco


@im('abs')
def _iabs(ex, st, a, rg, w):
    ex.oblige(st, lt(I(rg[0]), a[0]), 'panic', 'abs overflow', w)
    return one(st, fn1('abs', a[0]))


@im('unsigned_abs')
def _iuabs(ex, st, a, rg, w):
    return one(st, fn1('abs', a[0]))


@im('abs_diff')
def _iad(ex, st, a, rg, w):
    return one(st, fn1('abs', sub(a[0], a[1])))


@im('pow')
def _ipow(ex, st, a, rg, w):
    if not is_c(a[1]) or cval(a[1]) > 8:
        raise Unsupported('int pow')
    r = I(1)
    for _ in range(cval(a[1])):
        r = mul(r, a[0])
    ex.oblige(st, land(le(I(rg[0]), r), le(r, I(rg[1]))), 'panic', 'pow overflow', w)
    return one(st, r)


@im('signum')
def _isg(ex, st, a, rg, w):
    return one(st, ite(lt(a[0], I(0)), I(-1), ite(lt(I(0), a[0]), I(1), I(0))))


def _sat(r, rg):
    return fmax(I(rg[0]), fmin(I(rg[1]), r))


def sat(ex, st, r, rg):
    if ex.prover.int_in(r, rg, st.pc):
        return r
    lo, hi = ex.prover.ibounds(r)
    if lo is None or lo < rg[0]:
        r = fmax(I(rg[0]), r)
    if hi is None or hi > rg[1]:
        r = fmin(I(rg[1]), r)
    return r


for _n, _f in (('saturating_add', add), ('saturating_sub', sub), ('saturating_mul', mul)):
    def _mk(f):
        def g(ex, st, a, rg, w):
            return one(st, sat(ex, st, f(a[0], a[1]), rg))
        return g
    im(_n)(_mk(_f))

for _n, _f in (('wrapping_add', add), ('wrapping_sub', sub), ('wrapping_mul', mul)):
    def _mk2(f):
        def g(ex, st, a, rg, w):
            r = f(a[0], a[1])
            if is_c(r):
                m = rg[1] - rg[0] + 1
                return one(st, I((cval(r) - rg[0]) % m + rg[0]))
            if ex.prover.int_in(r, rg, st.pc):
                return one(st, r)
            m = rg[1] - rg[0] + 1
            if f is sub and rg[0] == 0:
                return one(st, ite(lt(r, I(0)), add(r, I(m)), r))
            if f is add:
                return one(st, ite(lt(I(rg[1]), r), sub(r, I(m)), r))
            raise Unsupported('wrapping op')
        return g
    im(_n)(_mk2(_f))

for _n, _f in (('checked_add', add), ('checked_sub', sub), ('checked_mul', mul)):
    def _mk3(f):
        def g(ex, st, a, rg, w):
            r = f(a[0], a[1])
            ok = land(le(I(rg[0]), r), le(r, I(rg[1])))
            return opt_if(ex, st, ok, r)
        return g
    im(_n)(_mk3(_f))


def _ck_div(ex, st, a, rg, w):
    ok = lnot(eq(a[1], I(0)))
    return opt_if(ex, st, ok, idiv(a[0], a[1]))


im('checked_div')(_ck_div)
im('div_euclid')(lambda ex, st, a, rg, w: one(st, idiv(a[0], a[1])) if rg[0] == 0 else _uns('div_euclid'))
im('rem_euclid')(lambda ex, st, a, rg, w: one(st, irem(a[0], a[1])) if rg[0] == 0 else _uns('rem_euclid'))
im('is_power_of_two')(lambda ex, st, a, rg, w: _uns('is_power_of_two'))
im('midpoint')(lambda ex, st, a, rg, w: one(st, idiv(add(a[0], a[1]), I(2))))
im('div_ceil')(lambda ex, st, a, rg, w: one(st, idiv(add(a[0], sub(a[1], I(1))), a[1])))


def _uns(x):
    raise Unsupported(x)


def opt_if(ex, st, ok, v, dty=None):
    """Some(v) if ok else None, as two paths"""
    if ok is TRUE:
        return [(st, SOME(v, dty))]
    if ok is FALSE:
        return [(st, NONE(dty))]
    out = []
    s = st.assume(ok)
    if ex.feasible(s):
        out.append((s, SOME(v, dty)))
    s = st.assume(lnot(ok))
    if ex.feasible(s):
        out.append((s, NONE(dty)))
    return out


# ---------------------------------------------------------------- intrinsics
INTR = {}


def intr(*names):
    def deco(f):
        for n in names:
            MODELS['std::intrinsics::' + n] = f
            MODELS['core::intrinsics::' + n] = f
        return f
    return deco


@intr('discriminant_value')
def m_discr(ex, st, ft, a, atys, dty, w):
    v = deep(ex, st, a[0])
    ty = ft['args'][0] if ft.get('args') else None
    if isinstance(ty, dict):
        ty = None
    return one(st, ex.discr(v, ty if isinstance(ty, int) else None))


@intr('fabsf64', 'fabs')
def m_fabs(ex, st, ft, a, atys, dty, w):
    return one(st, fn1('abs', a[0]))


for _n, _op in (('exp', 'exp'), ('log', 'ln'), ('sqrt', 'sqrt'), ('round', 'round'), ('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc')):
    for _s in ('', 'f64'):
        MODELS['std::intrinsics::' + _n + _s] = (lambda op: lambda ex, st, ft, a, atys, dty, w: one(st, fn1(op, a[0])))(_op)
for _s in ('', 'f64'):
    MODELS['std::intrinsics::powf' + _s] = lambda ex, st, ft, a, atys, dty, w: one(st, powf(a[0], a[1]))
    MODELS['std::intrinsics::powi' + _s] = lambda ex, st, ft, a, atys, dty, w: one(st, _powi(a[0], a[1]))
    MODELS['std::intrinsics::fma' + _s] = lambda ex, st, ft, a, atys, dty, w: one(st, add(mul(a[0], a[1]), a[2]))


@intr('cold_path', 'assume', 'assert_inhabited', 'const_eval_select')
def m_nop(ex, st, ft, a, atys, dty, w):
    return one(st, UNIT)


@intr('likely', 'unlikely')
def m_id0(ex, st, ft, a, atys, dty, w):
    return one(st, a[0])


# ---------------------------------------------------------------- panics
def m_panic(ex, st, ft, a, atys, dty, w):
    ex.oblige(st, FALSE, 'panic', 'explicit panic', w)
    return []


for _p in ('core::panicking::', 'std::rt::panic', 'std::rt::begin_panic', 'std::panicking::', 'core::option::expect_failed', 'std::option::expect_failed', 'std::option::unwrap_failed', 'core::result::unwrap_failed',
           'std::result::unwrap_failed', 'core::slice::index::slice_', 'std::process::abort', 'alloc::raw_vec::handle_error', 'core::str::slice_error_fail'):
    PREFIX.append((_p, m_panic))


def m_opaque(ex, st, ft, a, atys, dty, w):
    return one(st, Opaque('fmt'))


PREFIX.append(('std::fmt::', m_opaque))
PREFIX.append(('core::fmt::', m_opaque))
PREFIX.append(('alloc::fmt::', m_opaque))
PREFIX.append(('std::io::_', lambda ex, st, ft, a, atys, dty, w: one(st, UNIT)))


# ---------------------------------------------------------------- Box / Rc / RefCell / Cell
@model('std::boxed::Box::<T>::new')
def m_box_new(ex, st, ft, a, atys, dty, w):
    c = ex.alloc(st, a[0])
    return one(st, BoxV(c))


@model('std::boxed::Box::<T>::new_uninit', 'std::boxed::box_new_uninit')
def m_box_uninit(ex, st, ft, a, atys, dty, w):
    c = ex.alloc(st, Opaque('uninit'))
    return one(st, BoxV(c))


def strip_init(v):
    while isinstance(v, Agg):
        fs = [f for f in v.fields if not isinstance(f, Opaque)]
        if len(fs) != 1:
            raise Unsupported('vec! initialiser')
        v = fs[0]
    return v


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_box_vec(ex, st, ft, a, atys, dty, w):
    v = strip_init(st.cells[a[0].cell])
    if not isinstance(v, (CSeq, SSeq)):
        raise Unsupported('vec! initialiser')
    return one(st, v)


@model('std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new')
def m_rc_new(ex, st, ft, a, atys, dty, w):
    return one(st, RcV(ex.alloc(st, a[0])))


@model('std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new', 'std::cell::RefCell::<T>::into_inner', 'std::cell::Cell::<T>::into_inner')
def m_rc(ex, st, ft, a, atys, dty, w):
    return one(st, a[0])


@model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::get_mut', 'std::cell::Cell::<T>::get_mut')
def m_borrow(ex, st, ft, a, atys, dty, w):
    return one(st, a[0])


@model('std::cell::Cell::<T>::get')
def m_cellget(ex, st, ft, a, atys, dty, w):
    return one(st, ex.read(st, a[0]))


@model('std::cell::Cell::<T>::set')
def m_cellset(ex, st, ft, a, atys, dty, w):
    ex.write(st, a[0], a[1])
    return one(st, UNIT)


@model('std::cell::RefCell::<T>::replace', 'std::cell::Cell::<T>::replace', 'std::mem::replace')
def m_cellrep(ex, st, ft, a, atys, dty, w):
    old = ex.read(st, a[0])
    ex.write(st, a[0], a[1])
    return one(st, old)


@model('std::mem::swap')
def m_swap(ex, st, ft, a, atys, dty, w):
    x, y = ex.read(st, a[0]), ex.read(st, a[1])
    ex.write(st, a[0], y)
    ex.write(st, a[1], x)
    return one(st, UNIT)


@model('std::mem::take')
def m_take(ex, st, ft, a, atys, dty, w):
    x = ex.read(st, a[0])
    if isinstance(x, (CSeq, SSeq, SeqPH)):
        ex.write(st, a[0], CSeq(()))
    elif isinstance(x, T):
        ex.write(st, a[0], R(0) if x.sort == 'R' else I(0))
    else:
        raise Unsupported('mem::take')
    return one(st, x)


@model('std::mem::drop', 'std::mem::forget')
def m_drop(ex, st, ft, a, atys, dty, w):
    return one(st, UNIT)


@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::borrow::Borrow::borrow', 'std::convert::AsRef::as_ref', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
       'std::convert::AsMut::as_mut', 'std::vec::Vec::<T, A>::into_boxed_slice_', 'std::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_slice')
def m_deref(ex, st, ft, a, atys, dty, w):
    if ft['icrate'] in ('skillratings', 'harness'):
        return NotImplemented
    v = a[0]
    x = ex.read(st, v) if isinstance(v, Ref) else v
    if isinstance(x, (Ref,)):
        return one(st, x)
    if isinstance(x, BoxV):
        return one(st, Ref(x.cell, ()))
    return one(st, v)


@model('std::vec::Vec::<T, A>::into_boxed_slice')
def m_boxed_slice(ex, st, ft, a, atys, dty, w):
    return one(st, BoxV(ex.alloc(st, a[0])))


# ---------------------------------------------------------------- clone / default / convert
def clone_val(ex, st, v):
    if isinstance(v, RcV):
        return v
    if isinstance(v, BoxV):
        return BoxV(ex.alloc(st, clone_val(ex, st, st.cells[v.cell])))
    if isinstance(v, Agg) and any(isinstance(f, BoxV) for f in v.fields):
        return Agg(v.ty, v.variant, [clone_val(ex, st, f) for f in v.fields])
    return v


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned')
def m_clone(ex, st, ft, a, atys, dty, w):
    return one(st, clone_val(ex, st, ex.read(st, a[0])))


@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'std::vec::Vec::<T, A>::to_vec')
def m_tovec(ex, st, ft, a, atys, dty, w):
    return one(st, deep(ex, st, a[0]))


def default_of(ex, ty):
    t = ex.prog.ty(ty)
    k = t['k']
    if k == 'float':
        return R(0)
    if k in ('int', 'uint'):
        return I(0)
    if k == 'bool':
        return FALSE
    if k == 'tuple':
        return Agg(None, 0, [default_of(ex, x) for x in t['ts']])
    if k == 'adt':
        n = t['n']
        if n.endswith('Vec') or 'vec::Vec' in n:
            return CSeq(())
        if 'Option' in n:
            return NONE(ty)
        if 'HashMap' in n or 'BTreeMap' in n:
            return MapV(())
    if k == 'array':
        return CSeq([default_of(ex, t['e'])] * t['n'])
    raise Unsupported('default of ' + str(t.get('s', k)))


@model('std::default::Default::default')
def m_default(ex, st, ft, a, atys, dty, w):
    args = ft.get('args') or []
    if dty is not None and dty >= 0:
        return one(st, default_of(ex, dty))
    if args and isinstance(args[0], int):
        return one(st, default_of(ex, args[0]))
    return NotImplemented


@model('std::convert::From::from', 'std::convert::Into::into')
def m_from(ex, st, ft, a, atys, dty, w):
    v = a[0]
    if dty is None or dty < 0:
        return NotImplemented
    d = ex.prog.ty(dty)
    if isinstance(v, T):
        if d['k'] == 'float':
            if v.sort == 'B':
                return one(st, ite(v, R(1), R(0)))
            return one(st, i2r(v) if v.sort == 'I' else v)
        if d['k'] in ('int', 'uint'):
            if v.sort == 'B':
                return one(st, ite(v, I(1), I(0)))
            return one(st, v)
        if d['k'] == 'bool':
            return one(st, v)
        if d['k'] == 'adt' and 'Option' in d['n']:
            return one(st, SOME(v, dty))
        if d['k'] == 'adt' and d['crate'] in ('skillratings', 'harness'):
            return NotImplemented
    if d['k'] == 'adt':
        if 'HashMap' in d['n'] and isinstance(v, CSeq):
            m = MapV(())
            for kv in v.items:
                m = map_set(m, kv.fields[0], kv.fields[1])
            return one(st, m)
        if 'Vec' in d['n']:
            x = deep(ex, st, v)
            if isinstance(x, (CSeq, SSeq)):
                return one(st, x)
        if 'Option' in d['n']:
            return one(st, SOME(v, dty))
        if isinstance(v, Agg) and v.ty == dty:
            return one(st, v)
    if atys and atys[0] == dty:
        return one(st, v)
    return NotImplemented


@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_tryfrom(ex, st, ft, a, atys, dty, w):
    v = a[0]
    d = ex.prog.ty(dty) if dty is not None and dty >= 0 else None
    if isinstance(v, T) and v.sort == 'I' and d and d['k'] == 'adt' and d['args']:
        t = d['args'][0]
        t = t if isinstance(t, int) else None
        rg = ex.int_range(t) if t is not None else None
        if rg:
            ok = land(le(I(rg[0]), v), le(v, I(rg[1])))
            if ex.prover.int_in(v, rg, st.pc):
                ok = TRUE
            out = []
            if ok is not FALSE:
                s = st.assume(ok)
                if ex.feasible(s):
                    out.append((s, Agg(dty, 0, (v,))))
            if ok is not TRUE:
                s = st.assume(lnot(ok))
                if ex.feasible(s):
                    out.append((s, Agg(dty, 1, (Opaque('TryFromIntError'),))))
            return out
    return NotImplemented


# ---------------------------------------------------------------- comparison
def val_eq(ex, st, a, b):
    a, b = deep(ex, st, a), deep(ex, st, b)
    if isinstance(a, T) and isinstance(b, T):
        return ex.beq(a, b)
    if isinstance(a, (Agg, EnumS)) and isinstance(b, (Agg, EnumS)):
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.variant != b.variant:
                return FALSE
            return land(*[val_eq(ex, st, x, y) for x, y in zip(a.fields, b.fields)])
        da, va = (I(a.variant), {a.variant: a.fields}) if isinstance(a, Agg) else (a.discr, a.vals)
        db, vb = (I(b.variant), {b.variant: b.fields}) if isinstance(b, Agg) else (b.discr, b.vals)
        c = [eq(da, db)]
        for k in va:
            if k in vb and va[k]:
                c.append(lor(lnot(eq(da, I(k))), land(*[val_eq(ex, st, x, y) for x, y in zip(va[k], vb[k])])))
        return land(*c)
    if isinstance(a, CSeq) and isinstance(b, CSeq):
        if len(a.items) != len(b.items):
            return FALSE
        return land(*[val_eq(ex, st, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, (SSeq, CSeq)) and isinstance(b, (SSeq, CSeq)):
        n = seq_len(a)
        k = tm.fresh('q', 'I', 0)
        return land(eq(n, seq_len(b)), close('forall', n, k, val_eq(ex, st, seq_get(a, k), seq_get(b, k))))
    if isinstance(a, StrV) and isinstance(b, StrV):
        return B(a.s == b.s)
    raise Unsupported('eq of %r, %r' % (a, b))


@model('std::cmp::PartialEq::eq', 'core::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq')
def m_eq(ex, st, ft, a, atys, dty, w):
    return one(st, val_eq(ex, st, a[0], a[1]))


@model('std::cmp::PartialEq::ne')
def m_ne(ex, st, ft, a, atys, dty, w):
    return one(st, lnot(val_eq(ex, st, a[0], a[1])))


def val_cmp(ex, st, a, b):
    a, b = deep(ex, st, a), deep(ex, st, b)
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == 'B':
            a, b = ite(a, I(1), I(0)), ite(b, I(1), I(0))
        return cmp_ord(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.variant == b.variant and len(a.fields) == len(b.fields) and len(a.fields) >= 1:
        r = val_cmp(ex, st, a.fields[-1], b.fields[-1])
        for x, y in zip(a.fields[-2::-1], b.fields[-2::-1]):
            c = val_cmp(ex, st, x, y)
            i = ord_index(c)
            r = merge(eq(i, I(1)), r, c)
        return r
    raise Unsupported('cmp')


@model('std::cmp::Ord::cmp')
def m_cmp(ex, st, ft, a, atys, dty, w):
    return one(st, val_cmp(ex, st, a[0], a[1]))


@model('std::cmp::PartialOrd::partial_cmp')
def m_pcmp(ex, st, ft, a, atys, dty, w):
    return one(st, SOME(val_cmp(ex, st, a[0], a[1]), dty))


def _ordrel(f):
    def m(ex, st, ft, a, atys, dty, w):
        if ft['icrate'] in ('skillratings', 'harness'):
            return NotImplemented
        return one(st, f(ord_index(val_cmp(ex, st, a[0], a[1]))))
    return m


MODELS['std::cmp::PartialOrd::lt'] = _ordrel(lambda o: eq(o, I(0)))
MODELS['std::cmp::PartialOrd::le'] = _ordrel(lambda o: lnot(eq(o, I(2))))
MODELS['std::cmp::PartialOrd::gt'] = _ordrel(lambda o: eq(o, I(2)))
MODELS['std::cmp::PartialOrd::ge'] = _ordrel(lambda o: lnot(eq(o, I(0))))


@model('std::cmp::Ord::min', 'std::cmp::min')
def m_min(ex, st, ft, a, atys, dty, w):
    if isinstance(a[0], T):
        return one(st, int_min(ex, st, a[0], a[1]))
    raise Unsupported('min')


@model('std::cmp::Ord::max', 'std::cmp::max')
def m_max(ex, st, ft, a, atys, dty, w):
    if isinstance(a[0], T):
        return one(st, int_max(ex, st, a[0], a[1]))
    raise Unsupported('max')


def int_min(ex, st, a, b):
    if a.sort == 'I':
        if ex.prover.int_nonneg(sub(b, a), st.pc):
            return a
        if ex.prover.int_nonneg(sub(a, b), st.pc):
            return b
    return fmin(a, b)


def int_max(ex, st, a, b):
    if a.sort == 'I':
        if ex.prover.int_nonneg(sub(b, a), st.pc):
            return b
        if ex.prover.int_nonneg(sub(a, b), st.pc):
            return a
    return fmax(a, b)


@model('std::cmp::Ord::clamp')
def m_clamp(ex, st, ft, a, atys, dty, w):
    return one(st, fmax(a[1], fmin(a[0], a[2])))


@model('std::cmp::Ordering::reverse')
def m_ordrev(ex, st, ft, a, atys, dty, w):
    i = ord_index(a[0])
    d = sub(I(2), i)
    if is_c(d):
        return one(st, Agg('Ordering', cval(d), ()))
    return one(st, EnumS('Ordering', d, {0: (), 1: (), 2: ()}))


for _n, _f in (('is_lt', lambda i: eq(i, I(0))), ('is_le', lambda i: lnot(eq(i, I(2)))), ('is_gt', lambda i: eq(i, I(2))), ('is_ge', lambda i: lnot(eq(i, I(0)))), ('is_eq', lambda i: eq(i, I(1))), ('is_ne', lambda i: lnot(eq(i, I(1))))):
    MODELS['std::cmp::Ordering::' + _n] = (lambda f: lambda ex, st, ft, a, atys, dty, w: one(st, f(ord_index(a[0]))))(_f)


# ---------------------------------------------------------------- operator traits on scalars / refs
def opm(name, f):
    def m(ex, st, ft, a, atys, dty, w):
        x, y = deep(ex, st, a[0]), deep(ex, st, a[1])
        if not (isinstance(x, T) and isinstance(y, T)):
            return NotImplemented
        r = f(x, y)
        if r.sort == 'I' and dty is not None and dty >= 0:
            rg = ex.int_range(dty)
            if rg:
                ex.oblige(st, land(le(I(rg[0]), r), le(r, I(rg[1]))), 'panic', 'overflow', w)
        return one(st, r)
    MODELS['std::ops::' + name] = m


opm('Add::add', add)
opm('Sub::sub', sub)
opm('Mul::mul', mul)
opm('Div::div', lambda a, b: div(a, b) if a.sort == 'R' else idiv(a, b))


@model('std::ops::Neg::neg')
def m_neg(ex, st, ft, a, atys, dty, w):
    return one(st, neg(deep(ex, st, a[0])))


@model('std::ops::Not::not')
def m_not(ex, st, ft, a, atys, dty, w):
    return one(st, lnot(deep(ex, st, a[0])))


def opa(name, f):
    def m(ex, st, ft, a, atys, dty, w):
        x, y = ex.read(st, a[0]), deep(ex, st, a[1])
        if not (isinstance(x, T) and isinstance(y, T)):
            return NotImplemented
        ex.write(st, a[0], f(x, y))
        return one(st, UNIT)
    MODELS['std::ops::' + name] = m


opa('AddAssign::add_assign', add)
opa('SubAssign::sub_assign', sub)
opa('MulAssign::mul_assign', mul)
opa('DivAssign::div_assign', lambda a, b: div(a, b) if a.sort == 'R' else idiv(a, b))


# ---------------------------------------------------------------- Option / Result / Try
def opt_cases(ex, st, v):
    """[(state, variant, fields)] feasible variants of an enum value"""
    if isinstance(v, Agg):
        return [(st, v.variant, v.fields)]
    if isinstance(v, EnumS):
        out = []
        for k in sorted(v.vals):
            c = eq(v.discr, I(k))
            if c is FALSE:
                continue
            s = st.assume(c)
            if c is TRUE or ex.feasible(s):
                out.append((s, k, v.vals[k]))
        return out
    raise Unsupported('enum cases of %r' % (v,))


def flatcases(ex, st, v, f):
    """apply f(st, variant, fields)-> [(st,val)] on each case, merge"""
    outs = []
    cs = opt_cases(ex, st, v)
    for s, k, fs in cs:
        outs.extend(f(s, k, fs))
    if len(cs) > 1:
        return ex.try_merge(st, outs)
    return outs


@model('std::ops::Try::branch')
def m_branch(ex, st, ft, a, atys, dty, w):
    # Result: Ok -> Continue(0), Err -> Break(1) ; Option: Some -> Continue, None -> Break
    isopt = 'Option' in ft['iname']

    def f(s, k, fs):
        good = (k == 1) if isopt else (k == 0)
        if good:
            return [(s, Agg(dty, 0, fs))]
        return [(s, Agg(dty, 1, (Agg(None, k, fs),)))]
    outs = []
    for s, k, fs in opt_cases(ex, st, a[0]):
        outs.extend(f(s, k, fs))
    return outs


@model('std::ops::FromResidual::from_residual')
def m_fromres(ex, st, ft, a, atys, dty, w):
    return one(st, a[0])


@model('std::ops::Try::from_output')
def m_fromout(ex, st, ft, a, atys, dty, w):
    isopt = 'Option' in ft['iname']
    return one(st, Agg(dty, 1 if isopt else 0, (a[0],)))


def callf(ex, st, f, args, w):
    return ex.call_value(st, f, args, w)


def optmeth(name, f):
    for p in ('std::option::Option::<T>::', 'core::option::Option::<T>::'):
        MODELS[p + name] = f


def _om(name):
    def deco(g):
        def m(ex, st, ft, a, atys, dty, w):
            return flatcases(ex, st, a[0], lambda s, k, fs: g(ex, s, k, fs, a, dty, w))
        optmeth(name, m)
        return g
    return deco


@_om('unwrap_or')
def _(ex, s, k, fs, a, dty, w):
    return [(s, fs[0] if k == 1 else a[1])]


@_om('unwrap_or_else')
def _(ex, s, k, fs, a, dty, w):
    return [(s, fs[0])] if k == 1 else callf(ex, s, a[1], [], w)


@_om('unwrap_or_default')
def _(ex, s, k, fs, a, dty, w):
    return [(s, fs[0] if k == 1 else default_of(ex, dty))]


@_om('map')
def _(ex, s, k, fs, a, dty, w):
    if k == 0:
        return [(s, NONE(dty))]
    return [(s2, SOME(v, dty)) for s2, v in callf(ex, s, a[1], [fs[0]], w)]


@_om('map_or')
def _(ex, s, k, fs, a, dty, w):
    if k == 0:
        return [(s, a[1])]
    return callf(ex, s, a[2], [fs[0]], w)


@_om('map_or_else')
def _(ex, s, k, fs, a, dty, w):
    if k == 0:
        return callf(ex, s, a[1], [], w)
    return callf(ex, s, a[2], [fs[0]], w)


@_om('and_then')
def _(ex, s, k, fs, a, dty, w):
    if k == 0:
        return [(s, NONE(dty))]
    return callf(ex, s, a[1], [fs[0]], w)


@_om('or')
def _(ex, s, k, fs, a, dty, w):
    return [(s, a[1] if k == 0 else SOME(fs[0], dty))]


@_om('or_else')
def _(ex, s, k, fs, a, dty, w):
    return callf(ex, s, a[1], [], w) if k == 0 else [(s, SOME(fs[0], dty))]


@_om('filter')
def _(ex, s, k, fs, a, dty, w):
    if k == 0:
        return [(s, NONE(dty))]
    c = ex.alloc(s, fs[0])
    out = []
    for s2, b in callf(ex, s, a[1], [Ref(c)], w):
        out += opt_if(ex, s2, b, fs[0], dty)
    return out


@_om('ok_or')
def _(ex, s, k, fs, a, dty, w):
    return [(s, Agg(dty, 0, fs) if k == 1 else Agg(dty, 1, (a[1],)))]


@_om('ok_or_else')
def _(ex, s, k, fs, a, dty, w):
    if k == 1:
        return [(s, Agg(dty, 0, fs))]
    return [(s2, Agg(dty, 1, (v,))) for s2, v in callf(ex, s, a[1], [], w)]


def unwrap_like(okv):
    def m(ex, st, ft, a, atys, dty, w):
        outs = []
        for s, k, fs in opt_cases(ex, st, a[0]):
            if k == okv:
                ex.oblige(s, TRUE, 'panic', 'unwrap', w)
                outs.append((s, fs[0]))
            else:
                ex.oblige(s, FALSE, 'panic', 'unwrap of the wrong variant', w)
        return outs
    return m


for _n in ('unwrap', 'expect'):
    optmeth(_n, unwrap_like(1))
    for _p in ('std::result::Result::<T, E>::', 'core::result::Result::<T, E>::'):
        MODELS[_p + _n] = unwrap_like(0)


def enum_is(kk):
    def m(ex, st, ft, a, atys, dty, w):
        v = ex.read(st, a[0])
        if isinstance(v, Agg):
            return one(st, B(v.variant == kk))
        return one(st, eq(v.discr, I(kk)))
    return m


optmeth('is_some', enum_is(1))
optmeth('is_none', enum_is(0))
for _p in ('std::result::Result::<T, E>::', 'core::result::Result::<T, E>::'):
    MODELS[_p + 'is_ok'] = enum_is(0)
    MODELS[_p + 'is_err'] = enum_is(1)


def m_optref(ex, st, ft, a, atys, dty, w):
    """as_ref / as_mut: reference into the payload"""
    v = ex.read(st, a[0])

    def f(s, k, fs):
        if k == 0:
            return [(s, NONE(dty))]
        return [(s, SOME(Ref(a[0].cell, a[0].path + (('v', 1), ('f', 0))), dty))]
    outs = []
    for s, k, fs in opt_cases(ex, st, v):
        outs += f(s, k, fs)
    return outs


optmeth('as_ref', m_optref)
optmeth('as_mut', m_optref)


def m_optcopied(ex, st, ft, a, atys, dty, w):
    return flatcases(ex, st, a[0], lambda s, k, fs: [(s, NONE(dty) if k == 0 else SOME(clone_val(ex, s, ex.read(s, fs[0])), dty))])


for _n in ('copied', 'cloned'):
    for _p in ('std::option::Option::<&T>::', 'core::option::Option::<&T>::', 'std::option::Option::<&mut T>::'):
        MODELS[_p + _n] = m_optcopied


def m_opttake(ex, st, ft, a, atys, dty, w):
    v = ex.read(st, a[0])
    ex.write(st, a[0], NONE(dty))
    return one(st, v)


optmeth('take', m_opttake)


def resm(name):
    def deco(g):
        def m(ex, st, ft, a, atys, dty, w):
            return flatcases(ex, st, a[0], lambda s, k, fs: g(ex, s, k, fs, a, dty, w))
        MODELS['std::result::Result::<T, E>::' + name] = m
        MODELS['core::result::Result::<T, E>::' + name] = m
        return g
    return deco


@resm('map')
def _(ex, s, k, fs, a, dty, w):
    if k == 1:
        return [(s, Agg(dty, 1, fs))]
    return [(s2, Agg(dty, 0, (v,))) for s2, v in callf(ex, s, a[1], [fs[0]], w)]


@resm('map_err')
def _(ex, s, k, fs, a, dty, w):
    if k == 0:
        return [(s, Agg(dty, 0, fs))]
    return [(s2, Agg(dty, 1, (v,))) for s2, v in callf(ex, s, a[1], [fs[0]], w)]


@resm('and_then')
def _(ex, s, k, fs, a, dty, w):
    if k == 1:
        return [(s, Agg(dty, 1, fs))]
    return callf(ex, s, a[1], [fs[0]], w)


@resm('ok')
def _(ex, s, k, fs, a, dty, w):
    return [(s, SOME(fs[0], dty) if k == 0 else NONE(dty))]


@resm('err')
def _(ex, s, k, fs, a, dty, w):
    return [(s, SOME(fs[0], dty) if k == 1 else NONE(dty))]


@resm('unwrap_or')
def _(ex, s, k, fs, a, dty, w):
    return [(s, fs[0] if k == 0 else a[1])]


@resm('unwrap_or_else')
def _(ex, s, k, fs, a, dty, w):
    return [(s, fs[0])] if k == 0 else callf(ex, s, a[1], [fs[0]], w)


@model('std::bool::<impl bool>::then', 'core::bool::<impl bool>::then')
def m_then(ex, st, ft, a, atys, dty, w):
    out = []
    for s, v in opt_if(ex, st, a[0], UNIT, dty):
        if v.variant == 0:
            out.append((s, v))
        else:
            out += [(s2, SOME(x, dty)) for s2, x in callf(ex, s, a[1], [], w)]
    return out


@model('std::bool::<impl bool>::then_some', 'core::bool::<impl bool>::then_some')
def m_then_some(ex, st, ft, a, atys, dty, w):
    return opt_if(ex, st, a[0], a[1], dty)


# ---------------------------------------------------------------- calling closures through traits
@model('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def m_call(ex, st, ft, a, atys, dty, w):
    args = list(a[1].fields) if len(a) > 1 and isinstance(a[1], Agg) else []
    return ex.call_value(st, a[0], args, w)


# ---------------------------------------------------------------- slices, Vec
def seqref(ex, st, v):
    """value that denotes a sequence (by reference) -> Ref"""
    n = 0
    while n < 8:
        if isinstance(v, BoxV):
            v = Ref(v.cell, ())
        x = ex.read(st, v) if v.rng is None else None
        if isinstance(x, (Ref, BoxV)):
            v = x
            n += 1
            continue
        return v
    raise Unsupported('seqref')


@model('core::slice::<impl [T]>::len', 'std::vec::Vec::<T, A>::len', 'core::array::<impl [T; N]>::len')
def m_len(ex, st, ft, a, atys, dty, w):
    return one(st, ex.slice_len(st, seqref(ex, st, a[0])))


@model('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::<T, A>::is_empty')
def m_isempty(ex, st, ft, a, atys, dty, w):
    n = ex.slice_len(st, seqref(ex, st, a[0]))
    if n.op == 'v' and tm.var_info.get(n, {}).get('lo') == 0:
        return one(st, le(n, I(0)))
    return one(st, le(n, I(0)))


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::with_capacity_in')
def m_vecnew(ex, st, ft, a, atys, dty, w):
    return one(st, CSeq(()))


@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::vec::Vec::<T, A>::reserve_exact')
def m_vecreserve(ex, st, ft, a, atys, dty, w):
    return one(st, UNIT)


@model('std::vec::Vec::<T, A>::push')
def m_push(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    ex.write(st, r, seq_push(ex.read(st, r), a[1]))
    return one(st, UNIT)


@model('std::vec::Vec::<T, A>::pop')
def m_pop(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    v = ex.read(st, r)
    if isinstance(v, CSeq):
        if not v.items:
            return one(st, NONE(dty))
        ex.write(st, r, CSeq(v.items[:-1]))
        return one(st, SOME(v.items[-1], dty))
    raise Unsupported('pop')


@model('std::vec::Vec::<T, A>::clear')
def m_clear(ex, st, ft, a, atys, dty, w):
    ex.write(st, seqref(ex, st, a[0]), CSeq(()))
    return one(st, UNIT)


@model('std::vec::Vec::<T, A>::truncate')
def m_trunc(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    v = ex.read(st, r)
    if isinstance(v, CSeq) and is_c(a[1]):
        ex.write(st, r, CSeq(v.items[:cval(a[1])]))
        return one(st, UNIT)
    raise Unsupported('truncate')


@model('std::vec::Vec::<T, A>::insert')
def m_insert(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    v = ex.read(st, r)
    if isinstance(v, CSeq) and is_c(a[1]) and cval(a[1]) <= len(v.items):
        l = list(v.items)
        l.insert(cval(a[1]), a[2])
        ex.write(st, r, CSeq(l))
        return one(st, UNIT)
    raise Unsupported('insert')


@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def m_remove(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    v = ex.read(st, r)
    if 'swap' not in ft['def'] and isinstance(v, CSeq) and is_c(a[1]) and cval(a[1]) < len(v.items):
        l = list(v.items)
        x = l.pop(cval(a[1]))
        ex.write(st, r, CSeq(l))
        return one(st, x)
    raise Unsupported('remove')


@model('std::vec::Vec::<T, A>::append')
def m_append(ex, st, ft, a, atys, dty, w):
    r, q = seqref(ex, st, a[0]), seqref(ex, st, a[1])
    ex.write(st, r, seq_concat(ex.read(st, r), ex.read(st, q)))
    ex.write(st, q, CSeq(()))
    return one(st, UNIT)


@model('std::vec::Vec::<T, A>::extend_from_slice')
def m_efs(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    ex.write(st, r, seq_concat(ex.read(st, r), deep(ex, st, a[1])))
    return one(st, UNIT)


@model('std::vec::from_elem')
def m_from_elem(ex, st, ft, a, atys, dty, w):
    v, n = a
    if is_c(n) and cval(n) <= 4096:
        return one(st, CSeq([v] * cval(n)))
    return one(st, SSeq(n, lambda i: v))


def check_index(ex, st, i, n, w):
    ok = lt(i, n)
    if ok is not TRUE and not is_c(i):
        ok = land(le(I(0), i), ok) if not ex.prover.int_nonneg(i, st.pc) else ok
    ex.oblige(st, ok, 'panic', 'index out of bounds', w)
    if ok is FALSE:
        return None
    return st.assume(ok)


def range_args(ex, st, v, n):
    """Range-like Agg -> (start, end) terms"""
    tn = ''
    if v.ty is not None and isinstance(v.ty, int):
        t = ex.prog.ty(v.ty)
        tn = t.get('n', '')
    if tn.endswith('RangeFull') or not v.fields:
        return I(0), n
    if tn.endswith('RangeFrom'):
        return v.fields[0], n
    if tn.endswith('RangeToInclusive'):
        return I(0), add(v.fields[0], I(1))
    if tn.endswith('RangeTo'):
        return I(0), v.fields[0]
    if tn.endswith('RangeInclusive'):
        return v.fields[0], add(v.fields[1], I(1))
    if tn.endswith('Range') or len(v.fields) == 2:
        return v.fields[0], v.fields[1]
    raise Unsupported('range ' + tn)


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'std::slice::SliceIndex::index', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index')
def m_index(ex, st, ft, a, atys, dty, w):
    if 'SliceIndex' in ft['def']:
        a = [a[1], a[0]]
    base = a[0]
    x = ex.read(st, base) if isinstance(base, Ref) and base.rng is None else None
    if isinstance(x, MapV):
        k = key_of(ex, st, a[1])
        for kk, v in x.items:
            if kk == k:
                return one(st, Ref(base.cell, base.path + (('m', k),)))
        ex.oblige(st, FALSE, 'panic', 'missing key', w)
        return []
    r = seqref(ex, st, base)
    n = ex.slice_len(st, r)
    i = a[1]
    if isinstance(i, T):
        s = check_index(ex, st, i, n, w)
        if s is None:
            return []
        return one(s, ex.index_ref(r, i))
    lo, hi = range_args(ex, st, i, n)
    ok = land(le(lo, hi), le(hi, n))
    ex.oblige(st, ok, 'panic', 'slice range', w)
    if ok is FALSE:
        return []
    s = st.assume(ok)
    s0 = r.rng[0] if r.rng is not None else I(0)
    return one(s, Ref(r.cell, r.path, (add(s0, lo), sub(hi, lo))))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def m_get(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    i = a[1]
    if isinstance(i, T):
        return opt_if(ex, st, lt(i, n), ex.index_ref(r, i), dty)
    lo, hi = range_args(ex, st, i, n)
    s0 = r.rng[0] if r.rng is not None else I(0)
    return opt_if(ex, st, land(le(lo, hi), le(hi, n)), Ref(r.cell, r.path, (add(s0, lo), sub(hi, lo))), dty)


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def m_first(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    return opt_if(ex, st, lt(I(0), ex.slice_len(st, r)), ex.index_ref(r, I(0)), dty)


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def m_last(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    return opt_if(ex, st, lt(I(0), n), ex.index_ref(r, sub(n, I(1))), dty)


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def m_splitat(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    ok = le(a[1], n)
    ex.oblige(st, ok, 'panic', 'split_at', w)
    s0 = r.rng[0] if r.rng is not None else I(0)
    s = st.assume(ok)
    return one(s, Agg(None, 0, (Ref(r.cell, r.path, (s0, a[1])), Ref(r.cell, r.path, (add(s0, a[1]), sub(n, a[1]))))))


@model('core::slice::<impl [T]>::split_first')
def m_splitfirst(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    s0 = r.rng[0] if r.rng is not None else I(0)
    return opt_if(ex, st, lt(I(0), n), Agg(None, 0, (ex.index_ref(r, I(0)), Ref(r.cell, r.path, (add(s0, I(1)), sub(n, I(1)))))), dty)


@model('core::slice::<impl [T]>::split_last')
def m_splitlast(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    s0 = r.rng[0] if r.rng is not None else I(0)
    return opt_if(ex, st, lt(I(0), n), Agg(None, 0, (ex.index_ref(r, sub(n, I(1))), Ref(r.cell, r.path, (s0, sub(n, I(1)))))), dty)


@model('core::slice::<impl [T]>::swap')
def m_sswap(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    for i in (a[1], a[2]):
        s = check_index(ex, st, i, n, w)
        if s is None:
            return []
        st = s
    p, q = ex.index_ref(r, a[1]), ex.index_ref(r, a[2])
    x, y = ex.read(st, p), ex.read(st, q)
    ex.write(st, p, y)
    ex.write(st, q, x)
    return one(st, UNIT)


@model('core::slice::<impl [T]>::reverse')
def m_srev(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    v = ex.read(st, r)
    if r.rng is not None:
        raise Unsupported('reverse subslice')
    if isinstance(v, CSeq):
        ex.write(st, r, CSeq(v.items[::-1]))
    elif isinstance(v, SSeq):
        ex.write(st, r, SSeq(v.n, lambda i: v.elem(sub(sub(v.n, I(1)), i))))
    else:
        raise Unsupported('reverse')
    return one(st, UNIT)


@model('core::slice::<impl [T]>::contains')
def m_contains(ex, st, ft, a, atys, dty, w):
    v = deep(ex, st, a[0])
    if isinstance(v, CSeq):
        return one(st, lor(*[val_eq(ex, st, x, a[1]) for x in v.items]))
    n = seq_len(v)
    k = tm.fresh('q', 'I', 0)
    return one(st, close('exists', n, k, val_eq(ex, st, seq_get(v, k), a[1])))


@model('core::slice::<impl [T]>::fill')
def m_fill(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    v = ex.read(st, r)
    if isinstance(v, CSeq):
        ex.write(st, r, CSeq([a[1]] * len(v.items)))
    else:
        ex.write(st, r, SSeq(seq_len(v), lambda i: a[1]))
    return one(st, UNIT)


def stable_sort(ex, st, r, cmp, w):
    """cmp(st, refA, refB) -> [(st, bool: B strictly before A)]"""
    v = ex.read(st, r)
    if isinstance(v, (SSeq,)) and is_c(v.n):
        v = CSeq([v.elem(I(i)) for i in range(cval(v.n))])
    if not isinstance(v, CSeq):
        raise Unsupported('sort of symbolic length')
    if len(v.items) > 5:
        raise Unsupported('sort too long')
    states = [(st, [])]
    for x in v.items:
        new = []
        for s, l in states:
            # insert x after the last element that is <= x (stable)
            work = [(s, len(l))]
            while work:
                s1, pos = work.pop()
                if pos == 0:
                    new.append((s1, [x] + l))
                    continue
                s1 = s1.copy()
                ca, cb = ex.alloc(s1, x), ex.alloc(s1, l[pos - 1])
                for s2, less in cmp(s1, Ref(ca), Ref(cb)):
                    if less is not FALSE:
                        s3 = s2.assume(less)
                        if ex.feasible(s3):
                            work.append((s3, pos - 1))
                    if less is not TRUE:
                        s3 = s2.assume(lnot(less))
                        if ex.feasible(s3):
                            new.append((s3, l[:pos] + [x] + l[pos:]))
        states = new
    out = []
    for s, l in states:
        s = s.copy()
        ex.write(s, r, CSeq(l))
        out.append((s, UNIT))
    return out


@model('std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by_key', 'std::slice::<impl [T]>::sort_by_cached_key')
def m_sortkey(ex, st, ft, a, atys, dty, w):
    def cmp(s, x, y):
        out = []
        for s1, kx in callf(ex, s, a[1], [x], w):
            for s2, ky in callf(ex, s1, a[1], [y], w):
                out.append((s2, eq(ord_index(val_cmp(ex, s2, kx, ky)), I(0))))
        return out
    return stable_sort(ex, st, seqref(ex, st, a[0]), cmp, w)


@model('std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by')
def m_sortby(ex, st, ft, a, atys, dty, w):
    def cmp(s, x, y):
        return [(s1, eq(ord_index(o), I(0))) for s1, o in callf(ex, s, a[1], [x, y], w)]
    return stable_sort(ex, st, seqref(ex, st, a[0]), cmp, w)


@model('std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def m_sort(ex, st, ft, a, atys, dty, w):
    return stable_sort(ex, st, seqref(ex, st, a[0]), lambda s, x, y: [(s, eq(ord_index(val_cmp(ex, s, x, y)), I(0)))], w)


# ---------------------------------------------------------------- HashMap (concrete keys)
def key_of(ex, st, v):
    v = deep(ex, st, v)
    if isinstance(v, T) and is_c(v):
        return cval(v)
    if isinstance(v, Agg):
        return (v.variant,) + tuple(key_of(ex, st, f) for f in v.fields)
    raise Unsupported('symbolic map key')


def map_set(m, k, v):
    if isinstance(k, T):
        if not is_c(k):
            raise Unsupported('symbolic map key')
        k = cval(k)
    items = [(a, b) for a, b in m.items if a != k]
    pos = [i for i, (a, b) in enumerate(m.items) if a == k]
    if pos:
        items = list(m.items)
        items[pos[0]] = (k, v)
    else:
        items.append((k, v))
    return MapV(items)


for _c in ('HashMap', 'BTreeMap'):
    for _g in ('<K, V, S, A>', '<K, V, S>', '<K, V, A>', '<K, V>'):
        p = 'std::collections::%s::%s::' % (_c, _g)

        def _reg(p):
            def new(ex, st, ft, a, atys, dty, w):
                return one(st, MapV(()))
            MODELS[p + 'new'] = new
            MODELS[p + 'with_capacity'] = new

            def get(ex, st, ft, a, atys, dty, w):
                m = ex.read(st, a[0])
                kt = deep(ex, st, a[1])
                if isinstance(kt, T) and not is_c(kt) and kt.sort == 'I' and m.items and all(isinstance(kk, int) for kk, _ in m.items):
                    # symbolic key: found iff it is one of the keys; the value by cases
                    its = sorted(m.items, key=lambda z: z[0])
                    ks = [kk for kk, _ in its]
                    if ks == list(range(ks[0], ks[-1] + 1)):
                        found = land(le(I(ks[0]), kt), le(kt, I(ks[-1])))
                    else:
                        found = lor(*[eq(kt, I(kk)) for kk in ks])
                    val = its[-1][1]
                    for kk, v in its[-2::-1]:
                        val = merge(eq(kt, I(kk)), v, val)
                    return branch(ex, st, found, lambda s: one(s, SOME(Ref(ex.alloc(s, val), ()), dty)), lambda s: one(s, NONE(dty)))
                k = key_of(ex, st, a[1])
                if any(kk == k for kk, _ in m.items):
                    return one(st, SOME(Ref(a[0].cell, a[0].path + (('m', k),)), dty))
                return one(st, NONE(dty))
            MODELS[p + 'get'] = get

            def get_mut(ex, st, ft, a, atys, dty, w):
                key_of(ex, st, a[1])
                return get(ex, st, ft, a, atys, dty, w)
            MODELS[p + 'get_mut'] = get_mut

            def contains(ex, st, ft, a, atys, dty, w):
                m = ex.read(st, a[0])
                k = key_of(ex, st, a[1])
                return one(st, B(any(kk == k for kk, _ in m.items)))
            MODELS[p + 'contains_key'] = contains

            def insert(ex, st, ft, a, atys, dty, w):
                m = ex.read(st, a[0])
                k = key_of(ex, st, a[1])
                old = [v for kk, v in m.items if kk == k]
                ex.write(st, a[0], map_set(m, k, a[2]))
                return one(st, SOME(old[0], dty) if old else NONE(dty))
            MODELS[p + 'insert'] = insert

            def mlen(ex, st, ft, a, atys, dty, w):
                return one(st, I(len(ex.read(st, a[0]).items)))
            MODELS[p + 'len'] = mlen

            def entry(ex, st, ft, a, atys, dty, w):
                return one(st, Agg('Entry', 0, (a[0], a[1])))
            MODELS[p + 'entry'] = entry
        _reg(p)


def entry_or(mkv):
    def m(ex, st, ft, a, atys, dty, w):
        ref, key = a[0].fields
        k = key_of(ex, st, key)
        mp = ex.read(st, ref)
        if not any(kk == k for kk, _ in mp.items):
            outs = mkv(ex, st, ft, a, dty, w)
            if len(outs) != 1:
                raise Unsupported('entry default')
            st, v = outs[0]
            ex.write(st, ref, map_set(mp, k, v))
        return one(st, Ref(ref.cell, ref.path + (('m', k),)))
    return m


def _ordef(ex, st, ft, a, dty, w):
    t = ex.prog.ty(dty)
    ety = t['e']
    e = ex.prog.ty(ety)
    if e['k'] == 'adt' and e['crate'] == 'skillratings':
        # user type: run its Default impl
        for i, inst in enumerate(ex.prog.insts):
            if inst['crate'] == 'skillratings' and inst['n'].endswith('as std::default::Default>::default') and e['n'].split('::')[-1] in inst['n'] and inst['body'] is not None:
                return ex.call_inst(st, i, [])
    return [(st, default_of(ex, ety))]


for _p in ("std::collections::hash_map::Entry::<'a, K, V>::", "std::collections::hash_map::Entry::<'a, K, V, A>::", "std::collections::btree_map::Entry::<'a, K, V, A>::"):
    MODELS[_p + 'or_default'] = entry_or(_ordef)
    MODELS[_p + 'or_insert'] = entry_or(lambda ex, st, ft, a, dty, w: [(st, a[1])])
    MODELS[_p + 'or_insert_with'] = entry_or(lambda ex, st, ft, a, dty, w: callf(ex, st, a[1], [], w))


# ---------------------------------------------------------------- iterators
def to_iter(ex, st, v):
    """IntoIterator on a value"""
    if isinstance(v, It):
        return v
    if isinstance(v, (CSeq, SSeq)):
        return It('ra', (Base('own', (v,)), I(0), seq_len(v)))
    if isinstance(v, Ref):
        x = ex.read(st, v) if v.rng is None else None
        if isinstance(x, It):
            return It('byref', (v,))
        if isinstance(x, Agg) and is_range(ex, x):
            return It('byref', (v,))
        if isinstance(x, (Agg, EnumS)) and is_option(ex, x):
            outs = x
            if isinstance(x, Agg):
                return to_iter(ex, st, CSeq([Ref(v.cell, v.path + (('v', 1), ('f', 0)))] if x.variant == 1 else []))
            raise Unsupported('iter over symbolic option')
        r = seqref(ex, st, v)
        return It('ra', (Base('slice', (r,)), I(0), ex.slice_len(st, r)))
    if isinstance(v, BoxV):
        return to_iter(ex, st, Ref(v.cell, ()))
    if isinstance(v, Agg) and is_range(ex, v):
        a, b = v.fields[0], v.fields[1]
        tn = ex.prog.ty(v.ty)['n']
        n = sub(b, a)
        if tn.endswith('RangeInclusive'):
            n = add(n, I(1))
        return It('ra', (Base('range', (a,)), I(0), int_max(ex, st, I(0), n)))
    if isinstance(v, Agg) and is_option(ex, v):
        return to_iter(ex, st, CSeq(v.fields))
    if isinstance(v, EnumS) and is_option(ex, v):
        return It('ra', (Base('own', (SSeq(v.discr, lambda i: v.vals[1][0]),)), I(0), v.discr))
    if isinstance(v, Agg) and v.ty is not None and isinstance(v.ty, int) and ex.prog.ty(v.ty).get('n', '').endswith('RangeFrom'):
        return It('ra', (Base('range', (v.fields[0],)), I(0), I(2 ** 63)))
    raise Unsupported('into_iter of %r' % (v,))


def is_range(ex, v):
    if v.ty is None or not isinstance(v.ty, int):
        return False
    n = ex.prog.ty(v.ty).get('n', '')
    return n.endswith('::Range') or n.endswith('::RangeInclusive')


def is_option(ex, v):
    if v.ty is None or not isinstance(v.ty, int):
        return False
    return ex.prog.ty(v.ty).get('n', '').endswith('option::Option')


def base_get(ex, st, b, i, w):
    """element i of a random-access base: [(st, value)]"""
    k = b.kind
    if k == 'own':
        return [(st, seq_get(b.fields[0], i))]
    if k == 'slice':
        return [(st, ex.index_ref(b.fields[0], i))]
    if k == 'range':
        return [(st, add(b.fields[0], i))]
    if k == 'map':
        out = []
        inner = base_get(ex, st, b.fields[0], i, w)
        for s, x in inner:
            out += ex.call_value(s, b.fields[1], [x], w)
        if len(out) > 1:
            out = ex.try_merge(st, out)
        return out
    if k == 'zip':
        b1, o1, b2, o2 = b.fields
        out = []
        for s, x in base_get(ex, st, b1, add(o1, i), w):
            for s2, y in base_get(ex, s, b2, add(o2, i), w):
                out.append((s2, Agg(None, 0, (x, y))))
        return out
    if k == 'enum':
        b1, o1 = b.fields
        return [(s, Agg(None, 0, (i, x))) for s, x in base_get(ex, st, b1, add(o1, i), w)]
    if k == 'rev':
        b1, last = b.fields            # element i = b1[last - i]
        return base_get(ex, st, b1, sub(last, i), w)
    if k == 'copied':
        return [(s, clone_val(ex, s, ex.read(s, x))) for s, x in base_get(ex, st, b.fields[0], i, w)]
    if k == 'windows':
        r, n = b.fields
        s0 = r.rng[0] if r.rng is not None else I(0)
        return [(st, Ref(r.cell, r.path, (add(s0, i), n)))]
    if k == 'chunks':
        r, n, total = b.fields
        s0 = r.rng[0] if r.rng is not None else I(0)
        start = mul(i, n)
        ln = int_min(ex, st, n, sub(total, start))
        return [(st, Ref(r.cell, r.path, (add(s0, start), ln)))]
    if k == 'shift':
        return base_get(ex, st, b.fields[0], add(b.fields[1], i), w)
    if k == 'step':
        return base_get(ex, st, b.fields[0], add(b.fields[1], mul(b.fields[2], i)), w)
    if k == 'inspect':
        out = []
        for s, x in base_get(ex, st, b.fields[0], i, w):
            c = ex.alloc(s, x)
            out += [(s2, x) for s2, _ in ex.call_value(s, b.fields[1], [Ref(c)], w)]
        return out
    if k == 'cycle':
        b1, o1, n = b.fields
        return base_get(ex, st, b1, add(o1, irem(i, n)), w)
    if k == 'repeat':
        return [(st, b.fields[0])]
    raise Unsupported('base ' + k)


def as_ra(it, what):
    if it.kind != 'ra':
        raise Unsupported(what + ' on ' + it.kind)
    return it.fields


def it_next(ex, st, ref, dty, w, back=False):
    """advance the iterator stored at ref: [(st, Option)]"""
    it = ex.read(st, ref)
    if isinstance(it, Agg) and is_range(ex, it):
        a, b = it.fields[0], it.fields[1]
        incl = ex.prog.ty(it.ty)['n'].endswith('RangeInclusive')
        if incl:
            it = to_iter(ex, st, it)
            ex.write(st, ref, it)
            return it_next(ex, st, ref, dty, w, back)
        out = []
        c = lt(a, b)
        if c is not FALSE:
            s = st.assume(c)
            if c is TRUE or ex.feasible(s):
                if back:
                    v = sub(b, I(1))
                    ex.write(s, ref, Agg(it.ty, 0, (a, v)))
                else:
                    v = a
                    ex.write(s, ref, Agg(it.ty, 0, (add(a, I(1)), b)))
                out.append((s, SOME(v, dty)))
        if c is not TRUE:
            s = st.assume(lnot(c))
            if ex.feasible(s):
                out.append((s, NONE(dty)))
        return out
    if isinstance(it, (Ref, BoxV)):
        return it_next(ex, st, ex.deref(it), dty, w, back)
    if not isinstance(it, It):
        raise Unsupported('next on %r' % (it,))
    if it.kind == 'ra':
        base, f, b = it.fields
        out = []
        c = lt(f, b)
        if c is not FALSE:
            s = st.assume(c)
            if c is TRUE or ex.feasible(s):
                if back:
                    i = sub(b, I(1))
                    ex.write(s, ref, It('ra', (base, f, i)))
                else:
                    i = f
                    ex.write(s, ref, It('ra', (base, add(f, I(1)), b)))
                for s2, x in base_get(ex, s, base, i, w):
                    out.append((s2, SOME(x, dty)))
        if c is not TRUE:
            s = st.assume(lnot(c))
            if ex.feasible(s):
                out.append((s, NONE(dty)))
        return out
    if it.kind == 'byref':
        return it_next(ex, st, it.fields[0], dty, w, back)
    if it.kind == 'chain' and not back:
        a, b = it.fields
        ca = ex.alloc(st, a)
        out = []
        for s, o in it_next(ex, st, Ref(ca), dty, w):
            if o.variant == 1:
                ex.write(s, ref, It('chain', (s.cells[ca], b)))
                out.append((s, o))
            else:
                cb = ex.alloc(s, b)
                for s2, o2 in it_next(ex, s, Ref(cb), dty, w):
                    ex.write(s2, ref, It('chain', (It('ra', (Base('own', (CSeq(()),)), I(0), I(0))), s2.cells[cb])))
                    out.append((s2, o2))
        return out
    if it.kind in ('filter', 'filter_map', 'flat_map', 'take_while') and not back:
        # concrete progress only
        out = []
        inner = it.fields[0]
        if it.kind == 'flat_map' and len(it.fields) > 2:
            cur = it.fields[2]
            cc = ex.alloc(st, cur)
            for s, o in it_next(ex, st, Ref(cc), dty, w):
                if o.variant == 1:
                    ex.write(s, ref, It('flat_map', (inner, it.fields[1], s.cells[cc])))
                    out.append((s, o))
                else:
                    ex.write(s, ref, It('flat_map', (inner, it.fields[1])))
                    out += it_next(ex, s, ref, dty, w)
            return out
        ci = ex.alloc(st, inner)
        if not concrete_iter(inner):
            raise Unsupported('next on symbolic ' + it.kind)
        for s, o in it_next(ex, st, Ref(ci), None, w):
            rest = s.cells[ci]
            if o.variant == 0:
                ex.write(s, ref, It(it.kind, (rest,) + it.fields[1:]))
                out.append((s, NONE(dty)))
                continue
            x = o.fields[0]
            if it.kind in ('filter', 'take_while'):
                cx = ex.alloc(s, x)
                for s2, b in callf(ex, s, it.fields[1], [Ref(cx)], w):
                    for s3, oo in opt_if(ex, s2, b, x, dty):
                        ex.write(s3, ref, It(it.kind, (rest,) + it.fields[1:]))
                        if oo.variant == 1:
                            out.append((s3, oo))
                        elif it.kind == 'take_while':
                            out.append((s3, NONE(dty)))
                        else:
                            out += it_next(ex, s3, ref, dty, w)
            elif it.kind == 'filter_map':
                for s2, y in callf(ex, s, it.fields[1], [x], w):
                    for s3, k, fs in opt_cases(ex, s2, y):
                        ex.write(s3, ref, It(it.kind, (rest,) + it.fields[1:]))
                        if k == 1:
                            out.append((s3, SOME(fs[0], dty)))
                        else:
                            out += it_next(ex, s3, ref, dty, w)
            else:
                for s2, y in (callf(ex, s, it.fields[1], [x], w) if it.fields[1] is not None else [(s, x)]):
                    ex.write(s2, ref, It('flat_map', (rest, it.fields[1], to_iter(ex, s2, y))))
                    out += it_next(ex, s2, ref, dty, w)
        return out
    if it.kind == 'peek' and not back:
        inner, pk = it.fields
        if pk is not None:
            ex.write(st, ref, It('peek', (inner, None)))
            return one(st, pk)
        ci = ex.alloc(st, inner)
        out = []
        for s, o in it_next(ex, st, Ref(ci), dty, w):
            ex.write(s, ref, It('peek', (s.cells[ci], None)))
            out.append((s, o))
        return out
    raise Unsupported('next on ' + it.kind)


def concrete_iter(it):
    if isinstance(it, It) and it.kind == 'ra':
        return is_c(it.fields[1]) and is_c(it.fields[2])
    if isinstance(it, It) and it.kind in ('filter', 'filter_map', 'flat_map', 'take_while'):
        return concrete_iter(it.fields[0])
    if isinstance(it, It) and it.kind == 'chain':
        return concrete_iter(it.fields[0]) and concrete_iter(it.fields[1])
    return False


@model('std::iter::Iterator::next')
def m_next(ex, st, ft, a, atys, dty, w):
    return it_next(ex, st, a[0], dty, w)


@model('std::iter::DoubleEndedIterator::next_back')
def m_nextback(ex, st, ft, a, atys, dty, w):
    return it_next(ex, st, a[0], dty, w, True)


@model('std::iter::IntoIterator::into_iter')
def m_intoiter(ex, st, ft, a, atys, dty, w):
    v = a[0]
    if isinstance(v, Agg) and is_range(ex, v) and not ex.prog.ty(v.ty)['n'].endswith('RangeInclusive'):
        return one(st, v)
    if isinstance(v, Ref) and dty is not None and dty >= 0 and ex.prog.ty(dty)['k'] in ('ref',):
        return one(st, v)
    return one(st, to_iter(ex, st, v))


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::array::<impl [T; N]>::iter')
def m_iter(ex, st, ft, a, atys, dty, w):
    return one(st, to_iter(ex, st, seqref(ex, st, a[0])))


optmeth('iter', lambda ex, st, ft, a, atys, dty, w: one(st, to_iter(ex, st, a[0])))


@model('core::slice::<impl [T]>::windows')
def m_windows(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    return one(st, It('ra', (Base('windows', (r, a[1])), I(0), int_max(ex, st, I(0), add(sub(n, a[1]), I(1))))))


@model('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact')
def m_chunks(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    n = ex.slice_len(st, r)
    cnt = idiv(n, a[1]) if 'exact' in ft['def'] else idiv(sub(add(n, a[1]), I(1)), a[1])
    return one(st, It('ra', (Base('chunks', (r, a[1], n)), I(0), cnt)))


def itmeth(*names):
    def deco(f):
        for n in names:
            MODELS['std::iter::Iterator::' + n] = f
            MODELS['std::iter::DoubleEndedIterator::' + n] = f
            MODELS['std::iter::ExactSizeIterator::' + n] = f
        return f
    return deco


@itmeth('map')
def m_map(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    if it.kind == 'ra':
        b, f, n = it.fields
        return one(st, It('ra', (Base('map', (b, boxf(ex, st, a[1]))), f, n)))
    return one(st, It('xmap', (it, boxf(ex, st, a[1]))))


def boxf(ex, st, f):
    """closures live in a cell, so FnMut state is kept"""
    if isinstance(f, Agg) and f.fields:
        return BoxV(ex.alloc(st, f))
    return f


@itmeth('enumerate')
def m_enum(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    b, f, n = as_ra(it, 'enumerate')
    return one(st, It('ra', (Base('enum', (b, f)), I(0), sub(n, f))))


@itmeth('rev')
def m_rev(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    b, f, n = as_ra(it, 'rev')
    return one(st, It('ra', (Base('rev', (b, sub(n, I(1)))), I(0), sub(n, f))))


@itmeth('zip')
def m_zip(ex, st, ft, a, atys, dty, w):
    i1, i2 = to_iter(ex, st, a[0]), to_iter(ex, st, a[1])
    b1, f1, n1 = as_ra(i1, 'zip')
    b2, f2, n2 = as_ra(i2, 'zip')
    return one(st, It('ra', (Base('zip', (b1, f1, b2, f2)), I(0), int_min(ex, st, sub(n1, f1), sub(n2, f2)))))


MODELS['std::iter::zip'] = m_zip


@itmeth('copied', 'cloned')
def m_copied(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    if it.kind != 'ra':
        return one(st, It('xcopied', (it,)))
    b, f, n = it.fields
    return one(st, It('ra', (Base('copied', (b,)), f, n)))


@itmeth('skip')
def m_skip(ex, st, ft, a, atys, dty, w):
    b, f, n = as_ra(to_iter(ex, st, a[0]), 'skip')
    nf_ = int_min(ex, st, add(f, a[1]), n)
    return one(st, It('ra', (b, nf_, n)))


@itmeth('take')
def m_itake(ex, st, ft, a, atys, dty, w):
    b, f, n = as_ra(to_iter(ex, st, a[0]), 'take')
    return one(st, It('ra', (b, f, int_min(ex, st, add(f, a[1]), n))))


@itmeth('step_by')
def m_stepby(ex, st, ft, a, atys, dty, w):
    b, f, n = as_ra(to_iter(ex, st, a[0]), 'step_by')
    cnt = idiv(add(sub(n, f), sub(a[1], I(1))), a[1])
    return one(st, It('ra', (Base('step', (b, f, a[1])), I(0), cnt)))


@itmeth('inspect')
def m_inspect(ex, st, ft, a, atys, dty, w):
    b, f, n = as_ra(to_iter(ex, st, a[0]), 'inspect')
    return one(st, It('ra', (Base('inspect', (b, boxf(ex, st, a[1]))), f, n)))


@itmeth('fuse', 'by_ref')
def m_fuse(ex, st, ft, a, atys, dty, w):
    return one(st, a[0])


@itmeth('cycle')
def m_cycle(ex, st, ft, a, atys, dty, w):
    b, f, n = as_ra(to_iter(ex, st, a[0]), 'cycle')
    return one(st, It('ra', (Base('cycle', (b, f, sub(n, f))), I(0), I(2 ** 63))))


@itmeth('peekable')
def m_peekable(ex, st, ft, a, atys, dty, w):
    return one(st, It('peek', (to_iter(ex, st, a[0]), None)))


@model('std::iter::repeat')
def m_repeat(ex, st, ft, a, atys, dty, w):
    return one(st, It('ra', (Base('repeat', (a[0],)), I(0), I(2 ** 63))))


@model('std::iter::repeat_n')
def m_repeatn(ex, st, ft, a, atys, dty, w):
    return one(st, It('ra', (Base('repeat', (a[0],)), I(0), a[1])))


@model('std::iter::once')
def m_once(ex, st, ft, a, atys, dty, w):
    return one(st, to_iter(ex, st, CSeq([a[0]])))


@model('std::iter::empty')
def m_iempty(ex, st, ft, a, atys, dty, w):
    return one(st, to_iter(ex, st, CSeq(())))


@itmeth('chain')
def m_chain(ex, st, ft, a, atys, dty, w):
    return one(st, It('chain', (to_iter(ex, st, a[0]), to_iter(ex, st, a[1]))))


@itmeth('filter', 'take_while', 'skip_while', 'filter_map')
def m_filter(ex, st, ft, a, atys, dty, w):
    return one(st, It(ft['def'].split('::')[-1], (to_iter(ex, st, a[0]), boxf(ex, st, a[1]))))


@itmeth('flat_map')
def m_flatmap(ex, st, ft, a, atys, dty, w):
    return one(st, It('flat_map', (to_iter(ex, st, a[0]), boxf(ex, st, a[1]))))


@itmeth('flatten')
def m_flatten(ex, st, ft, a, atys, dty, w):
    return one(st, It('flat_map', (to_iter(ex, st, a[0]), None)))


@itmeth('len', 'count')
def m_count(ex, st, ft, a, atys, dty, w):
    v = a[0]
    if ft['def'].endswith('len'):
        v = ex.read(st, v)
    it = to_iter(ex, st, v)
    if it.kind == 'ra':
        return one(st, sub(it.fields[2], it.fields[1]))
    return consume(ex, st, it, I(0), lambda s, acc, x: [(s, add(acc, I(1)), None)], w)


# ---- consuming: each(step) drives the loop rule
def each(ex, st, it, step, w):
    """run step(st, item)->[(st, tag|None)] for every item; returns [(st, tag|None)]"""
    k = it.kind
    if k == 'ra' or k == 'byref':
        if k == 'ra':
            st = st.copy()
            cell = ex.alloc(st, it)
            ref = Ref(cell)
        else:
            ref = it.fields[0]

        def iterate(s):
            backs, exits = [], []
            for s1, o in it_next(ex, s.copy(), ref, None, w):
                if o.variant == 0:
                    exits.append((s1, None))
                else:
                    for s2, tag in step(s1, o.fields[0]):
                        if tag is None:
                            backs.append(s2)
                        else:
                            exits.append((s2, tag))
            return backs, exits
        return loops.drive(ex, st, iterate, lambda s: set(s.cells), 'iterator in ' + w)
    if k in ('filter',):
        inner, f = it.fields

        def st2(s, x):
            c = ex.alloc(s, x)
            out = []
            for s1, b in ex.try_merge(s, callf(ex, s, f, [Ref(c)], w)):
                out += branch(ex, s1, b, lambda q: step(q, x), lambda q: [(q, None)])
            return out
        return each(ex, st, inner, st2, w)
    if k == 'take_while':
        inner, f = it.fields

        def st2(s, x):
            c = ex.alloc(s, x)
            out = []
            for s1, b in ex.try_merge(s, callf(ex, s, f, [Ref(c)], w)):
                out += branch(ex, s1, b, lambda q: step(q, x), lambda q: [(q, '__tw')])
            return out
        return [(s, None if t == '__tw' else t) for s, t in each(ex, st, inner, st2, w)]
    if k == 'filter_map':
        inner, f = it.fields

        def st2(s, x):
            out = []
            for s1, o in callf(ex, s, f, [x], w):
                for s2, kk, fs in opt_cases(ex, s1, o):
                    out += step(s2, fs[0]) if kk == 1 else [(s2, None)]
            return out
        return each(ex, st, inner, st2, w)
    if k == 'xmap':
        inner, f = it.fields

        def st2(s, x):
            out = []
            for s1, y in callf(ex, s, f, [x], w):
                out += step(s1, y)
            return out
        return each(ex, st, inner, st2, w)
    if k == 'xcopied':
        return each(ex, st, it.fields[0], lambda s, x: step(s, clone_val(ex, s, ex.read(s, x))), w)
    if k == 'flat_map':
        inner, f = it.fields[0], it.fields[1]

        def st2(s, x):
            out = []
            for s1, y in (callf(ex, s, f, [x], w) if f is not None else [(s, x)]):
                out += each(ex, s1, to_iter(ex, s1, y), step, w)
            return out
        return each(ex, st, inner, st2, w)
    if k == 'chain':
        out = []
        for s, t in each(ex, st, it.fields[0], step, w):
            if t is not None:
                out.append((s, t))
            else:
                out += each(ex, s, it.fields[1], step, w)
        return out
    raise Unsupported('consume ' + k)


def branch(ex, st, b, yes, no):
    out = []
    if b is not FALSE:
        s = st.assume(b) if b is not TRUE else st
        if b is TRUE or ex.feasible(s):
            out += yes(s)
    if b is not TRUE:
        s = st.assume(lnot(b)) if b is not FALSE else st
        if b is FALSE or ex.feasible(s):
            out += no(s)
    return out


def consume(ex, st, it, acc0, step, w, fin=None):
    """fold: step(st, acc, x) -> [(st, acc', tag|None)]"""
    st = st.copy()
    ac = ex.alloc(st, acc0)

    def step2(s, x):
        out = []
        for s1, v, tag in step(s, s.cells[ac], x):
            s1 = s1.copy()
            s1.cells[ac] = v
            out.append((s1, tag))
        return out
    res = []
    for s, tag in each(ex, st, it, step2, w):
        res.append((s, s.cells[ac]))
    return ex.try_merge(st, res) if len(res) > 1 else res


@itmeth('sum')
def m_sum(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    t = ex.prog.ty(dty)
    zero = R(0) if t['k'] == 'float' else I(0)
    rg = ex.int_range(dty)

    def step(s, acc, x):
        x = deep(ex, s, x)
        if not isinstance(x, T):
            raise Unsupported('sum of aggregates')
        r = add(acc, x)
        if rg is not None:
            ex.oblige(s, land(le(I(rg[0]), r), le(r, I(rg[1]))), 'panic', 'sum overflow', w)
        return [(s, r, None)]
    return consume(ex, st, it, zero, step, w)


@itmeth('product')
def m_product(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    t = ex.prog.ty(dty)
    return consume(ex, st, it, R(1) if t['k'] == 'float' else I(1), lambda s, acc, x: [(s, mul(acc, deep(ex, s, x)), None)], w)


@itmeth('fold', 'rfold')
def m_fold(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    if ft['def'].endswith('rfold'):
        b, f, n = as_ra(it, 'rfold')
        it = It('ra', (Base('rev', (b, sub(n, I(1)))), I(0), sub(n, f)))
    return consume(ex, st, it, a[1], lambda s, acc, x: [(s2, v, None) for s2, v in callf(ex, s, a[2], [acc, x], w)], w)


@itmeth('try_fold')
def m_tryfold(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, ex.read(st, a[0]) if isinstance(a[0], Ref) else a[0])
    isopt = 'Option' in str(ex.prog.ty(dty).get('n', ''))
    good = 1 if isopt else 0
    st = st.copy()
    ac = ex.alloc(st, a[1])
    rc = ex.alloc(st, UNIT)

    def step2(s, x):
        out = []
        for s1, v in callf(ex, s, a[2], [s.cells[ac], x], w):
            for s2, k, fs in opt_cases(ex, s1, v):
                s2 = s2.copy()
                if k == good:
                    s2.cells[ac] = fs[0]
                    out.append((s2, None))
                else:
                    s2.cells[rc] = Agg(dty, k, fs)
                    out.append((s2, 'brk'))
        return out
    res = []
    for s, tag in each(ex, st, it, step2, w):
        res.append((s, s.cells[rc] if tag == 'brk' else Agg(dty, good, (s.cells[ac],))))
    return res


@itmeth('for_each')
def m_foreach(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    st = st.copy()
    f = boxf(ex, st, a[1])
    return [(s, UNIT) for s, t in each(ex, st, it, lambda s, x: [(s2, None) for s2, _ in ex.try_merge(s, callf(ex, s, f, [x], w))], w)]


@itmeth('collect')
def m_collect(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    t = ex.prog.ty(dty)
    n = t.get('n', '')
    if n.endswith('vec::Vec') or n.endswith('boxed::Box') or n.endswith('VecDeque'):
        def step(s, acc, x):
            return [(s, seq_push(acc, x), None)]
        out = consume(ex, st, it, CSeq(()), step, w)
        if n.endswith('boxed::Box'):
            out = [(s, BoxV(ex.alloc(s, v))) for s, v in out]
        return out
    if n.endswith('HashMap') or n.endswith('BTreeMap'):
        return consume(ex, st, it, MapV(()), lambda s, acc, x: [(s, map_set(acc, x.fields[0], x.fields[1]), None)], w)
    if n.endswith('Result') or n.endswith('Option'):
        inner = t['args'][0]
        it_n = ex.prog.ty(inner).get('n', '') if isinstance(inner, int) else ''
        if it_n.endswith('vec::Vec'):
            good = 0 if n.endswith('Result') else 1
            st = st.copy()
            ac = ex.alloc(st, CSeq(()))
            rc = ex.alloc(st, UNIT)

            def step2(s, x):
                out = []
                for s2, k, fs in opt_cases(ex, s, x):
                    s2 = s2.copy()
                    if k == good:
                        s2.cells[ac] = seq_push(s2.cells[ac], fs[0])
                        out.append((s2, None))
                    else:
                        s2.cells[rc] = Agg(dty, k, fs)
                        out.append((s2, 'brk'))
                return out
            return [(s, s.cells[rc] if tag == 'brk' else Agg(dty, good, (s.cells[ac],))) for s, tag in each(ex, st, it, step2, w)]
    raise Unsupported('collect into ' + n)


MODELS['std::iter::FromIterator::from_iter'] = m_collect


@itmeth('unzip')
def m_unzip(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    return consume(ex, st, it, Agg(None, 0, (CSeq(()), CSeq(()))), lambda s, acc, x: [(s, Agg(None, 0, (seq_push(acc.fields[0], x.fields[0]), seq_push(acc.fields[1], x.fields[1]))), None)], w)


@itmeth('partition')
def m_partition(ex, st, ft, a, atys, dty, w):
    raise Unsupported('partition')


@model('std::iter::Extend::extend', 'std::vec::Vec::<T, A>::extend')
def m_extend(ex, st, ft, a, atys, dty, w):
    r = seqref(ex, st, a[0])
    it = to_iter(ex, st, a[1])
    cp = 'Extend<&' in ft['iname']

    def step(s, x):
        v = clone_val(ex, s, ex.read(s, x)) if cp and isinstance(x, Ref) else x
        s = s.copy()
        ex.write(s, r, seq_push(ex.read(s, r), v))
        return [(s, None)]
    return [(s, UNIT) for s, t in each(ex, st, it, step, w)]


def quant(ex, st, it, f, w, neg_, byref=False):
    """any / all"""
    st = st.copy()
    fb = boxf(ex, st, f)
    if it.kind == 'ra' and not concrete_iter(it):
        # pure predicate: a quantifier term
        base, fr, n = it.fields
        k = tm.fresh('q', 'I', 0)
        s = st.copy()
        s.pc = st.pc + (le(I(0), k), lt(k, sub(n, fr)))
        try:
            outs = []
            for s1, x in base_get(ex, s, base, add(fr, k), w):
                outs += callf(ex, s1, fb, [x], w)
            m = ex.try_merge(s, outs)
            if len(m) == 1 and isinstance(m[0][1], T):
                v = m[0][1]
                q = close('forall' if neg_ else 'exists', sub(n, fr), k, v)
                return [(st, q)]
        except LoopFail:
            pass

    def step(s, x):
        out = []
        for s1, b in ex.try_merge(s, callf(ex, s, fb, [x], w)):
            c = lnot(b) if neg_ else b
            out += branch(ex, s1, c, lambda q: [(q, 'hit')], lambda q: [(q, None)])
        return out
    res = []
    for s, tag in each(ex, st, it, step, w):
        hit = tag == 'hit'
        res.append((s, B(hit != neg_)))
    return res


@itmeth('any')
def m_any(ex, st, ft, a, atys, dty, w):
    v = ex.read(st, a[0]) if isinstance(a[0], Ref) else a[0]
    return quant(ex, st, to_iter(ex, st, v), a[1], w, False)


@itmeth('all')
def m_all(ex, st, ft, a, atys, dty, w):
    v = ex.read(st, a[0]) if isinstance(a[0], Ref) else a[0]
    return quant(ex, st, to_iter(ex, st, v), a[1], w, True)


@itmeth('position')
def m_position(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, ex.read(st, a[0]))
    st = st.copy()
    c = ex.alloc(st, I(0))

    def step(s, x):
        out = []
        for s1, b in ex.try_merge(s, callf(ex, s, a[1], [x], w)):
            def no(q):
                q = q.copy()
                q.cells[c] = add(q.cells[c], I(1))
                return [(q, None)]
            out += branch(ex, s1, b, lambda q: [(q, 'hit')], no)
        return out
    return [(s, SOME(s.cells[c], dty) if t == 'hit' else NONE(dty)) for s, t in each(ex, st, it, step, w)]


@itmeth('find')
def m_find(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, ex.read(st, a[0]))
    st = st.copy()
    c = ex.alloc(st, UNIT)

    def step(s, x):
        out = []
        cx = ex.alloc(s, x)
        for s1, b in ex.try_merge(s, callf(ex, s, a[1], [Ref(cx)], w)):
            def yes(q):
                q = q.copy()
                q.cells[c] = x
                return [(q, 'hit')]
            out += branch(ex, s1, b, yes, lambda q: [(q, None)])
        return out
    return [(s, SOME(s.cells[c], dty) if t == 'hit' else NONE(dty)) for s, t in each(ex, st, it, step, w)]


@itmeth('last')
def m_itlast(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, a[0])
    b, f, n = as_ra(it, 'last')
    out = []
    for s, o in opt_if(ex, st, lt(f, n), UNIT, dty):
        if o.variant == 0:
            out.append((s, o))
        else:
            out += [(s2, SOME(x, dty)) for s2, x in base_get(ex, s, b, sub(n, I(1)), w)]
    return out


@itmeth('nth')
def m_nth(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, ex.read(st, a[0]))
    b, f, n = as_ra(it, 'nth')
    i = add(f, a[1])
    ex.write(st, a[0], It('ra', (b, int_min(ex, st, add(i, I(1)), n), n)))
    out = []
    for s, o in opt_if(ex, st, lt(i, n), UNIT, dty):
        if o.variant == 0:
            out.append((s, o))
        else:
            out += [(s2, SOME(x, dty)) for s2, x in base_get(ex, s, b, i, w)]
    return out


def minmax(pick_new):
    """pick_new(ord index of cmp(new, best)) -> condition under which new replaces best"""
    def m(ex, st, ft, a, atys, dty, w):
        it = to_iter(ex, st, a[0])
        name = ft['def'].split('::')[-1]
        if not concrete_iter(it):
            if name in ('min', 'max') :
                pass
        st = st.copy()

        def step(s, acc, x):
            if acc.variant == 0 and isinstance(acc, Agg):
                return [(s, SOME(x, dty), None)]
            best = acc.fields[0]
            out = []
            if name.endswith('_by_key'):
                raise Unsupported('max_by_key')
            if name.endswith('_by'):
                c1, c2 = ex.alloc(s, x), ex.alloc(s, best)
                cs = callf(ex, s, a[1], [Ref(c1), Ref(c2)], w)
            else:
                cs = [(s, val_cmp(ex, s, x, best))]
            for s1, o in ex.try_merge(s, cs):
                out.append((s1, SOME(merge(pick_new(ord_index(o)), x, best), dty), None))
            return out
        if not concrete_iter(it):
            raise Unsupported('min/max over a symbolic range')
        return consume(ex, st, it, NONE(dty), step, w)
    return m


for _n in ('max', 'max_by', 'max_by_key'):
    itmeth(_n)(minmax(lambda o: lnot(eq(o, I(0)))))
for _n in ('min', 'min_by', 'min_by_key'):
    itmeth(_n)(minmax(lambda o: eq(o, I(0))))


@itmeth('size_hint')
def m_sizehint(ex, st, ft, a, atys, dty, w):
    it = to_iter(ex, st, ex.read(st, a[0]))
    b, f, n = as_ra(it, 'size_hint')
    return one(st, Agg(None, 0, (sub(n, f), SOME(sub(n, f)))))


@itmeth('scan')
def m_scan(ex, st, ft, a, atys, dty, w):
    raise Unsupported('scan')


@model('std::ops::RangeInclusive::<Idx>::new')
def m_rinew(ex, st, ft, a, atys, dty, w):
    return one(st, Agg(dty, 0, (a[0], a[1], FALSE)))


@model('std::ops::Range::<Idx>::contains', 'std::ops::RangeInclusive::<Idx>::contains')
def m_rcontains(ex, st, ft, a, atys, dty, w):
    r = ex.read(st, a[0])
    x = deep(ex, st, a[1])
    hi = lt(x, r.fields[1]) if 'Inclusive' not in ft['def'] else le(x, r.fields[1])
    return one(st, land(le(r.fields[0], x), hi))


@model('std::array::from_fn')
def m_arrfromfn(ex, st, ft, a, atys, dty, w):
    n = ex.prog.ty(dty)['n']
    items = []
    f = boxf(ex, st, a[0])
    for i in range(n):
        outs = callf(ex, st, f, [I(i)], w)
        outs = ex.try_merge(st, outs)
        if len(outs) != 1:
            raise Unsupported('from_fn')
        st, v = outs[0]
        items.append(v)
    return one(st, CSeq(items))


@model('std::array::<impl [T; N]>::map', 'core::array::<impl [T; N]>::map')
def m_arrmap(ex, st, ft, a, atys, dty, w):
    items = []
    f = boxf(ex, st, a[1])
    for x in a[0].items:
        outs = ex.try_merge(st, callf(ex, st, f, [x], w))
        if len(outs) != 1:
            raise Unsupported('array map')
        st, v = outs[0]
        items.append(v)
    return one(st, CSeq(items))


@model('std::slice::<impl [V]>::concat', 'std::slice::<impl [T]>::concat')
def m_concat(ex, st, ft, a, atys, dty, w):
    v = deep(ex, st, a[0])
    if isinstance(v, CSeq):
        r = CSeq(())
        for x in v.items:
            r = seq_concat(r, deep(ex, st, x))
        return one(st, r)
    raise Unsupported('concat')


@model('std::hint::black_box', 'std::convert::identity')
def m_bb(ex, st, ft, a, atys, dty, w):
    return one(st, a[0])


# ---------------------------------------------------------------- harness intrinsics
def hm(name):
    def deco(f):
        HARNESS[name] = f
        return f
    return deco


def sname(ex, st, v):
    v = deep(ex, st, v)
    if isinstance(v, StrV):
        return v.s
    raise Unsupported('name')


@hm('any_f64')
def h_f64(ex, st, ft, a, atys, dty, w):
    n = sname(ex, st, a[0])
    lo, hi = a[1], a[2]
    lo = None if lo.op != 'c' else cval(lo)
    hi = None if hi.op != 'c' else cval(hi)
    t = tm.app(n, st.ctx, 'R', lo, hi)
    ex.any_log[n] = ('R', lo, hi)
    return one(st, t)


@hm('any_int')
def h_int(ex, st, ft, a, atys, dty, w):
    n = sname(ex, st, a[0])
    lo, hi = cval(a[1]), cval(a[2])
    t = tm.app(n, st.ctx, 'I', lo, hi)
    ex.any_log[n] = ('I', lo, hi)
    if lo == hi:
        t = I(lo)
    return one(st, t)


HARNESS['any_usize'] = h_int


@hm('any_bool')
def h_bool(ex, st, ft, a, atys, dty, w):
    n = sname(ex, st, a[0])
    ex.any_log[n] = ('I', 0, 1)
    t = tm.app(n, st.ctx, 'I', 0, 1)
    return one(st, eq(t, I(1)))


@hm('any_outcome')
def h_outcome(ex, st, ft, a, atys, dty, w):
    n = sname(ex, st, a[0])
    ex.any_log[n] = ('I', 0, 2)
    t = tm.app(n, st.ctx, 'I', 0, 2)
    return one(st, EnumS(dty, t, {0: (), 1: (), 2: ()}))


@hm('any_vec')
def h_vec(ex, st, ft, a, atys, dty, w):
    n = sname(ex, st, a[0])
    lo, hi = cval(a[1]), cval(a[2])
    f = a[3]
    ex.any_log['len:' + n] = ('I', lo, hi)
    b = ex.bounded
    if b is not None:
        L = b.get(n, b.get('*'))
        if L == -1:
            # lists of different lengths: 1, 2, 1, 2, ... in order of appearance (outer lists: 3)
            i = ex.any_log.setdefault('order:' + n, len(ex.any_log))
            L = 3 if n == 'teams' else 1 + (i + sum(cval(c) for c in st.ctx if is_c(c))) % 2
        if L is not None:
            L = max(lo, min(hi, L))
            lo = hi = L
    base = st.copy()
    base.cells = dict(st.cells)
    ctx = st.ctx
    if lo == hi and lo <= 16:
        items = []
        for i in range(lo):
            s = base.copy()
            s.ctx = ctx + (I(i),)
            items.append(ex.call_pure(s, f, [I(i)], w))
        return one(st, CSeq(items))
    ln = tm.app('len:' + n, ctx, 'I', lo, hi) if ctx else tm.var('len:' + n, 'I', lo, hi)

    def fn(i):
        s = base.copy()
        s.ctx = ctx + (i,)
        s.pc = st.pc
        ex.quiet += 1
        try:
            return ex.call_pure(s, f, [i], w)
        finally:
            ex.quiet -= 1
    return one(st, SSeq(ln, fn))


@hm('assume')
def h_assume(ex, st, ft, a, atys, dty, w):
    s = st.assume(a[0]) if a[0] is not TRUE else st
    if a[0] is FALSE or not ex.feasible(s):
        return []
    return one(s, UNIT)


def label(ex, st, v):
    return sname(ex, st, v)


@hm('check')
def h_check(ex, st, ft, a, atys, dty, w):
    ex.oblige(st, a[1], 'check', label(ex, st, a[0]), w)
    return one(st, UNIT)


@hm('check_eq')
def h_checkeq(ex, st, ft, a, atys, dty, w):
    x, y = a[1], a[2]
    g = TRUE if x is y else eq(x, y)
    ex.oblige(st, g, 'eq', label(ex, st, a[0]), w, (x, y))
    return one(st, UNIT)


HARNESS['check_eq_tol'] = h_checkeq


@hm('check_le')
def h_checkle(ex, st, ft, a, atys, dty, w):
    ex.oblige(st, le(a[1], a[2]), 'le', label(ex, st, a[0]), w, (a[1], a[2]))
    return one(st, UNIT)


@hm('check_lt')
def h_checklt(ex, st, ft, a, atys, dty, w):
    ex.oblige(st, lt(a[1], a[2]), 'lt', label(ex, st, a[0]), w, (a[1], a[2]))
    return one(st, UNIT)


@hm('check_finite')
def h_checkfin(ex, st, ft, a, atys, dty, w):
    ex.oblige(st, None, 'finite', label(ex, st, a[0]), w, (a[1],))
    return one(st, UNIT)


@hm('check_int_eq')
def h_checkint(ex, st, ft, a, atys, dty, w):
    ex.oblige(st, eq(a[1], a[2]), 'eq', label(ex, st, a[0]), w, (a[1], a[2]))
    return one(st, UNIT)


@hm('for_each_index')
def h_feidx(ex, st, ft, a, atys, dty, w):
    n, f = a
    if is_c(n) and cval(n) <= 16:
        sts = [st]
        for i in range(cval(n)):
            nxt = []
            for s in sts:
                outs = ex.call_value(s, f, [I(i)], w)
                outs = ex.try_merge(s, outs) if len(outs) > 1 else outs
                nxt += [x for x, _ in outs]
            sts = nxt
        return [(s, UNIT) for s in sts]
    k = tm.fresh('idx', 'I', 0)
    s = st.copy()
    s.pc = st.pc + (le(I(0), k), lt(k, n))
    ex.call_value(s, f, [k], w)
    return one(st, UNIT)


@hm('is_symbolic')
def h_issym(ex, st, ft, a, atys, dty, w):
    return one(st, TRUE)


@hm('native_only')
def h_nativeonly(ex, st, ft, a, atys, dty, w):
    return one(st, FALSE)
