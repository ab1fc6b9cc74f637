"""Symbolic execution of the dumped MIR: one function at a time, all paths, with loops
over symbolic lengths summarised (loops.py) and std operations given by contracts
(models.py)."""
import json
import struct
import time
from .values import *
from .terms import *
from . import terms as tm


class State:
    __slots__ = ('cells', 'pc', 'ctx')

    def __init__(self, cells=None, pc=(), ctx=()):
        self.cells = cells if cells is not None else {}
        self.pc = pc
        self.ctx = ctx            # index context for any_* inside any_vec / forall_idx

    def copy(self):
        return State(dict(self.cells), self.pc, self.ctx)

    def assume(self, c, asserted=False):
        s = self.copy()
        if c is not TRUE:
            s.pc = self.pc + (c,)
            if asserted:
                ASSERTED.add(c)
            else:
                BRANCHED.add(c)
        return s



class Obligation:
    __slots__ = ('kind', 'name', 'pc', 'goal', 'data', 'where')

    def __init__(self, kind, name, pc, goal, where, data=None):
        self.kind = kind
        self.name = name
        self.pc = pc
        self.goal = goal
        self.where = where
        self.data = data


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.insts = d['insts']
        self.roots = {n.split('::')[-1]: i for n, i in d['roots']}
        self._loops = {}
        self._live = {}

    def ty(self, i):
        return self.types[i]

    def live(self, iid):
        r = self._live.get(iid)
        if r is None:
            r = liveness(self.insts[iid]['body'])
            self._live[iid] = r
        return r

    def loops(self, iid):
        r = self._loops.get(iid)
        if r is None:
            r = find_loops(self.insts[iid]['body'])
            self._loops[iid] = r
        return r


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[7]] if t[7] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


def find_loops(body):
    """natural loops: header -> set of blocks"""
    n = len(body['blocks'])
    sc = [succs(b['t']) for b in body['blocks']]
    # reachable, rpo
    order = []
    seen = set()
    stack = [(0, iter(sc[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(sc[s])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in sc[b]:
            pred[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            nd = set.intersection(*[dom[p] for p in pred[b]]) | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in rpo:
        for s in sc[b]:
            if s in dom[b]:
                L = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L:
                        L.add(x)
                        st.extend(pred[x])
    # blocks from which the function cannot return are not part of the loop proper
    return loops


def liveness(body):
    """live-in locals per block"""
    nb = len(body['blocks'])
    use = [set() for _ in range(nb)]
    dfn = [set() for _ in range(nb)]

    def u(b, l):
        if l not in dfn[b]:
            use[b].add(l)

    def place_use(b, pl):
        u(b, pl[0])
        for p in pl[1]:
            if p[0] == 'i':
                u(b, p[1])

    def op(b, o):
        if o[0] in ('c', 'm'):
            place_use(b, o[1])

    def place_def(b, pl):
        if pl[1]:
            place_use(b, pl)
        else:
            dfn[b].add(pl[0])

    def rv(b, r):
        k = r[0]
        if k == 'use':
            op(b, r[1])
        elif k == 'ref':
            place_use(b, r[2])
        elif k in ('addr', 'len', 'discr'):
            place_use(b, r[1])
        elif k in ('bin', 'cbin'):
            op(b, r[2])
            op(b, r[3])
        elif k == 'un':
            op(b, r[2])
        elif k == 'agg':
            for o in r[2]:
                op(b, o)
        elif k == 'repeat':
            op(b, r[1])
        elif k == 'cast':
            op(b, r[2])
    for i, blk in enumerate(body['blocks']):
        for s in blk['s']:
            if s[0] == '=':
                rv(i, s[2])
                place_def(i, s[1])
            elif s[0] == 'sd':
                place_use(i, s[1])
        t = blk['t']
        if t[0] == 'switch':
            op(i, t[1])
        elif t[0] == 'assert':
            op(i, t[1])
        elif t[0] == 'call':
            op(i, t[1])
            for o in t[3]:
                op(i, o)
            place_def(i, t[5])
        elif t[0] == 'ret':
            u(i, 0)
    live = [set(x) for x in use]
    ch = True
    sc = [succs(b['t']) for b in body['blocks']]
    while ch:
        ch = False
        for i in range(nb - 1, -1, -1):
            o = set()
            for s in sc[i]:
                o |= live[s]
            n = use[i] | (o - dfn[i])
            if n != live[i]:
                live[i] = n
                ch = True
    return live


class Frame:
    __slots__ = ('iid', 'body', 'base', 'name')

    def __init__(self, iid, body, base, name):
        self.iid = iid
        self.body = body
        self.base = base
        self.name = name


INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE[('uint', _b)] = (0, 2 ** _b - 1)
    INT_RANGE[('int', _b)] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)


class Exec:
    def __init__(self, prog, prover, opts=None):
        self.prog = prog
        self.prover = prover
        self.opts = opts or {}
        self.next_cell = 1
        self.obls = []
        self.quiet = 0
        self.consts = {}
        self.fn_seen = {}
        self.notes = set()
        self.model_seen = set()
        self.bounded = None          # if set: concrete length used for any_vec
        self.depth = 0
        self.deadline = None
        self.mem_guard = None
        self.opaque_fns = {}
        self.steps = 0
        self.any_log = {}
        from . import models, loops
        self.models = models.MODELS
        self.model_prefix = models.PREFIX
        self.loops_mod = loops

    # ------------------------------------------------------------ memory
    def alloc(self, st, v):
        c = self.next_cell
        self.next_cell += 1
        st.cells[c] = v
        return c

    def get_path(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if k == 'f':
            if isinstance(v, Agg):
                if p[1] >= len(v.fields):
                    raise Unsupported('field %r of %r' % (p, v))
                return v.fields[p[1]]
            if isinstance(v, BoxV):
                return v
            if isinstance(v, EnumS) and len(v.vals) == 1:
                return list(v.vals.values())[0][p[1]]
            raise Unsupported('field of %r' % (v,))
        if k == 'v':
            if isinstance(v, Agg):
                return v if v.variant == p[1] else Opaque('other variant')
            if isinstance(v, EnumS):
                if p[1] not in v.vals:
                    return Opaque('other variant')
                return Agg(v.ty, p[1], v.vals[p[1]])
            raise Unsupported('downcast of %r' % (v,))
        if k == 'i':
            return seq_get(v, p[1])
        if k == 'm':
            for kk, x in v.items:
                if kk == p[1]:
                    return x
            raise Unsupported('map key')
        raise Unsupported(k)

    def set_path(self, v, path, new):
        if not path:
            return new
        p = path[0]
        k = p[0]
        if k == 'f':
            if isinstance(v, Agg):
                f = list(v.fields)
                f[p[1]] = self.set_path(f[p[1]], path[1:], new)
                return Agg(v.ty, v.variant, f)
            if isinstance(v, Opaque):
                # partial initialisation of an aggregate
                f = [Opaque('uninit')] * (p[1] + 1)
                f[p[1]] = self.set_path(Opaque('uninit'), path[1:], new)
                return Agg(None, 0, f)
            raise Unsupported('set field of %r' % (v,))
        if k == 'v':
            if isinstance(v, Agg) and v.variant == p[1]:
                return self.set_path(v, path[1:], new)
            if isinstance(v, EnumS) and p[1] in v.vals:
                a = self.set_path(Agg(v.ty, p[1], v.vals[p[1]]), path[1:], new)
                vals = dict(v.vals)
                vals[p[1]] = a.fields
                return EnumS(v.ty, v.discr, vals)
            raise Unsupported('set downcast of %r' % (v,))
        if k == 'i':
            if len(path) == 1:
                return seq_set(v, p[1], new)
            return seq_set(v, p[1], self.set_path(seq_get(v, p[1]), path[1:], new))
        if k == 'm':
            return MapV([(kk, self.set_path(x, path[1:], new) if kk == p[1] else x) for kk, x in v.items])
        raise Unsupported(k)

    def read(self, st, ref):
        if ref.cell not in st.cells:
            raise Unsupported('dangling cell')
        v = self.get_path(st.cells[ref.cell], ref.path)
        if ref.rng is not None:
            v = seq_slice(v, ref.rng[0], ref.rng[1])
        return v

    def write(self, st, ref, v):
        if ref.rng is not None:
            raise Unsupported('write to subslice')
        st.cells[ref.cell] = self.set_path(st.cells.get(ref.cell, Opaque('uninit')), ref.path, v)

    def index_ref(self, ref, i):
        if ref.rng is not None:
            i = add(ref.rng[0], i)
        return Ref(ref.cell, ref.path + (('i', i),))

    def deref(self, v):
        """pointer-like value -> Ref"""
        if isinstance(v, Ref):
            return v
        if isinstance(v, BoxV):
            return Ref(v.cell, ())
        raise Unsupported('deref of %r' % (v,))

    def slice_len(self, st, ref):
        if ref.rng is not None:
            return ref.rng[1]
        return seq_len(self.get_path(st.cells[ref.cell], ref.path))

    # ------------------------------------------------------------ places, operands
    def place(self, st, fr, pl):
        ref = Ref(fr.base + pl[0], ())
        for p in pl[1]:
            k = p[0]
            if k == 'd':
                pv = self.read(st, ref)
                if isinstance(pv, StrV):
                    c = self.consts.get(pv.s)
                    if c is None:
                        c = self.next_cell
                        self.next_cell += 1
                        self.consts[pv.s] = c
                    st.cells[c] = pv
                    pv = Ref(c, ())
                ref = self.deref(pv)
            elif k == 'f':
                v = st.cells.get(ref.cell)
                ref = Ref(ref.cell, ref.path + (('f', p[1]),), None)
            elif k == 'v':
                ref = Ref(ref.cell, ref.path + (('v', p[1]),), None)
            elif k == 'i':
                ref = self.index_ref(ref, st.cells[fr.base + p[1]])
            elif k == 'c':
                off, _, from_end = p[1:]
                i = I(off) if not from_end else sub(self.slice_len(st, ref), I(off))
                ref = self.index_ref(ref, i)
            elif k == 's':
                a, b, from_end = p[1:]
                n = self.slice_len(st, ref)
                ln = sub(sub(n, I(b)), I(a)) if from_end else I(b - a)
                s0 = ref.rng[0] if ref.rng is not None else I(0)
                ref = Ref(ref.cell, ref.path, (add(s0, I(a)), ln))
            elif k == 'o':
                pass
            else:
                raise Unsupported('projection ' + k)
        return ref

    def const(self, st, ty, v):
        k = v['k']
        t = self.prog.ty(ty)
        if k == 'int':
            if t['k'] == 'bool':
                return B(int(v['v']) != 0)
            return I(int(v['v']))
        if k == 'f64':
            return R(struct.unpack('<d', struct.pack('<Q', int(v['v'])))[0])
        if k == 'zst':
            if t['k'] in ('fndef',):
                return FnV(ty)
            if t['k'] == 'closure':
                return Agg(ty, 0, ())
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                fs = t['vs'][0]['fs'] if t['vs'] else []
                return Agg(ty, 0, [self.const(st, f[1], {'k': 'zst'}) for f in fs])
            if t['k'] == 'array':
                return CSeq(())
            return Opaque('zst')
        if k == 'agg':
            fs = []
            if t['k'] == 'adt':
                fts = [f[1] for f in t['vs'][v['v']]['fs']]
            else:
                fts = t['ts']
            return Agg(ty, v['v'], [self.const(st, ft, f) for ft, f in zip(fts, v['fs'])])
        if k == 'arr':
            return CSeq([self.const(st, t['e'], f) for f in v['fs']])
        if k == 'str':
            return StrV(v['v'])
        if k == 'ref':
            key = id(v)
            c = self.consts.get(key)
            if c is None:
                c = self.next_cell
                self.next_cell += 1
                self.consts[key] = c
            if c not in st.cells:
                st.cells[c] = self.const(st, t['e'], v['v'])
            return Ref(c, ())
        if k == 'fnp':
            return FnPtr(v['v'])
        return Opaque('const')

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('c', 'm'):
            ref = self.place(st, fr, o[1])
            return self.read(st, ref)
        if k == 'k':
            return self.const(st, o[1], o[2])
        if k == 'rt':
            return FALSE if o[1] == 'UbChecks' or o[1] == 'ContractChecks' else TRUE
        raise Unsupported('operand ' + k)

    # ------------------------------------------------------------ rvalues
    def int_range(self, ty):
        t = self.prog.ty(ty)
        if t['k'] in ('uint', 'int'):
            return INT_RANGE[(t['k'], t['bits'])]
        return None

    def binop(self, st, op, a, b, ty):
        if isinstance(a, (Ref, BoxV, FnPtr)) or isinstance(b, (Ref, BoxV)):
            if op in ('Eq', 'Ne') and isinstance(a, Ref) and isinstance(b, Ref):
                r = B(a.same(b))
                return r if op == 'Eq' else lnot(r)
            raise Unsupported('pointer op')
        if isinstance(a, Agg) and isinstance(b, Agg) and not a.fields and not b.fields:
            a, b = I(a.variant), I(b.variant)
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported('binop %s on %r %r' % (op, a, b))
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op == 'Div':
            return div(a, b) if a.sort == 'R' else idiv(a, b)
        if op == 'Rem':
            if a.sort == 'I':
                return irem(a, b)
            raise Unsupported('float rem')
        if op == 'Lt':
            return lt(a, b) if a.sort != 'B' else land(lnot(a), b)
        if op == 'Le':
            return le(a, b) if a.sort != 'B' else lor(lnot(a), b)
        if op == 'Gt':
            return lt(b, a) if a.sort != 'B' else land(lnot(b), a)
        if op == 'Ge':
            return le(b, a) if a.sort != 'B' else lor(lnot(b), a)
        if op == 'Eq':
            return self.beq(a, b)
        if op == 'Ne':
            return lnot(self.beq(a, b))
        if a.sort == 'B':
            if op == 'BitAnd':
                return land(a, b)
            if op == 'BitOr':
                return lor(a, b)
            if op == 'BitXor':
                return lnot(self.beq(a, b))
        if is_c(a) and is_c(b) and a.sort == 'I':
            x, y = cval(a), cval(b)
            if op == 'BitAnd':
                return I(x & y)
            if op == 'BitOr':
                return I(x | y)
            if op == 'BitXor':
                return I(x ^ y)
            if op in ('Shl', 'ShlUnchecked'):
                return I(x << y)
            if op in ('Shr', 'ShrUnchecked'):
                return I(x >> y)
        if op in ('Shr', 'ShrUnchecked') and is_c(b):
            return idiv(a, I(1 << cval(b)))
        if op in ('Shl', 'ShlUnchecked') and is_c(b):
            return mul(a, I(1 << cval(b)))
        if op == 'BitAnd' and is_c(b) and (cval(b) + 1) & cval(b) == 0:
            return irem(a, I(cval(b) + 1))
        if op == 'Cmp':
            return ite(lt(a, b), I(-1), ite(lt(b, a), I(1), I(0)))
        raise Unsupported('binop ' + op)

    def beq(self, a, b):
        if a.sort == 'B':
            return bite(a, b, lnot(b))
        return eq(a, b)

    def rvalue(self, st, fr, rv, line):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k in ('ref', 'addr'):
            pl = rv[2] if k == 'ref' else rv[1]
            return self.place(st, fr, pl)
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            r = self.binop(st, rv[1], a, b, rv[4])
            if rv[1] == 'Cmp':
                return self.ordering(r)
            return r
        if k == 'cbin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            r = self.binop(st, rv[1], a, b, rv[4])
            rg = self.int_range(rv[4])
            if rg is None:
                raise Unsupported('checked op on non-int')
            ov = lor(lt(r, I(rg[0])), lt(I(rg[1]), r))
            return Agg(None, 0, (r, ov))
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if a.sort == 'B':
                    return lnot(a)
                rg = self.int_range(rv[3])
                return sub(I(rg[1] if rg[0] == 0 else -1), a)
            if rv[1] == 'Neg':
                return neg(a)
            if rv[1] == 'PtrMetadata':
                r = self.deref(a)
                return self.slice_len(st, r)
        if k == 'agg':
            kind = rv[1]
            ops = [self.operand(st, fr, o) for o in rv[2]]
            if kind[0] == 'array':
                return CSeq(ops)
            if kind[0] == 'tuple':
                return Agg(None, 0, ops)
            if kind[0] == 'adt':
                return Agg(kind[1], kind[2], ops)
            if kind[0] == 'closure':
                return Agg(kind[1], 0, ops)
            raise Unsupported('aggregate ' + kind[0])
        if k == 'discr':
            v = self.read(st, self.place(st, fr, rv[1]))
            return self.discr(v, rv[2])
        if k == 'len':
            return self.slice_len(st, self.place(st, fr, rv[1]))
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            if rv[2] < 0 or rv[2] > 10000:
                raise Unsupported('repeat')
            return CSeq([v] * rv[2])
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4])
        raise Unsupported('rvalue ' + k)

    def ordering(self, t):
        """Ordering value (-1,0,1) -> enum with variants 0,1,2"""
        d = add(t, I(1)) if not is_c(t) else I(cval(t) + 1)
        if is_c(d):
            return Agg('Ordering', cval(d), ())
        if t.op == 'ite':
            return EnumS('Ordering', ite(t.args[0], I(0), ite(lt_of(t), I(2), I(1))), {0: (), 1: (), 2: ()})
        return EnumS('Ordering', d, {0: (), 1: (), 2: ()})

    def discr(self, v, ty):
        if isinstance(ty, int) and ty >= 0:
            t = self.prog.ty(ty)
            vs = t.get('vs') if t['k'] == 'adt' else None
        else:
            vs = None
        if isinstance(v, Agg):
            if vs and v.variant < len(vs):
                return I(vs[v.variant]['d'])
            return I(v.variant)
        if isinstance(v, EnumS):
            if vs and any(x['d'] != i for i, x in enumerate(vs)):
                r = I(vs[-1]['d'])
                for i in range(len(vs) - 2, -1, -1):
                    d = vs[i]['d']
                    if d >= 2 ** 127:
                        d -= 2 ** 128
                    r = ite(eq(v.discr, I(i)), I(d), r)
                return r
            return v.discr
        raise Unsupported('discriminant of %r' % (v,))

    def cast(self, st, kind, v, sty, dty):
        if kind.startswith('PointerCoercion'):
            if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
                return v
            return v
        if kind in ('PtrToPtr', 'Transmute', 'FnPtrToPtr', 'BoxDerefTransmute', 'Subtype'):
            if isinstance(v, (Ref, BoxV)):
                d = self.prog.ty(dty)
                if d['k'] in ('ptr', 'ref') and isinstance(v, BoxV):
                    return Ref(v.cell, ())
                return v
            if sty == dty:
                return v
            s, d = self.prog.ty(sty), self.prog.ty(dty)
            if kind == 'Subtype':
                return v
            raise Unsupported('cast %s %r -> %r' % (kind, s.get('s', s['k']), d.get('s', d['k'])))
        if kind == 'IntToFloat':
            if v.sort == 'B':
                return ite(v, R(1), R(0))
            return i2r(v)
        if kind == 'FloatToFloat':
            return v
        if kind == 'IntToInt':
            if isinstance(v, (Agg, EnumS)):
                v = self.discr(v, sty)
            if v.sort == 'B':
                return ite(v, I(1), I(0))
            rg = self.int_range(dty)
            if rg is None:
                return v
            if is_c(v):
                x = cval(v)
                m = rg[1] - rg[0] + 1
                return I((x - rg[0]) % m + rg[0])
            srg = self.int_range(sty)
            if srg and srg[0] >= rg[0] and srg[1] <= rg[1]:
                return v
            if self.prover.int_in(v, rg, st.pc):
                return v
            # not provably in range: wrap explicitly
            self.notes.add('int cast may wrap')
            m = rg[1] - rg[0] + 1
            if srg and srg[0] < 0 and rg[0] == 0:
                return ite(lt(v, I(0)), add(v, I(m)), v)
            raise Unsupported('wrapping int cast')
        if kind == 'FloatToInt':
            rg = self.int_range(dty)
            if is_c(v):
                x = int(cval(v))
                return I(max(rg[0], min(rg[1], x)))
            if v.op == 'i2r':
                return v.args[0]
            return mk('r2i', (v, rg[0], rg[1]), 'I')
        raise Unsupported('cast ' + kind)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, name, where, data=None):
        if self.quiet:
            return
        if goal is TRUE:
            self.obls.append(Obligation(kind, name, st.pc, TRUE, where, data))
            return
        self.obls.append(Obligation(kind, name, st.pc, goal, where, data))

    # ------------------------------------------------------------ running
    def tick(self):
        self.steps += 1
        if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
            raise Unsupported('time budget')

    def feasible(self, st):
        return self.prover.feasible(st.pc)

    def call_inst(self, st, iid, args, spread=False):
        """execute a function body; returns list of (state, value)"""
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported('call depth')
        try:
            inst = self.prog.insts[iid]
            body = inst['body']
            if body is None:
                raise Unsupported('no body: ' + inst['full'])
            self.fn_seen[inst['n']] = self.fn_seen.get(inst['n'], 0) + 1
            n = len(body['locals'])
            base = self.next_cell
            self.next_cell += n + 1
            fr = Frame(iid, body, base, inst['n'])
            st = st.copy()
            argc = body['argc']
            if body['spread'] is not None:
                sp = body['spread']
                # args beyond sp are packed in a tuple
                head = args[:sp - 1]
                tail = args[sp - 1:]
                if len(args) == argc and isinstance(tail[0], Agg):
                    pass
                else:
                    args = head + [Agg(None, 0, tail)]
            elif len(args) != argc:
                # closure called with a tuple of arguments
                if len(args) == 2 and isinstance(args[1], Agg) and args[1].variant == 0 and len(args[1].fields) == argc - 1:
                    args = [args[0]] + list(args[1].fields)
                else:
                    raise Unsupported('arity %d vs %d for %s' % (len(args), argc, inst['full']))
            for i, a in enumerate(args):
                st.cells[base + 1 + i] = a
            outs = []
            for kind, s, x in self.run(st, fr, 0, None):
                if kind == 'ret':
                    v = s.cells.get(base, UNIT)
                    if isinstance(v, Opaque):
                        v = UNIT
                    for j in range(n):
                        s.cells.pop(base + j, None)
                    outs.append((s, v))
            return outs
        finally:
            self.depth -= 1

    def run(self, st, fr, bb, loop):
        """run from bb. loop = (header, blocks) when executing one iteration.
        returns list of ('ret', st, None) | ('stop', st, bb)"""
        out = []
        work = [(st, bb, True)]
        loops = self.prog.loops(fr.iid)
        while work:
            st, bb, first = work.pop()
            self.tick()
            if loop is not None and not first:
                if bb == loop[0] or bb not in loop[1]:
                    out.append(('stop', st, bb))
                    continue
            if bb in loops and not (loop is not None and first and bb == loop[0]):
                for kind, s, x in self.loops_mod.handle_loop(self, st, fr, bb, loops[bb]):
                    if kind == 'ret':
                        out.append((kind, s, x))
                    else:
                        work.append((s, x, False))
                continue
            blk = fr.body['blocks'][bb]
            for s in blk['s']:
                self.stmt(st, fr, s)
            t = blk['t']
            k = t[0]
            if k == 'goto':
                work.append((st, t[1], False))
            elif k == 'drop':
                work.append((st, t[2], False))
            elif k == 'ret':
                out.append(('ret', st, None))
            elif k == 'switch':
                v = self.operand(st, fr, t[1])
                for s, target in self.switch(st, v, t[2], t[3]):
                    work.append((s, target, False))
            elif k == 'assert':
                c = self.operand(st, fr, t[1])
                ok = c if t[2] else lnot(c)
                where = '%s:%s' % (fr.name, t[5])
                if ok is not TRUE:
                    self.oblige(st, ok, 'panic', t[3], where)
                else:
                    self.oblige(st, TRUE, 'panic', t[3], where)
                if ok is FALSE:
                    continue
                s = st.assume(ok, True)
                work.append((s, t[4], False))
            elif k == 'call':
                for s, v in self.call(st, fr, t):
                    if t[7] is None:
                        continue
                    self.write(s, self.place(s, fr, t[5]), v)
                    work.append((s, t[7], False))
            elif k == 'unreachable':
                # reached only on infeasible paths (exhaustive match); nothing to do
                pass
            elif k == 'resume':
                pass
            else:
                raise Unsupported('terminator ' + k)
            if len(work) + len(out) > self.opts.get('max_paths', 4000):
                raise Unsupported('too many paths')
        return out

    def switch(self, st, v, branches, otherwise):
        if not isinstance(v, T):
            raise Unsupported('switch on %r' % (v,))
        if is_c(v):
            x = int(cval(v))
            for val, tgt in branches:
                if self.swval(val, v) == x:
                    return [(st, tgt)]
            return [(st, otherwise)]
        res = []
        neg_all = []
        for val, tgt in branches:
            x = int(val)
            if v.sort == 'B':
                c = v if x else lnot(v)
            else:
                c = eq(v, I(self.swval(val, v)))
            neg_all.append(lnot(c))
            if c is FALSE:
                continue
            s = st.assume(c)
            if self.feasible(s):
                res.append((s, tgt))
        c = land(*neg_all)
        if c is not FALSE:
            s = st.copy()
            s.pc = st.pc + tuple(x for x in (c.args if c.op == 'and' else (c,)) if x is not TRUE)
            BRANCHED.update(s.pc[len(st.pc):])
            if self.feasible(s):
                res.append((s, otherwise))
        return res

    def swval(self, val, v):
        x = int(val)
        if x >= 2 ** 127:
            x -= 2 ** 128
        elif x == 255:
            # i8 discriminants (Ordering::Less = -1) are dumped as u8
            x = -1 if getattr(v, 'sort', '') == 'I' and self.maybe_ordering(v) else 255
        return x

    def maybe_ordering(self, v):
        if is_c(v):
            return cval(v) < 0
        lo, hi = self.prover.ibounds(v)
        return lo is not None and lo < 0 and hi is not None and hi <= 1

    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, fr, s[2], s[3])
            self.write(st, self.place(st, fr, s[1]), v)
        elif k == 'sd':
            r = self.place(st, fr, s[1])
            v = self.read(st, r)
            raise Unsupported('set discriminant')
        else:
            raise Unsupported('stmt ' + k)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t):
        _, fo, fty, aops, atys, dest, dty, target, line = t
        ft = self.prog.ty(fty)
        args = [self.operand(st, fr, o) for o in aops]
        where = '%s:%s' % (fr.name, line)
        if ft['k'] == 'fndef':
            return self.call_fn(st, ft, args, atys, dty, where, merge_ok=self.prog.insts[fr.iid]['crate'] == 'skillratings')
        if ft['k'] == 'fnptr':
            f = self.operand(st, fr, fo)
            return self.call_value(st, f, args, where)
        raise Unsupported('call of ' + ft['k'])

    def call_fn(self, st, ft, args, atys, dty, where, merge_ok=False):
        name = ft['def']
        crate = ft['icrate']
        if crate == 'harness' or ft['crate'] == 'harness':
            h = self.models_h(name)
            if h is not None:
                return h(self, st, ft, args, atys, dty, where)
        if crate in ('skillratings', 'harness'):
            inst = ft['inst']
            if inst is not None and self.prog.insts[inst]['body'] is not None:
                op = self.opaque_fns.get(self.prog.insts[inst]['n'])
                if op is not None:
                    return op(self, st, ft, args, atys, dty, where)
                if (name.endswith(('::Fn::call', '::FnMut::call_mut', '::FnOnce::call_once')) and len(args) == 2 and isinstance(args[1], Agg)
                        and self.prog.insts[inst]['body']['spread'] is None):
                    # the argument tuple of a closure
                    args = [args[0]] + list(args[1].fields)
                outs = self.call_inst(st, inst, args)
                if merge_ok and len(outs) > 1:
                    outs = self.try_merge(st, outs)
                return outs
        m = self.models.get(name)
        if m is None:
            m = self.models.get(ft['iname'])
        if m is None:
            for p, fnm in self.model_prefix:
                if name.startswith(p):
                    m = fnm
                    break
        if m is not None:
            r = m(self, st, ft, args, atys, dty, where)
            if r is not NotImplemented:
                self.model_seen.add(name)
                return r
        inst = ft['inst']
        if inst is not None and self.prog.insts[inst]['body'] is not None:
            return self.call_inst(st, inst, args)
        raise Unsupported('call to ' + name + ' [' + ft['iname'] + ']')

    def models_h(self, name):
        from . import models
        return models.HARNESS.get(name.split('::')[-1])

    def call_value(self, st, f, args, where):
        """call a closure / fn item / boxed dyn Fn with positional args"""
        selfref = None
        v = f
        hops = 0
        while isinstance(v, (Ref, BoxV)) and hops < 6:
            r = self.deref(v)
            selfref = r
            v = self.read(st, r)
            hops += 1
        if isinstance(v, FnV):
            ft = self.prog.ty(v.ty)
            return self.call_fn(st, ft, args, [-1] * len(args), -1, where)
        if isinstance(v, FnPtr):
            return self.call_inst(st, v.inst, list(args))
        if isinstance(v, Agg) and v.ty is not None and isinstance(v.ty, int) and self.prog.ty(v.ty)['k'] == 'closure':
            inst = self.prog.ty(v.ty)['inst']
            body = self.prog.insts[inst]['body']
            if body is None:
                raise Unsupported('closure body')
            selfty = self.prog.ty(body['locals'][1])
            if selfty['k'] in ('ref', 'ptr'):
                if selfref is None:
                    st = st.copy()
                    selfref = Ref(self.alloc(st, v), ())
                a0 = selfref
            else:
                a0 = v
            return self.call_inst(st, inst, [a0] + list(args))
        raise Unsupported('call of value %r' % (v,))

    def call_pure(self, st, f, args, where=''):
        """call and merge all outcomes into one value; no visible memory effects"""
        outs = self.call_value(st, f, args, where)
        if not outs:
            raise Unsupported('closure never returns')
        m = self.try_merge(st, outs)
        if len(m) != 1:
            raise LoopFail('closure outcomes cannot be merged')
        s, v = m[0]
        for c, old in st.cells.items():
            new = s.cells.get(c)
            if new is not old and not same(new, old):
                raise LoopFail('closure has side effects')
        return v

    def try_merge(self, st0, outs):
        """merge outcomes that extend st0 into one state, if possible"""
        try:
            return [self.merge_outs(st0, outs)]
        except (MergeFail, LoopFail):
            return outs

    def merge_outs(self, st0, outs):
        n0 = len(st0.pc)
        if len(outs) == 1:
            return outs[0]
        conds = []
        for s, v in outs:
            if s.pc[:n0] != st0.pc:
                raise MergeFail('pc')
            conds.append(land(*[c for c in s.pc[n0:] if c not in ASSERTED or c in BRANCHED]))
        # last outcome is the else branch
        s_acc, v_acc = outs[-1]
        cells = dict(s_acc.cells)
        v = v_acc
        keys = set(st0.cells)
        for s, _ in outs:
            keys |= set(s.cells)
        for (s, w), c in zip(outs[-2::-1], conds[-2::-1]):
            v = merge(c, w, v)
            for k in keys:
                a = s.cells.get(k)
                b = cells.get(k)
                if a is b:
                    continue
                if a is None:
                    continue
                if b is None:
                    cells[k] = a
                    continue
                cells[k] = merge(c, a, b)
        st = State(cells, st0.pc, st0.ctx)
        disj = lor(*conds)
        if disj is not TRUE and not self.exhaustive(conds):
            st.pc = st0.pc + (disj,)
        return st, v

    def exhaustive(self, conds):
        """cheap syntactic test that the disjunction of path conditions is valid"""
        # c1 or (not c1 and rest ...)
        cs = [list(c.args) if c.op == 'and' else [c] for c in conds]

        def ex(cs):
            if any(len(c) == 0 for c in cs):
                return True
            if not cs:
                return False
            lit = cs[0][0]
            pos, neg_, = [], []
            for c in cs:
                if c and c[0] is lit:
                    pos.append(c[1:])
                elif c and c[0] is lnot(lit):
                    neg_.append(c[1:])
                elif lit in c:
                    pos.append([x for x in c if x is not lit])
                elif lnot(lit) in c:
                    neg_.append([x for x in c if x is not lnot(lit)])
                else:
                    pos.append(c)
                    neg_.append(c)
            if not neg_:
                # maybe an exhaustive 3-way switch on eq(v, 0..n): be conservative
                return False
            return ex(pos) and ex(neg_)
        return ex(cs)

    def run_root(self, name, deadline=None):
        self.deadline = deadline
        ASSERTED.clear()
        BRANCHED.clear()
        tm.EXACT[0] = '_c15_' not in name       # C15 is about rounding and overflow
        st = State({}, ())
        outs = self.call_inst(st, self.prog.roots[name], [])
        return outs


def lt_of(t):
    """for Cmp terms ite(a<b,-1,ite(b<a,1,0)) -> the b<a condition"""
    x = t.args[2]
    if x.op == 'ite':
        return x.args[0]
    if is_c(x):
        return TRUE if cval(x) == 1 else FALSE
    raise Unsupported('ordering')
