"""Generic loop-invariant candidates.  Candidates are never trusted: Houdini keeps only those proved on
entry and over every back edge.  They are generated from the loop's own carried values, not from names,
so a rewritten loop gets its own candidates."""
import z3
from vc import Ptr, Cells, BV, And, Or, Not, conc, VCError


def offs(v):
    if not isinstance(v, Ptr):
        raise VCError('not a pointer')
    return v.single()[1]


class Val:
    """a loop-carried 64-bit (or narrower, extended) quantity; get(S) evaluates it in a state"""

    def __init__(self, name, get, kind, obj=None, width=64):
        self.name = name
        self.get = get
        self.kind = kind        # 'ptr' | 'int' | 'cell' | 'cellptr'
        self.obj = obj
        self.width = width


def carried(ex, L):
    """loop-carried quantities: phis, and the cells of memory the loop writes"""
    out = []
    for nm, t in L.phis:
        v = L.cur.vals[nm]
        if isinstance(v, Ptr):
            if len(v.alts) == 1:
                out.append(Val(nm, lambda S, nm=nm: offs(S.vals[nm]), 'ptr', v.alts[0][1]))
            else:
                # one quantity per possible target object; only meaningful when that target is selected
                for _, o, _ in v.alts:
                    if o.kind == 'null':
                        continue

                    def g(S, nm=nm, o=o):
                        for c, oo, f in S.vals[nm].alts:
                            if oo is o:
                                return f
                        raise VCError('no target')

                    def cnd(S, nm=nm, o=o):
                        r = z3.BoolVal(False)
                        for c, oo, f in S.vals[nm].alts:
                            if oo is o:
                                r = c
                        return r
                    x = Val(f'{nm}->{o.name}', g, 'ptr', o)
                    x.cond = cnd
                    out.append(x)
        elif z3.is_bv(v):
            out.append(Val(nm, lambda S, nm=nm: S.vals[nm], 'int', None, v.size()))
        elif z3.is_bool(v):
            out.append(Val(nm, lambda S, nm=nm: S.vals[nm], 'bool', None, 1))
    mods = ex.modset.get(L.key, set())
    for o, c in L.cur.mem.items():
        if o.name not in mods or not isinstance(c, Cells):
            continue
        for off, (n, v) in c.d.items():
            def g(S, o=o, off=off, n=n):
                cc = S.mem[o]
                e = cc.d.get(off)
                if e is not None and e[0] == n:
                    return e[1]
                bs = [ex.cell_byte(o, cc, off + i) for i in range(n)]
                return z3.simplify(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
            short = o.name.split('/')[-1]
            if isinstance(v, Ptr):
                if len(v.alts) == 1:
                    out.append(Val(f'{short}@{off}', lambda S, g=g: offs(g(S)), 'ptr', v.alts[0][1]))
            elif z3.is_bv(v):
                out.append(Val(f'{short}@{off}', g, 'int', None, v.size()))
            elif z3.is_bool(v):
                out.append(Val(f'{short}@{off}', g, 'bool', None, 1))
    return out


def guard(x, S, f):
    c = getattr(x, 'cond', None)
    return z3.Implies(c(S), f) if c else f


def generic(ex, L, bufs, strides=(1, 2, 3, 4, 8), pairs=True, wide=False):
    """bufs: [(obj, nbytes BV64)]"""
    V = carried(ex, L)
    E = L.entry
    for x in V:
        if x.kind == 'bool':
            yield (f'{x.name}', lambda S, x=x: x.get(S), False)
            yield (f'not {x.name}', lambda S, x=x: z3.Not(x.get(S)), False)
            yield (f'{x.name} unchanged', lambda S, x=x: x.get(S) == x.get(E), False)
            continue
        if x.kind == 'ptr':
            if getattr(x, 'cond', None):
                sz = x.obj.size_bv()
                yield (f'{x.name} inside', lambda S, x=x, sz=sz: z3.Implies(x.cond(S), z3.ULE(x.get(S), sz)), False)
                yield (f'{x.name} selected', lambda S, x=x: x.cond(S), False)
                yield (f'{x.name} not selected', lambda S, x=x: z3.Not(x.cond(S)), False)
                continue
            if x.obj.kind != 'opaque':
                sz = x.obj.size_bv()
                yield (f'{x.name} inside', lambda S, x=x, sz=sz: z3.ULE(x.get(S), sz), False)
                yield (f'{x.name} strictly inside', lambda S, x=x, sz=sz: z3.ULT(x.get(S), sz), False)
                if not isinstance(x.obj.size, int) and wide:
                    for k in (2, 4, 8, 16):
                        yield (f'{x.name} + {k} inside', lambda S, x=x, sz=sz, k=k: z3.And(z3.ULE(x.get(S), sz), z3.ULE(BV(k, 64), sz - x.get(S))), False)
            yield (f'{x.name} forward', lambda S, x=x: z3.UGE(x.get(S), x.get(E)), False)
            yield (f'{x.name} backward', lambda S, x=x: z3.ULE(x.get(S), x.get(E)), False)
            yield (f'{x.name} unchanged', lambda S, x=x: x.get(S) == x.get(E), False)
            if x.obj.elem > 1:
                m = x.obj.elem - 1
                yield (f'{x.name} aligned', lambda S, x=x, m=m: x.get(S) & m == 0, False)
        else:
            yield (f'{x.name} unchanged', lambda S, x=x: x.get(S) == x.get(E), False)
            yield (f'{x.name} up', lambda S, x=x: z3.UGE(x.get(S), x.get(E)), False)
            yield (f'{x.name} down', lambda S, x=x: z3.ULE(x.get(S), x.get(E)), False)
            yield (f'{x.name} nonzero', lambda S, x=x: x.get(S) != 0, False)
            yield (f'{x.name} nonneg', lambda S, x=x: x.get(S) >= 0, False)
            if x.width == 64:
                for o, n in bufs:
                    yield (f'{x.name} <= {o.name}', lambda S, x=x, n=n: z3.ULE(x.get(S), n), False)
                    if o.elem > 1:
                        yield (f'{x.name} <= len {o.name}', lambda S, x=x, n=n, o=o: z3.ULE(x.get(S), z3.LShR(n, o.elem.bit_length() - 1)), False)
    if not pairs:
        return
    W = [x for x in V if x.kind in ('ptr', 'int') and x.width == 64 and not getattr(x, 'cond', None)]
    for i, x in enumerate(W):
        for y in W[i + 1:]:
            dx = lambda S, x=x: x.get(S) - x.get(E)
            dy = lambda S, y=y: y.get(S) - y.get(E)
            for k in strides:
                for sg in (1, -1):
                    yield (f'd{x.name} == {sg * k}*d{y.name}', lambda S, dx=dx, dy=dy, k=sg * k: dx(S) == k * dy(S), False)
                    if k > 1:
                        yield (f'd{y.name} == {sg * k}*d{x.name}', lambda S, dx=dx, dy=dy, k=sg * k: dy(S) == k * dx(S), False)
            yield (f'd{x.name} <= d{y.name}', lambda S, dx=dx, dy=dy: z3.ULE(dx(S), dy(S)), False)
            yield (f'd{y.name} <= d{x.name}', lambda S, dx=dx, dy=dy: z3.ULE(dy(S), dx(S)), False)
            if x.kind == 'ptr' and y.kind == 'ptr' and x.obj is y.obj:
                yield (f'{x.name} == {y.name}', lambda S, x=x, y=y: x.get(S) == y.get(S), False)
                yield (f'{x.name} <= {y.name}', lambda S, x=x, y=y: z3.ULE(x.get(S), y.get(S)), False)
                yield (f'{y.name} <= {x.name}', lambda S, x=x, y=y: z3.ULE(y.get(S), x.get(S)), False)
            if x.kind != y.kind:
                p, q = (x, y) if x.kind == 'ptr' else (y, x)
                yield (f'{p.name} == {q.name}', lambda S, p=p, q=q: p.get(S) == q.get(S), False)
                if p.obj.kind != 'opaque':
                    yield (f'{p.name} == size-{q.name}', lambda S, p=p, q=q: p.get(S) + q.get(S) == p.obj.size_bv(), False)
                    yield (f'{p.name} + {q.name} <= size', lambda S, p=p, q=q: And(z3.ULE(p.get(S), p.obj.size_bv()), z3.ULE(q.get(S), p.obj.size_bv() - p.get(S))), False)


def positions(ex, L, obj):
    """offsets into obj carried by the loop: pointers into it and 64-bit counters"""
    for x in carried(ex, L):
        if x.kind == 'ptr' and x.obj is obj:
            yield x
        elif x.kind == 'int' and x.width == 64:
            yield x
