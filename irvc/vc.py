"""Verification-condition generator: LLVM IR (mechanically produced from /repo) + contracts -> SMT obligations.

Loops are cut at their headers: phi nodes and the memory written in the loop are havocked, the (template
generated, Houdini-filtered) invariants are assumed, and established on every entry and back edge.
Nothing is unrolled, so an accepted obligation holds for all inputs and all iterations.
"""
import re
import time
import z3
import solve
import par
from ir import IRError, succs_of, parse_value, Toks

BV = z3.BitVecVal


class VCError(Exception):
    """the code is outside what the generator can translate (undecided, never a violation)"""


def is_true(e):
    return e is True or (not isinstance(e, bool) and z3.is_true(e))


def is_false(e):
    return e is False or (not isinstance(e, bool) and z3.is_false(e))


def And(*a):
    l = [x for x in a if not is_true(x)]
    if any(is_false(x) for x in l):
        return z3.BoolVal(False)
    if not l:
        return z3.BoolVal(True)
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def Or(*a):
    l = [x for x in a if not is_false(x)]
    if any(is_true(x) for x in l):
        return z3.BoolVal(True)
    if not l:
        return z3.BoolVal(False)
    if len(l) == 1:
        return l[0]
    return z3.Or(*l)


def Not(a):
    if is_true(a):
        return z3.BoolVal(False)
    if is_false(a):
        return z3.BoolVal(True)
    return z3.Not(a)


def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def sel(arr, k):
    return arr(k) if isinstance(arr, z3.FuncDeclRef) else z3.Select(arr, k)


def simp(e):
    return z3.simplify(e)


def conc(e):
    """concrete int value of a bit-vector expression, or None"""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    s = z3.simplify(e)
    if z3.is_bv_value(s):
        return s.as_long()
    return None


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Obj:
    count = 0

    def __init__(self, name, size, kind, elem=1, writable=True, init=None):
        Obj.count += 1
        self.uid = Obj.count
        self.name = name
        self.size = size        # int or BV64
        self.kind = kind        # 'array' | 'cells' | 'const' | 'null' | 'opaque' | 'fn'
        self.elem = elem        # bytes per array element
        self.writable = writable
        self.init = init
        self.keep = ()          # offsets of 8-byte members that are never written (a write is an error)
        self.base = z3.BitVec(f'addr!{name}!{self.uid}', 64) if kind != 'null' else BV(0, 64)

    def size_bv(self):
        return BV(self.size, 64) if isinstance(self.size, int) else self.size

    def __repr__(self):
        return f'<{self.name}>'


NULL = Obj('null', 0, 'null')


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    @staticmethod
    def to(obj, off=0):
        if isinstance(off, int):
            off = BV(off & (2**64 - 1), 64)
        return Ptr([(z3.BoolVal(True), obj, off)])

    def single(self):
        if len(self.alts) != 1:
            raise VCError('pointer has several possible targets: ' + repr([a[1] for a in self.alts]))
        return self.alts[0][1], self.alts[0][2]

    def add(self, d):
        return Ptr([(c, o, simp(f + d)) for c, o, f in self.alts])

    def addr(self):
        r = None
        for c, o, f in self.alts:
            v = simp(o.base + f)
            r = v if r is None else If(c, v, r)
        return r

    def __repr__(self):
        return 'Ptr(' + ', '.join(f'{o.name}+{f}' for c, o, f in self.alts) + ')'


class Undef:
    pass


def merge_ptrs(l):
    """l: [(cond, Ptr)] with mutually exclusive conds"""
    by = {}
    for c, p in l:
        for a, o, f in p.alts:
            by.setdefault(o.uid, (o, []))[1].append((And(c, a), f))
    alts = []
    for uid, (o, cs) in by.items():
        off = cs[-1][1]
        for c, f in reversed(cs[:-1]):
            off = If(c, f, off)
        alts.append((Or(*[c for c, _ in cs]), o, off))
    if len(alts) == 1:
        alts = [(z3.BoolVal(True), alts[0][1], alts[0][2])]
    return Ptr(alts)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Undef) or isinstance(b, Undef):
        return isinstance(a, Undef) and isinstance(b, Undef)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == len(b.alts):
            return all(x[1] is y[1] and x[2].eq(y[2]) and x[0].eq(y[0]) for x, y in zip(a.alts, b.alts))
        return False
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a.eq(b)


def merge_vals(l, ex=None):
    l = [(c, v) for c, v in l if not is_false(c)] or l[-1:]
    first = l[0][1]
    if all(same(first, v) for _, v in l[1:]):
        return first
    nl = [(c, v) for c, v in l if not isinstance(v, Undef)]
    if len(nl) < len(l):
        if not nl:
            return first
        if len(nl) == 1:
            return nl[0][1]
        l = nl
        first = l[0][1]
    if isinstance(first, list):
        return [merge_vals([(c, v[i]) for c, v in l]) for i in range(len(first))]
    if any(isinstance(v, Ptr) for _, v in l):
        if all(isinstance(v, Ptr) for _, v in l):
            return merge_ptrs(l)
        # mixed pointer / integer representation of a 64-bit cell
        l = [(c, v.addr() if isinstance(v, Ptr) else v) for c, v in l]
    r = l[-1][1]
    for c, v in reversed(l[:-1]):
        r = If(c, v, r)
    return r


class Cells:
    """byte-addressed content of a small object: offset -> (nbytes, value)"""
    __slots__ = ('d', 'tag')

    def __init__(self, d=None, tag=''):
        self.d = dict(d or {})
        self.tag = tag      # name used for bytes never written: symbolic initial content

    def copy(self):
        return Cells(self.d, self.tag)


def val_bytes(v, n):
    """list of n BV8 (little endian)"""
    if isinstance(v, Ptr):
        v = v.addr()
    if z3.is_bool(v):
        v = If(v, BV(1, 8 * n), BV(0, 8 * n))
    if z3.is_fp(v):
        v = z3.fpToIEEEBV(v)
    w = v.size()
    if w < 8 * n:
        v = z3.ZeroExt(8 * n - w, v)
    return [simp(z3.Extract(8 * i + 7, 8 * i, v)) for i in range(n)]


class Oblig:
    def __init__(self, name, cond, goal, kind, nassume=0):
        self.nassume = nassume  # only loop invariants assumed before this point of execution may be used
        self.name = name
        self.cond = cond
        self.goal = goal
        self.kind = kind      # 'mem' 'assert' 'post' 'inv-init' 'inv-step' 'pre' 'frame'


class Loop:
    def __init__(self, fn, header, blocks):
        self.fn = fn
        self.header = header
        self.blocks = blocks
        self.phis = []         # [(name, ty)]
        self.entry = None      # LState
        self.cur = None        # LState with fresh values
        self.cands = []        # [(name, fn, indicator, kind)]
        self.key = None


class LState:
    """values of the loop-carried variables at one point: ints/ptrs by phi name, memory cells by (obj,off)"""

    def __init__(self, vals, mem, reach):
        self.vals = vals
        self.mem = mem
        self.reach = reach


class Exec:
    def __init__(self, module, spec):
        self.m = module
        self.spec = spec
        self.fresh_n = 0
        self.prov = {}
        self.obls = []
        self.axioms = []         # always assumed (definitional instances, object layout)
        self.inv_assume = []     # (indicator, formula)
        self.globals = {}
        self.cut = getattr(spec, 'cut', None)
        self.hint = None         # candidate names to try first (speed only: each is still proved)
        self.modset = {}         # loop key -> set of obj uid
        self.widen = {}          # (loop key, phi) -> extra objs
        self.loops = []
        self.covers = []
        self.callstack = []
        self.objs = {}
        self.changed = False
        self.fns = []
        self.trusted = {}
        self.instr_n = 0
        self.curloops = []
        self.visited_calls = {}

    # -- helpers -----------------------------------------------------------------------------
    def fresh(self, w, tag='v'):
        self.fresh_n += 1
        return z3.BitVec(f'{tag}!{self.fresh_n}', w)

    def fresh_bool(self, tag='b'):
        self.fresh_n += 1
        return z3.Bool(f'{tag}!{self.fresh_n}')

    def fresh_ty(self, t, tag='u'):
        t = self.m.resolve(t)
        k = t[0]
        if k == 'i':
            return self.fresh_bool(tag) if t[1] == 1 else self.fresh(t[1], tag)
        if k == 'ptr':
            o = Obj(f'{tag}ptr', 0, 'opaque')
            return Ptr.to(o, self.fresh(64, tag + 'off'))
        if k == 'double':
            self.fresh_n += 1
            return z3.FP(f'{tag}!{self.fresh_n}', z3.Float64())
        if k == 'float':
            self.fresh_n += 1
            return z3.FP(f'{tag}!{self.fresh_n}', z3.Float32())
        if k == 'x86_fp80':
            self.fresh_n += 1
            return z3.FP(f'{tag}!{self.fresh_n}', z3.FPSort(15, 64))
        if k == 'st':
            return [self.fresh_ty(x, tag) for x in t[1]]
        if k == 'arr':
            return [self.fresh_ty(t[2], tag) for _ in range(t[1])]
        raise VCError('fresh ' + repr(t))

    def new_obj(self, name, size, kind='cells', elem=1, writable=True, init=None):
        o = Obj(name, size, kind, elem, writable, init)
        if kind != 'null':
            # every object lies in user space, with room around it
            self.axioms.append(z3.And(z3.UGE(o.base, BV(1 << 20, 64)), z3.ULT(o.base, BV(1 << 46, 64))))
        return o

    def buffer(self, name, n, elem=1, writable=False):
        """symbolic input buffer of n elements (n: BV64), contents unconstrained"""
        size = n * elem if elem > 1 else n
        o = self.new_obj(name, simp(size), 'array', elem, writable)
        if writable:
            arr = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8 * elem))
        else:
            # read-only content: an uninterpreted function from index to code unit
            arr = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8 * elem))
        self.init_mem[o] = arr
        return o, arr

    def cells(self, name, size, writable=True):
        o = self.new_obj(name, size, 'cells', 1, writable)
        self.init_mem[o] = Cells({}, f'{name}!{o.uid}')
        return o

    # -- global data ------------------------------------------------------------------------
    def global_ptr(self, name):
        if name in self.globals:
            return Ptr.to(self.globals[name])
        if name in self.m.functions or name in self.m.declares:
            o = Obj(name, 0, 'fn')
            self.globals[name] = o
            return Ptr.to(o)
        g = self.m.global_info(name)
        if g is None:
            raise VCError('unknown global ' + name)
        if g[0] == 'alias':
            return self.const(('ptr',), g[1])
        t, init, const = g
        if init is None:
            o = self.new_obj(name, 1 << 20, 'opaque')
            self.globals[name] = o
            return Ptr.to(o)
        size = self.m.size(t)
        o = self.new_obj(name, size, 'const' if const else 'cells', 1, not const)
        self.globals[name] = o
        d = {}
        self.flat_init(t, init, 0, d)
        if const:
            o.init = d
        else:
            # a mutable global: contents at call time unknown
            self.init_mem_late(o, Cells({}, f'{name}!{o.uid}'))
        return Ptr.to(o)

    def init_mem_late(self, o, c):
        self.late[o] = c

    def flat_init(self, t, v, off, d):
        t = self.m.resolve(t)
        k = v[0]
        if k == 'zero':
            n = self.m.size(t)
            for i in range(n):
                d[off + i] = (1, BV(0, 8))
            return
        if k in ('undef', 'poison'):
            for i in range(self.m.size(t)):
                d[off + i] = (1, BV(0, 8))
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                d[off + i] = (1, BV(b, 8))
            return
        if k == 'agg':
            if t[0] == 'st':
                offs, _ = self.m.struct_layout(t)
                for (et, ev), o in zip(v[1], offs):
                    self.flat_init(et, ev, off + o, d)
            else:
                es = self.m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.flat_init(et, ev, off + i * es, d)
            return
        val = self.const(t, v)
        n = self.m.store_size(t)
        if isinstance(val, Ptr):
            d[off] = (8, val)
        else:
            for i, b in enumerate(val_bytes(val, n)):
                d[off + i] = (1, b)

    # -- constants ---------------------------------------------------------------------------
    def const(self, t, v):
        t = self.m.resolve(t)
        k = v[0]
        if k == 'int':
            if t[0] == 'i':
                if t[1] == 1:
                    return z3.BoolVal(bool(v[1] & 1))
                return BV(v[1] & ((1 << t[1]) - 1), t[1])
            raise VCError('int const of type ' + repr(t))
        if k == 'null':
            return Ptr.to(NULL)
        if k in ('undef', 'poison'):
            if t[0] == 'st':
                return [self.const(x, v) for x in t[1]]
            if t[0] == 'arr':
                return [self.const(t[2], v) for _ in range(t[1])]
            return self.fresh_ty(t, 'undef')
        if k == 'zero':
            if t[0] == 'st':
                return [self.const(x, v) for x in t[1]]
            if t[0] == 'arr':
                return [self.const(t[2], v) for _ in range(t[1])]
            if t[0] == 'ptr':
                return Ptr.to(NULL)
            return self.const(t, ('int', 0))
        if k == 'agg':
            return [self.const(et, ev) for et, ev in v[1]]
        if k == 'bytes':
            return [BV(b, 8) for b in v[1]]
        if k == 'gv':
            return self.global_ptr(v[1])
        if k == 'fp':
            return self.fpconst(t, v[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                return self.gep(v[2], [(a, self.const(a, b)) for a, b in v[3]])
            if op == 'ptrtoint':
                return self.cast('ptrtoint', self.const(v[2], v[3]), v[2], v[4])
            if op in ('inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                return self.cast(op, self.const(v[2], v[3]), v[2], v[4])
            if op == 'icmp':
                return self.icmp(v[2], self.const(v[3], v[4]), self.const(v[3], v[5]))
            return self.binop(op, self.const(v[2], v[3]), self.const(v[2], v[4]))
        raise VCError('const ' + repr(v)[:100])

    def fpconst(self, t, s):
        import struct
        if s.startswith('0xK'):
            bits = int(s[3:], 16)
            sign = bits >> 79
            exp = (bits >> 64) & 0x7fff
            man = bits & ((1 << 63) - 1)
            return z3.fpBVToFP(BV((sign << 78) | (exp << 63) | man, 79), z3.FPSort(15, 64))
        if s.startswith('0x'):
            bits = int(s, 16)
            d = struct.unpack('>d', bits.to_bytes(8, 'big'))[0]
        else:
            d = float(s)
            bits = int.from_bytes(struct.pack('>d', d), 'big')
        if t[0] == 'double':
            return z3.fpBVToFP(BV(bits, 64), z3.Float64())
        if t[0] == 'float':
            b32 = int.from_bytes(struct.pack('>f', d), 'big')
            return z3.fpBVToFP(BV(b32, 32), z3.Float32())
        raise VCError('fp const ' + s)

    # -- operations --------------------------------------------------------------------------
    def asint(self, v):
        return v.addr() if isinstance(v, Ptr) else v

    def binop(self, op, a, b):
        if op.startswith('f'):
            rm = z3.RNE()
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return f(rm, a, b)
        a = self.asint(a)
        b = self.asint(b)
        if z3.is_bool(a):
            if op == 'and' or op == 'mul':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if is_true(b):
                    return Not(a)
                if is_true(a):
                    return Not(b)
                return z3.Xor(a, b)
            raise VCError('bool op ' + op)
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
            if getattr(self.spec, 'mul_split', False) and a.size() == 64:
                # schoolbook identity on 32-bit halves (exact): kinder to the solver for two-part constants
                a, b = (b, a) if conc(a) is not None else (a, b)
                C = conc(b)
                if C is not None and C >> 32 and conc(a) is None:
                    lo, hi = C & 0xffffffff, C >> 32
                    h, l = z3.Extract(63, 32, a), z3.Extract(31, 0, a)
                    low = z3.ZeroExt(32, l) * lo
                    r = z3.Concat(z3.Extract(63, 32, low) + h * lo + l * hi, z3.Extract(31, 0, low))
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = z3.LShR(a, b)
        elif op == 'ashr':
            r = a >> b
        elif op == 'udiv':
            r = z3.UDiv(a, b)
        elif op == 'urem':
            r = z3.URem(a, b)
        elif op == 'sdiv':
            r = a / b
        elif op == 'srem':
            r = z3.SRem(a, b)
        else:
            raise VCError('binop ' + op)
        return simp(r)

    def ptr_cmp(self, pred, p, q):
        res = []
        for ca, oa, fa in p.alts:
            for cb, ob, fb in q.alts:
                c = And(ca, cb)
                if oa is ob:
                    if pred == 'eq':
                        r = fa == fb
                    elif pred == 'ne':
                        r = fa != fb
                    else:
                        r = {'ult': fa < fb, 'ule': fa <= fb, 'ugt': fa > fb, 'uge': fa >= fb,
                             'slt': fa < fb, 'sle': fa <= fb, 'sgt': fa > fb, 'sge': fa >= fb}[pred]
                else:
                    if pred in ('eq', 'ne') and (oa.kind == 'null' or ob.kind == 'null'):
                        o, f = (oa, fa) if ob.kind == 'null' else (ob, fb)
                        g = fb if ob.kind == 'null' else fa
                        if o.kind == 'opaque':
                            eq = simp(o.base + f == g)
                        else:
                            eq = z3.BoolVal(False) if conc(g) == 0 or conc(g) is not None and conc(g) < 4096 else simp(o.base + f == g)
                        r = eq if pred == 'eq' else Not(eq)
                    elif pred == 'eq':
                        r = z3.BoolVal(False) if 'opaque' not in (oa.kind, ob.kind) else (oa.base + fa == ob.base + fb)
                    elif pred == 'ne':
                        r = z3.BoolVal(True) if 'opaque' not in (oa.kind, ob.kind) else (oa.base + fa != ob.base + fb)
                    else:
                        x, y = oa.base + fa, ob.base + fb
                        r = {'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y), 'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y)}[pred]
                res.append((c, r))
        out = res[-1][1]
        for c, r in reversed(res[:-1]):
            out = If(c, r, out)
        return simp(out)

    def icmp(self, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.ptr_cmp(pred, a, b)
        a = self.asint(a)
        b = self.asint(b)
        if z3.is_bool(a):
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(z3.Xor(a, b))
            if pred in ('ult', 'sgt'):
                return And(Not(a), b) if pred == 'ult' else And(Not(a), b)
            if pred in ('ugt', 'slt'):
                return And(a, Not(b))
            if pred in ('ule', 'sge'):
                return Or(Not(a), b)
            if pred in ('uge', 'sle'):
                return Or(a, Not(b))
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return simp(r)

    def fcmp(self, pred, a, b):
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b),
                'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b)}
        if pred == 'uno':
            return un
        if pred == 'ord':
            return z3.Not(un)
        if pred[0] == 'o':
            return z3.And(z3.Not(un), base[pred[1:]])
        return z3.Or(un, base[pred[1:]])

    def cast(self, op, v, t, t2):
        t2 = self.m.resolve(t2)
        if op == 'ptrtoint':
            a = v.addr() if isinstance(v, Ptr) else v
            if t2[1] < 64:
                a = z3.Extract(t2[1] - 1, 0, a)
            elif isinstance(v, Ptr):
                self.prov[a.get_id()] = (a, v)
            return a
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            return self.int_to_ptr(v)
        if op == 'bitcast':
            if t2[0] == 'double' and z3.is_bv(v):
                return z3.fpBVToFP(v, z3.Float64())
            if t2[0] == 'float' and z3.is_bv(v):
                return z3.fpBVToFP(v, z3.Float32())
            if t2[0] == 'i' and z3.is_fp(v):
                return z3.fpToIEEEBV(v)
            return v
        if op in ('zext', 'sext', 'trunc'):
            w = t2[1]
            if z3.is_bool(v):
                if op == 'zext':
                    return simp(z3.If(v, BV(1, w), BV(0, w)))
                if op == 'sext':
                    return simp(z3.If(v, BV(-1, w), BV(0, w)))
            v = self.asint(v)
            if op == 'zext':
                return simp(z3.ZeroExt(w - v.size(), v))
            if op == 'sext':
                return simp(z3.SignExt(w - v.size(), v))
            if w == 1:
                return simp(z3.Extract(0, 0, v) == BV(1, 1))
            return simp(z3.Extract(w - 1, 0, v))
        rm = z3.RNE()
        sort = {'double': z3.Float64(), 'float': z3.Float32(), 'x86_fp80': z3.FPSort(15, 64)}
        if op == 'sitofp':
            return z3.fpSignedToFP(rm, v, sort[t2[0]])
        if op == 'uitofp':
            return z3.fpUnsignedToFP(rm, v, sort[t2[0]])
        if op in ('fpext', 'fptrunc'):
            return z3.fpFPToFP(rm, v, sort[t2[0]])
        raise VCError('cast ' + op)

    def int_to_ptr(self, v):
        c = conc(v)
        if c is not None:
            return Ptr.to(NULL, c)
        names = set()
        stack = [v]
        seen = set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(e.decl().name())
            stack.extend(e.children())
        for o in list(self.init_mem) + list(self.globals.values()) + list(self.late):
            if o.base.decl().name() in names:
                d = simp(v - o.base)
                s2 = [d]
                ok = True
                seen2 = set()
                while s2:
                    e = s2.pop()
                    if e.get_id() in seen2:
                        continue
                    seen2.add(e.get_id())
                    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('addr!'):
                        ok = False
                        break
                    s2.extend(e.children())
                if ok:
                    return Ptr.to(o, d)
        o = Obj('inttoptr', 0, 'opaque')
        return Ptr.to(o, simp(v - o.base))

    def gep(self, bt, ops):
        p = ops[0][1]
        off = BV(0, 64)
        t = bt
        first = True
        for it, iv in ops[1:]:
            iv = self.asint(iv)
            if first:
                sz = self.m.size(t)
                first = False
            else:
                t = self.m.resolve(t)
                if t[0] == 'st':
                    idx = conc(iv)
                    offs, _ = self.m.struct_layout(t)
                    off = off + BV(offs[idx], 64)
                    t = t[1][idx]
                    continue
                t = t[2]
                sz = self.m.size(t)
            if iv.size() < 64:
                iv = z3.SignExt(64 - iv.size(), iv)
            off = off + iv * BV(sz, 64)
        off = simp(off)
        if not isinstance(p, Ptr):
            p = self.int_to_ptr(p)
        return p.add(off)

    # -- memory ------------------------------------------------------------------------------
    def oblige(self, name, cond, goal, kind):
        if is_true(goal):
            # trivially discharged by the generator's simplifier: still counted
            self.trivial += 1
            return
        self.obls.append(Oblig(name, cond, goal, kind, len(self.inv_assume)))

    def bounds(self, o, off, n, reach, what, write=False):
        if o.kind == 'opaque':
            return
        if o.kind == 'null' or o.kind == 'fn':
            self.oblige(f'{what}: null/invalid pointer not dereferenced', reach, z3.BoolVal(False), 'mem')
            return
        if write and not o.writable:
            self.oblige(f'{what}: {o.name} is not written', reach, z3.BoolVal(False), 'frame')
            return
        sz = o.size_bv()
        g = simp(z3.And(z3.ULE(off, sz), z3.ULE(BV(n, 64), sz - off)))
        self.oblige(f'{what}: {n} byte(s) inside {o.name}', reach, g, 'mem')

    def content(self, mem, o):
        if o in mem:
            return mem[o]
        if o in self.late:
            return self.late[o]
        if o.kind == 'opaque':
            mem[o] = z3.Array(f'opq!{o.name}!{o.uid}', z3.BitVecSort(64), z3.BitVecSort(8))
            return mem[o]
        if o in self.init_mem:
            return self.init_mem[o]
        raise VCError('no content for ' + o.name)

    def cell_byte(self, o, c, i):
        """byte i of a Cells content"""
        e = c.d.get(i)
        if e is not None and e[0] == 1:
            v = e[1]
            return val_bytes(v, 1)[0]
        for back in range(0, 33):
            e = c.d.get(i - back)
            if e is not None:
                if e[0] > back:
                    return val_bytes(e[1], e[0])[back]
                break
        return z3.BitVec(f'init!{c.tag}!{i}', 8)

    def cell_get(self, mem, o, off, n):
        """integer content of n bytes of a small object (for contracts)"""
        c = mem[o]
        e = c.d.get(off)
        if e is not None and e[0] == n and z3.is_bv(e[1]):
            return e[1]
        bs = [self.cell_byte(o, c, off + i) for i in range(n)]
        return simp(z3.Concat(*reversed(bs))) if n > 1 else bs[0]

    def load(self, mem, p, t, reach, what):
        t = self.m.resolve(t)
        if t[0] in ('st', 'arr'):
            out = []
            if t[0] == 'st':
                offs, _ = self.m.struct_layout(t)
                for et, of in zip(t[1], offs):
                    out.append(self.load(mem, p.add(BV(of, 64)), et, reach, what))
            else:
                es = self.m.size(t[2])
                for i in range(t[1]):
                    out.append(self.load(mem, p.add(BV(i * es, 64)), t[2], reach, what))
            return out
        n = self.m.store_size(t)
        if not isinstance(p, Ptr):
            p = self.int_to_ptr(p)
        vals = []
        for c, o, off in p.alts:
            r = And(reach, c)
            if is_false(r):
                continue
            self.bounds(o, off, n, r, what)
            if o.kind in ('null', 'fn'):
                vals.append((c, self.fresh_ty(t, 'nullload')))
                continue
            vals.append((c, self.load_obj(mem, o, off, n, t, r)))
        if not vals:
            return self.fresh_ty(t, 'deadload')
        return merge_vals(vals)

    def typed(self, v, t):
        """coerce a loaded raw value (Ptr or BV) to type t"""
        k = t[0]
        if k == 'ptr':
            return v if isinstance(v, Ptr) else self.int_to_ptr(v)
        if isinstance(v, Ptr):
            v = v.addr()
        if z3.is_bool(v):
            if k == 'i' and t[1] == 1:
                return v
            v = z3.If(v, BV(1, 8), BV(0, 8))
        if z3.is_fp(v):
            if k != 'i':
                return v
            v = z3.fpToIEEEBV(v)
        if k == 'i':
            if t[1] == 1:
                return simp(z3.Extract(0, 0, v) == BV(1, 1))
            if v.size() > t[1]:
                return simp(z3.Extract(t[1] - 1, 0, v))
            return v
        if k == 'double':
            return z3.fpBVToFP(v, z3.Float64())
        if k == 'float':
            return z3.fpBVToFP(v, z3.Float32())
        raise VCError('typed load ' + repr(t))

    def load_obj(self, mem, o, off, n, t, reach):
        if o.kind == 'const':
            co = conc(off)
            c = Cells(o.init)
            if co is not None:
                return self.load_cells(o, c, co, n, t)
            return self.load_sym(o, c, off, n, t)
        c = self.content(mem, o)
        if isinstance(c, Cells):
            co = conc(off)
            if co is not None:
                return self.load_cells(o, c, co, n, t)
            return self.load_sym(o, c, off, n, t)
        # array
        if o.elem > 1:
            if n == o.elem:
                self.oblige('aligned element access in ' + o.name, reach, simp(off & (o.elem - 1) == 0), 'mem')
                sh = o.elem.bit_length() - 1
                idx = simp(z3.LShR(off, sh))
                self.spec_load(o, idx, reach)
                return self.typed(sel(c, idx), t)
            if n > o.elem and n % o.elem == 0:
                self.oblige('aligned element access in ' + o.name, reach, simp(off & (o.elem - 1) == 0), 'mem')
                sh = o.elem.bit_length() - 1
                idx = simp(z3.LShR(off, sh))
                bs = []
                for i in range(n // o.elem):
                    self.spec_load(o, simp(idx + i), reach)
                    bs.append(sel(c, simp(idx + i)))
                return self.typed(z3.Concat(*reversed(bs)), t)
            raise VCError(f'{n}-byte access to {o.name} with {o.elem}-byte elements')
        bs = []
        for i in range(n):
            k = simp(off + i)
            self.wide_load = n > 1
            self.spec_load(o, k, reach)
            self.wide_load = False
            bs.append(sel(c, k))
        v = bs[0] if n == 1 else z3.Concat(*reversed(bs))
        return self.typed(v, t)

    def spec_load(self, o, idx, reach):
        self.spec.on_load(self, o, idx, reach)

    def load_cells(self, o, c, off, n, t):
        e = c.d.get(off)
        if e is not None and e[0] == n:
            return self.typed(e[1], t)
        bs = [self.cell_byte(o, c, off + i) for i in range(n)]
        v = bs[0] if n == 1 else simp(z3.Concat(*reversed(bs)))
        return self.typed(v, t)

    def load_sym(self, o, c, off, n, t):
        if not isinstance(o.size, int) or o.size > 4096:
            raise VCError('symbolic offset into large object ' + o.name)
        stride = n if o.size % n == 0 else 1
        # is the offset provably a multiple of the stride?
        if stride > 1:
            low = simp(z3.Extract(stride.bit_length() - 2, 0, off)) if (stride & (stride - 1)) == 0 else None
            if low is None or not (z3.is_bv_value(low) and low.as_long() == 0):
                stride = 1
        offs = list(range(0, o.size - n + 1, stride))
        vals = [self.load_cells(o, c, k, n, t) for k in offs]
        if not vals:
            return self.fresh_ty(t, 'oob')
        if isinstance(vals[0], Ptr):
            l = [(off == k, v) for k, v in zip(offs, vals)]
            return merge_ptrs(l)
        # balanced mux on the bits of the index
        sh = stride.bit_length() - 1
        nb = max(1, (len(vals) - 1).bit_length())
        memo = {}

        def mux(lo, bit):
            if bit < 0:
                return vals[lo] if lo < len(vals) else vals[-1]
            a = mux(lo, bit - 1)
            hi = lo + (1 << bit)
            if hi >= len(vals):
                return a
            b = mux(hi, bit - 1)
            if a.eq(b):
                return a
            if bit not in memo:
                memo[bit] = simp(z3.Extract(bit + sh, bit + sh, off) == BV(1, 1))
            return z3.If(memo[bit], b, a)
        return simp(mux(0, nb - 1))

    def store(self, mem, p, v, n, reach, what):
        if isinstance(v, list):
            raise VCError('aggregate store')
        if not isinstance(p, Ptr):
            p = self.int_to_ptr(p)
        if n == 8 and z3.is_bv(v) and v.get_id() in self.prov:
            v = self.prov[v.get_id()][1]        # a pointer stored as an integer: same bytes
        many = len(p.alts) > 1
        for c, o, off in p.alts:
            r = And(reach, c)
            if is_false(r):
                continue
            self.bounds(o, off, n, r, what, True)
            if o.kind in ('null', 'fn', 'const') or not o.writable:
                continue
            self.note_write(o)
            old = self.content(mem, o)
            if isinstance(old, Cells):
                co = conc(off)
                new = old.copy()
                if any(co is None or k < co + n and co < k + 8 for k in o.keep):
                    raise VCError(f'{what}: may change a constant member of {o.name}')
                if co is not None:
                    vv = v
                    if many:
                        t = ('ptr',) if isinstance(v, Ptr) else None
                        e = old.d.get(co)
                        if e is not None and e[0] == n:
                            ov = e[1]
                            vv = merge_vals([(c, v), (Not(c), ov)]) if isinstance(v, Ptr) == isinstance(ov, Ptr) and (isinstance(v, Ptr) or v.sort() == ov.sort()) else None
                        else:
                            vv = None
                        if vv is None:
                            ob = [self.cell_byte(o, old, co + i) for i in range(n)]
                            vv = z3.Concat(*reversed([If(c, x, y) for x, y in zip(val_bytes(v, n), ob)])) if n > 1 else If(c, val_bytes(v, 1)[0], ob[0])
                    self.put_cell(o, new, co, n, vv)
                else:
                    if not isinstance(o.size, int) or o.size > 256:
                        raise VCError('symbolic store into ' + o.name)
                    vb = val_bytes(v, n)
                    keep = set()
                    for k, (sz, cv) in old.d.items():
                        # pointers held in the object stay what they are: proved, not assumed
                        if isinstance(cv, Ptr):
                            self.oblige(f'{what}: does not overwrite the pointer at {k} in {o.name}', r,
                                        Or(z3.ULE(off + n, BV(k, 64)), z3.UGE(off, BV(k + sz, 64))), 'mem')
                            keep.update(range(k, k + sz))
                    for k in range(o.size):
                        if k in keep:
                            continue
                        b = self.cell_byte(o, old, k)
                        for i in range(n):
                            b = If(simp(And(c, off == k - i) if k - i >= 0 else z3.BoolVal(False)), vb[i], b)
                        new.d.pop(k, None)
                        new.d[k] = (1, b)
                    # drop stale multi-byte cells
                    new.d = {k: e for k, e in new.d.items() if e[0] == 1 or k in keep}
                mem[o] = new
            else:
                if o.elem > 1:
                    if n % o.elem:
                        raise VCError('partial element store')
                    idx = simp(z3.LShR(off, o.elem.bit_length() - 1))
                    iv = self.asint(v)
                    new = old
                    for i in range(n // o.elem):
                        w = 8 * o.elem
                        new = z3.Store(new, simp(idx + i) if i else idx, simp(z3.Extract(w * (i + 1) - 1, w * i, iv)) if n > o.elem else iv)
                else:
                    new = old
                    for i, b in enumerate(val_bytes(v, n)):
                        new = z3.Store(new, simp(off + i), b)
                mem[o] = If(c, new, old) if many else new

    def put_cell(self, o, new, off, n, v):
        d = new.d
        e = d.get(off)
        if not (e is not None and e[0] == n):
            # split overlapping cells
            for k in list(d):
                s, val = d[k]
                if k < off + n and off < k + s:
                    if s > 1:
                        bs = val_bytes(val, s)
                        del d[k]
                        for i in range(s):
                            if not (off <= k + i < off + n):
                                d[k + i] = (1, bs[i])
                    else:
                        del d[k]
        d[off] = (n, v)

    def note_write(self, o):
        for L in self.curloops:
            s = self.modset.setdefault(L, set())
            if o.name not in s:
                s.add(o.name)
                self.changed = True

    def memcpy(self, mem, d, s, n, reach, what):
        nc = conc(n)
        if nc is None:
            h = self.spec.memcpy(self, mem, d, s, n, reach)
            if h:
                return
            self.memcpy_small(mem, d, s, n, reach, what)
            return
        if nc == 0:
            return
        so, soff = s.single() if len(s.alts) == 1 else (None, None)
        if so is not None and so.kind in ('cells', 'const') and conc(soff) is not None:
            c = Cells(so.init) if so.kind == 'const' else self.content(mem, so)
            if isinstance(c, Cells):
                self.bounds(so, soff, nc, reach, what)
                b = conc(soff)
                i = 0
                while i < nc:
                    e = c.d.get(b + i)
                    if e is not None and i + e[0] <= nc:
                        self.store(mem, d.add(BV(i, 64)), e[1], e[0], reach, what)
                        i += e[0]
                    else:
                        self.store(mem, d.add(BV(i, 64)), self.cell_byte(so, c, b + i), 1, reach, what)
                        i += 1
                return
        vals = [self.load(mem, s.add(BV(i, 64)), ('i', 8), reach, what) for i in range(nc)]
        if nc in (2, 4, 8):
            self.store(mem, d, simp(z3.Concat(*reversed(vals))), nc, reach, what)
            return
        for i in range(nc):
            self.store(mem, d.add(BV(i, 64)), vals[i], 1, reach, what)

    def memcpy_small(self, mem, d, s, n, reach, what):
        """symbolic length, but the destination is a small local object: byte i is copied iff i < n"""
        do, doff = d.single()
        so, soff = s.single()
        if not isinstance(do.size, int) or do.size > 64 or conc(doff) is None or so.elem != 1:
            raise VCError('memcpy of symbolic length')
        room = do.size - conc(doff)
        self.oblige(f'{what}: copied bytes fit {do.name}', reach, z3.ULE(n, BV(room, 64)), 'mem')
        ssz = so.size_bv()
        if so.kind != 'opaque':
            self.oblige(f'{what}: copied bytes inside {so.name}', reach,
                        z3.And(z3.ULE(soff, ssz), z3.ULE(n, ssz - soff)), 'mem')
        self.note_write(do)
        old = self.content(mem, do)
        new = old.copy()
        b0 = conc(doff)
        bs = []
        for i in range(room):
            sb = self.load_obj(mem, so, simp(soff + i), 1, ('i', 8), And(reach, z3.ULT(BV(i, 64), n)))
            bs.append(If(simp(z3.ULT(BV(i, 64), n)), sb, self.cell_byte(do, old, b0 + i)))
        if room in (2, 4, 8):
            self.put_cell(do, new, b0, room, simp(z3.Concat(*reversed(bs))))
        else:
            for i, x in enumerate(bs):
                self.put_cell(do, new, b0 + i, 1, x)
        mem[do] = new

    def memset(self, mem, d, v, n, reach, what):
        nc = conc(n)
        if nc is None:
            raise VCError('memset of symbolic length')
        i = 0
        vb = conc(v)
        while i < nc:
            step = 8 if nc - i >= 8 and vb is not None else 1
            val = BV(int.from_bytes(bytes([vb]) * step, 'little'), 8 * step) if vb is not None else v
            self.store(mem, d.add(BV(i, 64)), val, step, reach, what)
            i += step

    # -- CFG ---------------------------------------------------------------------------------
    def cfg(self, fn):
        order, blocks = fn.blocks(self.m)
        entry = order[0].name
        # reverse postorder
        seen = set()
        post = []
        stack = [(entry, iter(blocks[entry].succs))]
        seen.add(entry)
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(blocks[s].succs)))
                    adv = True
                    break
            if not adv:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in blocks[b].preds if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        back = {}
        for b in rpo:
            for s in blocks[b].succs:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise VCError('irreducible control flow')
                    back.setdefault(s, []).append(b)
        loops = {}
        for h, ts in back.items():
            body = {h}
            st = [t for t in ts]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(p for p in blocks[x].preds if p in num)
            loops[h] = body
        # topological order where a loop's blocks are contiguous enough: plain RPO of the DAG works,
        # because every forward edge goes from a lower to a higher RPO number
        return order, blocks, rpo, num, back, loops

    # -- execution ----------------------------------------------------------------------------
    def run(self):
        """iterate until loop write sets and pointer targets are stable"""
        for it in range(12):
            self.changed = False
            self.obls = []
            self.trivial = 0
            self.axioms = []
            self.axreach = {}
            self.branches = []
            self.weak = set()
            self.inv_assume = []
            self.globals = {}
            self.late = {}
            self.init_mem = {}
            self.loops = []
            self.covers = []
            self.fresh_n = 0
            Obj.count = 0
            NULL.uid = 0
            self.fns = []
            self.curloops = []
            self.callstack = []
            self.trusted = {}
            self.instr_n = 0
            fn = self.m.functions.get('@' + self.spec.fn)
            if fn is None:
                raise VCError('function not found: ' + self.spec.fn)
            self.spec.ghosts = []
            args = self.spec.setup(self)
            self.n_setup_axioms = len(self.axioms)
            pre = And(*self.spec.pre) if self.spec.pre else z3.BoolVal(True)
            mem = dict(self.init_mem)
            self.entry_mem = dict(mem)
            ret, rmem, rreach = self.exec_fn(fn, args, mem, z3.BoolVal(True), (self.spec.fn,))
            self.pre = pre
            if not self.changed:
                break
        else:
            raise VCError('loop write sets did not stabilise')
        self.ret = ret
        self.rmem = rmem
        self.rreach = rreach
        self.covers.append(('return reachable', rreach))
        for name, g in self.spec.ensures(self, ret, rmem):
            self.obls.append(Oblig(name, rreach, g, 'post', len(self.inv_assume)))
        for name, g in self.spec.cover(self, ret, rmem):
            self.covers.append((name, And(rreach, g)))
        return self

    def exec_fn(self, fn, args, mem, reach, path):
        order, blocks, rpo, num, back, loops = self.cfg(fn)
        if fn.name not in self.fns:
            self.fns.append(fn.name)
        env = {}
        for (t, nm, fa), v in zip(fn.params, args):
            if isinstance(v, Ptr) and any(isinstance(x, tuple) and x[0] == 'byvaltype' for x in fa):
                pass
            env[nm] = v
        edge = {}
        rets = []
        entry = rpo[0]
        loopobjs = {}
        outer_loops = list(self.curloops)
        for bn in rpo:
            b = blocks[bn]
            inl = [h for h in loops if bn in loops[h]]
            inl.sort(key=lambda h: num[h])
            self.curloops = outer_loops + [path + (fn.name, self.loop_key(rpo, loops, h)) for h in inl]
            if bn == entry:
                inc = [(None, reach, mem)]
            else:
                inc = []
                for p in b.preds:
                    if p in num and (p, bn) in edge and not (bn in back and p in back[bn]):
                        inc.append((p,) + edge[(p, bn)])
            inc = [x for x in inc if not is_false(x[1])]
            if not inc:
                continue
            r = simp(Or(*[x[1] for x in inc])) if len(inc) > 1 else inc[0][1]
            if is_false(r):
                continue
            m = self.merge_mem([(x[1], x[2]) for x in inc])
            phis = [i for i in b.instrs if i.op == 'phi']
            if bn in loops:
                pv = {}
                for ph in phis:
                    l = []
                    d = {lb: v for v, lb in ph.args}
                    for p, c, _ in inc:
                        l.append((c, self.val(env, ph.ty, d[p])))
                    pv[ph.res] = merge_vals(l)
                L = Loop(fn, bn, loops[bn])
                L.key = self.curloops[-1]
                assert L.key[-1] == self.loop_key(rpo, loops, bn)
                L.phis = [(ph.res, ph.ty) for ph in phis]
                L.entry = LState(pv, m, r)
                cur = {}
                for ph in phis:
                    cur[ph.res] = self.havoc(ph.ty, pv[ph.res], L, ph.res)
                m2 = dict(m)
                mods = self.modset.get(L.key, set())
                modn = mods
                for o in list(m2):
                    if o.name in modn:
                        m2[o] = self.havoc_mem(o, m2[o], L)
                for o in list(self.late):
                    if o.name in modn and o not in m2:
                        m2[o] = self.havoc_mem(o, self.late[o], L)
                L.cur = LState(cur, m2, r)
                L.reach = r
                L.names = {}
                self.loops.append(L)
                loopobjs[bn] = L
                L.cands = []
                na = len(self.inv_assume)
                for nm, f, must in self.spec.invariants(self, L):
                    if self.hint is not None and f'{L.key[-1]}:{nm}' not in self.hint:
                        continue
                    try:
                        g0 = f(L.entry)
                        g = f(L.cur)
                    except (VCError, KeyError, z3.Z3Exception, AttributeError, TypeError):
                        continue
                    ind = z3.Bool(f'act!{len(self.loops)}!{len(L.cands)}')
                    L.cands.append((nm, f, ind, must))
                    self.inv_assume.append((ind, z3.Implies(r, g)))
                    self.obls.append(Oblig(f'{self.lname(L)} invariant "{nm}" on entry', r, g0, 'inv-init', na))
                    self.obls[-1].ind = ind
                self.spec.at_head(self, L, r)
                for ph in phis:
                    env[ph.res] = cur[ph.res]
                m = m2
            else:
                for ph in phis:
                    l = []
                    d = {lb: v for v, lb in ph.args}
                    for p, c, _ in inc:
                        l.append((c, self.val(env, ph.ty, d[p])))
                    env[ph.res] = merge_vals(l)
                m = dict(m)
            self.exec_block(fn, b, env, m, r, edge, rets, path, loopobjs, back, blocks)
        self.curloops = outer_loops
        if not rets:
            return None, mem, z3.BoolVal(False)
        rr = simp(Or(*[c for c, _, _ in rets])) if len(rets) > 1 else rets[0][0]
        rm = self.merge_mem([(c, mm) for c, _, mm in rets])
        rv = None
        if rets[0][1] is not None:
            rv = merge_vals([(c, v) for c, v, _ in rets])
        return rv, rm, rr

    def loop_key(self, rpo, loops, h):
        # loops are identified by their position, not by SSA names
        hs = [b for b in rpo if b in loops]
        return hs.index(h)

    def lname(self, L):
        return f'loop#{L.key[-1]} of {demangle_short(L.fn.name)}'

    def havoc(self, ty, v, L, nm):
        ty = self.m.resolve(ty)
        if isinstance(v, Ptr) or ty[0] == 'ptr':
            objs = []
            for _, o, _ in v.alts:
                if o not in objs:
                    objs.append(o)
            extra = self.widen.get((L.key, nm), [])
            for en in extra:
                for o in list(self.init_mem) + list(self.globals.values()) + [NULL] + list(self.late):
                    if o.name == en and o not in objs:
                        objs.append(o)
            if len(objs) == 1:
                return Ptr.to(objs[0], self.fresh(64, 'off'))
            sel = self.fresh(8, 'sel')
            alts = []
            for i, o in enumerate(objs):
                c = sel == i if i < len(objs) - 1 else z3.UGE(sel, BV(i, 8))
                alts.append((c, o, BV(0, 64) if o is NULL else self.fresh(64, 'off')))
            return Ptr(alts)
        return self.fresh_ty(ty, 'phi')

    def havoc_mem(self, o, c, L):
        if isinstance(c, Cells):
            n = Cells({}, f'{o.name}!h{len(self.loops)}!{self.fresh_n}')
            self.fresh_n += 1
            for off, (s, v) in c.d.items():
                if off in o.keep:
                    n.d[off] = (s, v)
                elif isinstance(v, Ptr):
                    n.d[off] = (s, self.havoc(('ptr',), v, L, (o.name, off)))
                elif z3.is_bool(v):
                    n.d[off] = (s, self.fresh_bool('cell'))
                elif z3.is_fp(v):
                    self.fresh_n += 1
                    n.d[off] = (s, z3.FP(f'cell!{self.fresh_n}', v.sort()))
                else:
                    n.d[off] = (s, self.fresh(v.size(), 'cell'))
            return n
        self.fresh_n += 1
        return z3.Array(f'{o.name}!h{self.fresh_n}', z3.BitVecSort(64), z3.BitVecSort(8 * o.elem))

    def merge_mem(self, l):
        if len(l) == 1:
            return l[0][1]
        out = {}
        keys = []
        for _, m in l:
            for o in m:
                if o not in out:
                    out[o] = None
                    keys.append(o)
        for o in keys:
            vs = []
            for c, m in l:
                if o in m:
                    vs.append((c, m[o]))
                else:
                    vs.append((c, self.content(dict(), o) if o.kind != 'opaque' else None))
            vs2 = [x for x in vs if x[1] is not None]
            if len(vs2) < len(vs):
                arr = z3.Array(f'opq!{o.name}!{o.uid}', z3.BitVecSort(64), z3.BitVecSort(8))
                vs = [(c, v if v is not None else arr) for c, v in vs]
            first = vs[0][1]
            if all(v is first for _, v in vs):
                out[o] = first
                continue
            if isinstance(first, Cells):
                out[o] = self.merge_cells(o, vs)
            else:
                r = vs[-1][1]
                for c, v in reversed(vs[:-1]):
                    r = If(c, v, r)
                out[o] = r
        return out

    def merge_cells(self, o, vs):
        first = vs[0][1]
        n = Cells({}, first.tag)
        if any(v.tag != first.tag for _, v in vs):
            # differing unknown bytes (havocked on one side only): fresh unknown
            self.fresh_n += 1
            n.tag = f'{o.name}!mm{self.fresh_n}'
        offs = {}
        for _, v in vs:
            for off, (s, val) in v.d.items():
                offs.setdefault(off, set()).add(s)
        covered = set()
        for off in sorted(offs):
            if len(offs[off]) == 1:
                s = next(iter(offs[off]))
                ok = True
                for _, v in vs:
                    e = v.d.get(off)
                    if e is None:
                        # absent: must not be partially covered
                        for k in range(off, off + s):
                            for kk, (ss, _) in v.d.items():
                                if kk <= k < kk + ss:
                                    ok = False
                if ok:
                    l = []
                    for c, v in vs:
                        e = v.d.get(off)
                        if e is not None:
                            l.append((c, e[1]))
                        else:
                            hasptr = any(isinstance(x.d.get(off, (0, None))[1], Ptr) for _, x in vs)
                            if hasptr and v.tag.startswith('alloca'):
                                l.append((c, Undef()))
                            else:
                                bs = [z3.BitVec(f'init!{v.tag}!{off + i}', 8) for i in range(s)]
                                l.append((c, bs[0] if s == 1 else z3.Concat(*reversed(bs))))
                    if s == 8 and any(isinstance(x, Ptr) for _, x in l):
                        l = [(c, Ptr.to(NULL) if z3.is_bv(x) and conc(x) == 0 else x) for c, x in l]
                    sorts = set('p' if isinstance(x, Ptr) else ('u' if isinstance(x, Undef) else str(x.sort())) for _, x in l)
                    sorts.discard('u')
                    if len(sorts) == 1:
                        n.d[off] = (s, merge_vals(l))
                        continue
            # byte-wise
            for s in [max(offs[off])]:
                for k in range(off, off + s):
                    if k in covered:
                        continue
                    covered.add(k)
                    l = [(c, self.cell_byte(o, v, k)) for c, v in vs]
                    n.d[k] = (1, merge_vals(l))
        # remove overlaps introduced by mixed layouts
        occ = {}
        for off in sorted(n.d):
            s = n.d[off][0]
            for k in range(off, off + s):
                if k in occ:
                    raise VCError('cell layout conflict in ' + o.name)
                occ[k] = off
        return n

    def val(self, env, t, v):
        if v[0] == 'lv':
            if v[1] not in env:
                raise VCError('undefined value ' + v[1])
            return env[v[1]]
        return self.const(t, v)

    def exec_block(self, fn, b, env, mem, reach, edge, rets, path, loopobjs, back, blocks):
        for ins in b.instrs:
            op = ins.op
            if op == 'phi':
                continue
            self.instr_n += 1
            if op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'resume'):
                self.terminator(fn, b, ins, env, mem, reach, edge, rets, loopobjs, back, blocks)
                return
            if op == 'invoke':
                res = self.call(ins, env, mem, reach, path)
                if isinstance(res, tuple) and res and res[0] == '!noreturn':
                    return
                reach = self.call_reach(reach)
                if ins.res:
                    env[ins.res] = res
                self.goto(fn, b.name, ins.extra['normal'], reach, mem, env, edge, loopobjs, back, blocks)
                return
            if op == 'call':
                res = self.call(ins, env, mem, reach, path)
                if isinstance(res, tuple) and res and res[0] == '!noreturn':
                    return
                reach = self.call_reach(reach)
                if ins.res:
                    env[ins.res] = res
                continue
            env_res = self.simple(ins, env, mem, reach, path)
            if self.cut is not None and z3.is_bv(env_res):
                env_res = self.cut(self, env_res, reach)
            if ins.res:
                env[ins.res] = env_res

    def call_reach(self, reach):
        nr = getattr(self, '_callreach', None)
        self._callreach = None
        return reach if nr is None else nr

    def simple(self, ins, env, mem, reach, path):
        op = ins.op
        if op in ('icmp',):
            return self.icmp(ins.extra, self.val(env, ins.ty, ins.args[0]), self.val(env, ins.ty, ins.args[1]))
        if op == 'fcmp':
            return self.fcmp(ins.extra, self.val(env, ins.ty, ins.args[0]), self.val(env, ins.ty, ins.args[1]))
        if op == 'select':
            c = self.val(env, ('i', 1), ins.args[0])
            a = self.val(env, ins.ty, ins.args[1])
            d = self.val(env, ins.ty, ins.args[2])
            c = simp(c)
            if is_true(c):
                return a
            if is_false(c):
                return d
            return merge_vals([(c, a), (Not(c), d)])
        if op == 'freeze':
            return self.val(env, ins.ty, ins.args[0])
        if op == 'fneg':
            return z3.fpNeg(self.val(env, ins.ty, ins.args[0]))
        if op == 'load':
            return self.load(mem, self.val(env, ('ptr',), ins.args[0]), ins.ty, reach, self.what(ins))
        if op == 'store':
            v = self.val(env, ins.ty, ins.args[0])
            p = self.val(env, ('ptr',), ins.args[1])
            t = self.m.resolve(ins.ty)
            if isinstance(v, list):
                self.store_agg(mem, p, v, t, reach, self.what(ins))
            else:
                self.store(mem, p, v, self.m.store_size(t), reach, self.what(ins))
            return None
        if op == 'alloca':
            n = conc(self.const(('i', 32), ins.args[0]) if ins.args[0][0] == 'int' else self.val(env, ('i', 32), ins.args[0]))
            if n is None:
                raise VCError('variable-size alloca')
            nm = 'alloca ' + '/'.join(map(str, path)) + ins.res
            o = self.new_obj(nm, n * self.m.size(ins.ty), 'cells')
            mem[o] = Cells({}, f'alloca {ins.res}!{o.uid}')
            self.init_mem[o] = mem[o]
            return Ptr.to(o)
        if op == 'getelementptr':
            return self.gep(ins.ty, [(t, self.val(env, t, v)) for t, v in ins.args])
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'fptosi', 'fptoui'):
            t, v = ins.args[0]
            return self.cast(op, self.val(env, t, v), t, ins.ty)
        if op == 'extractvalue':
            v = self.val(env, ins.ty, ins.args[0])
            for i in ins.extra:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = self.val(env, ins.ty, ins.args[0])
            t2, v2 = ins.args[1]
            x = self.val(env, t2, v2)

            def rec(a, idx):
                a = list(a)
                a[idx[0]] = x if len(idx) == 1 else rec(a[idx[0]], idx[1:])
                return a
            return rec(v, ins.extra)
        if op in ('landingpad', 'fence'):
            return None
        if op in ('vector', 'cmpxchg', 'atomicrmw'):
            raise VCError('unsupported instruction: ' + ins.text[:120])
        return self.binop(op, self.val(env, ins.ty, ins.args[0]), self.val(env, ins.ty, ins.args[1]))

    def store_agg(self, mem, p, v, t, reach, what):
        t = self.m.resolve(t)
        if t[0] == 'st':
            offs, _ = self.m.struct_layout(t)
            for x, et, o in zip(v, t[1], offs):
                if isinstance(x, list):
                    self.store_agg(mem, p.add(BV(o, 64)), x, et, reach, what)
                else:
                    self.store(mem, p.add(BV(o, 64)), x, self.m.store_size(et), reach, what)
        else:
            es = self.m.size(t[2])
            for i, x in enumerate(v):
                if isinstance(x, list):
                    self.store_agg(mem, p.add(BV(i * es, 64)), x, t[2], reach, what)
                else:
                    self.store(mem, p.add(BV(i * es, 64)), x, self.m.store_size(t[2]), reach, what)

    def what(self, ins):
        return f'{ins.op}@{self.instr_n}'

    def terminator(self, fn, b, ins, env, mem, reach, edge, rets, loopobjs, back, blocks):
        op = ins.op
        g = lambda tgt, c: self.goto(fn, b.name, tgt, c, mem, env, edge, loopobjs, back, blocks)
        if op == 'br':
            g(ins.args[0], reach)
        elif op == 'condbr':
            c = simp(self.val(env, ('i', 1), ins.args[0]))
            if ins.args[1] == ins.args[2]:
                g(ins.args[1], reach)
            else:
                c = self.name_branch(c, reach)
                g(ins.args[1], And(reach, c))
                g(ins.args[2], And(reach, Not(c)))
        elif op == 'switch':
            v = self.asint(self.val(env, ins.ty, ins.args[0]))
            tg = {}
            rest = []
            for cv, l in ins.args[2]:
                e = simp(v == self.const(ins.ty, cv))
                tg.setdefault(l, []).append(e)
            grp = []
            for l in list(tg):
                if l == ins.args[1]:
                    del tg[l]
                    continue
                e = self.name_branch(simp(Or(*tg[l])), reach, grp)
                tg[l] = [e]
                rest.append(e)
            d = ins.args[1]
            tg.setdefault(d, []).append(Not(Or(*rest)) if rest else z3.BoolVal(True))
            for l, cs in tg.items():
                g(l, And(reach, Or(*cs)))
        elif op == 'ret':
            v = self.val(env, ins.ty, ins.args[0]) if ins.args else None
            rets.append((reach, v, mem))
        elif op == 'unreachable':
            self.oblige(f'unreachable@{self.instr_n} in {demangle_short(fn.name)} not reached', reach, z3.BoolVal(False), 'assert')
        elif op == 'resume':
            pass

    def name_branch(self, c, reach, grp=None):
        """give a branch condition a name, so that obligations can be split by path"""
        if is_true(c) or is_false(c) or (z3.is_const(c) and c.decl().name().startswith('br!')):
            return c
        b = z3.Bool(f'br!{len(self.branches)}')
        self.branches.append((b, grp if grp is not None else []))
        if grp is not None:
            grp.append(b)
        self.axiom(b == c, reach)
        return b

    wide_load = False

    def axiom(self, f, reach=None, weak=False):
        """weak: seldom needed, left out of a first attempt at each leaf"""
        self.axioms.append(f)
        if weak:
            self.weak.add(len(self.axioms) - 1)
        self.axreach[len(self.axioms) - 1] = None if reach is None else [reach]
        return len(self.axioms) - 1

    def axiom_also(self, i, reach):
        if self.axreach.get(i) is not None:
            self.axreach[i].append(reach)

    def goto(self, fn, src, dst, cond, mem, env, edge, loopobjs, back, blocks):
        if is_false(cond):
            return
        if dst in back and src in back[dst]:
            L = loopobjs[dst]
            pv = {}
            for ph in blocks[dst].instrs:
                if ph.op != 'phi':
                    break
                d = {lb: v for v, lb in ph.args}
                pv[ph.res] = self.val(env, ph.ty, d[src])
            nxt = LState(pv, mem, cond)
            # pointer targets must be among the havocked ones
            for nm, t in L.phis:
                v, cv = pv[nm], L.cur.vals[nm]
                if isinstance(cv, Ptr):
                    if not isinstance(v, Ptr):
                        raise VCError('loop pointer became an integer')
                    self.check_targets(L, nm, v, cv, cond)
            for o in L.cur.mem:
                cc = L.cur.mem[o]
                nc = mem.get(o)
                if nc is cc or nc is None:
                    continue
                if isinstance(cc, Cells):
                    for off, (s, cv) in cc.d.items():
                        if isinstance(cv, Ptr):
                            e = nc.d.get(off)
                            if e is None or not isinstance(e[1], Ptr):
                                raise VCError('pointer cell overwritten in loop')
                            self.check_targets(L, (o.name, off), e[1], cv, cond)
                    for off, (s, v) in nc.d.items():
                        if off not in cc.d and isinstance(v, Ptr):
                            # pointer written to a cell not known at entry: entry content unknown, so widening by value
                            pass
            for nm, f, ind, must in L.cands:
                try:
                    gl = f(nxt)
                except (VCError, KeyError, z3.Z3Exception, AttributeError, TypeError):
                    gl = z3.BoolVal(False)
                self.obls.append(Oblig(f'{self.lname(L)} invariant "{nm}" preserved', cond, gl, 'inv-step', len(self.inv_assume)))
                self.obls[-1].ind = ind
            return
        if (src, dst) in edge:
            c0, m0 = edge[(src, dst)]
            edge[(src, dst)] = (Or(c0, cond), mem)
        else:
            edge[(src, dst)] = (cond, dict(mem))

    def check_targets(self, L, nm, v, cv, cond):
        allowed = [o for _, o, _ in cv.alts]
        for c, o, f in v.alts:
            if o not in allowed and not is_false(And(cond, c)):
                w = self.widen.setdefault((L.key, nm), [])
                if o.name in w:
                    raise VCError(f'loop-carried pointer {nm} with unbounded targets')
                w.append(o.name)
                self.changed = True

    # -- calls ---------------------------------------------------------------------------------
    def call(self, ins, env, mem, reach, path):
        callee = ins.extra['callee']
        if callee[0] == 'lv':
            cv = env[callee[1]]
            h = self.spec.indirect(self, cv, ins, env, mem, reach)
            if h is not NotImplemented:
                return h
            if isinstance(cv, Ptr) and len(cv.alts) == 1 and cv.alts[0][1].kind == 'fn':
                name = cv.alts[0][1].name
            else:
                raise VCError('indirect call: ' + ins.text[:160])
        elif callee[0] == 'gv':
            name = callee[1]
        else:
            raise VCError('call to ' + repr(callee))
        args = [self.val(env, t, v) if t[0] != 'metadata' else None for t, v, _ in ins.args]
        # byval: the callee works on a copy
        for i, (t, v, fa) in enumerate(ins.args):
            for x in fa:
                if isinstance(x, tuple) and x[0] == 'byvaltype':
                    n = self.m.size(x[1])
                    o = self.new_obj(f'byval {"/".join(map(str, path))} {self.instr_n}', n, 'cells')
                    mem[o] = Cells({}, f'byval!{o.uid}')
                    self.init_mem[o] = mem[o]
                    self.memcpy(mem, Ptr.to(o), args[i], BV(n, 64), reach, self.what(ins))
                    args[i] = Ptr.to(o)
        return self.do_call(name, args, ins, mem, reach, path)

    def do_call(self, name, args, ins, mem, reach, path):
        n = name[1:].strip('"')
        h = self.spec.call(self, n, args, ins, mem, reach)
        if h is not NotImplemented:
            return h
        if n.startswith('llvm.'):
            return self.intrinsic(n, args, ins, mem, reach)
        if n == '__assert_fail':
            msg = self.cstr(args[0])
            self.oblige(f'library assertion holds: {msg}', reach, z3.BoolVal(False), 'assert')
            return ('!noreturn',)
        if n in ('abort', '__clang_call_terminate', '_ZSt9terminatev') or n.startswith('_ZSt') and '__throw' in n:
            self.oblige(f'{n} not reached', reach, z3.BoolVal(False), 'assert')
            return ('!noreturn',)
        if n in ('memcmp', 'bcmp'):
            k = conc(args[2])
            if k is None or k > 64:
                raise VCError('memcmp length')
            r = self.fresh(32, 'cmp')
            a = [self.load(mem, args[0].add(BV(i, 64)), ('i', 8), reach, n) for i in range(k)]
            b = [self.load(mem, args[1].add(BV(i, 64)), ('i', 8), reach, n) for i in range(k)]
            if k:
                A = z3.Concat(*a) if k > 1 else a[0]
                B = z3.Concat(*b) if k > 1 else b[0]
                self.axioms.append(z3.And((r == 0) == (A == B), (r < 0) == z3.ULT(A, B)) if n == 'memcmp' else (r == 0) == (A == B))
            else:
                self.axioms.append(r == 0)
            return r
        if n in ('memcpy', 'memmove'):
            self.memcpy(mem, args[0], args[1], args[2], reach, n)
            return args[0]
        fn = self.m.functions.get(name)
        if fn is not None:
            if name in self.callstack:
                raise VCError('recursion: ' + n)
            self.callstack.append(name)
            site = path + (f'{n}#{self.instr_n}',)
            saved = list(self.curloops)
            rv, rm, rr = self.exec_fn(fn, args, mem, reach, site)
            self.curloops = saved
            self.callstack.pop()
            if is_false(rr):
                return ('!noreturn',)
            mem.clear()
            mem.update(rm)
            self._callreach = rr
            return rv
        raise VCError('call to external function without a contract: ' + n)

    def cstr(self, p):
        try:
            o, off = p.single()
            off = conc(off)
            out = bytearray()
            while True:
                b = o.init[off][1].as_long()
                if b == 0:
                    break
                out.append(b)
                off += 1
            return out.decode('latin1')
        except Exception:
            return '?'

    def intrinsic(self, n, args, ins, mem, reach):
        k = n.split('.')
        base = '.'.join(k[1:])
        if k[1] in ('lifetime', 'dbg', 'experimental', 'invariant', 'donothing', 'stacksave', 'stackrestore', 'prefetch', 'var'):
            return None
        if k[1] == 'assume':
            self.oblige('assumption made by the code is true', reach, args[0], 'assert')
            return None
        if k[1] in ('memcpy', 'memmove'):
            self.memcpy(mem, args[0], args[1], args[2], reach, n)
            return None
        if k[1] == 'memset':
            self.memset(mem, args[0], args[1], args[2], reach, n)
            return None
        if k[1] == 'expect':
            return args[0]
        if k[1] == 'trap':
            self.oblige('trap not reached', reach, z3.BoolVal(False), 'assert')
            return ('!noreturn',)
        a = [self.asint(x) if isinstance(x, Ptr) else x for x in args]
        if k[1] == 'umin':
            return simp(If(z3.ULT(a[0], a[1]), a[0], a[1]))
        if k[1] == 'umax':
            return simp(If(z3.UGT(a[0], a[1]), a[0], a[1]))
        if k[1] == 'smin':
            return simp(If(a[0] < a[1], a[0], a[1]))
        if k[1] == 'smax':
            return simp(If(a[0] > a[1], a[0], a[1]))
        if k[1] == 'abs':
            return simp(If(a[0] < 0, -a[0], a[0]))
        if k[1] == 'usub' and k[2] == 'sat':
            return simp(If(z3.ULT(a[0], a[1]), BV(0, a[0].size()), a[0] - a[1]))
        if k[1] == 'uadd' and k[2] == 'sat':
            s = a[0] + a[1]
            return simp(If(z3.ULT(s, a[0]), BV(-1, a[0].size()), s))
        if len(k) > 3 and k[2] == 'with':
            w = a[0].size()
            if k[1][0] == 'u':
                x, y = z3.ZeroExt(w, a[0]), z3.ZeroExt(w, a[1])
            else:
                x, y = z3.SignExt(w, a[0]), z3.SignExt(w, a[1])
            f = {'add': x + y, 'sub': x - y, 'mul': x * y}[k[1][1:]]
            r = z3.Extract(w - 1, 0, f)
            e = z3.ZeroExt(w, r) if k[1][0] == 'u' else z3.SignExt(w, r)
            return [simp(r), simp(f != e)]
        if k[1] == 'ctpop':
            w = a[0].size()
            s = BV(0, w)
            for i in range(w):
                s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0]))
            return simp(s)
        if k[1] in ('cttz', 'ctlz'):
            w = a[0].size()
            r = BV(w, w)
            rng = range(w - 1, -1, -1) if k[1] == 'cttz' else range(w)
            for i in rng:
                r = z3.If(z3.Extract(i, i, a[0]) == 1, BV(i if k[1] == 'cttz' else w - 1 - i, w), r)
            return simp(r)
        if k[1] == 'bswap':
            w = a[0].size()
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)]))
        if k[1] in ('fshl', 'fshr'):
            w = a[0].size()
            sh = z3.ZeroExt(w, z3.URem(a[2], BV(w, w)))
            cat = z3.Concat(a[0], a[1])
            if k[1] == 'fshl':
                return simp(z3.Extract(2 * w - 1, w, cat << sh))
            return simp(z3.Extract(w - 1, 0, z3.LShR(cat, sh)))
        if k[1] == 'fabs':
            return z3.fpAbs(args[0])
        if k[1] == 'is' and k[2] == 'constant':
            return z3.BoolVal(False)
        if k[1] == 'objectsize':
            return BV(-1, 64)
        if k[1] == 'eh' or k[1] == 'threadlocal':
            if k[1] == 'threadlocal':
                return args[0]
            return BV(0, 32)
        raise VCError('intrinsic ' + n)


def demangle_short(n):
    n = n.lstrip('@').strip('"')
    m = re.findall(r'\d+([a-z_][a-z_0-9]+)', n)
    if n.startswith('_Z') and m:
        # crude: last nested identifier
        parts = []
        i = 2
        if n[2:3] == 'N':
            i = 3
        while i < len(n):
            mm = re.match(r'[KRO]*(\d+)', n[i:])
            if not mm:
                break
            l = int(mm.group(1))
            i += mm.end()
            parts.append(n[i:i + l])
            i += l
        return '::'.join(p for p in parts if p not in ('scn', 'v4')) or n
    return n


# ---- contracts ------------------------------------------------------------------------------

class Fold:
    """ghost function over an input buffer: G(0)=init, G(k+1)=step(G(k), s[k], k).
    Instances of the defining equation are added for exactly the positions the code reads."""

    def __init__(self, name, ex, arr, sort, init, step, start=None):
        self.f = z3.Function(name, z3.BitVecSort(64), sort)
        self.ex = ex
        self.arr = arr
        self.step = step
        self.start = BV(0, 64) if start is None else start
        self.seen = {}
        ex.axioms.append(self.f(self.start) == init)

    def __call__(self, k):
        return self.f(k)

    def inst(self, k, reach=None):
        k = simp(k)
        if k.get_id() in self.seen:
            self.ex.axiom_also(self.seen[k.get_id()][0], reach)
            return
        i = self.ex.axiom(self.f(simp(k + 1)) == self.step(self.f(k), sel(self.arr, k), k), reach)
        self.seen[k.get_id()] = (i, k)


class Spec:
    """contract of one function"""
    fn = None
    title = ''

    def __init__(self):
        self.pre = []
        self.ghosts = []
        self.inputs = {}

    def requires(self, *c):
        self.pre.extend(c)

    def setup(self, ex):
        raise NotImplementedError

    def ensures(self, ex, ret, mem):
        return []

    def cover(self, ex, ret, mem):
        return []

    def invariants(self, ex, L):
        return []

    def on_load(self, ex, o, idx, reach):
        for g in self.ghosts:
            if g.obj is o:
                g.inst(idx, reach)

    def at_head(self, ex, L, reach):
        pass

    def fold(self, name, ex, obj, arr, sort, init, step, start=None):
        g = Fold(name, ex, arr, sort, init, step, start)
        g.obj = obj
        self.ghosts.append(g)
        return g

    def call(self, ex, name, args, ins, mem, reach):
        return NotImplemented

    def indirect(self, ex, cv, ins, env, mem, reach):
        return NotImplemented

    def memcpy(self, ex, mem, d, s, n, reach):
        return False

    def lemmas(self, ex):
        """closed formulas used as axiom schemas by this contract; each is an obligation of its own"""
        return []


# ---- discharge ------------------------------------------------------------------------------

class Result:
    pass


class TooMany(Exception):
    pass


def consts(e, cache):
    """names of the uninterpreted constants in e"""
    i = e.get_id()
    r = cache.get(i)
    if r is None:
        if z3.is_const(e):
            r = frozenset([e.decl().name()]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
        else:
            r = frozenset().union(*[consts(c, cache) for c in e.children()])
        cache[i] = r
        cache[('keep', i)] = e
    return r


def conjuncts(e):
    if z3.is_and(e):
        out = []
        for c in e.children():
            out += conjuncts(c)
        return out
    return [e]


class Query:
    """all formulas of one function, uninterpreted functions expanded, ready for the solver"""

    def __init__(self, ex, timeout_ms):
        self.ex = ex
        self.timeout = timeout_ms
        self.incomplete = False
        self.gaveup = []
        self.cc = {}
        self._glob = None
        self.ack = solve.Ack()
        self.base0 = [ex.pre] + ex.axioms
        al = self.base0 + [o.cond for o in ex.obls] + [o.goal for o in ex.obls] + [f for _, f in ex.inv_assume] + [c for _, c in ex.covers]
        self.ack.prepare(al)
        self.base = [self.ack.tr(x) for x in self.base0] + self.ack.side
        self.bv = solve.pure_bv([self.ack.tr(x) for x in al] + self.ack.side)
        self.t = 0.0
        self.n = 0

    def solver(self, timeout_ms=None):
        return solve.solver(self.bv, timeout_ms or self.timeout)

    def path_check(self, cond, ngoal, invs, deadline, max_leaves=800, leaf_ms=20000):
        """decide sat(base & invs & cond & ngoal) by splitting on the branches taken; returns z3 result"""
        ex = self.ex
        order = {b.decl().name(): i for i, (b, g) in enumerate(ex.branches)}
        leaves = [0]
        used = set()
        self.used = used        # names of the invariants the proof depends on

        def lits(e, out):
            stack = [e]
            seen = set()
            while stack:
                x = stack.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(x):
                    if z3.is_bool(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in order:
                        out.add(x.decl().name())
                else:
                    stack.extend(x.children())

        def leaf(asg, c, g):
            leaves[0] += 1
            if leaves[0] > max_leaves or time.time() > deadline:
                raise TooMany()
            fs = [c, g]
            weak = []
            for i, a in enumerate(self.base0):
                rs = ex.axreach.get(i - 1) if i else None
                if rs is not None and asg:
                    if all(is_false(simp(z3.substitute(r, *asg))) for r in rs):
                        continue
                (weak if i and i - 1 in ex.weak else fs).append(simp(z3.substitute(a, *asg)) if asg else a)
            if any(is_false(f) for f in fs):
                return z3.unsat
            fs = [f for f in fs if not is_true(f)]
            for nm, f in invs:
                f = simp(z3.substitute(f, *asg)) if asg else f
                if not is_true(f):
                    fs.append(f)
                    used.add(nm)
            # fewer hypotheses first (sound: only `unsat` is taken from these attempts)
            conj = []
            goal = g
            for f in fs:
                if not f.eq(g):
                    conj += conjuncts(f)
            glob = self.globals_()
            R = consts(goal, self.cc) | glob
            prev = None
            for ms in (2000, 4000):
                sub = [f for f in conj if consts(f, self.cc) <= R]
                if len(sub) == len(conj):
                    break
                if prev != len(sub):
                    prev = len(sub)
                    q = solve.uf_solver(ms)
                    q.add(goal, *sub)
                    if self.check(q) == z3.unsat:
                        return z3.unsat
                R2 = set(R)
                for f in conj:
                    cf = consts(f, self.cc)
                    if (cf & R) - glob:
                        R2 |= cf
                R = R2
            if weak:
                q = solve.uf_solver(8000)
                q.add(*fs)
                if self.check(q) == z3.unsat:
                    return z3.unsat
            q = solve.uf_solver(leaf_ms)
            q.add(*fs)
            q.add(*weak)
            r = self.check(q)
            return r

        def rec(asg, c, g):
            if is_false(c) or is_false(g):
                return z3.unsat
            out = set()
            lits(c, out)
            lits(g, out)
            if not out:
                return leaf(asg, c, g)
            b, grp = ex.branches[min(order[x] for x in out)]
            worst = z3.unsat
            for val in (True, False):
                extra = [(b, z3.BoolVal(val))]
                if val:
                    extra += [(o, z3.BoolVal(False)) for o in grp if not o.eq(b)]
                r = rec(asg + extra, simp(z3.substitute(c, *extra)), simp(z3.substitute(g, *extra)))
                if r == z3.sat:
                    return r
                if r != z3.unsat:
                    worst = r
            return worst
        try:
            return rec([], simp(cond), simp(ngoal))
        except TooMany:
            return z3.unknown

    def globals_(self):
        if self._glob is None:
            self._glob = set()
            for f in [self.ex.pre] + self.ex.axioms[:self.ex.n_setup_axioms]:
                self._glob |= consts(f, self.cc)
        return self._glob

    def check(self, s, *asm):
        t = time.time()
        r = s.check(*asm)
        self.t += time.time() - t
        self.n += 1
        return r


def houdini(Q, deadline):
    """largest inductive subset of the candidate invariants"""
    ex = Q.ex
    tr = Q.ack.tr
    cands = [(L, nm, ind, must) for L in ex.loops for nm, f, ind, must in L.cands]
    active = {ind.decl().name(): ind for _, _, ind, _ in cands}
    names = {ind.decl().name(): nm for _, nm, ind, _ in cands}
    inv_obls = [o for o in ex.obls if o.kind in ('inv-init', 'inv-step')]
    rounds = 0
    dropped = []
    if not inv_obls:
        return active, dropped, 0
    # an obligation may use only the invariants of loops entered before it: group by that prefix
    groups = {}
    for o in inv_obls:
        groups.setdefault(o.nassume, []).append(o)
    solvers = {}
    for na, obs in groups.items():
        s = Q.solver(min(Q.timeout, 4000))
        for a in Q.base:
            s.add(a)
        for ind, f in ex.inv_assume[:na]:
            s.add(z3.Implies(ind, tr(f)))
        viol = []
        for i, o in enumerate(obs):
            v = z3.Bool(f'viol!{na}!{i}')
            s.add(v == z3.And(tr(o.cond), z3.Not(tr(o.goal))))
            viol.append(v)
        solvers[na] = (s, obs, viol)

    def drop(bad):
        for b in bad:
            if b in active:
                del active[b]
                dropped.append(names[b])

    proved = {}             # obligation -> invariants its proof used
    for i, o in enumerate(inv_obls):
        o.uid = i
    dirty = True
    slow = set()            # groups whose joint query is too hard: decided candidate by candidate, path by path
    while dirty:
        dirty = False
        for na in sorted(solvers):
            s, obs, viol = solvers[na]
            while True:
                rounds += 1
                if time.time() > deadline:
                    raise VCError('invariant inference exceeded its time budget')
                live = [i for i, o in enumerate(obs) if o.ind.decl().name() in active and not (o.uid in proved and proved[o.uid] <= set(active))]
                if not live:
                    break
                r = z3.unknown
                if na not in slow:
                    s.push()
                    for ind, f in ex.inv_assume[:na]:
                        if ind.decl().name() in active:
                            s.add(ind)
                    s.add(z3.Or(*[viol[i] for i in live]))
                    r = Q.check(s)
                    m = s.model() if r == z3.sat else None
                    s.pop()
                if r == z3.unsat:
                    now = set(ind.decl().name() for ind, f in ex.inv_assume[:na] if ind.decl().name() in active)
                    for i in live:
                        proved[obs[i].uid] = now
                    break
                dirty = True
                if r == z3.sat:
                    bad = set(obs[i].ind.decl().name() for i in live if z3.is_true(m.eval(viol[i], model_completion=True)))
                    if not bad:
                        raise VCError('houdini: model without violation')
                    drop(bad)
                    continue
                slow.add(na)
                invs = [(ind.decl().name(), f) for ind, f in ex.inv_assume[:na] if ind.decl().name() in active]

                def task(o):
                    def f():
                        t = time.time()
                        r = Q.path_check(o.cond, z3.Not(o.goal), invs, deadline)
                        return (str(r), set(Q.used), time.time() - t)
                    return f
                bad = set()
                for i, r in zip(live, par.pmap([task(obs[i]) for i in live], deadline)):
                    if r is not None:
                        Q.t += r[2]
                        Q.n += 1
                    if r is not None and r[0] == 'unsat':
                        proved[obs[i].uid] = r[1]
                    else:
                        bad.add(obs[i].ind.decl().name())
                        if r is None or r[0] != 'sat':
                            Q.incomplete = True
                            Q.gaveup.append(names[obs[i].ind.decl().name()] + (' (died)' if r is None else ' (%.0f s)' % r[2]))
                if time.time() > deadline:
                    raise VCError('invariant inference exceeded its time budget')
                if not bad:
                    break
                drop(bad)
    return active, dropped, rounds


def model_values(Q, spec, m):
    """concrete inputs named by the contract, read off a counterexample"""
    out = {}
    for nm, what in spec.inputs.items():
        if isinstance(what, tuple):
            kind, arr, n = what
            ln = m.eval(n, model_completion=True).as_long()
            k = min(ln, 4096)
            if isinstance(arr, z3.FuncDeclRef):
                tab = {}
                for args, c in Q.ack.by.get(arr.name(), []):
                    tab.setdefault(m.eval(args[0], model_completion=True).as_long(), m.eval(c, model_completion=True).as_long())
                out[nm] = {'len': ln, 'data': [tab.get(i, 0) for i in range(k)]}
            else:
                out[nm] = {'len': ln, 'data': [m.eval(sel(arr, BV(i, 64)), model_completion=True).as_long() for i in range(min(k, 256))]}
        else:
            v = m.eval(Q.ack.tr(what), model_completion=True)
            out[nm] = v.as_long() if z3.is_bv_value(v) else str(v)
    return out


def verify(module, spec, timeout_ms=60000, log=None, budget_s=600, hint=None):
    """returns a Result with per-obligation verdicts"""
    t0 = time.time()
    deadline = t0 + budget_s
    ex = Exec(module, spec)
    ex.hint = set(hint) if hint is not None else None
    ex.run()
    # vacuity guard: every loop head must be reachable together with its kept invariants
    for i, L in enumerate(ex.loops):
        ex.covers.append((f'{ex.lname(L)} entered', L.reach))
    Q = Query(ex, timeout_ms)
    tr = Q.ack.tr
    gen_s = time.time() - t0
    res = Result()
    res.spec = spec
    res.functions = [demangle_short(f) for f in ex.fns]
    res.loops = len(ex.loops)
    res.trivial = ex.trivial
    res.instrs = ex.instr_n
    res.verdicts = []
    active, dropped, rounds = houdini(Q, deadline)
    res.houdini = {'rounds': rounds, 'kept': len(active), 'dropped': len(dropped)}
    res.hint = [f'{L.key[-1]}:{nm}' for L in ex.loops for nm, f, ind, must in L.cands if ind.decl().name() in active]
    res.kept = [(ex.lname(L), nm) for L in ex.loops for nm, f, ind, must in L.cands if ind.decl().name() in active]

    def prefix(na):
        return [tr(f) for ind, f in ex.inv_assume[:na] if ind.decl().name() in active]

    for L in ex.loops:
        for nm, f, ind, must in L.cands:
            if must and ind.decl().name() not in active:
                res.verdicts.append((f'{ex.lname(L)} required invariant "{nm}"', 'inv', 'fail', None, 0.0))
    res.inv_obligations = sum(1 for o in ex.obls if o.kind in ('inv-init', 'inv-step') and o.ind.decl().name() in active)
    # vacuity: the precondition and each cover goal must be satisfiable together with the assumed invariants
    res.covers = []
    inv_all = prefix(len(ex.inv_assume))
    for nm, c in ex.covers:
        q = Q.solver()
        q.add(*Q.base)
        q.add(*inv_all)
        q.add(tr(c))
        res.covers.append((nm, str(Q.check(q))))
    def lemma(f):
        def g():
            t = time.time()
            q = z3.Tactic('qfufbv_ackr').solver()
            q.set('timeout', timeout_ms)
            q.add(z3.Not(f))
            r = q.check()
            return ({'unsat': 'ok', 'sat': 'fail'}.get(str(r), 'unknown'), None, time.time() - t)
        return g
    lem = spec.lemmas(ex)
    for (nm, f), r in zip(lem, par.pmap([lemma(f) for _, f in lem], deadline)):
        r = r or ('unknown', None, 0.0)
        Q.t += r[2]
        Q.n += 1
        res.verdicts.append(('lemma: ' + nm, 'lemma') + r)
    todo = [o for o in ex.obls if o.kind not in ('inv-init', 'inv-step')]
    # obligations of the same kind and prefix are first tried together (one query); on failure, one by one
    groups = {}
    for o in todo:
        groups.setdefault((o.nassume, o.kind == 'post'), []).append(o)
    hard = []
    for (na, ispost), obs in groups.items():
        pending = obs
        if len(obs) > 1 and not ispost:
            q = Q.solver(min(timeout_ms, 3000))
            q.add(*Q.base)
            q.add(*prefix(na))
            q.add(z3.Or(*[z3.And(tr(o.cond), z3.Not(tr(o.goal))) for o in obs]))
            t = time.time()
            if Q.check(q) == z3.unsat:
                dt = (time.time() - t) / len(obs)
                for o in obs:
                    res.verdicts.append((o.name, o.kind, 'ok', None, dt))
                pending = []
        hard += pending

    def final(o):
        def f():
            left = deadline - time.time()
            if left < 1:
                return ('unknown', None, 0.0)
            q = Q.solver(min(3000, int(left * 1000)))
            q.add(*Q.base)
            q.add(*prefix(o.nassume))
            q.add(tr(o.cond), z3.Not(tr(o.goal)))
            t = time.time()
            r = Q.check(q)
            if r == z3.unknown:
                r = Q.path_check(o.cond, z3.Not(o.goal), [(ind.decl().name(), f) for ind, f in ex.inv_assume[:o.nassume] if ind.decl().name() in active], deadline)
                if r != z3.unsat:
                    q.set('timeout', min(timeout_ms, max(1000, int((deadline - time.time()) * 1000))))
                    r = Q.check(q)
            dt = time.time() - t
            if r == z3.unsat:
                return ('ok', None, dt)
            if r == z3.sat:
                vals = model_values(Q, spec, q.model())
                # look for a short counterexample
                for nm, what in spec.inputs.items():
                    if isinstance(what, tuple):
                        for k in (0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 64):
                            q.push()
                            q.add(z3.ULE(what[2], BV(k, 64)))
                            q.set('timeout', 5000)
                            if Q.check(q) == z3.sat:
                                vals = model_values(Q, spec, q.model())
                                q.pop()
                                break
                            q.pop()
                # an invariant candidate was given up for lack of time: the refutation is not conclusive
                return ('fail?' if Q.incomplete else 'fail', vals, dt)
            return ('unknown', None, dt)
        return f
    for o, r in zip(hard, par.pmap([final(o) for o in hard], deadline)):
        r = r or ('unknown', None, 0.0)
        Q.t += r[2]
        Q.n += 1
        res.verdicts.append((o.name, o.kind) + r)
    res.gen_s = gen_s
    res.solver_s = Q.t
    res.queries = Q.n
    res.gaveup = Q.gaveup
    res.wall_s = time.time() - t0
    res.trusted = ex.trusted
    return res
