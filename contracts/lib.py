"""Shared specification vocabulary: UTF-8 structure, code point classes, ghost predicates over input buffers."""
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'irvc'))
import z3
import templates as T
from vc import Spec, Ptr, Cells, BV, And, Or, Not, If, VCError, simp, conc, sel

INVALID = 0x110000
# error codes as the harnesses report them (harness/vp_common.hpp)
E_EOF, E_FORMAT, E_INVALID, E_LITERAL, E_FILL, E_SHORT, E_STATE, E_POS, E_NEG, E_POSU, E_NEGU = range(1, 12)
MAXLEN = 1 << 40      # stated precondition: a source holds at most 2^40 code units


def u32(b):
    return z3.ZeroExt(32 - b.size(), b) if b.size() < 32 else b


def len8(b):
    """number of bytes announced by a lead byte; 0: not a lead byte"""
    return z3.If(z3.ULT(b, 0x80), BV(1, 64),
           z3.If(z3.ULT(b, 0xC0), BV(0, 64),
           z3.If(z3.ULT(b, 0xE0), BV(2, 64),
           z3.If(z3.ULT(b, 0xF0), BV(3, 64),
           z3.If(z3.ULT(b, 0xF8), BV(4, 64), BV(0, 64))))))


def trail(b):
    return z3.Extract(7, 6, b) == 2


def dec8(arr, k, n):
    """(length, value, ill-formed) of the sequence starting at k in a buffer of n bytes (k < n)"""
    b = [sel(arr, simp(k + i)) for i in range(4)]
    l = len8(b[0])
    v1 = u32(b[0])
    v2 = ((u32(b[0]) & 0x1f) << 6) | (u32(b[1]) & 0x3f)
    v3 = ((u32(b[0]) & 0x0f) << 12) | ((u32(b[1]) & 0x3f) << 6) | (u32(b[2]) & 0x3f)
    v4 = ((u32(b[0]) & 0x07) << 18) | ((u32(b[1]) & 0x3f) << 12) | ((u32(b[2]) & 0x3f) << 6) | (u32(b[3]) & 0x3f)
    v = z3.If(l == 1, v1, z3.If(l == 2, v2, z3.If(l == 3, v3, v4)))
    ill = z3.Or(l == 0, z3.UGT(l, n - k),
                z3.And(z3.UGE(l, 2), z3.Not(trail(b[1]))),
                z3.And(z3.UGE(l, 3), z3.Not(trail(b[2]))),
                z3.And(l == 4, z3.Not(trail(b[3]))),
                z3.And(l == 4, z3.UGE(v4, INVALID)))
    return l, v, ill


def is_space(cp):
    """Pattern_White_Space (UAX #31), written from the Unicode property, not from the code"""
    return z3.Or(z3.And(z3.UGE(cp, 0x09), z3.ULE(cp, 0x0d)), cp == 0x20, cp == 0x85, cp == 0x200e,
                 cp == 0x200f, cp == 0x2028, cp == 0x2029)


def is_ascii_ws(c):
    return z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))


WIDE = [(0x1100, 0x115f), (0x2329, 0x232a), (0x2e80, 0x303e), (0x3040, 0xa4cf), (0xac00, 0xd7a3), (0xf900, 0xfaff),
        (0xfe10, 0xfe19), (0xfe30, 0xfe6f), (0xff00, 0xff60), (0xffe0, 0xffe6), (0x1f300, 0x1f64f), (0x1f900, 0x1f9ff),
        (0x20000, 0x2fffd), (0x30000, 0x3fffd)]


def is_wide(cp):
    return z3.Or(*[z3.And(z3.UGE(cp, a), z3.ULE(cp, b)) for a, b in WIDE])


class BufSpec(Spec):
    """contract over one symbolic input buffer `s` of n code units (any length up to MAXLEN, any content)"""
    elem = 1
    strides = (1, 2, 3, 4, 8)
    wide = False        # also propose `at least k units left` invariants (loops that read several units at once)

    def buf(self, ex, name='s'):
        self.pre = []
        self.n = z3.BitVec('n', 64)
        self.requires(z3.ULE(self.n, MAXLEN))
        self.o, self.arr = ex.buffer(name, self.n, self.elem)
        self.inputs = {name: ('buf', self.arr, self.n)}
        self.nb = self.n * self.elem
        self.insts = []
        self.seen = {}
        return Ptr.to(self.o)

    def idx(self, off):
        return off if self.elem == 1 else z3.LShR(off, self.elem.bit_length() - 1)

    def at_load(self, f):
        """f(k): axiom instances (definitions of ghost functions) to add for every position the code reads"""
        self.insts.append(f)

    def on_load(self, ex, o, idx, reach):
        Spec.on_load(self, ex, o, idx, reach)
        if o is self.o:
            k = simp(idx)
            if k.get_id() in self.seen:
                for i in self.seen[k.get_id()][0]:
                    ex.axiom_also(i, reach)
                return
            self.seen[k.get_id()] = ([ex.axiom(a, reach, weak=ex.wide_load and self.wide) for f in self.insts for a in f(k)], k)

    head_inst = False   # also instantiate the ghost definitions at the positions a loop holds at its head

    def at_head(self, ex, L, reach):
        if self.head_inst:
            for x in T.positions(ex, L, self.o):
                if x.kind == 'ptr':
                    self.on_load(ex, self.o, simp(self.idx(x.get(L.cur))), reach)

    def invariants(self, ex, L):
        yield from T.generic(ex, L, [(self.o, self.nb)], strides=self.strides, wide=self.wide)
        for x in T.positions(ex, L, self.o):
            for nm, g in self.ghost_candidates():
                def f(S, x=x, g=g):
                    off = x.get(S)
                    return T.guard(x, S, g(self.idx(off) if x.kind == 'ptr' else off))
                yield (f'{nm}({x.name})', f, False)
        yield from self.more_invariants(ex, L)

    def ghost_candidates(self):
        return []

    def more_invariants(self, ex, L):
        return []


def ret_off(ret, obj):
    """offset of a returned pointer that must point into obj"""
    if not isinstance(ret, Ptr):
        raise VCError('expected a pointer')
    off = None
    ok = z3.BoolVal(False)
    for c, o, f in ret.alts:
        if o is obj:
            off = f
            ok = c
    if off is None:
        raise VCError('returned pointer does not refer to the source')
    return off, (z3.BoolVal(True) if len(ret.alts) == 1 else ok)


def string_call(ex, name, args, mem, reach):
    """trusted contracts of out-of-line libstdc++ string members, for strings that fit the local buffer"""
    if name.startswith(('_ZdlPv', '_ZdaPv')):
        ex.trusted['operator delete'] = 'no effect on live objects'
        return None
    for c, w in (('c', 1), ('w', 4)):
        if name.startswith(f'_ZNSt7__cxx1112basic_stringI{c}St11char_traitsI{c}ESaI{c}EE9_M_createE'):
            ex.oblige('text fits the local buffer of the string', reach, z3.BoolVal(False), 'pre')
            return ('!noreturn',)
        if name.startswith(f'_ZNSt7__cxx1112basic_stringI{c}St11char_traitsI{c}ESaI{c}EE12_M_constructEm{c}'):
            o, off = args[0].single()
            off, k = conc(off), conc(args[1])
            if off is None or k is None or k > 15 // w:
                raise VCError('string construction of unknown length')
            ex.trusted['std::basic_string::_M_construct(n, c)'] = 'stores n copies of c (libstdc++)'
            ex.store(mem, Ptr.to(o, off), Ptr.to(o, off + 16), 8, reach, 'string')
            ex.store(mem, Ptr.to(o, off + 8), BV(k, 64), 8, reach, 'string')
            for i in range(k):
                ex.store(mem, Ptr.to(o, off + 16 + i * w), args[2], w, reach, 'string')
            ex.store(mem, Ptr.to(o, off + 16 + k * w), BV(0, 8 * w), w, reach, 'string')
            return None
    return NotImplemented
