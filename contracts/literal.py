"""Literal text of a format string against the source."""
from lib import *

B64 = z3.BitVecSort(64)


class Literal(BufSpec):
    """M(i, j, r): the format text up to i has matched the source up to j, with r units left of the current code point.
    NS/NF: where the whitespace at a place of the source/format ends (contract of read_while_classic_space, see P03)"""
    fn = 'vp_literal_c'
    func = 'format_handler<true, char>::on_literal_text, impl::is_first_char_space'

    def setup(s, ex):
        p = s.buf(ex)
        s.m = z3.BitVec('m', 64)
        s.requires(z3.ULE(s.m, MAXLEN))
        s.fo, s.farr = ex.buffer('f', s.m, s.elem)
        s.inputs['f'] = ('buf', s.farr, s.m)
        s.M = z3.Function('M', B64, B64, B64, z3.BoolSort())
        s.NS = z3.Function('NS', B64, B64)
        s.NF = z3.Function('NF', B64, B64)
        s.BadLit, s.BadFmt = z3.Bools('BadLit BadFmt')
        z = BV(0, 64)
        ex.axioms += [s.M(z, z, z)]
        ex.axioms += s.step(z, z)
        return [p, s.n, Ptr.to(s.fo), s.m]

    def dec(s, k):
        if s.elem == 1:
            return dec8(s.farr, k, s.m)
        c = sel(s.farr, k)
        return BV(1, 64), c, z3.UGE(c, INVALID)

    def step(s, i, j):
        l, v, ill = s.dec(i)
        z = BV(0, 64)
        at = z3.And(s.M(i, j, z), z3.ULT(i, s.m))
        go = z3.And(at, z3.ULT(j, s.n), z3.Not(ill))
        return [z3.Implies(z3.And(at, j == s.n), s.BadLit), z3.Implies(z3.And(at, z3.ULT(j, s.n), ill), s.BadFmt),
                z3.Implies(z3.And(go, is_space(v)), s.M(s.NF(i + l), s.NS(j), z)), z3.Implies(z3.And(go, z3.Not(is_space(v))), s.M(i, j, l)),
                z3.Implies(z3.And(z3.ULT(i, s.m), z3.Not(ill)), z3.And(z3.ULT(i, i + l), z3.ULE(i + l, s.m)))]

    def unit(s, i, j, r):
        at = z3.And(s.M(i, j, r), r != 0)
        same = sel(s.arr, j) == sel(s.farr, i)
        return [z3.Implies(z3.And(at, z3.Or(j == s.n, z3.Not(same))), s.BadLit), z3.Implies(z3.And(at, z3.ULT(j, s.n), same), s.M(i + 1, j + 1, r - 1))]

    def lemmas(s, ex):
        k, l, n = z3.BitVecs('k l n', 64)
        return [('a code point that fits ends inside', z3.Implies(z3.And(z3.ULE(n, MAXLEN), z3.ULT(k, n), l != 0, z3.ULE(l, 4), z3.ULE(l, n - k)), z3.And(z3.ULT(k, k + l), z3.ULE(k + l, n))))]

    def pairs(s, ex, L):
        F = [x for x in T.positions(ex, L, s.fo) if x.kind == 'ptr']
        S = [x for x in T.positions(ex, L, s.o) if x.kind == 'ptr']
        return [(x, y) for x in F for y in S]

    def rem(s, x, L, S):
        e = s.idx(x.get(L.entry))
        return e + s.dec(e)[0] - s.idx(x.get(S))

    def at_head(s, ex, L, reach):
        for x, y in s.pairs(ex, L):
            i, j = s.idx(x.get(L.cur)), s.idx(y.get(L.cur))
            r = s.rem(x, L, L.cur)
            for a in s.step(i, j) + (s.unit(i, j, BV(1, 64)) if s.elem > 1 else []) + s.unit(i, j, r) + s.unit(i + 1, j + 1, r - 1):
                ex.axiom(a, reach)

    def call(s, ex, name, args, ins, mem, reach):
        if 'read_while_classic_space' in name:
            wide = 'basic_string_view' in name
            if isinstance(args[0], Ptr):
                b = args[0]
                e = args[1]
            else:
                b = args[1]
                e = None
            o = b.single()[0]
            f = b.single()[1]
            n = s.n if o is s.o else s.m
            if o not in (s.o, s.fo):
                return NotImplemented
            k = simp(s.idx(f))
            end = n - k if e is None else s.idx(e.single()[1])
            ex.oblige('whitespace is skipped up to the end', reach, z3.And(z3.ULE(k, n), (args[0] == n - k) if e is None else end == n, z3.BoolVal(True) if s.elem == 1 else f & 3 == 0), 'pre')
            N = s.NS if o is s.o else s.NF
            ex.axiom(z3.Implies(z3.ULE(k, n), z3.And(z3.ULE(k, N(k)), z3.ULE(N(k), n))), reach)
            return Ptr.to(o, N(k) * s.elem)
        return string_call(ex, name, args, mem, reach)

    def invariants(s, ex, L):
        for x in T.carried(ex, L):
            yield (f'{x.name} unchanged', lambda S, x=x: T.guard(x, S, x.get(S) == x.get(L.entry)), False)
        for o, n in ((s.o, s.nb), (s.fo, s.m * s.elem)):
            for x in T.positions(ex, L, o):
                if x.kind == 'ptr':
                    yield (f'{x.name} inside', lambda S, x=x, n=n: z3.ULE(x.get(S), n), False)
                    yield (f'{x.name} strictly inside', lambda S, x=x, n=n: z3.ULT(x.get(S), n), False)
                    yield (f'{x.name} forward', lambda S, x=x: z3.UGE(x.get(S), x.get(L.entry)), False)
                    if s.elem > 1:
                        yield (f'{x.name} aligned', lambda S, x=x: x.get(S) & (s.elem - 1) == 0, False)
                    if o is s.fo:
                        yield (f'{x.name} in the code point', lambda S, x=x: z3.And(s.rem(x, L, S) != 0, z3.ULE(s.rem(x, L, S), 4)), False)
        for x, y in s.pairs(ex, L):
            yield (f'matched up to {x.name}, {y.name}', lambda S, x=x, y=y: s.M(s.idx(x.get(S)), s.idx(y.get(S)), BV(0, 64)), False)
            yield (f'in a code point at {x.name}, {y.name}', lambda S, x=x, y=y: s.M(s.idx(x.get(S)), s.idx(y.get(S)), s.rem(x, L, S)), False)

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, ok = ret_off(it, s.o)
        j = s.idx(f)
        return [('stays inside the source', z3.And(ok, z3.ULE(j, s.n))), ('success only if all of the text has matched what was consumed', z3.Implies(code == 0, s.M(s.m, j, BV(0, 64)))),
                ('invalid literal only at a difference', z3.Implies(code == E_LITERAL, s.BadLit)), ('invalid format only for ill-formed text', z3.Implies(code == E_FORMAT, s.BadFmt)),
                ('no other outcome', z3.Or(code == 0, code == E_LITERAL, code == E_FORMAT))]

    def cover(s, ex, ret, mem):
        return [('success', z3.And(ret[1] == 0, z3.UGT(s.m, 3))), ('literal', ret[1] == E_LITERAL), ('format', ret[1] == E_FORMAT)]


class LiteralW(Literal):
    fn = 'vp_literal_w'
    func = 'format_handler<true, wchar_t>::on_literal_text'
    elem = 4
