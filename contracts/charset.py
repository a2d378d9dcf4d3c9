"""Matching source text against a character set."""
from lib import *

PAIR = 8


class UntilUnit(BufSpec):
    """P: an arbitrary predicate on code units"""
    fn = 'vp_until_unit_c'
    func = 'impl::read_until_code_unit<string_view>'
    stop = True     # stops at the first unit for which P is this

    def setup(s, ex):
        p = s.buf(ex)
        s.P = z3.Function('P', z3.BitVecSort(8 * s.elem), z3.BoolSort())
        s.Go = s.fold('Go', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(True), lambda g, c, k: z3.And(g, s.P(c) != s.stop))
        return [p, s.n]

    def call(s, ex, name, args, ins, mem, reach):
        return s.P(args[0]) if name.startswith('vp_ev_unit') else NotImplemented

    def ghost_candidates(s):
        return [('goes on', lambda k: s.Go(k))]

    def ensures(s, ex, ret, mem):
        f, ok = ret_off(ret, s.o)
        r = s.idx(f)
        return [('ends inside the text', z3.And(ok, z3.ULE(r, s.n))),
                ('takes only units that belong to the run', s.Go(r)),
                ('ends only at the end or at a unit that does not', z3.Or(r == s.n, s.P(sel(s.arr, r)) == s.stop))]

    def cover(s, ex, ret, mem):
        r = s.idx(ret_off(ret, s.o)[0])
        return [('to the end', z3.And(r == s.n, z3.UGT(s.n, 9))), ('inside', z3.And(z3.ULT(r, s.n), z3.UGT(r, 5)))]


class WhileUnit(UntilUnit):
    fn = 'vp_while_unit_c'
    func = 'impl::read_while_code_unit<string_view>'
    stop = False


class UntilUnitW(UntilUnit):
    fn = 'vp_until_unit_w'
    func = 'impl::read_until_code_unit<wstring_view>'
    elem = 4
    strides = (1, 4, 8, 16)


class WhileUnitW(WhileUnit):
    fn = 'vp_while_unit_w'
    func = 'impl::read_while_code_unit<wstring_view>'
    elem = 4
    strides = (1, 4, 8, 16)


class SetRead(BufSpec):
    """a set with ASCII members only: no other code unit is a member"""
    fn = 'vp_set_read_c'
    func = 'impl::character_set_reader_impl<char>::read_source_impl, check_nonempty, read_source_callback::on_ascii_only'

    def setup(s, ex):
        p = s.buf(ex)
        s.lo, s.lit = ex.buffer('lit', BV(16, 64), 1)
        s.inv = z3.Bool('inv')
        s.inputs['inv'] = s.inv
        s.Go = s.fold('Go', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(True), lambda g, c, k: z3.And(g, s.taken(c)))
        return [p, s.n, Ptr.to(s.lo), s.inv]

    def taken(s, c):
        w = u32(c)
        byte = sel(s.lit, z3.ZeroExt(32, z3.LShR(w, 3)))
        return z3.Xor(s.inv, z3.And(z3.ULT(w, 128), z3.Extract(0, 0, z3.LShR(byte, z3.Extract(7, 0, w & 7))) == 1))

    def call(s, ex, name, args, ins, mem, reach):
        return string_call(ex, name, args, mem, reach)

    def ghost_candidates(s):
        return [('goes on', lambda k: s.Go(k)), ('the first belongs', lambda k: z3.Or(k == 0, s.taken(sel(s.arr, BV(0, 64)))))]

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, ok = ret_off(it, s.o)
        r = s.idx(f)
        good = z3.And(s.n != 0, s.taken(sel(s.arr, BV(0, 64))))
        return [('matches exactly if the first character belongs to the set', (code == 0) == good), ('no match: invalid value', z3.Implies(z3.Not(good), code == E_INVALID)),
                ('takes only characters that belong to the set', z3.Implies(code == 0, z3.And(ok, z3.ULE(r, s.n), s.Go(r)))),
                ('ends only at the end or at a character that does not', z3.Implies(code == 0, z3.Or(r == s.n, z3.Not(s.taken(sel(s.arr, r))))))]

    def cover(s, ex, ret, mem):
        r = s.idx(ret_off(ret[0], s.o)[0])
        return [('match', z3.And(ret[1] == 0, z3.UGT(r, 6), s.inv)), ('match, not inverted', z3.And(ret[1] == 0, z3.UGT(r, 6), z3.Not(s.inv))), ('none', ret[1] == E_INVALID)]


class SetReadW(SetRead):
    fn = 'vp_set_read_w'
    func = 'impl::character_set_reader_impl<wchar_t>::read_source_impl'
    elem = 4
    strides = (1, 4, 8, 16)


class UntilPoint(BufSpec):
    """P: an arbitrary predicate on code points. V: the places reached over well-formed code points that belong to the run"""
    fn = 'vp_until_point_c'
    func = 'impl::read_until_code_point<string_view>, read_code_point_into, detail::decode_code_point_exhaustive'
    stop = True

    def dec(s, k):
        if s.elem == 1:
            return dec8(s.arr, k, s.n)
        c = sel(s.arr, k)
        return BV(1, 64), c, z3.UGE(c, INVALID)

    def setup(s, ex):
        p = s.buf(ex)
        s.P = z3.Function('P', z3.BitVecSort(32), z3.BoolSort())
        s.V = z3.Function('V', z3.BitVecSort(64), z3.BoolSort())
        s.Ill = z3.Bool('IllReached')
        ex.axioms.append(s.V(BV(0, 64)))

        def inst(k):
            l, v, ill = s.dec(k)
            g = z3.And(s.V(k), z3.ULT(k, s.n))
            return [z3.Implies(z3.And(g, ill), s.Ill), z3.Implies(z3.And(g, z3.Not(ill), s.P(v) != s.stop), s.V(k + l))]
        s.at_load(inst)
        return [p, s.n]

    def call(s, ex, name, args, ins, mem, reach):
        return s.P(args[0]) if name.startswith('vp_ev_point') else string_call(ex, name, args, mem, reach)

    def ghost_candidates(s):
        return [('goes on', lambda k: z3.Or(s.Ill, s.V(k)))]

    def ensures(s, ex, ret, mem):
        f, ok = ret_off(ret, s.o)
        r = s.idx(f)
        l, v, ill = s.dec(r)
        return [('ends inside the text', z3.And(ok, z3.ULE(r, s.n))),
                ('takes only code points that belong to the run', z3.Or(s.Ill, s.V(r))),
                ('ends only at the end or at a code point that does not', z3.Or(s.Ill, r == s.n, z3.And(z3.Not(ill), s.P(v) == s.stop)))]

    def cover(s, ex, ret, mem):
        r = s.idx(ret_off(ret, s.o)[0])
        return [('to the end', z3.And(r == s.n, z3.UGT(s.n, 9), z3.Not(s.Ill))), ('inside', z3.And(z3.ULT(r, s.n), z3.UGT(r, 5), z3.Not(s.Ill)))]


class WhilePoint(UntilPoint):
    fn = 'vp_while_point_c'
    func = 'impl::read_while_code_point<string_view>'
    stop = False


class UntilPointW(UntilPoint):
    fn = 'vp_until_point_w'
    func = 'impl::read_until_code_point<wstring_view>'
    elem = 4


class WhilePointW(WhilePoint):
    fn = 'vp_while_point_w'
    func = 'impl::read_while_code_point<wstring_view>'
    elem = 4


class Has(BufSpec):
    """membership in a list of ranges [first, last)"""
    fn = 'vp_na_has_c'
    func = 'impl::character_set_reader_impl<char>::specs_helper::is_char_set_in_extra_literals'
    elem = 4
    strides = (1, 8, 16, 32)

    def setup(s, ex):
        p = s.buf(ex, 'pairs')
        s.m, = z3.BitVecs('m', 64)
        s.c = z3.BitVec('c', 32)
        s.requires(z3.ULE(s.m, MAXLEN >> 1), s.n == s.m * 2)
        s.inputs['c'] = s.c
        s.H = s.fold('H', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(False), lambda g, x, k: z3.Or(g, z3.And(k & 1 == 1, z3.ULE(sel(s.arr, k - 1), s.c), z3.ULT(s.c, x))))
        return [p, s.m, s.c]

    def ghost_candidates(s):
        return [('not yet', lambda k: z3.Not(s.H(k))), ('whole pairs', lambda k: k & 1 == 0)]

    def ensures(s, ex, ret, mem):
        return [('found only if a range holds it', z3.Implies(ret, s.some(ex))), ('not found only if no range holds it', z3.Implies(z3.Not(ret), z3.Not(s.H(s.n))))]

    def some(s, ex):
        """a range that was read holds it (so that one exists)"""
        return z3.Or(*[z3.And(z3.ULT(k, s.n), k & 1 == 1, z3.ULE(sel(s.arr, k - 1), s.c), z3.ULT(s.c, sel(s.arr, k))) for _, k in s.seen.values()])

    def cover(s, ex, ret, mem):
        return [('found', z3.And(ret, z3.UGT(s.m, 5))), ('not found', z3.And(z3.Not(ret), z3.UGT(s.m, 5)))]


class HasW(Has):
    fn = 'vp_na_has_w'
    func = 'impl::character_set_reader_impl<wchar_t>::specs_helper::is_char_set_in_extra_literals'


class LitHas(Spec):
    """membership of an ASCII character; without ranges nothing else is a member"""
    fn = 'vp_lit_has_c'
    func = 'impl::character_set_reader_impl<char>::read_source_callback::on_classic_with_extra_ranges, is_char_set_in_literals'

    def setup(s, ex):
        s.pre = []
        s.o, s.arr = ex.buffer('lit', BV(16, 64), 1)
        s.c = z3.BitVec('c', 32)
        s.inputs = {'c': s.c}
        return [Ptr.to(s.o), s.c]

    def call(s, ex, name, args, ins, mem, reach):
        return string_call(ex, name, args, mem, reach)

    def ensures(s, ex, ret, mem):
        byte = sel(s.arr, z3.ZeroExt(32, z3.LShR(s.c, 3)))
        bit = z3.Extract(0, 0, z3.LShR(byte, z3.Extract(7, 0, s.c & 7))) == 1
        return [('ASCII: the bit of the character', z3.Implies(z3.ULT(s.c, 128), ret == bit)), ('beyond ASCII: only by a range', z3.Implies(z3.UGE(s.c, 128), z3.Not(ret)))]

    def cover(s, ex, ret, mem):
        return [('member', ret), ('not', z3.Not(ret))]


class LitHasW(LitHas):
    fn = 'vp_lit_has_w'
    func = 'impl::character_set_reader_impl<wchar_t>::read_source_callback::on_classic_with_extra_ranges, is_char_set_in_literals'


class Add(BufSpec):
    """c: an arbitrary code point beyond ASCII, i: an arbitrary range of the list"""
    fn = 'vp_na_add'
    func = 'impl::nonascii_specs_handler::on_charset_range'
    elem = 4
    single = False

    def setup(s, ex):
        s.pre = []
        s.m, s.room, s.i, s.n = z3.BitVecs('m room i n', 64)
        s.c, s.lo, s.hi = z3.BitVecs('c lo hi', 32)
        s.requires(z3.ULE(s.m, s.room), z3.ULE(s.room, MAXLEN >> 1), z3.ULT(s.i, s.m), s.n == s.room * 2, z3.UGE(s.c, 128), z3.ULT(s.c, INVALID))
        s.requires(z3.ULT(s.lo, s.hi), z3.ULE(s.hi, INVALID))
        if s.single:
            s.requires(s.hi == s.lo + 1)
        s.o, s.arr = ex.buffer('pairs', s.n, 4, True)
        s.inputs = {'c': s.c, 'lo': s.lo, 'hi': s.hi}
        s.nb = s.n * 4
        s.insts, s.seen = [], {}
        pair = lambda k: z3.Implies(z3.ULT(k, s.m), z3.ULT(sel(s.arr, k * 2), sel(s.arr, k * 2 + 1)))
        s.at_load(lambda k: [pair(z3.LShR(k, 1))])
        s.pairpre = pair
        s.requires(pair(s.i))
        s.g = ex.new_obj('ghost', 8, 'cells')
        ex.init_mem[s.g] = Cells({0: (1, BV(0, 8))}, 'ghost')
        p = Ptr.to(s.o)
        return [p, s.m, s.room, s.lo] + ([] if s.single else [s.hi])

    def call(s, ex, name, args, ins, mem, reach):
        if '_M_realloc_' in name:
            ex.trusted['std::vector::_M_realloc_insert'] = 'appends the element when inserting at the end (libstdc++)'
            q = args[-1]
            f, inside = ret_off(args[1], s.o) if '_M_realloc_insert' in name else (s.m * 8, z3.BoolVal(True))
            v = ex.load(mem, q, ('i', 64), reach, 'value')
            ex.oblige('the added range is appended', reach, z3.And(inside, f == s.m * 8, v == z3.Concat(s.hi, s.lo)), 'pre')
            ex.store(mem, Ptr.to(s.g), BV(1, 8), 1, reach, 'ghost')
            return None
        return string_call(ex, name, args, mem, reach)

    def has(s, a, k):
        return z3.And(z3.ULE(z3.Select(a, k * 2), s.c), z3.ULT(s.c, z3.Select(a, k * 2 + 1)))

    def invariants(s, ex, L):
        yield from T.generic(ex, L, [(s.o, s.nb)])
        for x in T.positions(ex, L, s.o):
            if x.kind == 'ptr':
                yield (f'{x.name} in the list', lambda S, x=x: z3.ULE(x.get(S), s.m * 8), False)
                yield (f'{x.name} strictly in the list', lambda S, x=x: z3.ULT(x.get(S), s.m * 8), False)
                yield (f'{x.name} at a range', lambda S, x=x: x.get(S) & 7 == 0, False)

    def ensures(s, ex, ret, mem):
        a = ex.content(mem, s.o)
        f, ok = ret_off(ret, s.o)
        new = z3.And(z3.ULE(s.lo, s.c), z3.ULT(s.c, s.hi))
        moved = ex.cell_get(mem, s.g, 0, 1) != 0
        app = z3.And(z3.Not(moved), f == (s.m + 1) * 8, z3.Select(a, s.m * 2) == s.lo, z3.Select(a, s.m * 2 + 1) == s.hi)
        wit = [z3.And(z3.ULT(z3.LShR(k, 1), s.m), s.has(a, z3.LShR(k, 1))) for _, k in s.seen.values()]
        return [('the list keeps its length or grows by one', z3.And(ok, z3.Or(f == s.m * 8, app))),
                ('no range loses a member', z3.Implies(s.has(s.arr, s.i), s.has(a, s.i))),
                ('no range gains a member that was not added', z3.Implies(s.has(a, s.i), z3.Or(s.has(s.arr, s.i), new))),
                ('every added member beyond ASCII is in a range', z3.Implies(new, z3.Or(moved, app, *wit))),
                ('ranges stay in order', z3.ULT(z3.Select(a, s.i * 2), z3.Select(a, s.i * 2 + 1)))]

    def cover(s, ex, ret, mem):
        f, ok = ret_off(ret, s.o)
        return [('appended', f == (s.m + 1) * 8), ('moved', ex.cell_get(mem, s.g, 0, 1) != 0)]


class AddOne(Add):
    fn = 'vp_na_add1'
    func = 'impl::nonascii_specs_handler::on_charset_single'
    single = True
