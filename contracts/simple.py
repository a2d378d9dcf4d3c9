"""Boolean, character and code point fields over contiguous sources."""
from lib import *


class Bool(BufSpec):
    fn = 'vp_bools_c'
    func = 'impl::bool_reader<char>::read_classic, reader_impl_for_bool::get_options'
    default = False

    def setup(s, ex):
        p = s.buf(ex)
        s.oo = ex.new_obj('value', 1, 'cells')
        s.old = z3.BitVec('oldvalue', 8)
        s.requires(z3.ULE(s.old, 1))
        ex.init_mem[s.oo] = Cells({0: (1, s.old)}, 'value')
        if s.default:
            s.which = BV(0, 32)
            return [p, s.n, Ptr.to(s.oo)]
        s.which = z3.BitVec('which', 32)
        s.requires(z3.ULE(s.which, 7))
        s.inputs['which'] = s.which
        return [p, s.n, Ptr.to(s.oo), s.which]

    def ensures(s, ex, ret, mem):
        it, code = ret
        boff, ok = ret_off(it, s.o)
        off = s.idx(boff)
        v = ex.cell_get(mem, s.oo, 0, 1)
        text = z3.ULE(s.which, 1)
        num = s.which != 1

        def m(w):
            return z3.And(z3.UGE(s.n, len(w)), *[sel(s.arr, BV(i, 64)) == ord(c) for i, c in enumerate(w)])
        cases = [(num, '0', 0), (num, '1', 1), (text, 'true', 1), (text, 'false', 0)]
        out = [(f'"{w}" where allowed: its value, exactly it consumed', z3.Implies(z3.And(c, m(w)), z3.And(code == 0, ok, off == len(w), v == b))) for c, w, b in cases]
        none = z3.Not(z3.Or(*[z3.And(c, m(w)) for c, w, b in cases]))
        return out + [('anything else: invalid value (or end of input), nothing stored', z3.Implies(none, z3.And(
            z3.Or(code == E_INVALID, z3.And(s.n == 0, code == E_EOF)), v == s.old)))]

    def cover(s, ex, ret, mem):
        return [('true', z3.And(ret[1] == 0, ret_off(ret[0], s.o)[0] == 4 * s.elem)), ('invalid', ret[1] == E_INVALID)]


class BoolDefault(Bool):
    fn = 'vp_bool_c'
    func = 'impl::reader_impl_for_bool<char>::read_default'
    default = True


class BoolW(Bool):
    fn = 'vp_bools_w'
    func = 'impl::bool_reader<wchar_t>::read_classic'
    elem = 4


class BoolDefaultW(BoolDefault):
    fn = 'vp_bool_w'
    func = 'impl::reader_impl_for_bool<wchar_t>::read_default'
    elem = 4


class Char(BufSpec):
    fn = 'vp_char_c'
    func = 'impl::reader_impl_for_char<char>::read_default'
    size = 1

    def setup(s, ex):
        p = s.buf(ex)
        s.oo = ex.new_obj('value', s.size, 'cells')
        s.old = z3.BitVec('oldvalue', 8 * s.size)
        ex.init_mem[s.oo] = Cells({0: (s.size, s.old)}, 'value')
        return [p, s.n, Ptr.to(s.oo)]

    def call(s, ex, name, args, ins, mem, reach):
        return string_call(ex, name, args, mem, reach)

    def want(s):
        c = sel(s.arr, BV(0, 64))
        return BV(1, 64), c, z3.BoolVal(False)

    def ensures(s, ex, ret, mem):
        it, code = ret
        boff, ok = ret_off(it, s.o)
        off = s.idx(boff)
        v = ex.cell_get(mem, s.oo, 0, s.size)
        l, val, ill = s.want()
        some = s.n != 0
        return [('end of input exactly for an empty source', (code == E_EOF) == (s.n == 0)),
                ('a character: its value, exactly it consumed', z3.Implies(z3.And(some, z3.Not(ill)), z3.And(code == 0, ok, off == l, v == val))),
                ('ill-formed: invalid value', z3.Implies(z3.And(some, ill), code == E_INVALID)),
                ('nothing stored on failure', z3.Implies(code != 0, v == s.old))]

    def cover(s, ex, ret, mem):
        return [('ok', ret[1] == 0)]


class CodePoint(Char):
    fn = 'vp_cp_c'
    func = 'impl::reader_impl_for_code_point<char>::read_default, impl::read_code_point_into'
    size = 4

    def want(s):
        return dec8(s.arr, BV(0, 64), s.n)

    def setup(s, ex):
        a = Char.setup(s, ex)
        s.St = s.fold('strays', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(True), lambda g, c, k: z3.And(g, len8(c) == 0))
        return a

    def cover(s, ex, ret, mem):
        return [('four bytes', z3.And(ret[1] == 0, ret_off(ret[0], s.o)[0] == 4)), ('ill-formed', ret[1] == E_INVALID)]


class WCharC(CodePoint):
    fn = 'vp_wchar_c'
    func = 'impl::reader_impl_for_wchar<char>::read_default'


class WCharW(Char):
    fn = 'vp_wchar_w'
    func = 'impl::reader_impl_for_wchar<wchar_t>::read_default'
    elem = 4
    size = 4


class CodePointW(WCharW):
    fn = 'vp_cp_w'
    func = 'impl::reader_impl_for_code_point<wchar_t>::read_default'

    def want(s):
        c = sel(s.arr, BV(0, 64))
        return BV(1, 64), c, z3.UGE(c, INVALID)
