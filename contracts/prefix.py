"""Sign and base prefix of integers."""
from lib import *
from ints import digit


class Sign(BufSpec):
    fn = 'vp_sign_c'
    func = 'impl::parse_numeric_sign<char>'

    def setup(s, ex):
        p = s.buf(ex)
        s.oo = ex.new_obj('out', 4, 'cells')
        ex.init_mem[s.oo] = Cells({0: (4, z3.BitVec('old', 32))}, 'out')
        return [p, s.n, Ptr.to(s.oo)]

    def ensures(s, ex, ret, mem):
        it, code = ret
        off, ok = ret_off(it, s.o)
        v = ex.cell_get(mem, s.oo, 0, 4)
        c = sel(s.arr, BV(0, 64))
        yes = z3.And(s.n != 0, z3.Or(c == 0x2b, c == 0x2d))
        return [('empty source: end of input', (code == 1) == (s.n == 0)),
                ('a sign is consumed', z3.Implies(yes, z3.And(ok, off == s.elem, v == z3.If(c == 0x2d, BV(0, 32), BV(1, 32))))),
                ('anything else is left', z3.Implies(z3.And(s.n != 0, z3.Not(yes)), z3.And(ok, off == 0, v == BV(-1, 32))))]

    def cover(s, ex, ret, mem):
        return [('minus', z3.And(ret[1] == 0, ex.cell_get(mem, s.oo, 0, 4) == 0))]


class WSign(Sign):
    fn = 'vp_sign_w'
    func = 'impl::parse_numeric_sign<wchar_t>'
    elem = 4


class CharToInt(Spec):
    fn = 'vp_char_to_int_c'
    func = 'impl::char_to_int(char)'
    bits = 8

    def setup(s, ex):
        s.pre = []
        s.c = z3.BitVec('c', s.bits)
        s.inputs = {'c': s.c}
        return [s.c]

    def ensures(s, ex, ret, mem):
        return [('digit value 0..35, or 255', ret == digit(s.c))]

    def cover(s, ex, ret, mem):
        return [('digit', ret == 35), ('none', ret == 255)]


class WCharToInt(CharToInt):
    fn = 'vp_char_to_int_w'
    func = 'impl::char_to_int(wchar_t)'
    bits = 32


class SpecsBase(Spec):
    fn = 'vp_specs_base'
    func = 'detail::format_specs::get_base'

    def setup(s, ex):
        s.pre = []
        s.w = z3.BitVec('which', 32)
        s.a = z3.BitVec('arb', 8)
        s.requires(z3.ULE(s.w, 7))
        s.inputs = {'which': s.w, 'arb': s.a}
        return [s.w, s.a]

    def ensures(s, ex, ret, mem):
        out = []
        for i, (nm, b) in enumerate((('default', 10), ('d', 10), ('u', 10), ('i', 0), ('b', 2), ('o', 8), ('x', 16))):
            out.append((f'presentation {nm}: base {b}', z3.Implies(s.w == i, ret == b)))
        return out + [('presentation r: the given base', z3.Implies(s.w == 7, ret == z3.ZeroExt(24, s.a)))]


class Prefix(BufSpec):
    fn = 'vp_prefix_c'
    func = 'impl::parse_integer_prefix<char>'

    def setup(s, ex):
        p = s.buf(ex)
        s.base = z3.BitVec('base', 32)
        s.requires(z3.ULE(s.base, 36), s.base != 1)
        s.inputs['base'] = s.base
        s.oo = ex.new_obj('out', 12, 'cells')
        ex.init_mem[s.oo] = Cells({4 * i: (4, z3.BitVec(f'old{i}', 32)) for i in range(3)}, 'out')
        return [p, s.n, s.base, Ptr.to(s.oo)]

    def parts(s, ex, ret, mem):
        it, code = ret
        off, ok = ret_off(it, s.o)
        return s.idx(off), ok, code, [ex.cell_get(mem, s.oo, 4 * i, 4) for i in range(3)]

    def ensures(s, ex, ret, mem):
        off, ok, code, (base, sign, zero) = s.parts(ex, ret, mem)
        c = [sel(s.arr, BV(i, 64)) for i in range(4)]
        signed = z3.Or(c[0] == 0x2b, c[0] == 0x2d)
        at = lambda i: z3.If(signed, c[i + 1], c[i])        # i-th unit after the sign
        p = z3.If(signed, BV(1, 64), BV(0, 64))
        there = lambda i: z3.ULT(p + i, s.n)

        def dig(i, b):
            return z3.And(there(i), z3.ULT(z3.ZeroExt(24, digit(at(i))), b))

        def has(l):
            return z3.And(there(1), at(0) == 0x30, z3.Or(at(1) == ord(l), at(1) == ord(l) - 32))
        b = s.base
        x = z3.And(z3.Or(b == 16, b == 0), has('x'))
        bi = z3.And(z3.Or(b == 2, b == 0), has('b'))
        o = z3.And(z3.Or(b == 8, b == 0), has('o'))
        z = z3.And(z3.Or(b == 8, b == 0), there(0), at(0) == 0x30, z3.Not(x), z3.Not(bi), z3.Not(o))
        eff = z3.If(x, BV(16, 32), z3.If(bi, BV(2, 32), z3.If(z3.Or(o, z), BV(8, 32), z3.If(b == 0, BV(10, 32), b))))
        two = z3.And(z3.Or(x, bi, o), dig(2, eff))
        one = z3.And(z, dig(1, BV(8, 32)))
        # a lone "0": the zero flag, or a base in which nothing after the zero is a digit
        lone = z3.And(z3.Or(x, bi, o, z), z3.Not(two), z3.Not(one))
        live = z3.And(s.n != 0, code == 0)
        return [('end of input exactly for an empty source', (code == 1) == (s.n == 0)),
                ('minus sign', z3.Implies(live, (sign == 0) == (c[0] == 0x2d))),
                ('the result lies in the source', z3.Implies(live, z3.And(ok, z3.ULE(off, s.n)))),
                ('prefix followed by a digit of its base: both are taken', z3.Implies(z3.And(live, two), z3.And(off == p + 2, base == eff, zero == 0))),
                ('leading zero of an octal number', z3.Implies(z3.And(live, one), z3.And(z3.Or(off == p + 1, off == p), base == 8, zero == 0))),
                ('no digit after the prefix: only the zero is a number', z3.Implies(z3.And(live, lone), z3.And(
                    off == p, z3.Or(zero != 0, z3.And(z3.UGE(base, 2), z3.ULE(base, 36), z3.Not(dig(1, base))))))),
                ('no prefix: the digits start after the sign', z3.Implies(z3.And(live, z3.Not(z3.Or(x, bi, o, z))), z3.And(off == p, base == eff, zero == 0)))]

    def cover(s, ex, ret, mem):
        off, ok, code, (base, sign, zero) = s.parts(ex, ret, mem)
        return [('signed hexadecimal prefix', z3.And(code == 0, off == 3, base == 16, s.base == 0)), ('lone zero', zero != 0), ('binary', z3.And(off == 2, base == 2))]


class WPrefix(Prefix):
    fn = 'vp_prefix_w'
    func = 'impl::parse_integer_prefix<wchar_t>'
    elem = 4


class Read(BufSpec):
    """the whole integer reader over a contiguous source.  DD(k, b): number of digits of base b from position k;
    Val/Fits(k, b, neg): what the value parser's contract (P01) promises for the digits there."""
    fn = 'vp_reads_c_i32'
    func = 'impl::reader_impl_for_int<char>::read_specs<int>'
    bits = 32
    signed = True
    default = False

    def setup(s, ex):
        p = s.buf(ex)
        I, B = z3.BitVecSort(64), z3.BitVecSort(32)
        s.DD = z3.Function('DD', I, B, I)
        s.Val = z3.Function('Val', I, B, z3.BoolSort(), z3.BitVecSort(s.bits))
        s.Fits = z3.Function('Fits', I, B, z3.BoolSort(), z3.BoolSort())
        s.oo = ex.new_obj('value', s.bits // 8, 'cells')
        s.old = z3.BitVec('oldvalue', s.bits)
        ex.init_mem[s.oo] = Cells({0: (s.bits // 8, s.old)}, 'value')
        s.args = [p, s.n, Ptr.to(s.oo)]
        if s.default:
            s.which = BV(0, 32)
            s.arb = BV(0, 8)
            return s.args
        s.which = z3.BitVec('which', 32)
        s.arb = z3.BitVec('arb', 8)
        s.inputs.update(which=s.which, arb=s.arb)
        s.requires(z3.ULE(s.which, 7), z3.UGE(s.arb, 2), z3.ULE(s.arb, 36))
        return s.args + [s.which, s.arb]

    def unfold(s, k, b):
        """definition of DD, and of the value of digits that start with a zero"""
        d = z3.ULT(z3.ZeroExt(24, digit(sel(s.arr, k))), b)
        out = [s.DD(k, b) == z3.If(z3.And(z3.ULT(k, s.n), d), 1 + s.DD(k + 1, b), BV(0, 64)), z3.ULE(s.DD(k, b), s.n - k)]
        for neg in (z3.BoolVal(True), z3.BoolVal(False)):
            z = z3.And(z3.ULT(k, s.n), sel(s.arr, k) == 48)
            out.append(z3.Implies(z3.And(z, s.DD(k, b) == 1), z3.And(s.Val(k, b, neg) == 0, s.Fits(k, b, neg))))
            out.append(z3.Implies(z3.And(z, s.DD(k, b) != 1), z3.And(s.Val(k, b, neg) == s.Val(k + 1, b, neg), s.Fits(k, b, neg) == s.Fits(k + 1, b, neg))))
        return out

    def call(s, ex, name, args, ins, mem, reach):
        if 'parse_integer_value' not in name:
            return NotImplemented
        ret, ln, src, out, sign, base = args
        ro, roff = ret.single()
        off, ok = ret_off(src, s.o)
        oo, ooff = out.single()
        if oo is not s.oo or conc(ooff) != 0 or conc(roff) != 0:
            raise VCError('unexpected arguments')
        k = s.idx(off)
        ex.oblige('value parser: the source is the whole rest', reach, z3.And(ok, z3.ULT(k, s.n), ln == s.n - k), 'pre')
        ex.oblige('value parser: base in range', reach, z3.And(z3.UGE(base, 2), z3.ULE(base, 36)), 'pre')
        ex.oblige('value parser: sign fits the type', reach, z3.Or(sign == 1, sign == 0) if s.signed else sign == 1, 'pre')
        for a in s.unfold(k, base):
            ex.axiom(a, reach)
        neg = sign == 0
        good = z3.And(s.DD(k, base) != 0, s.Fits(k, base, neg))
        err = z3.If(s.DD(k, base) == 0, BV(E_INVALID, 32), z3.If(neg, BV(E_NEG, 32), BV(E_POS, 32)))
        # scan_expected<iterator>: value or {message, code}, then the flag.  Enumerators are reported +1 by vp_code.
        n = s.DD(k, base)
        ex.note_write(ro)
        ex.note_write(s.oo)
        mem[ro] = Cells({0: (8, Ptr.to(s.o, simp((k + n) * s.elem))), 8: (4, simp(err - 1)), 16: (1, z3.If(good, BV(1, 8), BV(0, 8)))}, mem[ro].tag)
        mem[s.oo] = Cells({0: (s.bits // 8, z3.If(good, s.Val(k, base, neg), ex.cell_get(mem, s.oo, 0, s.bits // 8)))}, 'value')
        return None

    def number(s, start, eff):
        return s.DD(start, eff), s.DD(start, eff)

    def judged(s, p, zero, prefix):
        return z3.BoolVal(True)

    def ensures(s, ex, ret, mem):
        it, code = ret
        boff, ok = ret_off(it, s.o)
        off = s.idx(boff)
        v = ex.cell_get(mem, s.oo, 0, s.bits // 8)
        c = [sel(s.arr, BV(i, 64)) for i in range(4)]
        signed = z3.Or(c[0] == 0x2b, c[0] == 0x2d)
        neg = z3.And(s.n != 0, c[0] == 0x2d)
        at = lambda i: z3.If(signed, c[i + 1], c[i])
        p = z3.If(signed, BV(1, 64), BV(0, 64))
        there = lambda i: z3.ULT(p + i, s.n)
        dig = lambda i, b: z3.And(there(i), z3.ULT(z3.ZeroExt(24, digit(at(i))), b))
        has = lambda l: z3.And(there(1), at(0) == 0x30, z3.Or(at(1) == ord(l), at(1) == ord(l) - 32))
        b = BV(10, 32)
        for i, x in ((3, 0), (4, 2), (5, 8), (6, 16)):
            b = z3.If(s.which == i, BV(x, 32), b)
        b = z3.If(s.which == 7, z3.ZeroExt(24, s.arb), b)
        x = z3.And(z3.Or(b == 16, b == 0), has('x'))
        bi = z3.And(z3.Or(b == 2, b == 0), has('b'))
        o = z3.And(z3.Or(b == 8, b == 0), has('o'))
        z = z3.And(z3.Or(b == 8, b == 0), there(0), at(0) == 0x30, z3.Not(x), z3.Not(bi), z3.Not(o))
        badsign = z3.And(neg, z3.BoolVal(True) if not s.signed else s.which == 2)
        body = z3.And(s.n != 0, z3.Not(badsign), s.judged(p, z, z3.Or(x, bi, o)))
        out = [('end of input exactly for an empty source', (code == E_EOF) == (s.n == 0)),
               ('minus sign where it is not allowed: invalid value', z3.Implies(badsign, z3.And(code == E_INVALID, v == s.old)))]
        Q = [BV(i, 64) for i in range(4)]
        rest = z3.If(b == 0, BV(10, 32), b)
        for nm, case, eff in (('0x', x, BV(16, 32)), ('0b', bi, BV(2, 32)), ('0o', o, BV(8, 32)), ('leading 0', z, BV(8, 32)), ('no prefix', z3.Not(z3.Or(x, bi, o, z)), rest)):
            pre = nm in ('0x', '0b', '0o')
            num = z3.And(body, case, dig(2, eff)) if pre else z3.And(body, case)
            start = p + 2 if pre else p
            n, used = s.number(start, eff)
            fits = s.Fits(start, eff, neg)
            # a leading zero is skipped or kept: by definition the same number
            hyp = [f for q in Q for f in s.unfold(q, eff)]
            l = [('no digit: invalid value, nothing stored', z3.Implies(z3.And(num, n == 0), z3.And(code == E_INVALID, v == s.old))),
                 ('a number: exactly sign, prefix and digits are consumed', z3.Implies(z3.And(num, n != 0, fits), z3.And(code == 0, ok, off == start + used))),
                 ('a number: value of its digits', z3.Implies(z3.And(num, n != 0, fits), v == s.Val(start, eff, neg))),
                 ('out of range: overflow error, nothing stored', z3.Implies(z3.And(num, n != 0, z3.Not(fits)), z3.And(code == z3.If(neg, BV(E_NEG, 32), BV(E_POS, 32)), v == s.old)))]
            if pre:
                l.append(('prefix without digits: the zero alone', z3.Implies(z3.And(body, case, z3.Not(dig(2, eff))), z3.And(code == 0, ok, off == p + 1, v == 0))))
            out += [(f'{m} ({nm})', z3.Implies(z3.And(*hyp), g) if 'zero' in m or nm == 'leading 0' else g) for m, g in l]
        return out

    def cover(s, ex, ret, mem):
        out = [('number', z3.And(ret[1] == 0, ex.cell_get(mem, s.oo, 0, s.bits // 8) == 77)), ('overflow', ret[1] == E_POS), ('invalid', ret[1] == E_INVALID)]
        return out + ([('negative', ret[1] == E_NEG)] if s.signed else [])


class ReadDefault(Read):
    fn = 'vp_read_c_i32'
    func = 'impl::reader_impl_for_int<char>::read_default<int>'
    default = True


class ReadU64(Read):
    fn = 'vp_reads_c_u64'
    func = 'impl::reader_impl_for_int<char>::read_specs<unsigned long>'
    bits = 64
    signed = False


class ReadDefaultU64(ReadU64):
    fn = 'vp_read_c_u64'
    func = 'impl::reader_impl_for_int<char>::read_default<unsigned long>'
    default = True


class ReadW(Read):
    fn = 'vp_reads_w_i32'
    func = 'impl::reader_impl_for_int<wchar_t>::read_specs<int>'
    elem = 4


class ReadDefaultW(Read):
    fn = 'vp_read_w_i32'
    func = 'impl::reader_impl_for_int<wchar_t>::read_default<int>'
    elem = 4
    default = True
