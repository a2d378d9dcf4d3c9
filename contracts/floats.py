"""Text and conversion of floating-point numbers.  E1/E2(k): end of the longest run of digits (E1: or separators) from k."""
from lib import *
from ints import digit
from vc import NULL

K_TBD, K_GEN, K_FIX, K_SCI, K_HEXNO, K_HEX, K_INF, K_INFL, K_NAN, K_NANP = range(10)


def low(c):
    """ASCII letters without case"""
    return z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c)


class Runs(BufSpec):
    """ghost functions for runs of digits; E(kind)(k): end of the run from k"""
    base = 10

    def runs(s):
        if s.elem == 4:
            s.strides = (1, 4, 8, 16)
        I = z3.BitVecSort(64)
        s.E1, s.E2, s.E3 = [z3.Function(n, I, I) for n in ('E1', 'E2', 'E3')]
        s.sep = z3.BitVec('sep', 8 * s.elem)
        def dig(c, b):
            d = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
            return d if b == 10 else z3.Or(d, z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))
        s.d1 = lambda c: z3.Or(dig(c, s.base), z3.And(s.sep != 0, c == s.sep))
        s.d2 = lambda c: dig(c, s.base)
        s.d3 = lambda c: dig(c, 10)

    def unf(s, F, k):
        d = {s.E1: s.d1, s.E2: s.d2, s.E3: s.d3}[F]
        return z3.And(F(k) == z3.If(z3.And(z3.ULT(k, s.n), d(sel(s.arr, k))), F(k + 1), k), z3.Implies(z3.ULE(k, s.n), z3.And(z3.ULE(k, F(k)), z3.ULE(F(k), s.n))))

    def reader(s, ex):
        s.rd = ex.new_obj('reader', 512, 'cells')
        ex.init_mem[s.rd] = Cells({})
        return Ptr.to(s.rd)


class Digits(Runs):
    fn = 'vp_dec_c'
    func = 'impl::float_reader<char>::read_dec_digits, read_while1_code_unit'

    def setup(s, ex):
        p = s.buf(ex)
        s.runs()
        s.allowed = z3.Bool('allowed')
        s.inputs.update(sep=s.sep, allowed=s.allowed)
        d1 = s.d1
        s.d1 = lambda c: z3.Or(s.d2(c), z3.And(s.allowed, s.sep != 0, c == s.sep))
        s.at_load(lambda k: [s.unf(s.E1, k)])
        ex.axioms.append(s.E1(s.n) == s.n)
        return [s.reader(ex), p, s.n, s.sep, s.allowed]

    def call(s, ex, name, args, ins, mem, reach):
        return string_call(ex, name, args, mem, reach)

    def ghost_candidates(s):
        z = BV(0, 64)
        return [('digits', lambda k: s.E1(k) == s.E1(z))]

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, ok = ret_off(it, s.o)
        e = s.E1(BV(0, 64))
        u = s.unf(s.E1, BV(0, 64))
        return [(n, z3.Implies(u, g)) for n, g in (('fails exactly without a digit', (code == 0) == z3.UGT(e, 0)), ('text without a digit: invalid value', z3.Implies(z3.And(s.n != 0, e == 0), code == E_INVALID)),
                ('takes the whole run', z3.Implies(code == 0, z3.And(ok, s.idx(f) == e))))]

    def cover(s, ex, ret, mem):
        r = s.idx(ret_off(ret[0], s.o)[0])
        return [('digits', z3.And(ret[1] == 0, z3.UGT(r, 9))), ('none', ret[1] == E_INVALID)]


class DigitsW(Digits):
    fn = 'vp_dec_w'
    func = 'impl::float_reader<wchar_t>::read_dec_digits, read_while1_code_unit'
    elem = 4


class HexDigits(Digits):
    fn = 'vp_hexd_c'
    func = 'impl::float_reader<char>::read_hex_digits, read_while1_code_unit'
    base = 16


class HexDigitsW(HexDigits):
    fn = 'vp_hexd_w'
    func = 'impl::float_reader<wchar_t>::read_hex_digits, read_while1_code_unit'
    elem = 4


class Exponent(Runs):
    fn = 'vp_exp_c'
    func = 'impl::float_reader<char>::read_exponent'

    def setup(s, ex):
        p = s.buf(ex)
        s.runs()
        s.hex = z3.Bool('hex')
        s.inputs.update(hex=s.hex)
        s.at_load(lambda k: [s.unf(s.E3, k)])
        ex.axioms.append(s.E3(s.n) == s.n)
        c = lambda k: sel(s.arr, k)
        e1 = BV(1, 64)
        s.e2 = z3.If(z3.And(z3.ULT(e1, s.n), z3.Or(c(e1) == 0x2b, c(e1) == 0x2d)), e1 + 1, e1)
        s.e3 = s.E3(s.e2)
        l = low(c(BV(0, 64)))
        s.has = z3.And(s.n != 0, l == z3.If(s.hex, BV(0x70, 8 * s.elem), BV(0x65, 8 * s.elem)), z3.UGT(s.e3, s.e2), z3.ULT(s.e2, s.n))
        return [s.reader(ex), p, s.n, s.hex]

    def call(s, ex, name, args, ins, mem, reach):
        return string_call(ex, name, args, mem, reach)

    def ghost_candidates(s):
        return [('digits', lambda k: s.E3(k) == s.e3), ('starts', lambda k: z3.ULE(s.e2, k))]

    def ensures(s, ex, ret, mem):
        f, ok = ret_off(ret, s.o)
        u = z3.And(s.unf(s.E3, s.e2), s.unf(s.E3, BV(1, 64)), s.unf(s.E3, BV(2, 64)))
        return [(n, z3.Implies(u, g)) for n, g in (('the end lies in the text', ok), ('letter, sign and digits are taken if a digit follows', z3.Implies(s.has, s.idx(f) == s.e3)), ('else nothing is', z3.Implies(z3.Not(s.has), s.idx(f) == 0)))]

    def cover(s, ex, ret, mem):
        return [('exponent', s.idx(ret_off(ret, s.o)[0]) == 7), ('none', z3.And(s.n == 9, s.idx(ret_off(ret, s.o)[0]) == 0))]


class ExponentW(Exponent):
    fn = 'vp_exp_w'
    func = 'impl::float_reader<wchar_t>::read_exponent'
    elem = 4


class Regular(Runs):
    """the digit runs and the exponent by their contracts (Digits, Exponent)"""
    fn = 'vp_regular_c'
    func = 'impl::float_reader<char>::read_regular_float'
    exp = 'e'
    hexa = False

    def setup(s, ex):
        p = s.buf(ex)
        s.runs()
        s.dp = z3.BitVec('dp', 8 * s.elem)
        s.opt = z3.BitVec('opt', 32)
        s.ko = ex.new_obj('kind', 4, 'cells')
        ex.init_mem[s.ko] = Cells({0: (4, z3.BitVec('oldkind', 32))})
        s.inputs.update(sep=s.sep, dp=s.dp, opt=s.opt)
        # where each part ends
        c = lambda k: sel(s.arr, k)
        z = BV(0, 64)
        s.i1 = s.E1(z)
        s.i2 = z3.If(z3.And(z3.ULT(s.i1, s.n), c(s.i1) == s.dp), s.i1 + 1, s.i1)
        s.i3 = s.E2(s.i2)
        s.hasexp, s.e3 = s.exponent(s.i3)
        if s.hexa:
            return [s.reader(ex), p, s.n, s.sep, s.dp]
        s.requires(z3.ULT(s.opt, 16), s.opt & 6 != 0)
        return [s.reader(ex), p, s.n, s.opt, s.sep, s.dp, Ptr.to(s.ko)]

    def exponent(s, k):
        """(is there one at k, its end)"""
        c = lambda k: sel(s.arr, k)
        e2 = z3.If(z3.And(z3.ULT(k + 1, s.n), z3.Or(c(k + 1) == 0x2b, c(k + 1) == 0x2d)), k + 2, k + 1)
        e3 = s.E3(e2)
        return z3.And(z3.ULT(k, s.n), low(c(k)) == ord(s.exp), z3.UGT(e3, e2), z3.ULT(e2, s.n)), e3

    def text(s, ex, b, e, reach):
        """a callee is given the text from b to the end"""
        f, ok = ret_off(b, s.o)
        g, ok2 = ret_off(e, s.o)
        ex.oblige('the callee is given the rest of the text', reach, z3.And(ok, ok2, g == s.nb, z3.ULE(f, g)), 'pre')
        return s.idx(f)

    def call(s, ex, name, args, ins, mem, reach):
        hexd = '15read_hex_digits' in name
        if hexd or '15read_dec_digits' in name:
            rd, b, e, allowed = args
            if hexd != s.hexa:
                raise VCError('digits of the other kind')
            k = s.text(ex, b, e, reach)
            r = z3.If(allowed, s.E1(k), s.E2(k))
            for F in (s.E1, s.E2):
                ex.axiom(s.unf(F, k), reach)
            # parse_expected: position, or one of the error codes; then the flag
            code = ex.fresh(64, 'digits_error')
            ex.axiom(z3.And(z3.UGE(code, 1), z3.ULE(code, 2), z3.Implies(k != s.n, code == 2)), reach)
            none = simp(r == k)
            return [Ptr([(Not(none), s.o, simp(r * s.elem)), (none, NULL, code)]), z3.If(none, BV(0, 8), BV(1, 8))]
        if '13read_exponent' in name:
            if len(args) == 5:
                args = args[1:]
            b, e, n, q = args
            k = s.text(ex, b, e, reach)
            o, f = q.single()
            t = [ex.load(mem, Ptr.to(o, simp(f + i)), ('i', 8), reach, 'letters') for i in range(2)]
            ex.oblige('exponent letters', reach, z3.And(n == 2, *[z3.Or(*[x == l for x in t]) for l in (ord(s.exp), ord(s.exp) - 32)]), 'pre')
            has, end = s.exponent(k)
            for j in (k + 1, k + 2):
                ex.axiom(s.unf(s.E3, simp(j)), reach)
            return Ptr.to(s.o, simp(z3.If(has, end, k) * s.elem))
        return string_call(ex, name, args, mem, reach)

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, ok = ret_off(it, s.o)
        r = s.idx(f)
        kind = ex.cell_get(mem, s.ko, 0, 4)
        sci, fix = s.opt & 2 != 0, s.opt & 4 != 0
        digits = z3.UGT(s.i1, 0)
        exp = z3.And(sci, s.hasexp)
        good = z3.And(digits, z3.Or(exp, fix))
        out = [('a number exactly if there are digits, and an exponent where one is required', (code == 0) == good),
               ('no number: invalid value', z3.Implies(z3.And(z3.Not(good), s.n != 0), code == E_INVALID)),
               ('no text: invalid value or end of input', z3.Implies(z3.And(z3.Not(good), s.n == 0), z3.Or(code == E_INVALID, code == E_EOF))),
               ('ends after digits, point, digits and exponent', z3.Implies(good, z3.And(ok, r == z3.If(exp, s.e3, s.i3)))),
               ('kind', z3.Implies(good, kind == z3.If(exp, BV(K_SCI, 32), BV(K_FIX, 32))))]
        u = [s.unf(s.E1, BV(0, 64)), s.unf(s.E2, s.i2)]
        return [(n, z3.Implies(z3.And(*u), g)) for n, g in out]

    def cover(s, ex, ret, mem):
        r = s.idx(ret_off(ret[0], s.o)[0])
        return [('fixed', z3.And(ret[1] == 0, z3.UGT(r, 9), ex.cell_get(mem, s.ko, 0, 4) == K_FIX)), ('scientific', z3.And(ret[1] == 0, z3.UGT(r, 9), ex.cell_get(mem, s.ko, 0, 4) == K_SCI)), ('none', ret[1] == E_INVALID)]


class RegularW(Regular):
    fn = 'vp_regular_w'
    func = 'impl::float_reader<wchar_t>::read_regular_float'
    elem = 4


class Hex(Regular):
    fn = 'vp_hex_c'
    func = 'impl::float_reader<char>::read_hexfloat'
    base = 16
    exp = 'p'
    hexa = True

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, ok = ret_off(it, s.o)
        r = s.idx(f)
        good = z3.Or(z3.UGT(s.i1, 0), z3.UGT(s.i3, s.i2))
        out = [('a number exactly if there are digits', (code == 0) == good), ('no number: invalid value', z3.Implies(z3.Not(good), code == E_INVALID)),
               ('ends after digits, point, digits and exponent', z3.Implies(good, z3.And(ok, r == z3.If(s.hasexp, s.e3, s.i3))))]
        u = [s.unf(s.E1, BV(0, 64)), s.unf(s.E2, s.i2)]
        return [(n, z3.Implies(z3.And(*u), g)) for n, g in out]

    def cover(s, ex, ret, mem):
        r = s.idx(ret_off(ret[0], s.o)[0])
        return [('number', z3.And(ret[1] == 0, z3.UGT(r, 9))), ('none', ret[1] == E_INVALID)]


class HexW(Hex):
    fn = 'vp_hex_w'
    func = 'impl::float_reader<wchar_t>::read_hexfloat'
    elem = 4


class Inf(BufSpec):
    fn = 'vp_inf_c'
    func = 'impl::float_reader<char>::read_inf, read_matching_string_classic_nocase'

    def setup(s, ex):
        p = s.buf(ex)
        s.rd = ex.new_obj('reader', 512, 'cells')
        ex.init_mem[s.rd] = Cells({})
        s.ko = ex.new_obj('kind', 4, 'cells')
        ex.init_mem[s.ko] = Cells({0: (4, z3.BitVec('oldkind', 32))})
        return [Ptr.to(s.rd), p, s.n, Ptr.to(s.ko)]

    def word(s, w, at=0):
        return z3.And(z3.UGE(s.n, at + len(w)), *[low(sel(s.arr, BV(at + i, 64))) == ord(x) for i, x in enumerate(w)])

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, ok = ret_off(it, s.o)
        r = s.idx(f)
        kind = ex.cell_get(mem, s.ko, 0, 4)
        short, lng = s.word('inf'), s.word('infinity')
        return [('matches exactly "inf" without case', (code == 0) == short),
                ('takes "infinity" whole, else "inf"', z3.Implies(short, z3.And(ok, r == z3.If(lng, BV(8, 64), BV(3, 64))))),
                ('kind', kind == z3.If(lng, BV(K_INFL, 32), z3.If(short, BV(K_INF, 32), BV(K_TBD, 32))))]

    def call(s, ex, name, args, ins, mem, reach):
        return string_call(ex, name, args, mem, reach)

    def cover(s, ex, ret, mem):
        k = ex.cell_get(mem, s.ko, 0, 4)
        return [('long', k == K_INFL), ('short', k == K_INF), ('none', k == K_TBD)]


class InfW(Inf):
    fn = 'vp_inf_w'
    func = 'impl::float_reader<wchar_t>::read_inf, read_matching_string_classic_nocase'
    elem = 4


class Nan(Inf):
    fn = 'vp_nan_c'
    func = 'impl::float_reader<char>::read_nan'

    def setup(s, ex):
        a = Inf.setup(s, ex)
        if s.elem == 4:
            s.strides = (1, 4, 8, 16)
        s.E = z3.Function('E', z3.BitVecSort(64), z3.BitVecSort(64))
        s.at_load(lambda k: [s.unf(k)])
        ex.axioms.append(s.E(s.n) == s.n)
        return a

    def unf(s, k):
        c = sel(s.arr, k)
        d = z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(low(c), 97), z3.ULE(low(c), 122)), c == 0x5f)
        return z3.And(s.E(k) == z3.If(z3.And(z3.ULT(k, s.n), d), s.E(k + 1), k), z3.Implies(z3.ULE(k, s.n), z3.And(z3.ULE(k, s.E(k)), z3.ULE(s.E(k), s.n))))

    def ghost_candidates(s):
        return [('payload', lambda k: s.E(k) == s.E(BV(4, 64))), ('payload starts', lambda k: z3.ULE(4, k))]

    def call(s, ex, name, args, ins, mem, reach):
        if 'contiguous_range_factory' in name and '6assign' in name:
            ex.trusted['contiguous_range_factory::assign'] = 'keeps the given text (no effect on anything else)'
            o, f = args[1].single()
            b, ok = ret_off(ex.load(mem, Ptr.to(o, f), ('ptr',), reach, 'text'), s.o)
            e, ok2 = ret_off(ex.load(mem, Ptr.to(o, simp(f + 8)), ('ptr',), reach, 'text'), s.o)
            ex.oblige('the payload is kept', reach, z3.And(ok, ok2, b == 4 * s.elem, e == s.E(BV(4, 64)) * s.elem), 'pre')
            return None
        return string_call(ex, name, args, mem, reach)

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, ok = ret_off(it, s.o)
        r = s.idx(f)
        kind = ex.cell_get(mem, s.ko, 0, 4)
        nan = s.word('nan')
        par = z3.And(nan, z3.UGT(s.n, 3), sel(s.arr, BV(3, 64)) == 0x28)
        e = s.E(BV(4, 64))
        closed = z3.And(z3.ULT(e, s.n), sel(s.arr, e) == 0x29)
        out = [('matches exactly "nan" without case and with a complete payload', (code == 0) == z3.And(nan, z3.Or(z3.Not(par), closed))),
               ('bad payload: invalid value', z3.Implies(z3.And(code != 0, nan), code == E_INVALID)),
               ('takes "nan" and the payload', z3.Implies(code == 0, z3.And(ok, r == z3.If(par, e + 1, BV(3, 64))))),
               ('kind', kind == z3.If(par, BV(K_NANP, 32), z3.If(nan, BV(K_NAN, 32), BV(K_TBD, 32))))]
        return [(n, z3.Implies(z3.And(s.unf(BV(4, 64)), s.unf(e)), g)) for n, g in out]

    def cover(s, ex, ret, mem):
        k = ex.cell_get(mem, s.ko, 0, 4)
        return [('payload', z3.And(ret[1] == 0, k == K_NANP)), ('simple', z3.And(ret[1] == 0, k == K_NAN)), ('none', k == K_TBD)]


class NanW(Nan):
    fn = 'vp_nan_w'
    func = 'impl::float_reader<wchar_t>::read_nan'
    elem = 4


class Options(Spec):
    fn = 'vp_float_options'
    func = 'impl::reader_impl_for_float::get_options'

    def setup(s, ex):
        s.pre = []
        s.w, s.l = z3.BitVec('which', 32), z3.Bool('loc')
        s.requires(z3.ULE(s.w, 4))
        s.inputs = {'which': s.w, 'loc': s.l}
        return [s.w, s.l]

    def ensures(s, ex, ret, mem):
        return [(f'presentation {nm}', z3.Implies(s.w == i, ret == (z3.If(s.l, BV(8, 32), BV(0, 32)) | v))) for i, (nm, v) in enumerate((('default', 7), ('f', 4), ('e', 2), ('a', 1), ('g', 6)))]


SORT = {'d': (z3.Float64(), 8), 'f': (z3.Float32(), 4), 'l': (z3.FPSort(15, 64), 16)}


class Parse(BufSpec):
    """the conversion function is arbitrary: it stores how far it read and returns any value"""
    fn = 'vp_parse_cd'
    func = 'impl::strtod_impl_base<double>::parse, check_error'
    ty = 'd'

    def setup(s, ex):
        p = s.buf(ex)
        s.kind, s.opt, s.errno0, s.errno = z3.BitVecs('kind opt errno0 errno', 32)
        s.used = z3.BitVec('used', 64)
        s.fs, s.sz = SORT[s.ty]
        s.v = z3.Const('strtod', s.fs)
        s.requires(z3.ULE(s.kind, 9), z3.ULT(s.opt, 16), z3.ULE(s.used, s.n))
        s.inputs.update(kind=s.kind, opt=s.opt, used=s.used)
        s.eo = ex.new_obj('errno', 4, 'cells')
        ex.init_mem[s.eo] = Cells({0: (4, s.errno0)})
        s.vo = ex.new_obj('value', s.sz, 'cells')
        ex.init_mem[s.vo] = Cells({0: (s.sz, z3.Const('old', s.fs))})
        s.co = ex.new_obj('count', 8, 'cells')
        ex.init_mem[s.co] = Cells({0: (8, z3.BitVec('oldcount', 64))})
        return [p, s.kind, s.opt, Ptr.to(s.vo), Ptr.to(s.co)]

    def call(s, ex, name, args, ins, mem, reach):
        if name == '__errno_location':
            return Ptr.to(s.eo)
        if name.startswith('vp_ev_strtod'):
            f, ok = ret_off(args[0], s.o)
            ex.oblige('the conversion is given the whole text', reach, z3.And(ok, f == 0), 'pre')
            ex.oblige('errno is cleared before the conversion', reach, ex.cell_get(mem, s.eo, 0, 4) == 0, 'pre')
            ex.store(mem, args[1], Ptr.to(s.o, s.used * s.elem), 8, reach, 'end')
            ex.store(mem, Ptr.to(s.eo), s.errno, 4, reach, 'errno')
            return s.v
        return string_call(ex, name, args, mem, reach)

    def ensures(s, ex, ret, mem):
        zero = z3.fpIsZero(s.v)
        inf = z3.fpIsInf(s.v)
        none = z3.And(zero, s.used == 0)
        hexbad = z3.And(s.kind == K_HEX, s.opt & 1 == 0)
        under = z3.And(zero, s.errno == 34)
        over = z3.And(inf, s.kind != K_INF, s.kind != K_INFL)
        want = z3.If(none, BV(E_INVALID, 32), z3.If(hexbad, BV(E_INVALID, 32), z3.If(under, BV(E_POSU, 32), z3.If(over, BV(E_POS, 32), BV(0, 32)))))
        c = ex.cell_get(mem, s.co, 0, 8)
        # the text was given a prefix of two characters; it is not part of the source
        n = z3.If(z3.And(s.kind == K_HEXNO, z3.UGE(s.used, 2)), s.used - 2, s.used)
        return [('errors: nothing converted, forbidden hexadecimal, underflow to zero, overflow to infinity', ret == want),
                ('reports exactly what the conversion used', z3.Implies(ret == 0, c == n)),
                ('stores the converted value', z3.Implies(ret == 0, s.stored(ex, mem)))]

    def stored(s, ex, mem):
        v = ex.load(mem, Ptr.to(s.vo), ({'d': 'double', 'f': 'float', 'l': 'x86_fp80'}[s.ty],), z3.BoolVal(True), 'value')
        return v == s.v

    def cover(s, ex, ret, mem):
        return [('ok', z3.And(ret == 0, s.used == 5)), ('overflow', ret == E_POS), ('underflow', ret == E_POSU), ('invalid', ret == E_INVALID)]


class ParseF(Parse):
    fn = 'vp_parse_cf'
    func = 'impl::strtod_impl_base<float>::parse, check_error'
    ty = 'f'


class ParseL(Parse):
    fn = 'vp_parse_cl'
    func = 'impl::strtod_impl_base<long double>::parse, check_error'
    ty = 'l'


class ParseW(Parse):
    fn = 'vp_parse_wd'
    func = 'impl::strtod_impl_base<double>::parse<wchar_t>, check_error'
    elem = 4


ITY = {'d': 'double', 'f': 'float', 'l': 'x86_fp80'}


class Conv(BufSpec):
    """helpers for functions that return scan_expected<ptrdiff_t> through memory: {count | message, code}, then the flag"""
    ty = 'd'

    def dest(s, ex):
        s.fs, s.sz = SORT[s.ty]
        s.v = z3.Const('converted', s.fs)
        s.cnt, s.err = z3.BitVec('used', 64), z3.BitVec('err', 32)
        s.good = z3.Bool('good')
        s.inputs.update(used=s.cnt, err=s.err)
        s.requires(z3.ULE(s.err, 10))
        s.vo = ex.new_obj('value', s.sz, 'cells')
        s.old = z3.Const('old', s.fs)
        ex.init_mem[s.vo] = Cells({})
        ex.store(ex.init_mem, Ptr.to(s.vo), s.old, 10 if s.ty == 'l' else s.sz, z3.BoolVal(True), 'value')
        s.co = ex.new_obj('count', 8, 'cells')
        ex.init_mem[s.co] = Cells({0: (8, z3.BitVec('oldcount', 64))})
        return [Ptr.to(s.vo), Ptr.to(s.co)]

    def result(s, ex, mem, ret, reach):
        """the callee: stores any value, and reports any count or error"""
        ex.store(mem, Ptr.to(s.vo), s.v, 10 if s.ty == 'l' else s.sz, reach, 'value')
        ro, f = ret.single()
        ex.store(mem, Ptr.to(ro, f), s.cnt, 8, reach, 'result')
        ex.store(mem, Ptr.to(ro, simp(f + 8)), s.err, 4, reach, 'result')
        ex.store(mem, Ptr.to(ro, simp(f + 16)), z3.If(s.good, BV(1, 8), BV(0, 8)), 1, reach, 'result')

    def stored(s, ex, mem):
        return ex.load(mem, Ptr.to(s.vo), (ITY[s.ty],), z3.BoolVal(True), 'value')


class Value(Conv):
    fn = 'vp_value_cd'
    func = 'impl::float_reader<char>::parse_value_impl<double>, setsign'

    def setup(s, ex):
        s.pre, s.inputs = [], {}
        s.insts, s.seen = [], {}
        s.o = None
        s.sign, s.opt = z3.BitVecs('sign opt', 32)
        s.requires(z3.ULE(s.sign, 2))
        s.inputs['sign'] = s.sign
        s.rd = ex.new_obj('reader', 512, 'cells')
        ex.init_mem[s.rd] = Cells({})
        return [Ptr.to(s.rd), s.sign] + s.dest(ex)

    def call(s, ex, name, args, ins, mem, reach):
        if '13dispatch_impl' in name:
            s.result(ex, mem, args[0], reach)
            return None
        return string_call(ex, name, args, mem, reach)

    def ensures(s, ex, ret, mem):
        v = s.stored(ex, mem)
        neg = s.sign == 0
        nan = z3.fpIsNaN(s.v)
        e = s.err + 1
        want = z3.If(z3.And(neg, e == E_POS), BV(E_NEG, 32), z3.If(z3.And(neg, e == E_POSU), BV(E_NEGU, 32), e))
        return [('succeeds with the conversion', (ret == 0) == s.good), ('range errors carry the sign, others pass through', z3.Implies(z3.Not(s.good), ret == want)),
                ('the sign of the text is the sign of the value', z3.Implies(z3.And(s.good, z3.Not(nan)), v == z3.If(neg, z3.fpNeg(z3.fpAbs(s.v)), z3.fpAbs(s.v)))), ('not-a-number stays so', z3.Implies(z3.And(s.good, nan), z3.fpIsNaN(v))),
                ('the count is that of the conversion', z3.Implies(s.good, ex.cell_get(mem, s.co, 0, 8) == s.cnt))]

    def cover(s, ex, ret, mem):
        return [('ok', ret == 0), ('negative overflow', ret == E_NEG), ('negative underflow', ret == E_NEGU), ('overflow', ret == E_POS)]


class ValueF(Value):
    fn = 'vp_value_cf'
    func = 'impl::float_reader<char>::parse_value_impl<float>, setsign'
    ty = 'f'


class ValueL(Value):
    fn = 'vp_value_cl'
    func = 'impl::float_reader<char>::parse_value_impl<long double>, setsign'
    ty = 'l'


class ValueW(Value):
    fn = 'vp_value_wd'
    func = 'impl::float_reader<wchar_t>::parse_value_impl<double>, setsign'


class Dispatch(Conv):
    fn = 'vp_dispatch_cd'
    func = 'impl::dispatch_impl<char, double>, fast_float_fallback'

    def setup(s, ex):
        p = s.buf(ex)
        s.kind, s.opt = z3.BitVecs('kind opt', 32)
        s.pay = z3.BitVec('payload', 64)
        s.requires(z3.UGE(s.kind, 1), z3.ULE(s.kind, 9), z3.ULT(s.opt, 16), z3.ULE(s.pay, MAXLEN))
        s.requires(z3.Or(s.n != 0, z3.UGE(s.kind, K_INF)))
        s.inputs.update(kind=s.kind, opt=s.opt, payload=s.pay)
        s.g = ex.new_obj('ghost', 8, 'cells')
        ex.init_mem[s.g] = Cells({0: (1, BV(0, 8))}, 'ghost')
        return [p, s.n, s.kind, s.opt, s.pay] + s.dest(ex)

    def call(s, ex, name, args, ins, mem, reach):
        if name == 'vp_ev_raw':
            s.raw = args[0]
            return None
        if '11strtod_impl' in name:
            ret, me, val = args[:3]
            o, f = me.single()
            kind = ex.load(mem, Ptr.to(o, f), ('i', 32), reach, 'kind')
            s.kinds(ex, kind, reach)
            ex.store(mem, Ptr.to(s.g), BV(1, 8), 1, reach, 'ghost')
            q = ex.load(mem, Ptr.to(o, simp(f + 8)), ('ptr',), reach, 'input')
            io, iof = q.single()
            src = ex.load(mem, Ptr.to(io, simp(iof + 48)), ('ptr',), reach, 'input')
            f2, ok = ret_off(src, s.o)
            ln = ex.load(mem, Ptr.to(io, simp(iof + 40)), ('i', 64), reach, 'input')
            ex.oblige('the conversion is given the text', reach, z3.And(ok, f2 == 0, ln == s.n), 'pre')
            s.result(ex, mem, ret, reach)
            return None
        return string_call(ex, name, args, mem, reach)

    def kinds(s, ex, kind, reach):
        ex.oblige('the conversion is given the kind', reach, kind == s.raw, 'pre')

    def ensures(s, ex, ret, mem):
        v = s.stored(ex, mem)
        c = ex.cell_get(mem, s.co, 0, 8)
        called = ex.cell_get(mem, s.g, 0, 1) != 0
        inf = z3.fpPlusInfinity(s.fs)
        c0 = sel(s.arr, BV(0, 64))
        d = digit(c0)
        bad = z3.UGE(d, z3.If(s.kind == K_HEXNO, BV(16, 8), BV(10, 8)))
        num = z3.ULT(s.kind, K_INF)
        return [('inf', z3.Implies(s.kind == K_INF, z3.And(ret == 0, v == inf, c == 3))), ('infinity', z3.Implies(s.kind == K_INFL, z3.And(ret == 0, v == inf, c == 8))),
                ('nan', z3.Implies(s.kind == K_NAN, z3.And(ret == 0, z3.fpIsNaN(v), c == 3))), ('nan with payload', z3.Implies(s.kind == K_NANP, z3.And(ret == 0, z3.fpIsNaN(v), c == 5 + s.pay))),
                ('a number must start with a digit', z3.Implies(z3.And(num, bad), ret == E_INVALID)),
                ('else it is converted', z3.Implies(z3.And(num, z3.Not(bad)), z3.And(called, (ret == 0) == s.good))),
                ('the result is that of the conversion', z3.Implies(z3.And(num, z3.Not(bad)), z3.If(s.good, z3.And(v == s.v, c == s.cnt), ret == s.err + 1)))]

    def cover(s, ex, ret, mem):
        return [('number', z3.And(ret == 0, s.kind == K_GEN)), ('hexadecimal without prefix', z3.And(ret == 0, s.kind == K_HEXNO)), ('error', ret == E_POS)]


class DispatchF(Dispatch):
    fn = 'vp_dispatch_cf'
    func = 'impl::dispatch_impl<char, float>, fast_float_fallback'
    ty = 'f'


class DispatchL(Dispatch):
    fn = 'vp_dispatch_cl'
    func = 'impl::dispatch_impl<char, long double>, fast_float_fallback'
    ty = 'l'


class DispatchW(Dispatch):
    fn = 'vp_dispatch_wd'
    func = 'impl::dispatch_impl<wchar_t, double>, fast_float_fallback'
    elem = 4


class Source(BufSpec):
    """the readers of each syntax by their contracts: Inf, Nan, Regular, Hex(k) accept the text from k or not, and end somewhere after k"""
    fn = 'vp_source_c'
    func = 'impl::float_reader<char>::read_source_impl, do_read_source_impl, read_hex_prefix'

    def setup(s, ex):
        p = s.buf(ex)
        I = z3.BitVecSort(64)
        s.opt = z3.BitVec('opt', 32)
        s.sep, s.dp = z3.BitVecs('sep dp', 8 * s.elem)
        s.inputs.update(opt=s.opt, sep=s.sep, dp=s.dp)
        s.requires(z3.ULT(s.opt, 16), s.opt & 7 != 0)
        s.F = {n: (z3.Function(n + 'Ok', I, z3.BoolSort()), z3.Function(n + 'End', I, I), z3.Function(n + 'Kind', I, z3.BitVecSort(32))) for n in ('Inf', 'Nan', 'Reg', 'Hex')}
        s.NanMatch = z3.Function('NanMatch', I, z3.BoolSort())
        for n in ('kind', 'sign'):
            o = ex.new_obj(n, 4, 'cells')
            ex.init_mem[o] = Cells({0: (4, z3.BitVec('old' + n, 32))})
            setattr(s, n[0] + 'o', o)
        s.rd = ex.new_obj('reader', 512, 'cells')
        ex.init_mem[s.rd] = Cells({})
        s.g = ex.new_obj('ghost', 32, 'cells')
        # 0: text kept  8: from  16: to  1: separators handled after that
        ex.init_mem[s.g] = Cells({0: (1, BV(0, 8)), 1: (1, BV(0, 8)), 8: (8, BV(0, 64)), 16: (8, BV(0, 64))}, 'ghost')
        return [Ptr.to(s.rd), p, s.n, s.opt, s.sep, s.dp, Ptr.to(s.ko), Ptr.to(s.so)]

    def text(s, ex, b, e, reach):
        f, ok = ret_off(b, s.o)
        g, ok2 = ret_off(e, s.o)
        ex.oblige('the callee is given the rest of the text', reach, z3.And(ok, ok2, g == s.nb, z3.ULE(f, g)), 'pre')
        return s.idx(f)

    def facts(s, n, k):
        ok, end, kind = s.F[n]
        return z3.And(z3.Implies(z3.And(ok(k), z3.ULE(k, s.n)), z3.And(z3.UGT(end(k), k), z3.ULE(end(k), s.n))), z3.Implies(k == s.n, z3.Not(ok(k))))

    def kinds(s, n, k):
        kind = s.F[n][2](k)
        return {'Inf': z3.Or(kind == K_INF, kind == K_INFL), 'Nan': z3.Or(kind == K_NAN, kind == K_NANP), 'Reg': z3.Or(kind == K_FIX, kind == K_SCI)}[n]

    def setkind(s, ex, mem, v, reach):
        # enumerators in the order of vp_kind (harness); stored where the reader keeps its kind
        ex.store(mem, s.kp, v, 4, reach, 'kind')

    def call(s, ex, name, args, ins, mem, reach):
        if name == 'vp_ev_kind':
            s.kp = args[0]
            return None
        if '8read_infI' in name:
            k = s.text(ex, args[1], args[2], reach)
            ok, end, kind = s.F['Inf']
            ex.axiom(z3.And(s.facts('Inf', k), s.kinds('Inf', k)), reach)
            old = ex.load(mem, s.kp, ('i', 32), reach, 'kind')
            s.setkind(ex, mem, z3.If(ok(k), kind(k), old), reach)
            code = ex.fresh(64, 'inf_error')
            return [Ptr([(ok(k), s.o, simp(end(k) * s.elem)), (Not(ok(k)), NULL, code)]), z3.If(ok(k), BV(1, 8), BV(0, 8))]
        for tag, n in (('8read_nanI', 'Nan'), ('18read_regular_float', 'Reg'), ('13read_hexfloat', 'Hex')):
            if tag in name:
                ret, rd, b, e = args
                k = s.text(ex, b, e, reach)
                ok, end, kind = s.F[n]
                ex.axiom(s.facts(n, k), reach)
                if n != 'Hex':
                    ex.axiom(s.kinds(n, k), reach)
                    old = ex.load(mem, s.kp, ('i', 32), reach, 'kind')
                    took = ok(k) if n == 'Reg' else s.NanMatch(k)
                    ex.axiom(z3.Implies(ok(k), took), reach)
                    s.setkind(ex, mem, z3.If(took, kind(k), old), reach)
                ro, f = ret.single()
                ex.store(mem, Ptr.to(ro, f), Ptr.to(s.o, simp(end(k) * s.elem)), 8, reach, 'result')
                ex.store(mem, Ptr.to(ro, simp(f + 8)), BV(E_INVALID - 1, 32), 4, reach, 'result')
                ex.store(mem, Ptr.to(ro, simp(f + 16)), z3.If(ok(k), BV(1, 8), BV(0, 8)), 1, reach, 'result')
                return None
        if 'contiguous_range_factory' in name and '6assign' in name:
            o, f = args[1].single()
            b, ok = ret_off(ex.load(mem, Ptr.to(o, f), ('ptr',), reach, 'text'), s.o)
            e, ok2 = ret_off(ex.load(mem, Ptr.to(o, simp(f + 8)), ('ptr',), reach, 'text'), s.o)
            ex.oblige('the kept text lies in the source', reach, z3.And(ok, ok2), 'pre')
            ex.trusted['contiguous_range_factory::assign'] = 'keeps the given text (no effect on anything else)'
            for off, v, n in ((0, BV(1, 8), 1), (1, BV(0, 8), 1), (8, s.idx(b), 8), (16, s.idx(e), 8)):
                ex.store(mem, Ptr.to(s.g, off), v, n, reach, 'ghost')
            return None
        if '17handle_separators' in name:
            ex.store(mem, Ptr.to(s.g, 1), BV(1, 8), 1, reach, 'ghost')
            return None
        return string_call(ex, name, args, mem, reach)

    def ensures(s, ex, ret, mem):
        it, code = ret
        f, inside = ret_off(it, s.o)
        r = s.idx(f)
        kind, sign = ex.cell_get(mem, s.ko, 0, 4), ex.cell_get(mem, s.so, 0, 4)
        c = lambda k: sel(s.arr, k)
        c0 = c(BV(0, 64))
        p = z3.If(z3.And(s.n != 0, z3.Or(c0 == 0x2b, c0 == 0x2d)), BV(1, 64), BV(0, 64))
        plain = z3.And(s.sep == 0, s.dp == 0x2e)
        (iok, iend, ikind), (nok, nend, nkind), (rok, rend, rkind), (hok, hend, _) = [s.F[n] for n in ('Inf', 'Nan', 'Reg', 'Hex')]
        prefix = z3.And(z3.ULT(p + 1, s.n), c(p) == 0x30, low(c(p + 1)) == 0x78)
        hexo, both = s.opt & 7 == 1, z3.And(s.opt & 1 != 0, s.opt & 6 != 0)
        word = z3.Or(iok(p), s.NanMatch(p))
        num = z3.And(s.n != 0, z3.Not(word))
        # without separators and with the usual point the whole rest may be kept: the conversion finds the end
        end_is = lambda ok, e, q: z3.If(code == 0, z3.Or(z3.And(ok(q), r == e(q)), z3.And(plain, r == s.n, z3.ULT(p, s.n))), z3.And(code == E_INVALID, z3.Or(z3.Not(ok(q)), z3.And(plain, p == s.n))))
        hasp = z3.And(z3.Or(hexo, both), prefix, z3.Or(hok(p + 2), z3.And(plain, code == 0)))
        kept = ex.cell_get(mem, s.g, 0, 1) != 0
        sep = ex.cell_get(mem, s.g, 1, 1) != 0
        good = z3.And(num, code == 0)
        hyp = [s.facts(n, q) for n in s.F for q in (p, p + 2)] + [s.kinds(n, q) for n in ('Inf', 'Nan', 'Reg') for q in (p,)] + [z3.Implies(nok(p), s.NanMatch(p))]
        out = [('end of input exactly for an empty source', (code == E_EOF) == (s.n == 0)),
               ('sign', z3.Implies(code == 0, sign == z3.If(p == 0, BV(2, 32), z3.If(c0 == 0x2d, BV(0, 32), BV(1, 32))))),
               ('the end lies in the source', z3.Implies(code == 0, z3.And(inside, z3.ULE(r, s.n)))),
               ('infinity', z3.Implies(z3.And(s.n != 0, iok(p)), z3.And(code == 0, r == iend(p), kind == ikind(p)))),
               ('not-a-number', z3.Implies(z3.And(s.n != 0, z3.Not(iok(p)), s.NanMatch(p)), z3.If(nok(p), z3.And(code == 0, r == nend(p), kind == nkind(p)), code == E_INVALID))),
               ('hexadecimal with prefix', z3.Implies(z3.And(num, hasp), z3.And(end_is(hok, hend, p + 2), z3.Implies(code == 0, kind == K_HEX)))),
               ('only hexadecimal allowed, no prefix or nothing after it', z3.Implies(z3.And(num, z3.Not(hasp), hexo), z3.And(end_is(hok, hend, p), z3.Implies(code == 0, kind == K_HEXNO)))),
               ('not hexadecimal', z3.Implies(z3.And(num, z3.Not(hasp), z3.Not(hexo)), z3.And(end_is(rok, rend, p), z3.Implies(code == 0, z3.Or(kind == K_GEN, kind == K_FIX, kind == K_SCI))))),
               ('the text of the number is kept for the conversion', z3.Implies(good, z3.And(kept, ex.cell_get(mem, s.g, 8, 8) == p, ex.cell_get(mem, s.g, 16, 8) == r))),
               ('separators are removed from it', z3.Implies(good, sep))]
        return [(n, z3.Implies(z3.And(*hyp), g)) for n, g in out]

    def cover(s, ex, ret, mem):
        k = ex.cell_get(mem, s.ko, 0, 4)
        return [(f'kind {i}', z3.And(ret[1] == 0, k == i)) for i in (K_GEN, K_FIX, K_SCI, K_HEXNO, K_HEX, K_INF, K_NANP)] + [('invalid', ret[1] == E_INVALID)]


class SourceW(Source):
    fn = 'vp_source_w'
    func = 'impl::float_reader<wchar_t>::read_source_impl, do_read_source_impl, read_hex_prefix'
    elem = 4
