"""Numbers read with the localized option: separators are dropped, the digits are kept in order."""
from lib import *
from ints import digit
from prefix import Read


def trust_string(ex):
    ex.trusted['std::basic_string (push_back, copy)'] = 'push_back appends its argument, a copy has the same text (libstdc++); where the text is stored is not modelled'


class Strings(BufSpec):
    """strings built by push_back: every string object gets a ghost text, its length is the length member of the object"""

    def strings(s, ex, n=3):
        s.texts = [ex.buffer(f'text{i}', BV(1 << 60, 64), 1 if i else s.elem, True)[0] for i in range(n)]
        s.copies = [ex.buffer(f'copy{i}', BV(1 << 60, 64), 1 if i else s.elem, True)[0] for i in range(n)]
        s.owner = getattr(s, 'owner', {})       # kept between passes over the code

    def text_of(s, o, off, wide):
        k = (o.name, conc(off))
        if k not in s.owner:
            used = set(s.owner.values())
            free = [i for i in range(len(s.texts)) if i not in used and s.texts[i].elem == wide]
            if not free:
                raise VCError('more strings than expected')
            s.owner[k] = free[0]
        return s.texts[s.owner[k]]

    def call(s, ex, name, args, ins, mem, reach):
        if name.startswith('_ZNSt7__cxx1112basic_string') and 'E9push_backE' in name:
            o, off = args[0].single()
            w = 4 if 'basic_stringIw' in name else 1
            g = s.text_of(o, off, w)
            p = Ptr.to(o, off)
            n = ex.load(mem, Ptr.to(o, simp(off + 8)), ('i', 64), reach, 'length')
            ex.store(mem, Ptr.to(g, simp(n * w)), args[1], w, reach, 'text')
            ex.store(mem, p, Ptr.to(g), 8, reach, 'text pointer')
            ex.store(mem, Ptr.to(o, simp(off + 8)), simp(n + 1), 8, reach, 'length')
            trust_string(ex)
            return None
        if name.startswith('_ZNSt7__cxx1112basic_string') and '12_M_constructIP' in name:
            dst, b, e = args[:3]
            w = 4 if 'basic_stringIw' in name else 1
            do, doff = dst.single()
            src = [o for c, o, f in b.alts if o in s.texts]
            if len(src) != 1:
                raise VCError('copy of an unknown string')
            g = src[0]
            h = s.copies[s.texts.index(g)]
            bo, ok = ret_off(b, g)
            eo, ok2 = ret_off(e, g)
            n = z3.If(ok, eo - bo, BV(0, 64))
            ex.oblige('the copy starts where the text does', reach, z3.And(ok == ok2, z3.Implies(ok, z3.And(bo == 0, z3.ULE(eo, 1 << 60)))), 'pre')
            mem[h] = ex.content(mem, g)
            ex.note_write(h)
            ex.store(mem, Ptr.to(do, doff), Ptr.to(h), 8, reach, 'copy')
            ex.store(mem, Ptr.to(do, simp(doff + 8)), simp(n if w == 1 else z3.LShR(n, 2)), 8, reach, 'copy')
            trust_string(ex)
            return None
        return string_call(ex, name, args, mem, reach)

    def string_invariants(s, ex, L, strobjs):
        for o in strobjs:
            def cond(S, o=o):
                c = S.mem[o].d[0][1]
                n = S.mem[o].d[8][1]
                if not isinstance(c, Ptr):
                    return z3.BoolVal(False)
                loc = [k for k, oo, f in c.alts if oo is o]
                return (z3.Or(*loc) if loc else z3.BoolVal(False)) == (n == 0)
            yield (f'{o.name}: text moved out of the object exactly when it has some', cond, False)

            def at0(S, o=o):
                c = S.mem[o].d[0][1]
                return z3.And(*[z3.Implies(k, f == (16 if oo is o else 0)) for k, oo, f in c.alts])
            yield (f'{o.name}: text pointer at the start', at0, False)


class Thsep(Strings):
    """R(k): digits among the first k units (the others are separators); q: any position, r = R(q) its place in the output"""
    fn = 'vp_thsep_c'
    func = 'impl::parse_integer_digits_with_thsep<subrange<const char*>, char>'
    head_inst = True

    def setup(s, ex):
        p = s.buf(ex)
        s.strings(ex, 3)
        I = z3.BitVecSort(64)
        s.base = z3.BitVec('base', 32)
        s.sep = z3.BitVec('sep', 8 * s.elem)
        s.q = z3.BitVec('q', 64)
        s.inputs.update(base=s.base, sep=s.sep)
        s.requires(z3.UGE(s.base, 2), z3.ULE(s.base, 36))
        s.R = z3.Function('R', I, I)
        s.All = z3.Function('All', I, z3.BoolSort())
        # Z: where the run of digits and separators ends
        s.Z = z3.BitVec('Z', 64)
        ex.axioms += [s.R(BV(0, 64)) == 0, s.All(BV(0, 64)), z3.Implies(s.All(s.n), s.Z == s.n)]

        def inst(k):
            return [s.R(k + 1) == s.R(k) + z3.If(s.is_sep(k), BV(0, 64), BV(1, 64)), s.All(k + 1) == z3.And(s.All(k), s.part(k)),
                    z3.Implies(z3.And(s.All(k), z3.ULT(k, s.n), z3.Not(s.part(k))), s.Z == k)]
        s.at_load(inst)
        s.lo = ex.new_obj('options', 64, 'cells')
        ex.init_mem[s.lo] = Cells({})
        s.ev = None
        return [Ptr.to(s.lo), p, s.n, s.base, s.sep]

    def is_sep(s, k):
        return z3.And(s.sep != 0, sel(s.arr, k) == s.sep)

    def is_digit(s, k):
        c = sel(s.arr, k)
        if s.elem == 1:
            d = z3.ZeroExt(24, digit(c))
        else:
            d = z3.If(z3.ULE(c, 255), z3.ZeroExt(24, digit(z3.Extract(7, 0, c))), BV(255, 32))
        return z3.ULT(d, s.base)

    def part(s, k):
        return z3.Or(s.is_sep(k), s.is_digit(k))

    def kept(s, content, k):
        return z3.Implies(z3.And(z3.ULT(s.q, k), z3.Not(s.is_sep(s.q))), z3.And(z3.ULT(s.R(s.q), s.R(k)), sel(content, s.R(s.q)) == sel(s.arr, s.q)))

    def ghost_candidates(s):
        return [('all digits or separators', lambda k: s.All(k)), ('R bounded', lambda k: z3.ULE(s.R(k), k))]

    def more_invariants(s, ex, L):
        strs = [o for o, c in L.cur.mem.items() if isinstance(c, Cells) and 0 in c.d and 8 in c.d and any(k[0] == o.name for k in s.owner)]
        yield from s.string_invariants(ex, L, strs)
        for x in T.positions(ex, L, s.o):
            if x.kind != 'ptr':
                continue
            at = lambda S, x=x: s.idx(x.get(S))
            for o in strs:
                ln = lambda S, o=o: S.mem[o].d[8][1]
                yield (f'{o.name}: length == R({x.name})', lambda S, at=at, ln=ln: ln(S) == s.R(at(S)), False)
                yield (f'{o.name}: length == {x.name} - R({x.name})', lambda S, at=at, ln=ln: ln(S) == at(S) - s.R(at(S)), False)
            for g in s.texts:
                if g in L.cur.mem and g.elem == s.elem:
                    yield (f'{g.name}: holds the digits before {x.name}', lambda S, at=at, g=g: s.kept(ex.content(S.mem, g), at(S)), False)
            for y in T.carried(ex, L):
                if y.kind == 'bool':
                    yield (f'{y.name} == some digit before {x.name}', lambda S, at=at, y=y: y.get(S) == (s.R(at(S)) != 0), False)
                elif y.kind == 'int' and y.width <= 32:
                    yield (f'{y.name} == some digit before {x.name}', lambda S, at=at, y=y: y.get(S) == z3.If(s.R(at(S)) != 0, BV(1, y.width), BV(0, y.width)), False)

    def call(s, ex, name, args, ins, mem, reach):
        if name == 'vp_ev_digits':
            c, size, seps = args
            h = [o for _, o, _ in c.alts if o in s.copies + s.texts]
            if len(h) != 1:
                raise VCError('unknown text')
            off, ok = ret_off(c, h[0])
            s.ev = (reach, z3.And(ok, off == 0), ex.content(mem, h[0]), size, seps)
            return None
        return Strings.call(s, ex, name, args, ins, mem, reach)

    def ensures(s, ex, ret, mem):
        it, code = ret
        b, ok = ret_off(it, s.o)
        e = s.idx(b)
        good = code == 0
        reach, okc, content, size, seps = s.ev
        return [('success, or no digit', z3.Or(good, code == E_INVALID)),
                ('the digits end where neither a digit nor a separator follows', z3.Implies(good, z3.And(ok, e == s.Z, z3.ULE(e, s.n)))),
                ('the output are the digits in order', z3.Implies(good, z3.And(okc, s.kept(content, e)))),
                ('and nothing else', z3.Implies(good, z3.And(size == s.R(e), size != 0))),
                ('the separators are counted', z3.Implies(good, seps == e - s.R(e))),
                ('invalid exactly without a digit', (code == E_INVALID) == (s.R(s.Z) == 0))]

    def cover(s, ex, ret, mem):
        reach, okc, content, size, seps = s.ev
        return [('digits and separators', z3.And(ret[1] == 0, size == 4, seps == 2)), ('invalid', ret[1] == E_INVALID)]


class ThsepW(Thsep):
    fn = 'vp_thsep_w'
    func = 'impl::parse_integer_digits_with_thsep<subrange<const wchar_t*>, wchar_t>'
    elem = 4


class LRead(Read):
    """the whole reader with the localized option.  RD/SP(k, b): digits and separators of the run from position k, U their sum (contract Thsep);
    Val/Fits(k, b, neg): what the value parser's contract (P01) promises for those digits"""
    fn = 'vp_lread_c_i32'
    func = 'impl::reader_impl_for_int<char>::read_specs<int>, localized'

    def setup(s, ex):
        a = Read.setup(s, ex)
        I, B = z3.BitVecSort(64), z3.BitVecSort(32)
        s.RD = z3.Function('RD', I, B, I)
        s.SP = z3.Function('SP', I, B, I)
        s.U = z3.Function('U', I, B, I)
        s.sep = z3.BitVec('sep', 8 * s.elem)
        s.inputs.update(sep=s.sep)
        # separators that are themselves digits or letters are not judged
        s.requires(z3.UGE(s.dig(s.sep), 36))
        s.text = ex.buffer('digits', BV(1 << 60, 64), s.elem, True)[0]
        s.seps = ex.buffer('separators', BV(1 << 60, 64), 1, True)[0]
        s.g = ex.new_obj('ghost', 16, 'cells')
        ex.init_mem[s.g] = Cells({0: (8, BV(0, 64)), 8: (4, BV(0, 32))}, 'ghost')
        return a

    def memcpy(s, ex, mem, d, src, n, reach):
        if any(o in (s.text, s.seps) for _, o, _ in src.alts):
            # text of a string that is stored in the object itself: not modelled
            ex.oblige('the text of a string is moved, not copied', reach, z3.BoolVal(False), 'pre')
            return True
        return False

    def dig(s, c):
        if s.elem == 1:
            return z3.ZeroExt(24, digit(c))
        return z3.If(z3.ULE(c, 255), z3.ZeroExt(24, digit(z3.Extract(7, 0, c))), BV(255, 32))

    def is_sep(s, k):
        return z3.And(s.sep != 0, sel(s.arr, k) == s.sep)

    def unfold(s, k, b):
        inn = z3.ULT(k, s.n)
        d = z3.ULT(s.dig(sel(s.arr, k)), b)
        p = s.is_sep(k)
        out = [s.RD(k, b) == z3.If(z3.And(inn, p), s.RD(k + 1, b), z3.If(z3.And(inn, d), 1 + s.RD(k + 1, b), BV(0, 64))),
               s.SP(k, b) == z3.If(z3.And(inn, p), 1 + s.SP(k + 1, b), z3.If(z3.And(inn, d), s.SP(k + 1, b), BV(0, 64))),
               s.U(k, b) == z3.If(z3.And(inn, z3.Or(p, d)), 1 + s.U(k + 1, b), BV(0, 64)),
               z3.ULE(s.RD(k, b), s.n - k), z3.ULE(s.U(k, b), s.n - k)]
        for neg in (z3.BoolVal(True), z3.BoolVal(False)):
            z = z3.And(inn, sel(s.arr, k) == 48)
            out.append(z3.Implies(z3.And(z, s.RD(k, b) == 1), z3.And(s.Val(k, b, neg) == 0, s.Fits(k, b, neg))))
            out.append(z3.Implies(z3.And(z, s.RD(k, b) != 1), z3.And(s.Val(k, b, neg) == s.Val(k + 1, b, neg), s.Fits(k, b, neg) == s.Fits(k + 1, b, neg))))
        return out

    def call(s, ex, name, args, ins, mem, reach):
        if 'localized_number_formatting_options' in name and 'with_thsep' not in name:
            o, off = args[0].single()
            # grouping: some string; separator and point of the locale (contract LocaleOptions)
            ex.store(mem, Ptr.to(o, off), Ptr.to(o, simp(off + 16)), 8, reach, 'options')
            g = ex.fresh(64, 'grouping')
            ex.axiom(z3.ULT(g, 16), reach)
            ex.store(mem, Ptr.to(o, simp(off + 8)), g, 8, reach, 'options')
            ex.store(mem, Ptr.to(o, simp(off + 32)), s.sep, s.elem, reach, 'options')
            ex.store(mem, Ptr.to(o, simp(off + 32 + s.elem)), ex.fresh(8 * s.elem, 'point'), s.elem, reach, 'options')
            return None
        if 'parse_integer_digits_with_thsep' in name:
            ret, b, e, base, lo = args
            f, ok = ret_off(b, s.o)
            h, ok2 = ret_off(e, s.o)
            k = s.idx(f)
            ex.oblige('digits: the source is the whole rest', reach, z3.And(ok, ok2, h == s.nb, z3.ULE(f, h)), 'pre')
            ex.oblige('digits: base in range', reach, z3.And(z3.UGE(base, 2), z3.ULE(base, 36)), 'pre')
            lo, loff = lo.single()
            ex.oblige('digits: the separator of the locale', reach, ex.load(mem, Ptr.to(lo, simp(loff + 32)), ('i', 8 * s.elem), reach, 'options') == s.sep, 'pre')
            ex.axiom(z3.And(s.RD(k, base) + s.SP(k, base) == s.U(k, base), z3.ULE(s.RD(k, base), s.n - k), z3.ULE(s.U(k, base), s.n - k), z3.Implies(k == s.n, s.RD(k, base) == 0)), reach)
            good = s.RD(k, base) != 0
            ro, roff = ret.single()
            at = lambda i: Ptr.to(ro, simp(roff + i))
            # tuple members in the order libstdc++ stores them; without digits the error stands in the same place
            ex.store(mem, at(0), Ptr.to(s.seps), 8, reach, 'result')
            ex.store(mem, at(8), z3.If(good, s.SP(k, base), z3.Concat(ex.fresh(32, 'pad'), BV(E_INVALID - 1, 32))), 8, reach, 'result')
            ex.store(mem, at(32), Ptr.to(s.text), 8, reach, 'result')
            ex.store(mem, at(40), s.RD(k, base), 8, reach, 'result')
            ex.store(mem, at(64), Ptr.to(s.o, simp((k + s.U(k, base)) * s.elem)), 8, reach, 'result')
            ex.store(mem, at(72), z3.If(good, BV(1, 8), BV(0, 8)), 1, reach, 'result')
            ex.store(mem, Ptr.to(s.g, 0), k, 8, reach, 'ghost')
            ex.store(mem, Ptr.to(s.g, 8), base, 4, reach, 'ghost')
            return None
        if 'parse_integer_value' in name:
            ret, ln, src, out, sign, base = args
            k, b = ex.cell_get(mem, s.g, 0, 8), ex.cell_get(mem, s.g, 8, 4)
            off, ok = ret_off(src, s.text)
            oo, ooff = out.single()
            if oo is not s.oo or conc(ooff) != 0:
                raise VCError('unexpected arguments')
            ex.oblige('value parser: the source are the digits', reach, z3.And(ok, off == 0, ln == s.RD(k, b), ln != 0, base == b), 'pre')
            ex.oblige('value parser: sign fits the type', reach, z3.Or(sign == 1, sign == 0) if s.signed else sign == 1, 'pre')
            neg = sign == 0
            good = s.Fits(k, b, neg)
            ro, roff = ret.single()
            ex.store(mem, Ptr.to(ro, roff), Ptr.to(s.text, simp(s.RD(k, b) * s.elem)), 8, reach, 'result')
            ex.store(mem, Ptr.to(ro, simp(roff + 8)), z3.If(neg, BV(E_NEG - 1, 32), BV(E_POS - 1, 32)), 4, reach, 'result')
            ex.store(mem, Ptr.to(ro, simp(roff + 16)), z3.If(good, BV(1, 8), BV(0, 8)), 1, reach, 'result')
            ex.store(mem, Ptr.to(s.oo), z3.If(good, s.Val(k, b, neg), ex.cell_get(mem, s.oo, 0, s.bits // 8)), s.bits // 8, reach, 'value')
            return None
        return string_call(ex, name, args, mem, reach)

    def number(s, start, eff):
        return s.RD(start, eff), s.U(start, eff)

    def judged(s, p, zero, prefix):
        """a separator right after the zero or the letter of a prefix: not judged"""
        at = lambda i: z3.And(z3.ULT(p + i, s.n), s.is_sep(p + i))
        return z3.Not(z3.Or(z3.And(zero, at(1)), z3.And(prefix, at(2))))


class LReadU64(LRead):
    fn = 'vp_lread_c_u64'
    func = 'impl::reader_impl_for_int<char>::read_specs<unsigned long>, localized'
    bits = 64
    signed = False


class LReadW(LRead):
    fn = 'vp_lread_w_i32'
    func = 'impl::reader_impl_for_int<wchar_t>::read_specs<int>, localized'
    elem = 4


class Erase(BufSpec):
    """separators of the text of a floating-point number, in place.  R(k): units before k that stay; q: any position"""
    fn = 'vp_erase_c'
    func = 'impl::float_reader<char>::erase_thousands_separators'
    head_inst = True
    whole = False

    def setup(s, ex):
        s.pre = []
        s.n = z3.BitVec('n', 64)
        s.requires(z3.ULE(s.n, MAXLEN))
        s.o, s.arr = ex.buffer('s', s.n + 1, s.elem, True)
        s.inputs = {'s': ('buf', s.arr, s.n)}
        s.nb = s.n * s.elem
        s.insts = []
        s.seen = {}
        I = z3.BitVecSort(64)
        s.sep, s.dp = z3.BitVecs('sep dp', 8 * s.elem)
        s.q, s.u = z3.BitVecs('q u', 64)
        s.inputs.update(sep=s.sep)
        s.R0 = z3.Function('R', I, I)
        s.R = lambda k: z3.If(s.sep == 0, k, s.R0(k))
        ex.axioms += [s.R0(BV(0, 64)) == 0]
        step = lambda k: z3.Implies(z3.ULT(k, s.n), s.R0(k + 1) == s.R0(k) + z3.If(s.is_sep(k), BV(0, 64), BV(1, 64)))

        def lemma(k):
            # by induction on k (obligations below)
            return z3.And(z3.ULE(s.R0(k), k), z3.Implies(z3.And(z3.ULE(s.q, k), s.R0(k) == k), s.R0(s.q) == s.q),
                          z3.Implies(z3.And(z3.ULT(s.q, k), z3.Not(s.is_sep(s.q))), z3.ULT(s.R0(s.q), s.R0(k))))
        k1 = z3.BitVec('k1', 64)
        bound = lambda k: z3.ULE(s.R0(k), k)
        hyp = z3.And(z3.ULE(s.q, s.n), bound(s.q))
        ex.oblige('lemma: places, by induction: bound', z3.BoolVal(True), z3.Implies(z3.And(z3.ULT(k1, s.n), step(k1), bound(k1)), bound(k1 + 1)), 'pre')
        ex.oblige('lemma: places, by induction: start', z3.BoolVal(True), z3.Implies(hyp, lemma(s.q)), 'pre')
        ex.oblige('lemma: places, by induction: step', z3.BoolVal(True), z3.Implies(z3.And(hyp, z3.ULT(k1, s.n), z3.UGE(k1, s.q), step(k1), lemma(k1)), lemma(k1 + 1)), 'pre')
        s.defs = [step, lemma, lambda k: lemma(k + 1)]
        s.at_load(lambda k: [step(k), z3.Implies(z3.ULT(k, s.n), z3.And(lemma(k), lemma(k + 1)))])
        s.requires(z3.ULE(s.q, s.n))
        ex.axioms += [lemma(s.n)]
        s.str = ex.new_obj('string', 32, 'cells')
        ex.init_mem[s.str] = Cells({0: (8, Ptr.to(s.o)), 8: (8, s.n)}, 'string')
        s.rd = ex.new_obj('reader', 512, 'cells')
        ex.init_mem[s.rd] = Cells({})
        if s.whole:
            # the string is the first member of the reader (the compiler knows)
            s.str = s.rd
            ex.init_mem[s.rd] = Cells({0: (8, Ptr.to(s.o)), 8: (8, s.n)}, 'reader')
        s.g = ex.new_obj('ghost separators', 8, 'cells')
        ex.init_mem[s.g] = Cells({0: (8, BV(0, 64))}, 'ghost')
        if s.whole:
            s.inputs.update(dp=s.dp)
            s.requires(z3.Or(s.dp != s.sep, s.sep == 0))
            return [Ptr.to(s.rd), s.sep, s.dp]
        return [Ptr.to(s.rd), Ptr.to(s.str), s.sep]

    def is_sep(s, k):
        return z3.And(s.sep != 0, sel(s.arr, k) == s.sep)

    def stays(s, k):
        return z3.And(z3.ULT(s.q, k), z3.ULT(s.q, s.n), z3.Not(s.is_sep(s.q)))

    def call(s, ex, name, args, ins, mem, reach):
        if name.startswith('_ZSt4findI'):
            b, ok = ret_off(args[0], s.o)
            e, ok2 = ret_off(args[1], s.o)
            v = ex.load(mem, args[2], ('i', 8 * s.elem), reach, 'value')
            ex.oblige('std::find: looks for the separator in the whole text', reach, z3.And(ok, ok2, b == 0, s.idx(e) == s.n, v == s.sep, ex.content(mem, s.o) == s.arr), 'pre')
            f = ex.fresh(64, 'found')
            # the first separator, or the end: before it every unit stays
            ex.axiom(z3.And(z3.ULE(f, s.n), s.R0(f) == f, z3.Implies(z3.ULT(f, s.n), s.is_sep(f)), *[g(f) for g in s.defs]), reach)
            ex.trusted['std::find'] = 'gives the first position that holds the value, else the end (libstdc++)'
            return Ptr.to(s.o, simp(f * s.elem))
        if '26make_into_allocated_string' in name:
            ex.trusted['contiguous_range_factory::make_into_allocated_string'] = 'gives a string with the text kept for the conversion'
            return Ptr.to(s.str)
        if name.startswith('_ZNSt7__cxx1112basic_string') and 'E9push_backE' in name:
            o, off = args[0].single()
            if o is not s.rd or s.whole and conc(off) == 0:
                raise VCError('push_back on another string')
            ex.store(mem, Ptr.to(s.g), simp(mem[s.g].d[0][1] + 1), 8, reach, 'ghost')
            trust_string(ex)
            return None
        if name.startswith('_ZNSt7__cxx1112basic_string') and '5eraseE' in name:
            o, off = args[0].single()
            if o is not s.str or conc(off) != 0:
                raise VCError('erase on another string')
            b, ok = ret_off(args[1], s.o)
            e, ok2 = ret_off(args[2], s.o)
            n = ex.cell_get(mem, s.str, 8, 8)
            ex.oblige('the end of the string is erased', reach, z3.And(ok, ok2, s.idx(e) == n, z3.ULE(s.idx(b), n)), 'pre')
            ex.store(mem, Ptr.to(s.str, 8), simp(s.idx(b)), 8, reach, 'length')
            ex.store(mem, Ptr.to(s.o, b), BV(0, 8 * s.elem), s.elem, reach, 'terminator')
            ex.trusted['std::basic_string::erase'] = 'removes the given part (libstdc++)'
            return args[1]
        return string_call(ex, name, args, mem, reach)

    def memcpy(s, ex, mem, d, src, n, reach):
        return False

    def ghost_candidates(s):
        return [('no separator before', lambda k: s.R(k) == k), ('R bounded', lambda k: z3.ULE(s.R(k), k)), ('some separator before', lambda k: z3.ULT(s.R(k), k))]

    def point(s, c):
        return z3.If(z3.And(s.dp != 0x2e, c == s.dp), BV(0x2e, 8 * s.elem), c)

    def more_invariants(s, ex, L):
        P = [x for x in T.positions(ex, L, s.o) if x.kind == 'ptr']
        at = lambda S, x: s.idx(x.get(S))
        A = lambda S: ex.content(S.mem, s.o)
        ln = lambda S: S.mem[s.str].d[8][1]
        for x in P:
            yield (f'{x.name} in the text', lambda S, x=x: z3.ULE(at(S, x), s.n), False)
            yield (f'{x.name} before the end', lambda S, x=x: z3.ULT(at(S, x), s.n), False)
            yield (f'{x.name} in the string', lambda S, x=x: z3.ULT(at(S, x), ln(S)), False)
        if s.o.name not in ex.modset.get(L.key, set()):
            return
        for x in P:
            def unread(S, x=x):
                # for every position u; where it is assumed, it may be used at the positions the loop holds
                f = lambda u: z3.Implies(z3.And(z3.UGE(u, at(S, x)), z3.ULT(u, s.n)), sel(A(S), u) == sel(s.arr, u))
                return z3.And(f(s.u), *[f(at(S, y) + i) for y in P for i in (0, 1)]) if S is L.cur else f(s.u)
            yield (f'unread from {x.name}', unread, False)
            yield (f'kept before {x.name}', lambda S, x=x: z3.Implies(s.stays(at(S, x)), sel(A(S), s.R(s.q)) == sel(s.arr, s.q)), False)
            yield (f'separators before {x.name}', lambda S, x=x: S.mem[s.g].d[0][1] == at(S, x) - s.R(at(S, x)), False)
            for y in P:
                if x is not y:
                    yield (f'{y.name} == R({x.name})', lambda S, x=x, y=y: at(S, y) == s.R(at(S, x)), False)
            if s.whole:
                stay = lambda: z3.And(z3.ULT(s.q, s.n), z3.Not(s.is_sep(s.q)))
                yield (f'point replaced before {x.name}', lambda S, x=x: z3.Implies(z3.And(stay(), z3.ULT(s.R(s.q), at(S, x))), sel(A(S), s.R(s.q)) == s.point(sel(s.arr, s.q))), False)
                yield (f'as it was from {x.name}', lambda S, x=x: z3.Implies(z3.And(stay(), z3.UGE(s.R(s.q), at(S, x))), sel(A(S), s.R(s.q)) == sel(s.arr, s.q)), False)

    def ensures(s, ex, ret, mem):
        n = ex.cell_get(mem, s.str, 8, 8)
        a = ex.content(mem, s.o)
        q = s.stays(s.n)
        res = s.point(sel(s.arr, s.q)) if s.whole else sel(s.arr, s.q)
        return [('the rest of the text is kept in order', z3.Implies(q, z3.And(z3.ULT(s.R(s.q), n), sel(a, s.R(s.q)) == res))),
                ('and nothing else', n == s.R(s.n)),
                ('the separators are counted', mem[s.g].d[0][1] == s.n - s.R(s.n))]

    def cover(s, ex, ret, mem):
        n = ex.cell_get(mem, s.str, 8, 8)
        return [('separators removed', z3.And(n == 5, s.n == 8)), ('no separator in the text', z3.And(s.sep != 0, n == s.n, z3.UGT(n, 9))), ('no separator in the locale', s.sep == 0)]


class EraseW(Erase):
    fn = 'vp_erase_w'
    func = 'impl::float_reader<wchar_t>::erase_thousands_separators'
    elem = 4


class Handle(Erase):
    fn = 'vp_handle_c'
    func = 'impl::float_reader<char>::handle_separators'
    whole = True


class HandleW(Handle):
    fn = 'vp_handle_w'
    func = 'impl::float_reader<wchar_t>::handle_separators'
    elem = 4
