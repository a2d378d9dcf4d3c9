from lib import *


class IsSpace(Spec):
    fn = 'vp_is_space'
    func = 'detail::is_cp_space'
    title = 'code point whitespace test'

    def setup(s, ex):
        s.pre = []
        s.cp = z3.BitVec('cp', 32)
        s.inputs = {'cp': s.cp}
        return [s.cp]

    def ensures(s, ex, ret, mem):
        return [('true exactly on Pattern_White_Space', ret == is_space(s.cp))]


class IsAsciiSpace(Spec):
    fn = 'vp_is_ascii_space'
    func = 'impl::is_ascii_space(char)'

    def setup(s, ex):
        s.pre = []
        s.c = z3.BitVec('c', 8)
        s.inputs = {'c': s.c}
        return [s.c]

    def ensures(s, ex, ret, mem):
        return [('true exactly on ASCII whitespace', ret == is_ascii_ws(s.c))]


class IsAsciiWSpace(Spec):
    fn = 'vp_is_ascii_wspace'
    func = 'impl::is_ascii_space(wchar_t)'

    def setup(s, ex):
        s.pre = []
        s.c = z3.BitVec('c', 32)
        s.inputs = {'c': s.c}
        return [s.c]

    def ensures(s, ex, ret, mem):
        return [('true exactly on ASCII whitespace', ret == is_ascii_ws(s.c))]


class FindSpace(BufSpec):
    """Good: least set of positions reachable from 0 over well-formed code points that do not satisfy the stop
    predicate; Ill: some ill-formed sequence was met on the way (then only bounds are promised)."""
    fn = 'vp_find_space'
    func = 'impl::find_classic_space_narrow_fast'

    def stop(s, cp):
        return is_space(cp)

    def setup(s, ex):
        p = s.buf(ex)
        s.Good = z3.Function('Good', z3.BitVecSort(64), z3.BoolSort())
        s.Ill = z3.Bool('Ill')
        ex.axioms.append(s.Good(BV(0, 64)))

        def inst(k):
            l, v, ill = dec8(s.arr, k, s.n)
            return [z3.Implies(z3.And(s.Good(k), z3.ULT(k, s.n), ill), s.Ill),
                    z3.Implies(z3.And(s.Good(k), z3.ULT(k, s.n), z3.Not(ill), z3.Not(s.stop(v))), s.Good(k + l))]
        s.at_load(inst)
        return [p, s.n]

    def ghost_candidates(s):
        return [('Good', lambda k: z3.Or(s.Ill, s.Good(k)))]

    def ensures(s, ex, ret, mem):
        off, ok = ret_off(ret, s.o)
        l, v, ill = dec8(s.arr, off, s.n)
        return [('result lies inside the source', z3.And(ok, z3.ULE(off, s.n))),
                ('everything before the result fails the stop predicate', z3.Or(s.Ill, s.Good(off))),
                ('the result is the end or satisfies the stop predicate',
                 z3.Or(s.Ill, off == s.n, z3.And(z3.Not(ill), s.stop(v)), ill))]

    def cover(s, ex, ret, mem):
        off, ok = ret_off(ret, s.o)
        return [('stops inside a long source', z3.And(z3.Not(s.Ill), z3.ULT(off, s.n), z3.UGT(off, BV(20, 64)))),
                ('consumes a long source', z3.And(z3.Not(s.Ill), off == s.n, z3.UGT(off, BV(20, 64))))]


class FindNonspace(FindSpace):
    fn = 'vp_find_nonspace'
    func = 'impl::find_classic_nonspace_narrow_fast'

    def stop(s, cp):
        return z3.Not(is_space(cp))


class FindNondigit(BufSpec):
    fn = 'vp_find_nondigit'
    func = 'impl::find_nondecimal_digit_narrow_fast'

    def setup(s, ex):
        p = s.buf(ex)
        s.G = s.fold('digits', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(True),
                     lambda g, c, k: z3.And(g, z3.UGE(c, 48), z3.ULE(c, 57)))
        return [p, s.n]

    def ghost_candidates(s):
        return [('all digits before', lambda k: s.G(k))]

    def ensures(s, ex, ret, mem):
        off, ok = ret_off(ret, s.o)
        c = sel(s.arr, off)
        return [('result lies inside the source', z3.And(ok, z3.ULE(off, s.n))),
                ('only decimal digits before the result', s.G(off)),
                ('the result is the end or not a digit', z3.Or(off == s.n, z3.ULT(c, 48), z3.UGT(c, 57)))]

    def cover(s, ex, ret, mem):
        off, ok = ret_off(ret, s.o)
        return [('long run', z3.UGT(off, BV(20, 64)))]


class NextCp(BufSpec):
    fn = 'vp_next_cp'
    func = 'impl::get_next_code_point<char>'

    def setup(s, ex):
        p = s.buf(ex)
        s.requires(s.n != 0)
        s.St = s.fold('strays', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(True),
                      lambda g, c, k: z3.And(g, len8(c) == 0))
        return [p, s.n]

    def ghost_candidates(s):
        return [('only stray bytes before', lambda k: s.St(k))]

    def ensures(s, ex, ret, mem):
        off, ok = ret_off(ret[0], s.o)
        cp = ret[1]
        l, v, ill = dec8(s.arr, BV(0, 64), s.n)
        c = sel(s.arr, off)
        return [('progress inside the source', z3.And(ok, z3.ULE(off, s.n), z3.UGT(off, 0))),
                ('well-formed: exact value and exact length', z3.Implies(z3.Not(ill), z3.And(cp == v, off == l))),
                ('ill-formed: value is not a code point', z3.Implies(ill, z3.UGE(cp, INVALID))),
                ('stray byte: resumes at the next possible start', z3.Implies(l == 0, z3.And(s.St(off), z3.Or(off == s.n, len8(c) != 0)))),
                ('truncated: resumes at the end', z3.Implies(z3.UGT(l, s.n), off == s.n)),
                ('bad trailing byte: resumes after the announced length', z3.Implies(z3.And(l != 0, z3.ULE(l, s.n)), off == l))]

    def cover(s, ex, ret, mem):
        return [('four-byte value', ret[1] == 0x10ffff), ('invalid', ret[1] == INVALID)]


class NextWcp(BufSpec):
    fn = 'vp_next_wcp'
    func = 'impl::get_next_code_point<wchar_t>'
    elem = 4

    def setup(s, ex):
        p = s.buf(ex)
        s.requires(s.n != 0)
        return [p, s.n]

    def ensures(s, ex, ret, mem):
        off, ok = ret_off(ret[0], s.o)
        c = sel(s.arr, BV(0, 64))
        return [('advances by one code unit', z3.And(ok, off == 4)),
                ('value exact, or invalid when out of range', ret[1] == z3.If(z3.ULT(c, INVALID), c, BV(INVALID, 32)))]


class Validate(BufSpec):
    """V: least set of positions reachable over well-formed sequences; IllAt: an ill-formed one was reached."""
    fn = 'vp_validate'
    func = 'impl::validate_unicode<char>'

    def setup(s, ex):
        p = s.buf(ex)
        s.V = z3.Function('V', z3.BitVecSort(64), z3.BoolSort())
        s.Ill = z3.Bool('IllReached')
        ex.axioms.append(s.V(BV(0, 64)))

        def inst(k):
            l, v, ill = dec8(s.arr, k, s.n)
            return [z3.Implies(z3.And(s.V(k), z3.ULT(k, s.n), ill), s.Ill),
                    z3.Implies(z3.And(s.V(k), z3.ULT(k, s.n), z3.Not(ill)), s.V(k + l))]
        s.at_load(inst)
        return [p, s.n]

    def ghost_candidates(s):
        return [('valid so far', lambda k: s.V(k))]

    def ensures(s, ex, ret, mem):
        return [('accepts only when every sequence up to the end is well-formed', z3.Implies(ret, s.V(s.n))),
                ('rejects only when an ill-formed sequence is reached', z3.Implies(z3.Not(ret), s.Ill))]

    def cover(s, ex, ret, mem):
        return [('accepts long', z3.And(ret, z3.UGT(s.n, BV(12, 64)))), ('rejects', z3.Not(ret))]


class WValidate(BufSpec):
    fn = 'vp_wvalidate'
    func = 'impl::validate_unicode<wchar_t>'
    elem = 4

    def setup(s, ex):
        p = s.buf(ex)
        s.G = s.fold('allvalid', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(True), lambda g, c, k: z3.And(g, z3.ULT(c, INVALID)))
        s.Bad = z3.Bool('BadReached')
        s.at_load(lambda k: [z3.Implies(z3.And(z3.ULT(k, s.n), z3.UGE(sel(s.arr, k), INVALID)), s.Bad)])
        return [p, s.n]

    def ghost_candidates(s):
        return [('valid so far', lambda k: s.G(k))]

    def ensures(s, ex, ret, mem):
        return [('accepts only code points', z3.Implies(ret, s.G(s.n))), ('rejects only when one is out of range', z3.Implies(z3.Not(ret), s.Bad))]


class StreamSpec(BufSpec):
    """output is a std::basic_string reached only through push_back (trusted contract of libstdc++: appends).
    E: the expected output stream; every push_back is an obligation to push the next expected unit."""
    push = None
    unit = 8

    def out(self, ex):
        self.oo = ex.new_obj('out', 0, 'opaque')
        # ghost cell holding the number of units pushed so far
        self.g = ex.new_obj('ghost pushed', 8, 'cells')
        ex.init_mem[self.g] = Cells({0: (8, BV(0, 64))}, 'ghost')
        self.E = z3.Function('E', z3.BitVecSort(64), z3.BitVecSort(self.unit))
        return Ptr.to(self.oo, ex.fresh(64, 'outp') if False else 0)

    def pushed(self, mem):
        return mem[self.g].d[0][1]

    def call(self, ex, name, args, ins, mem, reach):
        if name.startswith('_ZNSt7__cxx1112basic_string') and 'E9push_backE' in name:
            o, off = args[0].single()
            if o is not self.oo or conc(off) != 0:
                raise VCError('push_back on another string')
            m = self.pushed(mem)
            ex.oblige('pushed unit is the next expected one', reach, self.E(m) == args[1], 'post')
            ex.note_write(self.g)
            mem[self.g] = Cells({0: (8, simp(m + 1))}, 'ghost')
            ex.trusted['std::basic_string::push_back'] = 'appends its argument, leaves the rest (libstdc++)'
            return None
        return NotImplemented


class Transcode32to8(StreamSpec):
    fn = 'vp_transcode_32to8'
    func = 'impl::transcode_to_string<wchar_t, char>'
    elem = 4
    unit = 8

    def setup(s, ex):
        p = s.buf(ex)
        q = s.out(ex)
        # Lk(k): units produced by the first k code points
        s.Lk = z3.Function('Lk', z3.BitVecSort(64), z3.BitVecSort(64))
        ex.axioms.append(s.Lk(BV(0, 64)) == 0)

        def enc(c):
            c = z3.If(z3.UGE(c, INVALID), BV(0xFFFD, 32), c)
            x = lambda e: z3.Extract(7, 0, e)
            l = z3.If(z3.ULT(c, 0x80), BV(1, 64), z3.If(z3.ULT(c, 0x800), BV(2, 64), z3.If(z3.ULT(c, 0x10000), BV(3, 64), BV(4, 64))))
            t0 = x(0x80 | (c & 0x3f))
            t1 = x(0x80 | (z3.LShR(c, 6) & 0x3f))
            t2 = x(0x80 | (z3.LShR(c, 12) & 0x3f))
            b0 = z3.If(l == 1, x(c), z3.If(l == 2, x(0xC0 | z3.LShR(c, 6)), z3.If(l == 3, x(0xE0 | z3.LShR(c, 12)), x(0xF0 | z3.LShR(c, 18)))))
            b1 = z3.If(l == 2, t0, z3.If(l == 3, t1, t2))
            b2 = z3.If(l == 3, t0, t1)
            return l, [b0, b1, b2, t0]

        def inst(k):
            c = sel(s.arr, k)
            l, bs = enc(c)
            a = [s.Lk(k + 1) == s.Lk(k) + l]
            for i, b in enumerate(bs):
                a.append(z3.Implies(z3.UGT(l, i), s.E(s.Lk(k) + i) == b))
            return a
        s.at_load(inst)
        return [p, s.n, q]

    def more_invariants(s, ex, L):
        for x in T.positions(ex, L, s.o):
            yield (f'pushed == Lk({x.name})', lambda S, x=x: s.pushed(S.mem) == s.Lk(s.idx(x.get(S)) if x.kind == 'ptr' else x.get(S)), False)

    def ensures(s, ex, ret, mem):
        return [('every code point was encoded', s.pushed(mem) == s.Lk(s.n))]

    def cover(s, ex, ret, mem):
        return [('long', z3.UGT(s.n, BV(10, 64)))]


class Transcode8to32(StreamSpec):
    fn = 'vp_transcode_8to32'
    func = 'impl::transcode_to_string<char, wchar_t>'
    elem = 1
    unit = 32

    def setup(s, ex):
        p = s.buf(ex)
        q = s.out(ex)
        s.C = z3.Function('C', z3.BitVecSort(64), z3.BitVecSort(64))    # code points before position k
        s.Good = z3.Function('Good', z3.BitVecSort(64), z3.BoolSort())
        s.Ill = z3.Bool('Ill')
        ex.axioms += [s.C(BV(0, 64)) == 0, s.Good(BV(0, 64))]

        def inst(k):
            l, v, ill = dec8(s.arr, k, s.n)
            g = z3.And(s.Good(k), z3.ULT(k, s.n))
            return [z3.Implies(z3.And(g, ill), z3.And(s.Ill, s.E(s.C(k)) == 0xFFFD)),
                    z3.Implies(z3.And(g, z3.Not(ill)), z3.And(s.Good(k + l), s.C(k + l) == s.C(k) + 1, s.E(s.C(k)) == v))]
        s.at_load(inst)
        return [p, s.n, q]

    def call(s, ex, name, args, ins, mem, reach):
        if 'E9push_backE' in name:
            m = s.pushed(mem)
            ex.oblige('pushed unit is a code point value', reach, z3.Or(z3.ULT(args[1], INVALID), s.Ill), 'post')
            # after an ill-formed sequence only U+FFFD replacement and progress are promised
            reach = z3.And(reach, z3.Not(s.Ill))
        return StreamSpec.call(s, ex, name, args, ins, mem, reach)

    def more_invariants(s, ex, L):
        for x in T.positions(ex, L, s.o):
            yield (f'Ill or pushed == C({x.name})', lambda S, x=x: z3.Or(s.Ill, z3.And(s.Good(x.get(S)), s.pushed(S.mem) == s.C(x.get(S)))), False)

    def ensures(s, ex, ret, mem):
        return [('every code point was decoded', z3.Or(s.Ill, z3.And(s.Good(s.n), s.pushed(mem) == s.C(s.n))))]

    def cover(s, ex, ret, mem):
        return [('long well-formed', z3.And(z3.UGT(s.n, BV(10, 64)), z3.Not(s.Ill)))]


class CpWidth(Spec):
    fn = 'vp_cp_width'
    func = 'impl::calculate_valid_text_width(char32_t)'

    def setup(s, ex):
        s.pre = []
        s.cp = z3.BitVec('cp', 32)
        s.inputs = {'cp': s.cp}
        return [s.cp]

    def ensures(s, ex, ret, mem):
        return [('2 on the wide ranges, 1 elsewhere', ret == z3.If(is_wide(s.cp), BV(2, 64), BV(1, 64)))]


class CpWidthAny(CpWidth):
    fn = 'vp_cp_width_any'
    func = 'impl::calculate_text_width(char32_t)'


class TextWidth(BufSpec):
    fn = 'vp_text_width'
    func = 'impl::calculate_text_width<char>'

    def setup(s, ex):
        p = s.buf(ex)
        s.W = z3.Function('W', z3.BitVecSort(64), z3.BitVecSort(64))
        s.Good = z3.Function('Good', z3.BitVecSort(64), z3.BoolSort())
        s.Ill = z3.Bool('Ill')
        ex.axioms += [s.W(BV(0, 64)) == 0, s.Good(BV(0, 64))]

        def inst(k):
            l, v, ill = dec8(s.arr, k, s.n)
            g = z3.And(s.Good(k), z3.ULT(k, s.n))
            return [z3.Implies(z3.And(g, ill), s.Ill),
                    z3.Implies(z3.And(g, z3.Not(ill)), z3.And(s.Good(k + l), s.W(k + l) == s.W(k) + z3.If(is_wide(v), BV(2, 64), BV(1, 64))))]
        s.at_load(inst)
        return [p, s.n]

    def more_invariants(s, ex, L):
        for x in T.positions(ex, L, s.o):
            if x.kind != 'ptr':
                continue
            for y in T.carried(ex, L):
                if y.kind == 'int' and y.width == 64:
                    yield (f'Ill or {y.name} == W({x.name})', lambda S, x=x, y=y: z3.Or(s.Ill, z3.And(s.Good(x.get(S)), y.get(S) == s.W(x.get(S)))), False)

    def ensures(s, ex, ret, mem):
        return [('width is the sum of the code point widths', z3.Or(s.Ill, z3.And(s.Good(s.n), ret == s.W(s.n))))]

    def cover(s, ex, ret, mem):
        return [('long well-formed', z3.And(z3.UGT(s.n, BV(10, 64)), z3.Not(s.Ill)))]
