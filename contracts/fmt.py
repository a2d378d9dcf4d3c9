"""Format string grammar: the walk over literal text and replacement fields, numbers, specs."""
from lib import *


def dec(c):
    return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))


class SimpleInt(BufSpec):
    fn = 'vp_simple_int_c'
    func = 'detail::parse_simple_int<char>'
    head_inst = True

    def setup(s, ex):
        p = s.buf(ex)
        s.requires(s.n != 0, dec(sel(s.arr, BV(0, 64))))
        s.V = s.fold('Val', ex, s.o, s.arr, z3.BitVecSort(64), BV(0, 64), lambda g, c, k: z3.If(z3.UGT(g, 0x7fffffff), g, g * 10 + z3.ZeroExt(32, u32(c) - 48)))
        s.A = s.fold('AllDigits', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(True), lambda g, c, k: z3.And(g, dec(c)))
        return [p, s.n]

    def ghost_candidates(s):
        return [('digits before', lambda k: s.A(k)), ('in range', lambda k: z3.ULE(s.V(k), 0x7fffffff)), ('at a digit', lambda k: dec(sel(s.arr, k)))]

    def more_invariants(s, ex, L):
        V = [x for x in T.carried(ex, L) if x.kind == 'int' and x.width in (32, 64)]
        U = [x for x in T.carried(ex, L) if x.kind == 'int' and x.width == 8 * s.elem]
        for x in T.positions(ex, L, s.o):
            for v in U:
                yield (f'{v.name} is the character at {x.name}', lambda S, x=x, v=v: sel(s.arr, simp(s.idx(x.get(S)) if x.kind == 'ptr' else x.get(S))) == v.get(S), False)
            for v in V:
                yield (f'{v.name} is the value before {x.name}', lambda S, x=x, v=v: s.V(s.idx(x.get(S)) if x.kind == 'ptr' else x.get(S)) ==
                       (v.get(S) if v.width == 64 else z3.ZeroExt(32, v.get(S))), False)

    def ensures(s, ex, ret, mem):
        it, v = ret
        boff, ok = ret_off(it, s.o)
        k = s.idx(boff)
        c = sel(s.arr, k)
        fits = v != BV(0xffffffff, 32)
        return [('the end lies inside the text', z3.And(ok, z3.ULE(k, s.n))),
                ('a number: all of its digits, and no more', z3.Implies(fits, z3.And(s.A(k), k != 0, z3.Or(k == s.n, z3.Not(dec(c)))))),
                ('a number: its value', z3.Implies(fits, z3.And(z3.ZeroExt(32, v) == s.V(k), v >= 0))),
                ('too large: only if its digits exceed int', z3.Implies(z3.Not(fits), z3.And(z3.ULT(k, s.n), dec(c), s.A(k), z3.UGT(s.V(k) * 10 + z3.ZeroExt(32, u32(c) - 48), 0x7fffffff))))]

    def cover(s, ex, ret, mem):
        return [('number', ret[1] == 1234), ('too large', ret[1] == -1)]


class SimpleIntW(SimpleInt):
    fn = 'vp_simple_int_w'
    func = 'detail::parse_simple_int<wchar_t>'
    elem = 4


class Walk(BufSpec):
    """ghost state g: 0 next position to account for, 8 pending argument id, 16 failed, 17 checked for exhaustion, 18 a field did not end with a brace"""
    fn = 'vp_walk_c'
    func = 'detail::parse_format_string<char>, parse_replacement_field, parse_arg_id, do_parse_arg_id'
    S = '_c'

    def setup(s, ex):
        p = s.buf(ex)
        I = z3.BitVecSort(64)
        s.FE = z3.Function('FE', I, I)                       # end of the digits at a position
        s.SI = z3.Function('SI', I, z3.BitVecSort(32))       # value of that number, -1 if it exceeds int
        s.LB = s.fold('LastBrace', ex, s.o, s.arr, I, BV(0, 64), lambda g, c, k: z3.If(z3.Or(c == ord('{'), c == ord('}')), simp(k + 1), g))   # end of the last brace before a position
        s.at_load(lambda k: s.unfold(k))
        s.g = ex.new_obj('ghost', 24, 'cells')
        ex.init_mem[s.g] = Cells({0: (8, BV(0, 64)), 8: (8, BV(0, 64)), 16: (1, BV(0, 8)), 17: (1, BV(0, 8)), 18: (1, BV(0, 8))}, 'ghost')
        return [p, s.n]

    def at(s, k):
        return sel(s.arr, simp(k))

    def lemmas(s, ex):
        k, g, d, n = z3.BitVecs('k g d n', 64)
        c = z3.Bool('c')
        return [('the last brace lies before its position', z3.Implies(z3.And(z3.ULE(g, k), z3.ULT(k, MAXLEN)), z3.ULE(z3.If(c, k + 1, g), k + 1))),
                ('digits lie inside the text', z3.Implies(z3.And(z3.ULT(k, n), z3.ULE(n, MAXLEN), z3.UGE(d, k + 1), z3.ULE(d, n)), z3.And(z3.UGE(z3.If(c, d, k), k), z3.Implies(c, z3.UGT(d, k)), z3.ULE(z3.If(c, d, k), n))))]

    def unfold(s, k):
        return [s.FE(k) == z3.If(z3.And(z3.ULT(k, s.n), dec(s.at(k))), s.FE(simp(k + 1)), k),
                z3.Implies(z3.And(z3.ULT(k, s.n), dec(s.at(k))), z3.UGT(s.FE(k), k)),
                z3.Implies(z3.ULE(k, s.n), z3.And(z3.UGE(s.FE(k), k), z3.ULE(s.FE(k), s.n))),
                z3.Implies(z3.ULE(k, MAXLEN), z3.ULE(s.LB(k), k)),
                z3.Implies(s.FE(k) == k + 1, s.SI(k) == u32(s.at(k)) - 48)]

    def get(s, mem, off, n=8):
        return mem[s.g].d[off][1]

    def put(s, ex, mem, **kw):
        d = dict(mem[s.g].d)
        for k, v in kw.items():
            o = int(k[1:])
            d[o] = (d[o][0], simp(v))
        ex.note_write(s.g)
        mem[s.g] = Cells(d, 'ghost')

    def off(s, ex, p, reach, what):
        f, ok = ret_off(p, s.o)
        ex.oblige(f'{what}: inside the format string', reach, z3.And(ok, z3.ULE(f, s.nb)), 'pre')
        return s.idx(f)

    def field_end(s, pos):
        """where the argument id of a field at pos ends"""
        return s.FE(simp(pos + 1))

    def field_ok(s, pos):
        """the part of a field at pos up to its colon or closing brace is well-formed"""
        e = s.field_end(pos)
        c1 = s.at(pos + 1)
        num = z3.And(z3.UGT(e, pos + 1), z3.Or(c1 != 48, e == pos + 2), s.SI(pos + 1) != -1)
        return z3.And(z3.ULT(pos + 1, s.n), z3.Or(c1 == ord('{'), z3.And(z3.Or(e == pos + 1, num), z3.ULT(e, s.n), z3.Or(s.at(e) == ord('}'), z3.And(s.at(e) == ord(':'), z3.ULT(e + 1, s.n))))))

    def call(s, ex, name, args, ins, mem, reach):
        if 'parse_simple_int' in name:
            cell, end = args
            b = ex.load(mem, cell, ('ptr',), reach, 'number')
            k = s.off(ex, b, reach, 'number')
            ex.oblige('number: starts at a digit', reach, z3.And(z3.ULT(k, s.n), dec(s.at(k)), s.off(ex, end, reach, 'number end') == s.n), 'pre')
            for a in s.unfold(k):
                ex.axiom(a, reach)
            v = s.SI(k)
            stop = ex.fresh(64, 'stop')
            ex.axiom(z3.Implies(reach, z3.And(z3.UGE(stop, k), z3.ULT(stop, s.FE(k)), dec(s.at(stop)))), reach)
            ex.store(mem, cell, Ptr.to(s.o, simp(z3.If(v == -1, stop, s.FE(k)) * s.elem)), 8, reach, 'number')
            ex.axiom(v >= -1, reach)
            return v
        if not name.startswith('vp_ev_'):
            return NotImplemented
        ev = name[6:-2]
        pos, pend, failed = s.get(mem, 0), s.get(mem, 8), s.get(mem, 16) != 0
        run = z3.Not(failed)
        O = lambda nm, g: ex.oblige(nm, reach, z3.Implies(run, g), 'pre')
        bit = lambda c: z3.If(c, BV(1, 8), BV(0, 8))
        if ev == 'failed':
            return failed
        if ev == 'error':
            O('error: a well-formed field is not reported', z3.Or(s.at(pos) != ord('{'), z3.UGE(pos, s.n), z3.Not(s.field_ok(pos)), s.get(mem, 18) != 0))
            for a in s.unfold(simp(pos + 1)) + s.unfold(simp(pos + 2)):
                ex.axiom(a, reach)
            s.put(ex, mem, _16=BV(1, 8))
            return None
        if ev == 'text':
            b, e = s.off(ex, args[0], reach, 'text begin'), s.off(ex, args[1], reach, 'text end')
            ex.oblige('text: begins before it ends', reach, z3.ULE(b, e), 'pre')
            for a in s.unfold(b):
                ex.axiom(a, reach)
            dbl = z3.And(b == pos + 1, e == b + 1, s.at(pos) == ord('{'), s.at(b) == ord('{'))
            plain = z3.ULE(s.LB(e), b)
            O('text: starts where the last item ended', z3.Or(b == pos, dbl))
            O('text: braces only where they are doubled', z3.Or(plain, dbl, z3.And(b == pos, z3.ULT(b, e), z3.ULE(s.LB(e - 1), b), s.at(e - 1) == ord('}'), z3.ULT(e, s.n), s.at(e) == ord('}'))))
            s.put(ex, mem, _0=z3.If(z3.Or(plain, dbl), e, e + 1), _16=z3.If(failed, BV(1, 8), bit(ex.fresh_bool('mismatch'))))
            return None
        if ev in ('auto', 'manual'):
            for a in s.unfold(simp(pos + 1)) + s.unfold(simp(pos + 2)):
                ex.axiom(a, reach)
            if ev == 'auto':
                O('automatic index: for a field without one', z3.And(z3.ULT(pos + 1, s.n), s.at(pos) == ord('{'), z3.Or(s.at(pos + 1) == ord('}'), s.at(pos + 1) == ord(':'))))
            else:
                O('manual index: for a field with one', z3.And(z3.ULT(pos + 1, s.n), s.at(pos) == ord('{'), z3.UGT(s.field_end(pos), pos + 1)))
                O('manual index: the number spelled there', args[0] == z3.SignExt(32, s.SI(pos + 1)))
                O('manual index: not negative', s.SI(pos + 1) >= 0)
            id = ex.fresh(64, 'id')
            s.put(ex, mem, _8=id, _16=z3.If(failed, BV(1, 8), bit(ex.fresh_bool('noarg'))))
            return id
        if ev == 'field':
            O('field: of the argument named', args[0] == pend)
            p = s.off(ex, args[1], reach, 'field end')
            O('field: ends right after its index', z3.And(z3.ULT(p, s.n), s.at(p) == ord('}'), s.at(pos) == ord('{'), p == s.field_end(pos)))
            s.put(ex, mem, _0=p + 1, _16=z3.If(failed, BV(1, 8), bit(ex.fresh_bool('fail'))))
            return None
        if ev == 'specs':
            O('specs: of the argument named', args[0] == pend)
            b, e = s.off(ex, args[1], reach, 'specs begin'), s.off(ex, args[2], reach, 'specs end')
            ex.oblige('specs: there is something to parse', reach, z3.And(z3.ULT(b, e), e == s.n), 'pre')
            O('specs: start right after the colon', z3.And(s.at(b - 1) == ord(':'), b - 1 == s.field_end(pos), s.at(pos) == ord('{')))
            r = ex.fresh(64, 'specs_end')
            ex.axiom(z3.Implies(reach, z3.And(z3.ULE(b, r), z3.ULE(r, s.n))), reach)
            good = z3.And(z3.ULT(r, s.n), s.at(r) == ord('}'))
            s.put(ex, mem, _0=z3.If(good, r + 1, r), _16=z3.If(failed, BV(1, 8), bit(ex.fresh_bool('badspecs'))), _18=z3.If(good, s.get(mem, 18), BV(1, 8)))
            return Ptr.to(s.o, simp(r * s.elem))
        if ev == 'done':
            O('end: every character was accounted for', pos == s.n)
            ex.oblige('end: not after an error', reach, run, 'pre')
            s.put(ex, mem, _17=BV(1, 8), _16=z3.If(failed, BV(1, 8), bit(ex.fresh_bool('unused'))))
            return None
        return NotImplemented

    def invariants(s, ex, L):
        loc = lambda x, S: s.idx(x.get(S))
        bad = lambda S: s.get(S.mem, 16) != 0
        for x in T.positions(ex, L, s.o):
            if x.kind == 'ptr':
                yield (f'{x.name} inside', lambda S, x=x: z3.ULE(x.get(S), s.nb), False)
                yield (f'{x.name} forward', lambda S, x=x: z3.UGE(x.get(S), x.get(L.entry)), False)
                if s.elem > 1:
                    yield (f'{x.name} aligned', lambda S, x=x: x.get(S) & (s.elem - 1) == 0, False)
                yield (f'{x.name} is next', lambda S, x=x: z3.Or(bad(S), loc(x, S) == s.get(S.mem, 0)), False)
                yield (f'no brace between next and {x.name}', lambda S, x=x: z3.Or(bad(S), z3.And(z3.ULE(s.get(S.mem, 0), loc(x, S)), z3.ULE(s.LB(loc(x, S)), s.get(S.mem, 0)), z3.Or(loc(x, S) == s.get(S.mem, 0), s.at(s.get(S.mem, 0)) != ord('{')))), False)
        yield ('next inside', lambda S: z3.Or(bad(S), z3.ULE(s.get(S.mem, 0), s.n)), False)
        yield ('a field without brace failed', lambda S: z3.Or(s.get(S.mem, 18) == 0, s.get(S.mem, 16) != 0), False)
        yield ('not checked yet', lambda S: s.get(S.mem, 17) == 0, False)

    def ensures(s, ex, ret, mem):
        failed, done, mf = s.get(mem, 16) != 0, s.get(mem, 17) != 0, s.get(mem, 18) != 0
        return [('success is reported exactly when nothing failed', (ret == 0) == z3.Not(failed)),
                ('success only after the arguments were checked', z3.Implies(ret == 0, done)),
                ('success only if every field was closed', z3.Implies(ret == 0, z3.Not(mf)))]

    def cover(s, ex, ret, mem):
        return [('success', ret == 0), ('failure', ret != 0)]


class WalkW(Walk):
    fn = 'vp_walk_w'
    func = 'detail::parse_format_string<wchar_t>, parse_replacement_field, parse_arg_id, do_parse_arg_id'
    S = '_w'
    elem = 4
