"""Integer value parsing: exact value or overflow error, for every digit string."""
from lib import *
import re

EIGHT = 'parse_eight_decimal_digits_unrolled_fast'


def digit(c):
    """value of a digit character, 255 if none; c is 8 or 32 bits"""
    w = c.size()
    c32 = z3.ZeroExt(32 - w, c) if w < 32 else c
    d = lambda base: z3.Extract(7, 0, c32 - base)
    return z3.If(z3.And(z3.UGE(c32, 48), z3.ULE(c32, 57)), d(48),
           z3.If(z3.And(z3.UGE(c32, 65), z3.ULE(c32, 90)), d(55),
           z3.If(z3.And(z3.UGE(c32, 97), z3.ULE(c32, 122)), d(87), BV(255, 8))))


def pairs_value(b):
    """value of eight ASCII digits given as bytes b[0..7], 32 bits"""
    p = [z3.ZeroExt(24, b[2 * i] - 48) * 10 + z3.ZeroExt(24, b[2 * i + 1] - 48) for i in range(4)]
    return p[0] * 1000000 + p[1] * 10000 + p[2] * 100 + p[3]


class IsEight(Spec):
    fn = 'vp_is_eight'
    func = 'impl::is_word_made_of_eight_decimal_digits_fast'

    def setup(s, ex):
        s.pre = []
        s.w = z3.BitVec('word', 64)
        s.inputs = {'word': s.w}
        return [s.w]

    def ensures(s, ex, ret, mem):
        b = [z3.Extract(8 * i + 7, 8 * i, s.w) for i in range(8)]
        return [('true exactly when all eight bytes are decimal digits',
                 ret == z3.And(*[z3.And(z3.UGE(c, 48), z3.ULE(c, 57)) for c in b]))]

    def cover(s, ex, ret, mem):
        return [('digits', ret), ('not digits', z3.Not(ret))]


class Eight(Spec):
    """z0..z3: the four two-digit values (ghost).  Cuts: intermediate words proved to be those pairs side by side."""
    fn = 'vp_eight'
    func = 'impl::parse_eight_decimal_digits_unrolled_fast'
    mul_split = True

    def setup(s, ex):
        s.pre = []
        s.b = [z3.BitVec(f'b{i}', 8) for i in range(8)]
        s.w = z3.Concat(*reversed(s.b))
        s.z = [z3.BitVec(f'z{i}', 32) for i in range(4)]
        s.dig = z3.And(*[z3.And(z3.UGE(c, 48), z3.ULE(c, 57)) for c in s.b])
        s.defs = z3.And(*[s.z[i] == z3.ZeroExt(24, s.b[2 * i] - 48) * 10 + z3.ZeroExt(24, s.b[2 * i + 1] - 48) for i in range(4)])
        # only the bounds of the ghost pairs are needed once the cuts are in place
        s.requires(*[z3.ULE(z, 99) for z in s.z])
        s.inputs = {'word': s.w}
        s.lem = []
        s.used = False
        return [s.w]

    def cut(s, ex, v, reach):
        if v.size() != 64:
            return v
        z = s.z
        for nm, t in (('pairs 2,0', z3.Concat(z[2], z[0])), ('pairs 3,1', z3.Concat(z[3], z[1]))):
            f = z3.Implies(z3.And(s.dig, s.defs), v == t)
            q = z3.Tactic('qfufbv_ackr').solver()
            q.set('timeout', 5000)
            q.add(z3.Not(f))
            if q.check() == z3.unsat:
                s.lem.append((f'intermediate word holds {nm}', f))
                s.used = True
                return t
        return v

    def lemmas(s, ex):
        bounds = z3.Implies(z3.And(s.dig, s.defs), z3.And(*[z3.ULE(z, 99) for z in s.z]))
        return s.lem + [('pair bounds', bounds)]

    def ensures(s, ex, ret, mem):
        z = s.z
        want = z[0] * 1000000 + z[1] * 10000 + z[2] * 100 + z[3]
        hyp = z3.BoolVal(True) if s.used else z3.And(s.dig, s.defs)
        return [('the value of the eight digits', z3.Implies(hyp, ret == want))]


def tables(b):
    m = 1
    while b ** m <= 2 ** 64 - 1:
        m += 1
    return m, b ** (m - 1)


class Int(BufSpec):
    ch = 'c'
    ty = 'i32'
    base = 10
    wide = True
    full = False        # True: overflow facts at every position read, for code that tracks overflow as it goes

    def __init__(s):
        BufSpec.__init__(s)
        s.fn = f'vp_int_{s.ch}_{s.ty}'
        s.func = 'impl::parse_integer_value<%s, %s> base %d' % ({'c': 'char', 'w': 'wchar_t'}[s.ch], s.ty, s.base)
        s.elem = 1 if s.ch == 'c' else 4
        s.signed = s.ty[0] == 'i'
        s.bits = {'8': 8, '16': 16, '32': 32, '64': 64, 'll': 64}[s.ty[1:]]

    def dig(s, k):
        return digit(sel(s.arr, k))

    def P(s, k, V, Ov, L):
        """bounds on the exact value by the number of significant digits c (all digits valid, Z0: first significant)"""
        b = s.base
        M, ms = tables(b)
        c = k - s.Z0
        L64 = z3.ZeroExt(56, L)
        out = [z3.Implies(z3.ULE(k, s.Z0), z3.And(V == 0, z3.Not(Ov)))]
        for i in range(1, M):
            lo = b ** (i - 1)
            out.append(z3.Implies(z3.And(z3.UGT(k, s.Z0), c == i),
                                  z3.And(z3.Not(Ov), z3.UGE(V, L64 * lo), z3.ULE(V, L64 * lo + (lo - 1)), z3.UGE(L, 1), z3.ULT(L, b))))
        Lmax = (2 ** 64 - 1) // ms
        out.append(z3.Implies(z3.And(z3.UGT(k, s.Z0), c == M),
                              z3.And(Ov == z3.Or(z3.UGT(L, Lmax), z3.ULT(V, L64 * ms)), z3.UGE(L, 1), z3.ULT(L, b))))
        out.append(z3.Implies(z3.And(z3.UGT(k, s.Z0), z3.UGT(c, M)), z3.And(Ov, z3.UGE(L, 1), z3.ULT(L, b))))
        return z3.And(*out)

    def stepf(s, V, Ov, d):
        """one digit: wrapped value and overflow flag, from the mathematical b*V+d"""
        w = z3.ZeroExt(8, V) * s.base + z3.ZeroExt(64, d)
        return z3.Extract(63, 0, w), z3.Or(Ov, z3.Extract(71, 64, w) != 0)

    def lemmas(s, ex):
        """P holds at 0 and is kept by every digit"""
        b = s.base
        M, ms = tables(b)
        k = z3.BitVec('k', 64)
        V = z3.BitVec('Vk', 64)
        Ov = z3.Bool('Ovk')
        d = z3.BitVec('d', 8)
        L = s.L
        out = [('value bounds hold at the start', s.P(BV(0, 64), BV(0, 64), z3.BoolVal(False), L))]
        hyp = [z3.ULT(k, MAXLEN), z3.ULE(s.Z0, MAXLEN), z3.ULT(d, b),
               z3.Implies(z3.ULT(k, s.Z0), d == 0), z3.Implies(k == s.Z0, z3.And(d != 0, L == d))]
        V2, Ov2 = s.stepf(V, Ov, d)
        c = k - s.Z0
        goal = s.P(k + 1, V2, Ov2, L)
        pk = s.P(k, V, Ov, L)
        cases = [('zeros', z3.ULT(k, s.Z0)), ('first', k == s.Z0)]
        cases += [(f'digit {i + 1}', z3.And(z3.UGT(k, s.Z0), c == i)) for i in range(1, M + 1)]
        cases += [('beyond', z3.And(z3.UGT(k, s.Z0), z3.UGT(c, M)))]
        cases_all = z3.Or(*[x for _, x in cases])
        out.append(('digit counts are covered', cases_all))
        if b == 10:
            bs = [z3.BitVec(f'e{i}', 8) for i in range(8)]
            # eight steps at once: V(k+8) == V(k)*10^8 + pairs_value, in two parts
            d64 = [z3.ZeroExt(56, c - 48) for c in bs]
            poly = sum((d64[i] * 10 ** (7 - i) for i in range(1, 8)), d64[0] * 10 ** 7)
            ds = [z3.BitVec(f'd{i}', 64) for i in range(8)]
            x = V
            for y in ds:
                x = x * 10 + y
            kk, DD, nn = z3.BitVecs('kk DD nn', 64)
            alld = z3.And(*[z3.And(z3.UGE(c, 48), z3.ULE(c, 57)) for c in bs])
            stop = z3.And(*[z3.Implies(DD == kk + i, z3.Or(DD == nn, z3.UGE(digit(bs[i]), 10))) for i in range(8)])
            out.append(('eight digit bytes lie before the end of the digits', z3.Implies(
                z3.And(alld, stop, z3.ULE(kk, DD), z3.ULE(DD, nn), z3.ULE(nn, MAXLEN), z3.ULE(BV(8, 64), nn - kk)), z3.ULE(BV(8, 64), DD - kk))))
            out.append(('eight digits are at most 99999999', z3.Implies(alld, z3.ULE(pairs_value(bs), 99999999))))
            out.append(('eight digits: pair value is the digit polynomial', z3.Implies(alld, z3.And(
                z3.ZeroExt(32, pairs_value(bs)) == poly, *[d64[i] == z3.ZeroExt(56, digit(bs[i])) for i in range(8)]))))
            out.append(('eight digits: eight single steps are one step of 10^8', z3.simplify(
                x == sum((ds[i] * 10 ** (7 - i) for i in range(8)), V * 10 ** 8), som=True)))
        for nm, x in cases:
            out.append((f'value bounds are kept: {nm}', z3.Implies(z3.And(x, pk, *hyp), goal)))
        return out

    def setup(s, ex):
        p = s.buf(ex)
        s.requires(s.n != 0)
        s.sign = z3.BitVec('sign', 32)
        s.requires(z3.Or(s.sign == 1, s.sign == 0) if s.signed else s.sign == 1)
        s.V = z3.Function('V', z3.BitVecSort(64), z3.BitVecSort(64))
        s.Ov = z3.Function('Ov', z3.BitVecSort(64), z3.BoolSort())
        s.Z0 = z3.BitVec('Z0', 64)      # number of leading zeros of the source
        s.D = z3.BitVec('D', 64)        # number of leading digits of the source
        s.L = z3.BitVec('L', 8)         # first significant digit
        zero = BV(0, 64)
        ex.axioms += [s.V(zero) == 0, z3.Not(s.Ov(zero)), z3.ULE(s.Z0, s.D), z3.ULE(s.D, s.n),
                      z3.Implies(z3.ULT(s.Z0, s.D), z3.And(s.L == digit(sel(s.arr, s.Z0)), sel(s.arr, s.Z0) != 48))]

        def inst(k):
            c = sel(s.arr, k)
            d = digit(c)
            a = [z3.Implies(z3.ULT(k, s.D), z3.And(z3.ULT(d, s.base), s.V(k + 1) == s.V(k) * s.base + z3.ZeroExt(56, d))),
                 z3.Implies(k == s.D, z3.Or(k == s.n, z3.UGE(d, s.base))),
                 z3.Implies(z3.ULT(k, s.Z0), c == 48),
                 z3.Implies(z3.And(k == s.Z0, z3.ULT(k, s.n)), c != 48)]
            # instances of the induction lemma (proved as obligations of this contract)
            a.append(z3.Implies(z3.ULE(k, s.Z0), s.V(k) == 0))
            if s.full:
                a.append(z3.Implies(z3.ULT(k, s.D), s.Ov(k + 1) == s.stepf(s.V(k), s.Ov(k), d)[1]))
                a.append(z3.Implies(z3.ULE(k, s.D), s.P(k, s.V(k), s.Ov(k), s.L)))
            return a
        s.at_load(inst)
        s.oo = ex.new_obj('value', s.bits // 8, 'cells')
        s.old = z3.BitVec('oldvalue', s.bits)
        ex.init_mem[s.oo] = Cells({0: (s.bits // 8, s.old)}, 'value')
        s.inputs['sign'] = s.sign
        return [p, s.n, Ptr.to(s.oo), s.sign, BV(s.base, 32)]

    def call(s, ex, name, args, ins, mem, reach):
        if EIGHT in name:
            w = args[0]
            b = [simp(z3.Extract(8 * i + 7, 8 * i, w)) for i in range(8)]
            ex.oblige('the eight bytes are digits', reach, z3.And(*[z3.And(z3.UGE(c, 48), z3.ULE(c, 57)) for c in b]), 'pre')
            pv = pairs_value(b)
            if s.base == 10 and b[0].num_args() == 1 and b[0].decl().eq(sel(s.arr, BV(0, 64)).decl()):
                # eight steps at once (instance of the lemma 'eight digits')
                k = b[0].arg(0)
                e = ex.fresh(32, 'eight')
                ex.axiom(z3.Implies(z3.And(z3.ULE(k, s.D), z3.ULE(BV(8, 64), s.D - k)),
                                    s.V(simp(k + 8)) == s.V(k) * 100000000 + z3.ZeroExt(32, e)), reach)
                # all eight bytes digits: so are the source's digits up to there (definition of D, eight instances)
                dg = z3.And(*[z3.And(z3.UGE(c, 48), z3.ULE(c, 57)) for c in b])
                ex.axiom(z3.Implies(z3.And(dg, z3.ULE(k, s.D), z3.ULE(BV(8, 64), s.n - k)), z3.ULE(BV(8, 64), s.D - k)), reach)
                ex.axiom(z3.ULE(e, 99999999), reach)
                ex.axiom(e == simp(pv), reach, weak=True)
                return e
            return simp(pv)
        return NotImplemented

    def ghost_candidates(s):
        return [('all digits before', lambda k: z3.ULE(k, s.D)),
                ('leading zeros', lambda k: z3.ULE(k, s.Z0)),
                ('past the zeros', lambda k: z3.ULE(s.Z0, k))]

    def more_invariants(s, ex, L):
        for x in T.positions(ex, L, s.o):
            for y in T.carried(ex, L):
                if y.kind == 'int' and y.width == 64 and y.name != x.name:
                    yield (f'{y.name} == V({x.name})', lambda S, x=x, y=y: y.get(S) == s.V(s.idx(x.get(S)) if x.kind == 'ptr' else x.get(S)), False)

    def ensures(s, ex, ret, mem):
        it, ret = ret
        val = ex.cell_get(mem, s.oo, 0, s.bits // 8)
        neg = s.sign == 0
        mx = BV(2 ** (s.bits - 1) - 1 if s.signed else 2 ** s.bits - 1, 64)
        lim = z3.If(neg, mx + 1, mx)
        V = s.V(s.D)
        fits = z3.And(z3.Not(s.Ov(s.D)), z3.ULE(V, lim))
        v = z3.Extract(s.bits - 1, 0, V) if s.bits < 64 else V
        none = s.D == 0
        out = [('no digit: invalid value, nothing stored', z3.Implies(none, z3.And(ret == E_INVALID, val == s.old))),
               ('value fits: success with exactly that value', z3.Implies(z3.And(z3.Not(none), fits), z3.And(ret == 0, val == z3.If(neg, -v, v)))),
               ('value does not fit: overflow error of the right sign, nothing stored',
                z3.Implies(z3.And(z3.Not(none), z3.Not(fits)), z3.And(ret == z3.If(neg, BV(E_NEG, 32), BV(E_POS, 32)), val == s.old)))]
        off, ok = ret_off(it, s.o)
        out.append(('the digits and nothing else are consumed', z3.Implies(ret == 0, z3.And(ok, off == s.D * s.elem))))
        # the induction lemma at the end of the digits
        PD = s.P(s.D, V, s.Ov(s.D), s.L)
        return [(nm, z3.Implies(PD, g)) for nm, g in out]

    def cover(s, ex, ret, mem):
        it, ret = ret
        return [('largest value', z3.And(ret == 0, s.V(s.D) == BV(2 ** (s.bits - 1) - 1 if s.signed else 2 ** s.bits - 1, 64))),
                ('overflow', ret == E_POS), ('beyond 64 bits', z3.And(ret == E_POS, s.Ov(s.D)))]


def make(name):
    """Int_<c|w>_<type>_<base>"""
    m = re.match(r'Int_([cw])_([iu](?:8|16|32|64|ll))_(\d+)$', name)
    if not m:
        raise KeyError(name)
    return type(name, (Int,), {'ch': m.group(1), 'ty': m.group(2), 'base': int(m.group(3))})()
