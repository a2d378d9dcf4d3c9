"""Numeric date and time conversions over contiguous sources (ranges and meaning as the C library documents them)."""
from lib import *

# conversion: (fewest digits, most digits, lowest, highest value, tm member, stored value)
S32 = lambda v: BV(v, 32)
FIELD = {
    'sec': (1, 2, 0, 60, 0, lambda v: v),
    'min': (1, 2, 0, 59, 4, lambda v: v),
    'h24': (1, 2, 0, 23, 8, lambda v: v),
    'h12': (1, 2, 1, 12, 8, lambda v: v),
    'mday': (1, 2, 1, 31, 12, lambda v: v),
    'mon': (1, 2, 1, 12, 16, lambda v: v - 1),
    'year': (4, 4, 0, 9999, 20, lambda v: v - 1900),
    'wday0': (1, 1, 0, 6, 24, lambda v: v),
    'wday1': (1, 1, 1, 7, 24, lambda v: z3.If(v == 7, S32(0), v)),
    'yday': (1, 3, 1, 366, 28, lambda v: v - 1),
    'yy': (2, 2, 0, 99, 20, lambda v: z3.If(z3.ULT(v, 69), v + 100, v)),
    'cc': (2, 2, 0, 99, 20, lambda v: v * 100 - 1900),
}
MEMBERS = [0, 4, 8, 12, 16, 20, 24, 28, 32]


class Tm(BufSpec):
    conv = None

    def __init__(s, conv='sec', ch='c'):
        s.conv = conv
        s.elem = 4 if ch == 'w' else 1
        s.fn = f'vp_tm_{ch}_{conv}'
        s.func = f'detail::tm_reader<std::tm, {"wchar_t" if ch == "w" else "char"}>: {conv} (read_classic_unsigned_integer, datetime_setter<std::tm>)'

    def setup(s, ex):
        p = s.buf(ex)
        s.oo = ex.new_obj('tm', 56, 'cells')
        s.old = {m: z3.BitVec(f'tm{m}', 32) for m in MEMBERS}
        s.old[40] = z3.BitVec('tm40', 64)
        ex.init_mem[s.oo] = Cells({m: (8 if m == 40 else 4, v) for m, v in s.old.items()}, 'tm')
        return [p, s.n, Ptr.to(s.oo)]

    def dig(s, k):
        c = sel(s.arr, k)
        return z3.And(z3.ULT(k, s.n), z3.UGE(c, 48), z3.ULE(c, 57))

    def num(s, pos, mn, mx):
        """(well-formed, value, end) of mn..mx digits at pos, as many as there are"""
        more = z3.BoolVal(True)
        v, d = BV(0, 32), BV(0, 64)
        for i in range(mx):
            k = simp(pos + i)
            more = z3.And(more, s.dig(k))
            c = u32(sel(s.arr, k))
            v = z3.If(more, v * 10 + (c - 48), v)
            d = z3.If(more, BV(i + 1, 64), d)
        return z3.UGE(d, mn), v, simp(pos + d)

    def step(s, pos, conv):
        mn, mx, lo, hi, m, f = FIELD[conv]
        ok, v, e = s.num(pos, mn, mx)
        return z3.And(ok, z3.UGE(v, lo), z3.ULE(v, hi)), v, e, m, f(v)

    def lit(s, pos, ch):
        return z3.And(z3.ULT(pos, s.n), sel(s.arr, pos) == ord(ch)), simp(pos + 1)

    def want(s):
        ok, v, e, m, st = s.step(BV(0, 64), s.conv)
        return ok, e, {m: st}

    strict = True

    def ensures(s, ex, ret, mem):
        it, code = ret
        boff, isok = ret_off(it, s.o)
        off = s.idx(boff)
        ok, end, fields = s.want()
        now = {m: ex.cell_get(mem, s.oo, m, 8 if m == 40 else 4) for m in s.old}
        # (what a failed conversion leaves in the member is not observable: a failed scan has no value)
        out = [('a spelling in range: accepted, exactly it consumed', z3.Implies(ok, z3.And(code == 0, isok, off == end))),
               ('a spelling in range: its value stored', z3.Implies(ok, z3.And(*[now[m] == v for m, v in fields.items()]))),
               ('members the format does not name are untouched', z3.Implies(ok, z3.And(*[now[m] == s.old[m] for m in s.old if m not in fields])))]
        if s.strict:
            out += [('anything else: invalid value', z3.Implies(z3.Not(ok), code == E_INVALID))]
        else:
            out += [('anything else: rejected', z3.Implies(z3.Not(ok), code != 0))]
        return out

    def cover(s, ex, ret, mem):
        return [('accepted', ret[1] == 0), ('rejected', ret[1] != 0)]


class Seq(Tm):
    strict = False
    parts = ()

    def want(s):
        pos = BV(0, 64)
        oks, fields = [], {}
        for p in s.parts:
            if len(p) == 1:
                ok, pos = s.lit(pos, p)
            else:
                ok, v, pos, m, st = s.step(pos, p)
                fields[m] = st
            oks.append(ok)
        return z3.And(*oks), pos, fields


SEQ = {'hm': ('h24', ':', 'min'), 'hms': ('h24', ':', 'min', ':', 'sec'), 'ymd': ('year', '-', 'mon', '-', 'mday'), 'x': ('mon', '/', 'mday', '/', 'year')}


class Mdy(Seq):
    """two-digit years are put together at the end of the field (see YY)"""
    parts = ('mon', '/', 'mday', '/', 'yy')

    def want(s):
        ok, pos, fields = Seq.want(s)
        fields.pop(20)
        return ok, pos, fields


class CCYY(Tm):
    strict = False

    def want(s):
        ok1, c, p, m, _ = s.step(BV(0, 64), 'cc')
        ok2, y, p, m, _ = s.step(p, 'yy')
        return z3.And(ok1, ok2), p, {20: c * 100 + y - 1900}


class Zone(Tm):
    strict = False

    def want(s):
        c0 = sel(s.arr, BV(0, 64))
        neg = c0 == ord('-')
        p = z3.If(z3.Or(neg, c0 == ord('+')), BV(1, 64), BV(0, 64))
        okh, h, p = s.num(p, 2, 2)
        colon = z3.And(z3.ULT(p, s.n), sel(s.arr, p) == ord(':'))
        q = z3.If(colon, p + 1, p)
        mins = s.dig(q)
        okm, m, e = s.num(q, 2, 2)
        ok = z3.And(s.n != 0, okh, z3.Implies(mins, z3.And(okm, z3.ULE(m, 59))))
        tot = z3.ZeroExt(32, h) * 60 + z3.If(mins, z3.ZeroExt(32, m), BV(0, 64))
        tot = tot * 60
        s.hours = h
        return ok, z3.If(mins, e, p), {40: z3.If(neg, -tot, tot)}


class Dt(Tm):
    """datetime_components: the member is engaged and holds the value exactly on success"""
    VAL = {'mon': lambda v: v, 'year': lambda v: v, 'wday': lambda v: v}

    def __init__(s, conv):
        Tm.__init__(s, conv)
        s.fn = f'vp_dt_{conv}'
        s.func = f'detail::tm_reader<datetime_components, char>: {conv} (datetime_setter<datetime_components>)'

    def setup(s, ex):
        p = s.buf(ex)
        s.oh = ex.new_obj('has', 4, 'cells')
        s.ov = ex.new_obj('val', 4, 'cells')
        ex.init_mem[s.oh] = Cells({0: (4, z3.BitVec('has0', 32))}, 'has')
        ex.init_mem[s.ov] = Cells({0: (4, z3.BitVec('val0', 32))}, 'val')
        return [p, s.n, Ptr.to(s.oh), Ptr.to(s.ov)]

    def ensures(s, ex, ret, mem):
        it, code = ret
        boff, isok = ret_off(it, s.o)
        ok, v, e, m, st = s.step(BV(0, 64), 'wday0' if s.conv == 'wday' else s.conv)
        has, val = ex.cell_get(mem, s.oh, 0, 4), ex.cell_get(mem, s.ov, 0, 4)
        want = s.VAL[s.conv](v) if s.conv in s.VAL else st
        return [('a spelling in range: accepted, exactly it consumed', z3.Implies(ok, z3.And(code == 0, isok, s.idx(boff) == e))),
                ('a spelling in range: its value stored', z3.Implies(ok, z3.And(has == 1, val == want))),
                ('anything else: invalid value', z3.Implies(z3.Not(ok), code == E_INVALID))]


class AmPm(Spec):
    fn = 'vp_ampm'
    func = 'detail::setter_state::handle_am_pm'

    def setup(s, ex):
        s.pre = []
        s.h = z3.BitVec('hour', 32)
        s.pm = z3.Bool('pm')
        s.requires(z3.And(z3.UGE(s.h, 1), z3.ULE(s.h, 12)))
        s.inputs = {'hour': s.h}
        return [s.h, s.pm]

    def ensures(s, ex, ret, mem):
        h = z3.If(s.h == 12, S32(0), s.h)
        return [('12 am is 0, 12 pm is 12, pm adds 12', ret == z3.If(s.pm, h + 12, h))]

    def cover(s, ex, ret, mem):
        return [('pm', z3.And(s.pm, ret == 12))]


def make(name):
    k, _, c = name.partition('_')
    if k == 'Dt':
        return Dt(c)
    if k == 'Tm':
        ch, _, conv = c.partition('_')
        if conv in SEQ:
            t = Seq(conv, ch)
            t.parts = SEQ[conv]
            return t
        return {'mdy': Mdy, 'ccyy': CCYY, 'z': Zone}.get(conv, Tm)(conv, ch)
    raise KeyError(name)


QUICK = [f'Tm_{ch}_{c}' for ch in 'cw' for c in FIELD if c not in ('yy', 'cc')] + ['Tm_c_' + c for c in ('yy', 'cc', 'ccyy', 'z', 'hm', 'hms', 'ymd', 'mdy', 'x')] + \
        ['Dt_' + c for c in ('sec', 'min', 'h24', 'h12', 'mday', 'mon', 'yday', 'year', 'wday')] + ['AmPm']
