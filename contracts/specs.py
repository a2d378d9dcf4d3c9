"""Format specs and character sets: grammar of what stands between ':' and '}', what the setter stores, which types are allowed."""
from lib import *
from fmt import dec

# as the harness numbers them (it names the enumerators)
NONE, BIN, DEC, GEN, UNS, OCT, HEX, ARB, FHEX, FSCI, FFIX, FGEN, STR, SET, RX, RXE, CHR, ESC, PTR = range(19)
TYPES = {'b': BIN, 'B': BIN, 'd': DEC, 'i': GEN, 'u': UNS, 'o': OCT, 'x': HEX, 'X': HEX, 'r': ARB, 'R': ARB, 'a': FHEX, 'A': FHEX, 'e': FSCI, 'E': FSCI,
         'f': FFIX, 'F': FFIX, 'g': FGEN, 'G': FGEN, 's': STR, 'c': CHR, '?': ESC, 'p': PTR}


def type_of(c):
    r = BV(NONE, 32)
    for k, v in TYPES.items():
        r = z3.If(c == ord(k), BV(v, 32), r)
    return r


def align_of(c):
    return z3.If(c == ord('<'), BV(1, 32), z3.If(c == ord('>'), BV(2, 32), z3.If(c == ord('^'), BV(3, 32), BV(0, 32))))


class Rec(BufSpec):
    """a ghost record of the events the handler receives"""
    G = {}

    def ghost(s, ex):
        size = max(o + n for o, n in s.G.values())
        s.g = ex.new_obj('ghost', size, 'cells')
        ex.init_mem[s.g] = Cells({o: (n, s.init(k, n)) for k, (o, n) in s.G.items()}, 'ghost')

    def init(s, k, n):
        return BV(0, 8 * n)

    def get(s, mem, k):
        return mem[s.g].d[s.G[k][0]][1]

    def put(s, ex, mem, **kw):
        d = dict(mem[s.g].d)
        for k, v in kw.items():
            o, n = s.G[k]
            d[o] = (n, simp(v) if z3.is_expr(v) else BV(v, 8 * n))
        ex.note_write(s.g)
        mem[s.g] = Cells(d, 'ghost')

    def at(s, k):
        return sel(s.arr, simp(k))

    def dec(s, k):
        if s.elem == 1:
            return dec8(s.arr, simp(k), s.n)
        c = s.at(k)
        return BV(1, 64), c, z3.UGE(c, INVALID)

    def pos(s, ex, p, reach, what):
        f, ok = ret_off(p, s.o)
        ex.oblige(f'{what}: inside the format string', reach, z3.And(ok, z3.ULE(f, s.nb)), 'pre')
        return s.idx(f)


class Parts(Rec):
    """record of what the parts of format specs report; the grammar of fill and alignment"""
    G = dict(failed=(0, 1), nalign=(1, 1), nfill=(2, 1), nwidth=(3, 1), nprec=(4, 1), nlocal=(5, 1), ntype=(6, 1), nset=(7, 1), nrx=(64, 1),
             align=(8, 4), width=(12, 4), prec=(16, 4), type=(20, 4), fillb=(24, 8), filln=(32, 8), setb=(40, 8), setn=(48, 8))

    def setup(s, ex):
        p = s.buf(ex)
        s.requires(s.n != 0)
        s.ghost(ex)
        s.parts(ex)
        return [p, s.n]

    def align_grammar(s):
        n, c0 = s.n, s.at(BV(0, 64))
        L = len8(c0) if s.elem == 1 else BV(1, 64)
        more = z3.ULT(L, n)
        plain = z3.And(L == 1, z3.Or(c0 == ord('['), c0 == ord('}')))
        a1 = z3.If(z3.And(more, z3.Not(plain)), align_of(s.at(L)), BV(0, 32))
        a0 = z3.If(z3.And(more, z3.Not(plain)), align_of(c0), BV(0, 32))
        s.alignok = z3.And(L != 0, z3.ULE(L, n), z3.Not(z3.And(L == 1, more, c0 == ord('{'))))
        s.hasfill = a1 != 0
        s.filllen = L
        s.walign = z3.If(s.hasfill, a1, a0)
        return z3.If(s.hasfill, L + 1, z3.If(a0 != 0, BV(1, 64), BV(0, 64)))

    def define(s, ex, nm, e):
        v = z3.BitVec(nm, 64)
        ex.axioms.append(v == e)
        return v

    def digit(s, p):
        return z3.And(z3.ULT(p, s.n), dec(s.at(p)))

    def lies(s, ex, lo, reach):
        stop = ex.fresh(64, 'stop')
        ex.axiom(z3.Implies(reach, z3.And(z3.UGE(stop, lo), z3.ULE(stop, s.n))), reach)
        return stop

    def enter(s, ex, args, mem, reach, what, first, byref):
        p, end = args[:2]
        k = s.pos(ex, ex.load(mem, p, ('ptr',), reach, what) if byref else p, reach, what)
        ex.oblige(f'{what}: starts at its first character', reach, z3.And(z3.ULT(k, s.n), first(s.at(k)), s.pos(ex, end, reach, what + ' end') == s.n), 'pre')
        return k

    def event(s, ex, name, args, mem, reach):
        ev = name[6:-2]
        if ev == 'failed':
            return s.get(mem, 'failed') != 0
        if ev == 'error':
            s.put(ex, mem, failed=1)
            return None
        cnt = {'n' + ev: s.get(mem, 'n' + ev) + 1} if 'n' + ev in s.G else {}
        if ev == 'fill':
            s.put(ex, mem, fillb=s.pos(ex, args[0], reach, 'fill'), filln=args[1], **cnt)
        elif ev == 'set':
            s.put(ex, mem, setb=s.pos(ex, args[0], reach, 'set string'), setn=args[1], **cnt)
        elif ev == 'local':
            s.put(ex, mem, **cnt)
        elif ev in ('align', 'width', 'prec', 'type'):
            s.put(ex, mem, **{ev: args[0]}, **cnt)
        else:
            return NotImplemented
        return None

    def call(s, ex, name, args, ins, mem, reach):
        return s.event(ex, name, args, mem, reach) if name.startswith('vp_ev_') else NotImplemented

    def once(s, mem, nm, cond):
        return s.get(mem, nm) == z3.If(cond, BV(1, 8), BV(0, 8))

    def align_post(s, mem):
        g = lambda nm: s.get(mem, nm)
        return z3.And(s.once(mem, 'nfill', s.hasfill), s.once(mem, 'nalign', s.walign != 0), z3.Implies(s.walign != 0, g('align') == s.walign),
                      z3.Implies(s.hasfill, z3.And(g('fillb') == 0, g('filln') == s.filllen)))


class Align(Parts):
    fn = 'vp_align_c'
    func = 'detail::parse_align<char>'

    def parts(s, ex):
        s.p1 = s.align_grammar()

    def ensures(s, ex, ret, mem):
        f, inside = ret_off(ret, s.o)
        ok = s.get(mem, 'failed') == 0
        return [('the end lies inside the format string', z3.And(inside, z3.ULE(s.idx(f), s.n))),
                ('refused exactly what is no fill', ok == s.alignok),
                ('fill and alignment as they stand there', z3.Implies(ok, z3.And(s.idx(f) == s.p1, s.align_post(mem)))),
                ('nothing else is reported', z3.And(*[s.get(mem, k) == 0 for k in ('nwidth', 'nprec', 'nlocal', 'ntype', 'nset', 'nrx')]))]

    def cover(s, ex, ret, mem):
        return [('fill', s.get(mem, 'nfill') == 1), ('error', s.get(mem, 'failed') != 0), ('nothing', z3.And(s.get(mem, 'failed') == 0, s.get(mem, 'nalign') == 0))]


class AlignW(Align):
    fn = 'vp_align_w'
    func = 'detail::parse_align<wchar_t>'
    elem = 4


class Width(Parts):
    fn = 'vp_width_c'
    func = 'detail::parse_width<char>'
    EV = 'width'

    def parts(s, ex):
        s.d = z3.BitVec('d', 64)     # digits of the number at the start, and its value (-1: exceeds int)
        s.v = z3.BitVec('v', 32)
        ex.axioms.append(z3.If(s.digit(BV(0, 64)), z3.And(z3.UGE(s.d, 1), z3.ULE(s.d, s.n), s.v >= -1), s.d == 0))

    def call(s, ex, name, args, ins, mem, reach):
        if 'parse_simple_int' in name:
            k = s.enter(ex, args, mem, reach, 'number', dec, True)
            ex.oblige('number: at the start', reach, k == 0, 'pre')
            stop = s.lies(ex, k, reach)
            ex.axiom(z3.Implies(reach, z3.And(z3.ULT(stop, s.d), dec(s.at(stop)))), reach)
            ex.store(mem, args[0], Ptr.to(s.o, simp(z3.If(s.v == -1, stop, s.d) * s.elem)), 8, reach, 'number')
            return s.v
        return Parts.call(s, ex, name, args, ins, mem, reach)

    def ensures(s, ex, ret, mem):
        f, inside = ret_off(ret, s.o)
        ok = s.get(mem, 'failed') == 0
        has = s.digit(BV(0, 64))
        good = z3.Implies(has, s.v != -1) if s.EV == 'width' else z3.And(has, s.v != -1)
        return [('the end lies inside the format string', z3.And(inside, z3.ULE(s.idx(f), s.n))),
                ('refused exactly what is no number', ok == good),
                ('the number as it stands there', z3.Implies(ok, z3.And(s.idx(f) == s.d, s.once(mem, 'n' + s.EV, has), z3.Implies(has, s.get(mem, s.EV) == s.v)))),
                ('nothing else is reported', z3.And(*[s.get(mem, k) == 0 for k in ('nwidth', 'nprec', 'nlocal', 'ntype', 'nset', 'nrx', 'nalign', 'nfill') if k != 'n' + s.EV]))]

    def cover(s, ex, ret, mem):
        return [('number', s.get(mem, s.EV) == 77), ('error', s.get(mem, 'failed') != 0)]


class WidthW(Width):
    fn = 'vp_width_w'
    func = 'detail::parse_width<wchar_t>'
    elem = 4


class Prec(Width):
    fn = 'vp_prec_c'
    func = 'detail::parse_precision<char>'
    EV = 'prec'


class PrecW(Prec):
    fn = 'vp_prec_w'
    func = 'detail::parse_precision<wchar_t>'
    elem = 4


class Specs(Parts):
    fn = 'vp_specs_c'
    func = 'detail::parse_format_specs<char>, parse_presentation_type'

    def parts(s, ex):
        """the grammar: fill and alignment, width, precision, 'L', presentation"""
        # the two numbers (digits, value or -1 if it exceeds int), the character set and the regex, as the callees' contracts define them
        s.d1, s.d2, s.setend, s.rxend = z3.BitVecs('d1 d2 setend rxend', 64)
        s.v1, s.v2 = z3.BitVecs('v1 v2', 32)
        s.setok, s.rxok = z3.Bools('setok rxok')
        n = s.n
        k = lambda nm, e: s.define(ex, nm, e)
        s.p1 = k('p1', s.align_grammar())
        s.haswidth = s.digit(s.p1)
        s.p2 = k('p2', z3.If(s.haswidth, s.p1 + s.d1, s.p1))
        s.hasprec = z3.And(z3.ULT(s.p2, n), s.at(s.p2) == ord('.'))
        s.p3 = k('p3', z3.If(s.hasprec, s.p2 + 1 + s.d2, s.p2))
        s.haslocal = z3.And(z3.ULT(s.p3, n), s.at(s.p3) == ord('L'))
        s.p4 = k('p4', z3.If(s.haslocal, s.p3 + 1, s.p3))
        c = s.at(s.p4)
        s.hastype = z3.And(z3.ULT(s.p4, n), c != ord('}'))
        s.isset, s.isrx = c == ord('['), c == ord('/')
        s.pe = k('pe', z3.If(z3.Not(s.hastype), s.p4, z3.If(s.isset, s.setend, z3.If(s.isrx, s.rxend, s.p4 + 1))))
        typeok = z3.If(s.isset, z3.And(s.setok, z3.UGT(s.setend - s.p4, 2)), z3.If(s.isrx, s.rxok, type_of(c) != NONE))
        s.v1ok = z3.Implies(s.haswidth, s.v1 != -1)
        s.v2ok = z3.And(s.digit(s.p2 + 1), s.v2 != -1)
        s.valid = z3.And(s.alignok, z3.ULT(s.p1, n), s.v1ok, z3.ULT(s.p2, n), z3.Implies(s.hasprec, s.v2ok), z3.ULT(s.p3, n), z3.ULT(s.p4, n), z3.Implies(s.hastype, typeok), z3.ULT(s.pe, n))
        for p, d, v in ((s.p1, s.d1, s.v1), (simp(s.p2 + 1), s.d2, s.v2)):
            ex.axioms.append(z3.If(s.digit(p), z3.And(z3.UGE(d, 1), z3.ULE(d, n - p), v >= -1), d == 0))
        # bounds of the named positions (consequences of the definitions above; lemmas below)
        ex.axioms.append(z3.Implies(s.alignok, z3.ULE(s.p1, n)))
        ex.axioms.append(z3.Implies(z3.ULE(s.p1, n), z3.And(z3.ULE(s.p1, s.p2), z3.ULE(s.p2, n))))
        ex.axioms.append(z3.Implies(z3.ULE(s.p2, n), z3.And(z3.ULE(s.p2, s.p3), z3.ULE(s.p3, n))))
        ex.axioms.append(z3.Implies(z3.ULE(s.p3, n), z3.And(z3.ULE(s.p3, s.p4), z3.ULE(s.p4, n))))
        k = s.p4
        ex.axioms.append(z3.Implies(s.setok, z3.And(z3.ULE(s.setend, n), z3.UGE(s.setend, k + 2), z3.ULT(k, n))))
        ex.axioms.append(z3.Implies(s.rxok, z3.And(z3.ULT(s.rxend, n), z3.UGE(s.rxend, k + 2), z3.ULT(k, n), s.at(s.rxend) == ord('}'))))

    def lemmas(s, ex):
        n, d = z3.BitVecs('n d', 64)
        p, L = z3.BitVecs('p L', 64)
        a1, a0, more, dg = z3.Bools('a1 a0 more dg')
        p1 = z3.If(a1, L + 1, z3.If(a0, BV(1, 64), BV(0, 64)))
        return [('fill and alignment lie inside', z3.Implies(z3.And(z3.ULE(n, MAXLEN), n != 0, L != 0, z3.ULE(L, n), z3.Implies(a1, z3.ULT(L, n))), z3.ULE(p1, n))),
                ('the width lies inside', z3.Implies(z3.And(z3.ULE(n, MAXLEN), z3.ULE(p, n), z3.If(dg, z3.And(z3.UGE(d, 1), z3.ULE(d, n - p)), d == 0)),
                                                    z3.And(z3.ULE(p, z3.If(dg, p + d, p)), z3.ULE(z3.If(dg, p + d, p), n)))),
                ('the precision lies inside', z3.Implies(z3.And(z3.ULE(n, MAXLEN), z3.ULT(p, n), z3.If(z3.And(dg, z3.ULT(p + 1, n)), z3.And(z3.UGE(d, 1), z3.ULE(d, n - (p + 1))), d == 0)),
                                                        z3.And(z3.ULE(p, p + 1 + d), z3.ULE(p + 1 + d, n)))),
                ('what follows lies inside', z3.Implies(z3.And(z3.ULE(n, MAXLEN), z3.ULE(p, n)), z3.And(z3.ULE(p, z3.If(z3.And(z3.ULT(p, n), dg), p + 1, p)), z3.ULE(z3.If(z3.And(z3.ULT(p, n), dg), p + 1, p), n))))]

    def call(s, ex, name, args, ins, mem, reach):
        failed = s.get(mem, 'failed') != 0
        flag = lambda bad: z3.If(z3.Or(failed, bad), BV(1, 8), BV(0, 8))
        bit = lambda c: z3.If(c, BV(1, 8), BV(0, 8))
        go = lambda nm, g: ex.oblige(nm, reach, z3.Or(failed, g), 'pre')
        any_ = lambda c: z3.BoolVal(True)
        P = lambda k: Ptr.to(s.o, simp(k * s.elem))
        if 'parse_align' in name:
            k = s.enter(ex, args, mem, reach, 'alignment', any_, False)
            go('alignment: first of all', z3.And(k == 0, *[s.get(mem, x) == 0 for x in s.G if x[0] == 'n']))
            stop = s.lies(ex, k, reach)
            s.put(ex, mem, failed=flag(z3.Not(s.alignok)), nalign=bit(s.walign != 0), nfill=bit(s.hasfill), align=s.walign, fillb=BV(0, 64), filln=s.filllen)
            return P(z3.If(z3.Or(failed, z3.Not(s.alignok)), stop, s.p1))
        if 'parse_width' in name:
            k = s.enter(ex, args, mem, reach, 'width', any_, False)
            go('width: after the alignment', z3.And(k == s.p1, s.get(mem, 'nwidth') == 0))
            stop = s.lies(ex, k, reach)
            s.put(ex, mem, failed=flag(z3.Not(s.v1ok)), nwidth=bit(s.haswidth), width=s.v1)
            return P(z3.If(z3.Or(failed, z3.Not(s.v1ok)), stop, s.p2))
        if 'parse_precision' in name:
            k = s.enter(ex, args, mem, reach, 'precision', any_, False)
            go('precision: after the width and a dot', z3.And(k == s.p2 + 1, s.hasprec, s.get(mem, 'nprec') == 0))
            stop = s.lies(ex, k, reach)
            s.put(ex, mem, failed=flag(z3.Not(s.v2ok)), nprec=BV(1, 8), prec=s.v2)
            return P(z3.If(z3.Or(failed, z3.Not(s.v2ok)), stop, s.p3))
        if 'parse_presentation_set' in name:
            k = s.enter(ex, args, mem, reach, 'set', lambda c: c == ord('['), True)
            go('set: at the presentation', k == s.p4)
            stop = s.lies(ex, k + 1, reach)
            bad = z3.Or(failed, z3.Not(s.setok))
            ex.store(mem, args[0], P(z3.If(bad, stop, s.setend)), 8, reach, 'set')
            s.put(ex, mem, failed=flag(bad))
            return [simp(z3.If(bad, BV(0, 64), s.setend - s.p4)), P(k)]
        if 'parse_presentation_regex' in name:
            k = s.enter(ex, args, mem, reach, 'regex', lambda c: c == ord('/'), True)
            go('regex: at the presentation', k == s.p4)
            stop = s.lies(ex, k, reach)
            bad = z3.Or(failed, z3.Not(s.rxok))
            ex.store(mem, args[0], P(z3.If(bad, stop, s.rxend)), 8, reach, 'regex')
            s.put(ex, mem, failed=flag(bad), nrx=s.get(mem, 'nrx') + 1)
            return ex.load(mem, args[0], ('ptr',), reach, 'regex')
        return Parts.call(s, ex, name, args, ins, mem, reach)

    def ensures(s, ex, ret, mem):
        f, inside = ret_off(ret, s.o)
        k = s.idx(f)
        g = lambda nm: s.get(mem, nm)
        ok = g('failed') == 0
        c = s.at(s.p4)
        once = lambda nm, cond: s.once(mem, nm, cond)
        I = lambda x: z3.Implies(ok, x)
        sets, rxs = z3.And(s.hastype, s.isset), z3.And(s.hastype, s.isrx)
        one = z3.And(s.hastype, z3.Not(s.isset), z3.Not(s.isrx))
        return [('the end lies inside the format string', z3.And(inside, z3.ULE(k, s.n))),
                ('what is accepted is well-formed', I(s.valid)),
                ('what is well-formed is accepted', z3.Implies(s.valid, ok)),
                ('accepted: ends after the last part', I(k == s.pe)),
                ('fill and alignment', I(s.align_post(mem))),
                ('width', I(z3.And(once('nwidth', s.haswidth), z3.Implies(s.haswidth, g('width') == s.v1)))),
                ('precision', I(z3.And(once('nprec', s.hasprec), z3.Implies(s.hasprec, g('prec') == s.v2)))),
                ('localized', I(once('nlocal', s.haslocal))),
                ('type', I(z3.And(once('ntype', one), z3.Implies(one, g('type') == type_of(c))))),
                ('character set or regex', I(z3.And(once('nset', sets), once('nrx', rxs), z3.Implies(sets, z3.And(g('setb') == s.p4, g('setn') == s.setend - s.p4)))))]

    def cover(s, ex, ret, mem):
        ok = s.get(mem, 'failed') == 0
        return [('everything at once', z3.And(ok, s.hasfill, s.haswidth, s.hasprec, s.haslocal, s.hastype)), ('a set', z3.And(ok, s.hastype, s.isset)), ('an error', z3.Not(ok))]


class SpecsW(Specs):
    fn = 'vp_specs_w'
    func = 'detail::parse_format_specs<wchar_t>, parse_presentation_type'
    elem = 4


class CharSet(Rec):
    """ghost position `next`: the item that has to be reported next"""
    fn = 'vp_set_c'
    func = 'detail::parse_presentation_set<char>, parse_presentation_set_literal, parse_presentation_set_code_point'
    G = dict(failed=(0, 1), inv=(1, 1), next=(8, 8))

    def init(s, k, n):
        return BV(1 if k == 'next' else 0, 8 * n)

    def setup(s, ex):
        p = s.buf(ex)
        s.requires(s.n != 0, s.at(BV(0, 64)) == ord('['))
        s.ghost(ex)
        s.sz = ex.new_obj('size', 8, 'cells')
        ex.init_mem[s.sz] = Cells({0: (8, BV(0, 64))}, 'size')
        return [p, s.n, Ptr.to(s.sz)]

    def item(s, k):
        """(well-formed, is a range, first, last, end) of the item at k"""
        l1, v1, ill1 = s.dec(k)
        e = k + l1
        rng = z3.And(z3.ULT(e, s.n), s.at(e) == ord('-'), z3.ULT(e + 1, s.n), s.at(e + 1) != ord(']'))
        l2, v2, ill2 = s.dec(e + 1)
        ok = z3.And(z3.ULT(k, s.n), z3.Not(ill1), z3.Implies(rng, z3.And(z3.Not(ill2), z3.ULE(v1, v2))))
        return ok, rng, v1, v2, z3.If(rng, e + 1 + l2, e)

    def call(s, ex, name, args, ins, mem, reach):
        if not name.startswith('vp_ev_'):
            return NotImplemented
        ev = name[6:-2]
        failed = s.get(mem, 'failed') != 0
        k = s.get(mem, 'next')
        O = lambda nm, g: ex.oblige(nm, reach, z3.Implies(z3.Not(failed), g), 'pre')
        if ev == 'failed':
            return failed
        lead = z3.And(s.get(mem, 'inv') != 0, k == 2, s.at(BV(2, 64)) == ord(']'), z3.ULT(BV(2, 64), s.n))
        ok, rng, a, b, e = s.item(k)
        for x in (k, simp(k + s.dec(k)[0] + 1)) if s.elem == 1 else ():
            l, _, ill = s.dec(x)
            ex.axiom(z3.Implies(z3.And(z3.ULT(x, s.n), z3.Not(ill)), z3.And(z3.ULT(x, x + l), z3.ULE(x + l, s.n))), reach)
        if ev == 'error':
            O('error: only where the set is ill-formed', z3.Or(z3.UGE(k, s.n), z3.And(s.at(k) != ord(']'), z3.Not(ok))))
            s.put(ex, mem, failed=1)
        elif ev == 'invert':
            O('inversion: a caret after the bracket', z3.And(k == 1, s.get(mem, 'inv') == 0, z3.ULT(k, s.n), s.at(k) == ord('^')))
            s.put(ex, mem, inv=1, next=k + 1)
        elif ev == 'single':
            O('single: the character that stands there', z3.Or(z3.And(lead, args[0] == ord(']')), z3.And(z3.Not(lead), s.at(k) != ord(']'), ok, z3.Not(rng), args[0] == a, z3.Not(s.caret(mem, k)))))
            s.put(ex, mem, next=z3.If(lead, BV(3, 64), e))
        elif ev == 'range':
            O('range: from its first through its last character', z3.And(z3.Not(lead), s.at(k) != ord(']'), ok, rng, args[0] == a, args[1] == b + 1, z3.Not(s.caret(mem, k))))
            s.put(ex, mem, next=e)
        else:
            return NotImplemented
        return None

    def lemmas(s, ex):
        k, l, n = z3.BitVecs('k l n', 64)
        return [('a sequence that fits ends inside', z3.Implies(z3.And(z3.ULE(n, MAXLEN), z3.ULT(k, n), l != 0, z3.ULE(l, 4), z3.ULE(l, n - k)), z3.And(z3.ULT(k, k + l), z3.ULE(k + l, n))))]

    def caret(s, mem, k):
        return z3.And(k == 1, s.at(k) == ord('^'))

    def invariants(s, ex, L):
        bad = lambda S: s.get(S.mem, 'failed') != 0
        for x in T.positions(ex, L, s.o):
            if x.kind == 'ptr':
                yield (f'{x.name} inside', lambda S, x=x: z3.ULE(x.get(S), s.nb), False)
                yield (f'{x.name} strictly inside', lambda S, x=x: z3.ULT(x.get(S), s.nb), False)
                yield (f'{x.name} forward', lambda S, x=x: z3.UGE(x.get(S), x.get(L.entry)), False)
                if s.elem > 1:
                    yield (f'{x.name} aligned', lambda S, x=x: x.get(S) & (s.elem - 1) == 0, False)
                yield (f'{x.name} is next', lambda S, x=x: z3.Or(bad(S), s.idx(x.get(S)) == s.get(S.mem, 'next')), False)
        P = [x for x in T.positions(ex, L, s.o) if x.kind == 'ptr']
        for i, x in enumerate(P):
            for y in P[i + 1:]:
                yield (f'{x.name} == {y.name}', lambda S, x=x, y=y: x.get(S) == y.get(S), False)
        yield ('next inside', lambda S: z3.Or(bad(S), z3.ULE(s.get(S.mem, 'next'), s.n)), False)
        yield ('past the opening', lambda S: z3.Or(bad(S), z3.If(s.get(S.mem, 'inv') != 0, z3.Or(z3.And(s.get(S.mem, 'next') == 2, s.at(BV(2, 64)) != ord(']')), z3.UGT(s.get(S.mem, 'next'), 2)),
                                                                 z3.UGE(s.get(S.mem, 'next'), 1))), False)
        yield ('caret handled', lambda S: z3.Or(bad(S), s.get(S.mem, 'inv') != 0, z3.UGT(s.get(S.mem, 'next'), 1), s.at(BV(1, 64)) != ord('^')), False)

    def ensures(s, ex, ret, mem):
        f, inside = ret_off(ret, s.o)
        k = s.idx(f)
        size = ex.cell_get(mem, s.sz, 0, 8)
        nx, ok = s.get(mem, 'next'), s.get(mem, 'failed') == 0
        return [('the end lies inside the format string, past the bracket', z3.And(inside, z3.ULE(k, s.n), z3.UGE(k, 1))),
                ('accepted exactly when nothing was wrong', (size != 0) == ok),
                ('accepted: the whole set up to its bracket, every item reported', z3.Implies(ok, z3.And(size == k, k == nx + 1, z3.ULT(nx, s.n), s.at(nx) == ord(']'))))]

    def cover(s, ex, ret, mem):
        ok = s.get(mem, 'failed') == 0
        return [('a set of several items', z3.And(ok, z3.UGT(s.get(mem, 'next'), 8), s.get(mem, 'inv') != 0)), ('an error', z3.Not(ok)), ('empty', z3.And(ok, s.get(mem, 'next') == 1))]


class CharSetW(CharSet):
    fn = 'vp_set_w'
    func = 'detail::parse_presentation_set<wchar_t>, parse_presentation_set_literal, parse_presentation_set_code_point'
    elem = 4


class Setter(Spec):
    def setup(s, ex):
        s.pre = []
        s.w, s.p, s.v = z3.BitVecs('w p v', 32)
        s.requires(s.v >= 0, s.w >= 0, s.p >= 0)
        s.inputs = {'w': s.w, 'p': s.p, 'v': s.v}
        return [s.w, s.p, s.v]

    def out(s, ret):
        return z3.Extract(31, 0, ret[0]), z3.Extract(63, 32, ret[0]), ret[1]

    def cover(s, ex, ret, mem):
        return [('stored', ret[1] == 0), ('refused', ret[1] != 0)]


class StoreWidth(Setter):
    fn = 'vp_store_width'
    func = 'detail::specs_setter::on_width'

    def ensures(s, ex, ret, mem):
        w, p, code = s.out(ret)
        bad = z3.And(s.p != 0, s.v > s.p)
        return [('stored unless it exceeds the precision', z3.Implies(z3.Not(bad), z3.And(code == 0, w == s.v, p == s.p))), ('a width over the precision is refused', z3.Implies(bad, code == E_FORMAT))]


class StorePrec(Setter):
    fn = 'vp_store_prec'
    func = 'detail::specs_setter::on_precision'

    def ensures(s, ex, ret, mem):
        w, p, code = s.out(ret)
        bad = s.w > s.v
        return [('stored unless the width exceeds it', z3.Implies(z3.Not(bad), z3.And(code == 0, p == s.v, w == s.w))), ('a precision under the width is refused', z3.Implies(bad, code == E_FORMAT))]


class StoreSingle(Spec):
    fn = 'vp_store_single'
    func = 'detail::specs_setter::on_charset_single'

    def setup(s, ex):
        s.pre = []
        s.o, s.arr = ex.buffer('specs', BV(128, 64), 1, True)
        s.j, s.a, s.b = z3.BitVecs('j a b', 32)
        s.bounds()
        s.requires(z3.ULT(s.j, 128))
        s.inputs = {'a': s.a, 'b': s.b, 'j': s.j}
        s.nb = BV(128, 64)
        return s.args()

    def bounds(s):
        s.requires(s.b == s.a + 1, z3.ULT(s.a, INVALID))

    def args(s):
        return [Ptr.to(s.o), s.a]

    def bit(s, arr, base):
        byte = z3.Select(arr, base + z3.ZeroExt(32, z3.LShR(s.j, 3)))
        return z3.Extract(0, 0, z3.LShR(byte, z3.Extract(7, 0, s.j & 7))) == 1

    def ensures(s, ex, ret, mem):
        base, ok = ret_off(ret[0], s.o)
        na = ret[1]
        na = (na & 1) != 0 if z3.is_bv(na) else na
        m = z3.And(z3.ULE(s.a, s.j), z3.ULT(s.j, s.b))
        return [('a character is in the set exactly if it was before or is added', s.bit(ex.content(mem, s.o), base) == z3.Or(s.bit(s.arr, base), m)),
                ('marked as having non-ASCII members exactly if it gets one', na == z3.UGT(s.b, 128))]

    def cover(s, ex, ret, mem):
        return [('return', z3.BoolVal(True))]


class StoreRange(StoreSingle):
    fn = 'vp_store_range'
    func = 'detail::specs_setter::on_charset_range'

    def bounds(s):
        s.requires(z3.ULT(s.a, s.b), z3.ULE(s.b, INVALID))

    def args(s):
        return [Ptr.to(s.o), s.a, s.b]

    def invariants(s, ex, L):
        for k in range(128):
            yield (f'byte {k} unchanged', lambda S, k=k: z3.Select(ex.content(S.mem, s.o), BV(k, 64)) == z3.Select(ex.content(L.entry.mem, s.o), BV(k, 64)), False)
        for x in T.carried(ex, L):
            if x.kind == 'int':
                lo = (lambda S, x=x: x.get(S)) if x.width == 32 else (lambda S, x=x: z3.Extract(31, 0, x.get(S)))
                yield (f'{x.name} from a', lambda S, x=x, lo=lo: z3.UGE(lo(S), s.a), False)
                yield (f'{x.name} below b', lambda S, x=x, lo=lo: z3.ULT(lo(S), s.b), False)
                yield (f'{x.name} to b', lambda S, x=x, lo=lo: z3.ULE(lo(S), s.b), False)
                yield (f'{x.name} to 128', lambda S, x=x, lo=lo: z3.ULE(lo(S), 128), False)
                yield (f'{x.name} below 128', lambda S, x=x, lo=lo: z3.ULT(lo(S), 128), False)
                if x.width == 64:
                    yield (f'{x.name} small', lambda S, x=x: z3.ULE(x.get(S), 1 << 31), False)
                for base in s.bases(ex):
                    yield (f'members up to {x.name}, literals at {base}', lambda S, x=x, lo=lo, base=base: s.bit(ex.content(S.mem, s.o), BV(base, 64)) ==
                           z3.Or(s.bit(s.arr, BV(base, 64)), z3.And(z3.ULE(s.a, s.j), z3.ULT(s.j, lo(S)))), False)

    def bases(s, ex):
        return range(0, 64, 4)


class Check(Spec):
    """which presentation types a destination accepts"""
    NAMES = ('int', 'char', 'code_point', 'float', 'string', 'pointer', 'bool', 'regex')

    def __init__(s, name):
        Spec.__init__(s)
        s.fn = 'vp_check_' + name
        s.func = f'detail::check_{name}_type_specs'
        s.name = name

    def setup(s, ex):
        s.pre = []
        s.t, s.p = z3.BitVecs('type prec', 32)
        s.l = z3.Bool('localized')
        s.n = z3.BitVec('len', 64)
        s.requires(z3.ULE(s.t, PTR), s.p >= 0)
        s.inputs = {'type': s.t, 'prec': s.p}
        return [s.t, s.p, s.l, s.n]

    def ensures(s, ex, ret, mem):
        isin = lambda *l: z3.Or(*[s.t == x for x in l])
        ints = (NONE, BIN, DEC, GEN, UNS, OCT, HEX)
        # 'r' has no digits after it in this grammar: base 0 and rejected later; not judged here
        ok = {'int': z3.And(isin(*ints), z3.Not(z3.And(s.l, s.t == BIN))),
              'char': isin(CHR, *ints), 'code_point': isin(NONE, CHR), 'float': isin(NONE, FHEX, FSCI, FFIX, FGEN),
              'string': z3.Or(isin(NONE, STR, SET, RX, RXE), z3.And(s.t == CHR, s.p != 0)), 'pointer': isin(NONE, PTR),
              'bool': isin(STR, *ints), 'regex': z3.And(isin(RX, RXE), s.n != 0)}[s.name]
        return [('accepted exactly the documented types', ret == z3.Not(ok))]

    def cover(s, ex, ret, mem):
        return [('accepted', z3.Not(ret)), ('refused', ret)]


CHECKS = ['Check_' + n for n in Check.NAMES]


def make(name):
    return Check(name[6:])


class Regex(Rec):
    """U(k): the first slash not preceded by a backslash in [1,k), 0 if none; after it come the flags"""
    fn = 'vp_regex_c'
    func = 'detail::parse_presentation_regex<char>'
    G = dict(failed=(0, 1), ntype=(1, 1), nrx=(2, 1), nflags=(3, 1), type=(4, 4), flags=(8, 4), rxb=(16, 8), rxe=(24, 8))
    head_inst = True

    def setup(s, ex):
        p = s.buf(ex)
        s.requires(s.n != 0, s.at(BV(0, 64)) == ord('/'))
        I = z3.BitVecSort(64)
        slash = lambda c, k: z3.And(c == ord('/'), s.at(k - 1) != ord('\\'))
        one = BV(1, 64)
        s.U = s.fold('U', ex, s.o, s.arr, I, BV(0, 64), lambda g, c, k: z3.If(z3.And(g == 0, slash(c, k)), k, g), start=one)
        s.Esc = s.fold('Esc', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(False), lambda g, c, k: z3.Or(g, z3.And(s.U(k) == 0, c == ord('/'), s.at(k - 1) == ord('\\'))), start=one)
        s.F = s.fold('F', ex, s.o, s.arr, z3.BitVecSort(32), BV(0, 32), lambda g, c, k: z3.If(s.U(k) == 0, BV(0, 32), g | s.flag(c)), start=one)
        s.Bad = s.fold('Bad', ex, s.o, s.arr, z3.BoolSort(), z3.BoolVal(False), lambda g, c, k: z3.And(s.U(k) != 0, z3.Or(g, s.badflag(c, k))), start=one)
        s.ghost(ex)
        s.cell = ex.new_obj('begin', 8, 'cells')
        ex.init_mem[s.cell] = Cells({0: (8, p)}, 'begin')
        return [p, s.n, Ptr.to(s.cell)]

    def flag(s, c):
        r = BV(0, 32)
        for ch, b in (('m', 1), ('s', 2), ('i', 4), ('n', 8)):
            r = z3.If(c == ord(ch), BV(b, 32), r)
        return r

    def badflag(s, c, k):
        return z3.Or(s.flag(c) == 0, (s.F(k) & s.flag(c)) != 0)

    def call(s, ex, name, args, ins, mem, reach):
        if not name.startswith('vp_ev_'):
            return NotImplemented
        ev = name[6:-2]
        if ev == 'error':
            s.put(ex, mem, failed=1)
        elif ev == 'type':
            s.put(ex, mem, type=args[0], ntype=1)
        elif ev == 'regex':
            b = s.pos(ex, args[0], reach, 'pattern')
            ex.oblige('pattern: inside the format string', reach, z3.ULE(args[1], s.n - b), 'pre')
            s.put(ex, mem, rxb=b, rxe=b + args[1], nrx=s.get(mem, 'nrx') + 1)
        elif ev == 'flags':
            s.put(ex, mem, flags=args[0], nflags=s.get(mem, 'nflags') + 1)
        else:
            return NotImplemented
        return None

    def ghost_candidates(s):
        return [('pattern not over', lambda k: s.U(k) == 0), ('flags good', lambda k: z3.Not(s.Bad(k))), ('pattern over', lambda k: z3.And(s.U(k) != 0, z3.ULT(s.U(k), k))),
                ('past the slash', lambda k: z3.UGE(k, 1)), ('known flags', lambda k: z3.ULT(s.F(k), 16)), ('no single-line flag', lambda k: s.F(k) & 2 == 0)]

    def more_invariants(s, ex, L):
        loc = lambda x, S: s.idx(x.get(S)) if x.kind == 'ptr' else x.get(S)
        for x in T.positions(ex, L, s.o):
            if x.kind != 'ptr':
                continue
            yield (f'type up to {x.name}', lambda S, x=x: z3.And(s.get(S.mem, 'ntype') == 1, s.get(S.mem, 'type') == z3.If(s.Esc(loc(x, S)), BV(RXE, 32), BV(RX, 32))), False)
            yield (f'pattern recorded {x.name}', lambda S, x=x: z3.And(s.get(S.mem, 'rxe') == s.U(loc(x, S))), False)
            yield (f'failed by the s flag {x.name}', lambda S, x=x: (s.get(S.mem, 'failed') != 0) == (s.F(loc(x, S)) & 2 != 0), False)
            for v in T.carried(ex, L):
                if v.kind == 'int' and v.width == 32:
                    yield (f'{v.name} flags up to {x.name}', lambda S, x=x, v=v: v.get(S) == s.F(loc(x, S)), False)
        yield ('pattern begin', lambda S: z3.And(s.get(S.mem, 'rxb') == 1, z3.UGT(s.get(S.mem, 'rxe'), 1), s.get(S.mem, 'nrx') == 1), False)
        yield ('flags not reported yet', lambda S: s.get(S.mem, 'nflags') == 0, False)
        yield ('nothing wrong', lambda S: s.get(S.mem, 'failed') == 0, False)

    def ensures(s, ex, ret, mem):
        f, inside = ret_off(ret, s.o)
        r = s.idx(f)
        g = lambda k: s.get(mem, k)
        ok = g('failed') == 0
        c = s.at(r)
        p = mem[s.cell].d[0][1]
        pf, pin = ret_off(p, s.o)
        return [('the end lies inside the format string', z3.And(inside, z3.ULE(r, s.n), z3.UGE(r, 1), pin, pf == f)),
                ('accepted: ends at the brace after the flags', z3.Implies(ok, z3.And(z3.ULT(r, s.n), c == ord('}'), s.U(r) != 0, z3.Not(s.Bad(r)), s.F(r) & 2 == 0))),
                ('accepted: the pattern runs to the first slash that is not escaped', z3.Implies(ok, z3.And(g('nrx') == 1, g('rxb') == 1, g('rxe') == s.U(r), z3.UGT(g('rxe'), 1)))),
                ('accepted: the flags as they stand there', z3.Implies(ok, z3.And(g('nflags') == 1, g('flags') == s.F(r)))),
                ('accepted: the kind of regex', z3.Implies(ok, z3.And(g('ntype') == 1, g('type') == z3.If(s.Esc(r), BV(RXE, 32), BV(RX, 32))))),
                ('refused only for a reason', z3.Implies(z3.Not(ok), z3.Or(r == s.n, z3.And(r == 1, c == ord('/')), z3.And(s.U(r) != 0, c != ord('}'), s.badflag(c, r)), s.F(r) & 2 != 0)))]

    def cover(s, ex, ret, mem):
        ok = s.get(mem, 'failed') == 0
        return [('accepted', z3.And(ok, s.get(mem, 'type') == RXE)), ('refused', z3.Not(ok))]


class RegexW(Regex):
    fn = 'vp_regex_w'
    func = 'detail::parse_presentation_regex<wchar_t>'
    elem = 4
