"""Buffers of sources that are not contiguous.  The text behind a buffer is T(0) .. T(N-1); a buffer holds a prefix of it as
putback buffer (pb characters) followed by the current view (cv characters).  A representation is consistent when its k-th
character is T(k).  Quantification over k is by one arbitrary position q (no contract assumes anything about the others)."""
from lib import *

CV_N, CV_P, PB_P, PB_N, CONTIG = 8, 16, 24, 32, 56


class Rep(Spec):
    elem = 1

    def ch(s):
        return z3.BitVecSort(8 * s.elem)

    def len_(s, name):
        v = z3.BitVec(name, 64)
        s.requires(z3.ULE(v, MAXLEN))
        return v

    def begin(s, ex):
        s.pre = []
        s.inputs = {}
        s.vt = ex.new_obj('vtable', 64, 'cells')
        s.slot = ex.new_obj('fill', 8, 'opaque')
        ex.init_mem[s.vt] = Cells({16: (8, Ptr.to(s.slot))})

    def rep(s, ex, name, size, cvp, cvn, pbp, pbn, more=None):
        o = ex.new_obj(name, size, 'cells')
        d = {0: (8, Ptr.to(s.vt)), CV_N: (8, cvn), CV_P: (8, cvp), PB_P: (8, pbp), PB_N: (8, pbn), CONTIG: (1, BV(0, 8))}
        d.update(more or {})
        ex.init_mem[o] = Cells(d)
        o.keep = (0,)
        return o

    def arr_(s, ex, name, n, writable=True):
        o, a = ex.buffer(name, n, s.elem, writable)
        return o, a

    def get(s, ex, mem, o, off):
        return ex.cell_get(mem, o, off, 8)

    def ptr(s, mem, o, off):
        v = mem[o].d[off][1]
        if not isinstance(v, Ptr):
            raise VCError('no pointer in the representation')
        return v

    def at(s, ex, mem, p, k):
        """element k of what p points to"""
        r = None
        for c, o, f in p.alts:
            if o.kind == 'null':
                continue
            if o.kind == 'cells':
                off = conc(f)
                if off is None:
                    raise VCError('view into the representation')
                v = ex.cell_get(mem, o, off, s.elem)      # such a view has one character
            else:
                i = f + k * s.elem
                v = sel(ex.content(mem, o), i if s.elem == 1 else z3.LShR(i, s.elem.bit_length() - 1))
            r = v if r is None else z3.If(c, v, r)
        if r is None:
            raise VCError('null view')
        return r

    def avail(s, ex, mem, o):
        return s.get(ex, mem, o, PB_N) + s.get(ex, mem, o, CV_N)

    def char(s, ex, mem, o, k):
        pb = s.get(ex, mem, o, PB_N)
        return z3.If(z3.ULT(k, pb), s.at(ex, mem, s.ptr(mem, o, PB_P), k), s.at(ex, mem, s.ptr(mem, o, CV_P), k - pb))

    def sane(s, ex, mem, o):
        return z3.And(z3.ULE(s.get(ex, mem, o, PB_N), MAXLEN), z3.ULE(s.get(ex, mem, o, CV_N), MAXLEN))

    def fresh_arr(s, ex, mem, o, tag):
        ex.fresh_n += 1
        a = z3.Array(f'{tag}!{ex.fresh_n}', z3.BitVecSort(64), s.ch())
        mem[o] = a
        ex.note_write(o)
        return a

    def ends_append(s, ex, args, mem, reach):
        """insert(end(), first, last)"""
        st, so = args[0].single()
        so = conc(so)
        first, last = args[2], args[3]
        n = s.get(ex, mem, st, so + 8)
        p = s.ptr(mem, st, so)
        ep = args[1].single()
        ex.oblige('inserts at the end of the putback buffer', reach, z3.And(z3.BoolVal(ep[0] is p.single()[0]), ep[1] == p.single()[1] + n * s.elem), 'pre')
        m = BV(0, 64)
        ok = []
        for c, o, f in first.alts:
            for c2, o2, f2 in last.alts:
                if o2 is o:
                    d = f2 - f
                    k = d if s.elem == 1 else z3.LShR(d, s.elem.bit_length() - 1)
                    m = z3.If(z3.And(c, c2), k, m)
                    ok.append(z3.And(c, c2, z3.ULE(f, f2), (f2 - f) & (s.elem - 1) == 0, z3.ULE(k, MAXLEN)))
                    if o.kind == 'cells':
                        ok[-1] = z3.And(ok[-1], z3.ULE(k, 1))
        m = simp(m)
        ex.oblige('inserts a valid range', reach, z3.Or(*ok), 'pre')
        ex.trusted['std::basic_string::insert(end(), first, last)'] = 'appends the characters (libstdc++)'
        po = p.single()[0]
        old = ex.content(mem, po)
        v = s.at(ex, mem, first, s.q_of(ex, mem, st) - n)
        a = s.fresh_arr(ex, mem, po, 'appended')
        q = s.q_of(ex, mem, st)
        ex.axiom(z3.And(z3.Implies(z3.ULT(q, n), sel(a, q) == sel(old, q)), z3.Implies(z3.And(z3.UGE(q, n), z3.ULT(q - n, m)), sel(a, q) == v)), reach)
        ex.store(mem, Ptr.to(st, so + 8), n + m, 8, reach, 'insert')
        return None

    def q_of(s, ex, mem, o):
        return s.q


class CharAt(Rep):
    fn = 'vp_char_c'
    func = 'basic_scan_buffer<char>::get_character_at'
    strict = True

    def setup(s, ex):
        s.begin(ex)
        s.pb, s.cv = s.len_('pb'), s.len_('cv')
        s.pos, s.d = z3.BitVecs('pos d', 64)
        s.po, s.pa = s.arr_(ex, 'putback', s.pb, False)
        s.co, s.ca = s.arr_(ex, 'view', s.cv, False)
        s.b = s.rep(ex, 'buffer', 64, Ptr.to(s.co), s.cv, Ptr.to(s.po), s.pb)
        s.requires(z3.ULT(s.pos, s.pb + s.cv) if s.strict else z3.ULE(s.pos, s.pb + s.cv))
        return [Ptr.to(s.b), s.pos]

    def T(s, k):
        return z3.If(z3.ULT(k, s.pb), sel(s.pa, k), sel(s.ca, k - s.pb))

    def ensures(s, ex, ret, mem):
        return [('the character at that position', ret == s.T(s.pos))]

    def cover(s, ex, ret, mem):
        return [('in the putback buffer', z3.And(s.pos == 2, s.pb == 5)), ('in the view', z3.And(s.pos == 7, s.pb == 5))]


class Segment(CharAt):
    fn = 'vp_segment_c'
    func = 'basic_scan_buffer<char>::get_segment_starting_at'
    strict = False

    def ensures(s, ex, ret, mem):
        p, n = ret
        return [('no longer than what is buffered', z3.ULE(n, s.pb + s.cv - s.pos)), ('not empty before the end', z3.Implies(z3.ULT(s.pos, s.pb + s.cv), n != 0)),
                ('the text at that position', z3.Implies(z3.ULT(s.d, n), s.at(ex, mem, p, s.d) == s.T(s.pos + s.d))),
                ('runs to the end of the putback buffer or of the view', z3.Or(s.pos + n == s.pb, s.pos + n == s.pb + s.cv))]

    def cover(s, ex, ret, mem):
        return [('in the putback buffer', z3.And(s.pos == 2, s.pb == 5, ret[1] == 3)), ('in the view', z3.And(s.pos == 7, s.pb == 5, ret[1] == 4)), ('empty', ret[1] == 0)]


class ItSegment(Segment):
    fn = 'vp_itseg_c'
    func = 'basic_scan_buffer<char>::forward_iterator::contiguous_segment'


class Iter(Rep):
    """fill() is seen through its contract (proved for each kind of buffer below): what is buffered stays consistent, does
    not shrink, and false means that all of the text was buffered already"""
    q_extra = 0

    def setup(s, ex):
        s.begin(ex)
        s.N = s.len_('N')
        pb, cv = s.len_('pb'), s.len_('cv')
        s.pos = z3.BitVec('pos', 64)
        s.q = s.pos + s.q_extra
        s.Tq = z3.BitVec('Tq', 8 * s.elem)
        s.po, _ = s.arr_(ex, 'putback', BV(MAXLEN, 64))
        s.co, _ = s.arr_(ex, 'view', BV(MAXLEN, 64))
        s.b = s.rep(ex, 'buffer', 64, Ptr.to(s.co), cv, Ptr.to(s.po), pb)
        s.requires(s.C(ex, ex.init_mem), z3.ULE(s.pos, s.N))
        s.more(ex)
        return [Ptr.to(s.b), s.pos]

    def more(s, ex):
        pass

    def C(s, ex, mem):
        av = s.avail(ex, mem, s.b)
        return z3.And(s.sane(ex, mem, s.b), z3.ULE(av, s.N), z3.Implies(z3.ULT(s.q, av), s.char(ex, mem, s.b, s.q) == s.Tq))

    def indirect(s, ex, cv, ins, env, mem, reach):
        if not (isinstance(cv, Ptr) and len(cv.alts) == 1 and cv.alts[0][1] is s.slot):
            return NotImplemented
        old = s.avail(ex, mem, s.b)
        s.fresh_arr(ex, mem, s.po, 'PB')
        s.fresh_arr(ex, mem, s.co, 'CV')
        for off in (PB_N, CV_N):
            ex.store(mem, Ptr.to(s.b, off), ex.fresh(64, 'filled'), 8, reach, 'fill')
        r = ex.fresh_bool('fill')
        new = s.avail(ex, mem, s.b)
        ex.axiom(z3.Implies(z3.ULE(old, s.N), z3.And(s.C(ex, mem), z3.UGE(new, old), z3.Implies(z3.Not(r), old == s.N))), reach)
        return r

    def invariants(s, ex, L):
        yield ('what is buffered is the text', lambda S: s.C(ex, S.mem), False)
        yield ('not buffered yet', lambda S: z3.ULE(s.avail(ex, S.mem, s.b), s.pos), False)
        for x in T.carried(ex, L):
            if x.kind in ('int', 'ptr'):
                yield (f'{x.name} unchanged', lambda S, x=x: T.guard(x, S, x.get(S) == x.get(L.entry)), False)

    def cover(s, ex, ret, mem):
        return [('reached', z3.And(s.pos == 3, s.N == 9))]


class AtEnd(Iter):
    fn = 'vp_end_c'
    func = 'basic_scan_buffer<char>::forward_iterator::operator==(default_sentinel), is_at_end, read_at_position'

    def ensures(s, ex, ret, mem):
        return [('at the end exactly when no text is left', ret == (s.pos == s.N)), ('stays consistent', s.C(ex, mem))]

    def cover(s, ex, ret, mem):
        return [('end', ret), ('not at the end', z3.Not(ret))]


class Deref(Iter):
    fn = 'vp_deref_c'
    func = 'basic_scan_buffer<char>::forward_iterator::operator*'

    def more(s, ex):
        s.requires(z3.ULT(s.pos, s.N))

    def ensures(s, ex, ret, mem):
        return [('the character of the text', ret == s.Tq), ('stays consistent', s.C(ex, mem))]


class Next(Iter):
    fn = 'vp_next_c'
    func = 'basic_scan_buffer<char>::forward_iterator::operator++'

    def more(s, ex):
        s.requires(z3.ULT(s.pos, s.N))

    def ensures(s, ex, ret, mem):
        return [('one further', ret == s.pos + 1), ('stays consistent', s.C(ex, mem))]


class FwdFill(Rep):
    fn = 'vp_fwd_fill_c'
    func = 'basic_scan_forward_buffer_impl<Range>::fill'

    def setup(s, ex):
        s.begin(ex)
        s.N, pb, s.i = s.len_('N'), s.len_('pb'), s.len_('i')
        cv, s.q = z3.BitVecs('cv q', 64)
        s.so, s.sa = s.arr_(ex, 'range', s.N, False)
        s.po, pa = s.arr_(ex, 'putback', BV(MAXLEN, 64))
        r = ex.new_obj('range object', 16, 'cells')
        ex.init_mem[r] = Cells({0: (8, Ptr.to(s.so)), 8: (8, Ptr.to(s.so, s.N * s.elem))})
        s.b = ex.new_obj('buffer', 88, 'cells')
        lat = z3.BitVec('latest', 8 * s.elem)
        ex.init_mem[s.b] = Cells({0: (8, Ptr.to(s.vt)), CV_N: (8, cv), CV_P: (8, Ptr.to(s.b, 80)), PB_P: (8, Ptr.to(s.po)), PB_N: (8, pb), CONTIG: (1, BV(0, 8)),
                                  64: (8, Ptr.to(r)), 72: (8, Ptr.to(s.so, s.i * s.elem)), 80: (s.elem, lat)})
        s.a0 = pb + cv
        s.requires(z3.ULE(s.i, s.N), s.i == pb + cv, z3.ULE(cv, 1), s.ok(ex, ex.init_mem))
        return [Ptr.to(s.b)]

    def ok(s, ex, mem):
        return z3.And(s.sane(ex, mem, s.b), z3.Implies(z3.ULT(s.q, s.avail(ex, mem, s.b)), s.char(ex, mem, s.b, s.q) == sel(s.sa, s.q)))

    def call(s, ex, name, args, ins, mem, reach):
        if '6insertI' in name:
            return s.ends_append(ex, args, mem, reach)
        return NotImplemented

    def ensures(s, ex, ret, mem):
        av = s.avail(ex, mem, s.b)
        cur, okc = ret_off(s.ptr(mem, s.b, 72), s.so)
        return [('false exactly at the end of the range', ret == z3.ULT(s.a0, s.N)), ('what is buffered is the text of the range', s.ok(ex, mem)),
                ('everything stays buffered', z3.And(z3.UGE(av, s.a0), z3.Implies(ret, z3.UGT(av, s.a0)), z3.ULE(av, s.N))), ('the cursor is after what is buffered', z3.And(okc, cur == av * s.elem)),
                ('the view is the latest character', z3.ULE(s.get(ex, mem, s.b, CV_N), 1))]

    def cover(s, ex, ret, mem):
        return [('filled', z3.And(ret, s.a0 == 4)), ('first', z3.And(ret, s.a0 == 0)), ('end', z3.And(z3.Not(ret), s.a0 == 5))]


class FileRep(Rep):
    """the file under the buffer: fp characters have been taken from it, its own buffer holds the next bl characters (at `off`)"""

    def setup(s, ex):
        s.begin(ex)
        s.H = z3.Bool('buffered')
        s.N, pb, fp, bl, bo = (s.len_(x) for x in ('N', 'pb', 'fp', 'bl', 'bo'))
        cv, s.q = z3.BitVecs('cv q', 64)
        s.Tf = z3.Function('T', z3.BitVecSort(64), s.ch())
        s.po, s.pa = s.arr_(ex, 'putback', BV(MAXLEN, 64), s.moves)
        s.fo, fa = s.arr_(ex, 'file buffer', BV(2 * MAXLEN, 64), s.moves)
        s.F = ex.new_obj('file', 32, 'cells')
        ex.init_mem[s.F] = Cells({0: (8, fp), 8: (8, bl), 16: (8, bo), 24: (1, BV(0, 8)), 25: (1, BV(0, 8))})
        s.b = ex.new_obj('buffer', 64, 'cells')
        lat, has = z3.BitVecs('latest has', 8)
        ex.init_mem[s.b] = Cells({0: (8, Ptr.to(s.vt)), CV_N: (8, cv), CV_P: (8, Ptr([(s.H, s.fo, bo), (z3.Not(s.H), s.b, BV(58, 64))])), PB_P: (8, Ptr.to(s.po)), PB_N: (8, pb), CONTIG: (1, BV(0, 8)),
                                  58: (1, lat), 59: (1, has)})
        s.a0 = pb + cv
        s.pb0, s.cv0 = pb, cv
        s.requires(*[f for _, f in s.inv(ex, ex.init_mem)], z3.ULE(s.a0, s.N))
        return [Ptr.to(s.b)] + s.more(ex)

    moves = True

    def more(s, ex):
        return []

    def f(s, ex, mem, off):
        return s.get(ex, mem, s.F, off)

    def inv(s, ex, mem, initial=True):
        """the relation of buffer and file between operations"""
        fp, bl, bo = (s.f(ex, mem, x) for x in (0, 8, 16))
        pb, cv = s.get(ex, mem, s.b, PB_N), s.get(ex, mem, s.b, CV_N)
        av = pb + cv
        buffered = z3.And(fp == pb, z3.Or(cv == bl, cv == 0) if initial else cv == bl)
        single = z3.And(fp == av, z3.ULE(cv, 1), bl == 0)
        return [('sizes', s.sane(ex, mem, s.b)), ('buffer and file stay in step', z3.If(s.H, buffered, single)), ('the file holds its text', s.filetext(ex, mem)),
                ('what is buffered is the text of the file', z3.Implies(z3.ULT(s.q, av), s.char(ex, mem, s.b, s.q) == s.Tf(s.q)))]

    def filetext(s, ex, mem):
        fp, bl, bo = (s.f(ex, mem, x) for x in (0, 8, 16))
        return z3.And(z3.ULE(fp, s.N), z3.ULE(bl, s.N - fp), z3.ULE(bo, 2 * MAXLEN), z3.ULE(bo + bl, 2 * MAXLEN),
                      z3.Implies(z3.And(z3.UGE(s.q, fp), z3.ULT(s.q - fp, bl)), sel(ex.content(mem, s.fo), bo + s.q - fp) == s.Tf(s.q)))

    def call(s, ex, name, args, ins, mem, reach):
        if '6insertI' in name:
            return s.ends_append(ex, args, mem, reach)
        if not name.startswith('vp_ev_'):
            return NotImplemented
        ev = name[6:]
        fp, bl, bo = (s.f(ex, mem, x) for x in (0, 8, 16))
        st = lambda off, v, n=8: ex.store(mem, Ptr.to(s.F, off), v, n, reach, ev)
        if ev == 'buffered':
            return s.H
        if ev == 'buffer_data':
            return Ptr.to(s.fo, bo)
        if ev == 'buffer_size':
            return bl
        if ev == 'advance':
            ex.oblige('advances inside the buffer of a buffered file', reach, z3.And(s.H, z3.ULE(args[0], bl)), 'pre')
            st(0, fp + args[0])
            st(8, bl - args[0])
            st(16, bo + args[0])
            return None
        if ev == 'refill':
            ex.oblige('fills an empty buffer of a buffered file', reach, z3.And(s.H, bl == 0), 'pre')
            n = ex.fresh(64, 'refilled')
            s.fresh_arr(ex, mem, s.fo, 'FB')
            st(8, n)
            st(16, BV(0, 64))
            ex.trusted['stdio_file_interface::fill_buffer'] = 'makes the next characters available; none only at the end (C library)'
            ex.axiom(z3.Implies(z3.ULE(fp, s.N), z3.And(s.filetext(ex, mem), (n == 0) == (fp == s.N))), reach)
            return None
        if ev == 'read_one':
            ex.oblige('reads single characters from an unbuffered file', reach, z3.Not(s.H), 'pre')
            ex.trusted['stdio_file_interface::read_one'] = 'the next character, none only at the end (C library)'
            end = fp == s.N
            st(0, z3.If(end, fp, fp + 1))
            c = ex.fresh(32, 'read')
            ex.axiom(z3.If(end, c == BV(-1, 32), z3.And(z3.ULT(c, 256), z3.Implies(fp == s.q, z3.Extract(7, 0, c) == s.Tf(s.q)))), reach)
            return c
        if ev in ('prepare', 'finalize'):
            ex.oblige(f'{ev} in its turn', reach, s.flag(ex, mem, 24) == (0 if ev == 'prepare' else 1), 'pre')
            st(24, BV(1 if ev == 'prepare' else 0, 8), 1)
            return None
        if ev == 'putback':
            ex.oblige('puts back between prepare and finalize', reach, s.flag(ex, mem, 24) == 1, 'pre')
            ex.oblige('puts back the character that comes before', reach, z3.And(fp != 0, z3.Implies(s.q == fp - 1, args[0] == s.Tf(s.q))), 'pre')
            r = ex.fresh_bool('putback')
            st(0, z3.If(r, fp - 1, fp))
            st(8, BV(0, 64))
            st(25, z3.If(r, s.flag(ex, mem, 25), BV(1, 8)), 1)
            ex.trusted['stdio_file_interface::putback'] = 'the character is read next, or false (C library)'
            return r
        return NotImplemented

    def flag(s, ex, mem, off):
        return ex.cell_get(mem, s.F, off, 1)


class FileFill(FileRep):
    fn = 'vp_file_fill'
    func = 'basic_scan_file_buffer<FileInterface>::fill'

    def ensures(s, ex, ret, mem):
        av = s.avail(ex, mem, s.b)
        return s.inv(ex, mem, False) + [('false exactly at the end of the file', ret == (s.a0 != s.N)),
                ('everything stays buffered', z3.And(z3.UGE(av, s.a0), z3.Implies(ret, z3.UGT(av, s.a0)), z3.ULE(av, s.N))), ('nothing is put back', s.flag(ex, mem, 24) == 0)]

    def cover(s, ex, ret, mem):
        return [('buffered', z3.And(s.H, ret, s.a0 == 4)), ('unbuffered', z3.And(z3.Not(s.H), ret, s.a0 == 3)), ('end', z3.And(z3.Not(ret), s.a0 == 5))]


class FileSync(FileRep):
    fn = 'vp_file_sync'
    func = 'basic_scan_file_buffer<FileInterface>::sync'

    def more(s, ex):
        s.pos = z3.BitVec('pos', 64)
        s.requires(z3.ULE(s.pos, s.a0), z3.Implies(z3.And(s.H, z3.UGE(s.pos, s.pb0)), z3.Or(s.cv0 == s.f(ex, ex.init_mem, 8), s.pos == s.pb0)))
        return [s.pos]

    def invariants(s, ex, L):
        fp = lambda S: s.f(ex, S.mem, 0)
        yield ('file position inside', lambda S: z3.And(z3.ULE(s.pos, fp(S)), z3.ULE(fp(S), s.pb0)), False)
        yield ('no failure so far', lambda S: s.flag(ex, S.mem, 25) == 0, False)
        yield ('prepared', lambda S: s.flag(ex, S.mem, 24) == 1, False)
        for x in T.positions(ex, L, s.po):
            if x.kind == 'ptr':
                yield (f'{x.name} is at the file position', lambda S, x=x: T.guard(x, S, x.get(S) == fp(S)), False)
                if getattr(x, 'cond', None):
                    yield (f'{x.name} selected', lambda S, x=x: x.cond(S), False)
            else:
                yield (f'{x.name} counts what is left', lambda S, x=x: x.get(S) == fp(S) - s.pos, False)
                yield (f'{x.name} is the file position', lambda S, x=x: x.get(S) == fp(S), False)
        yield from T.generic(ex, L, [])

    def ensures(s, ex, ret, mem):
        return [('the file continues at that position', z3.Implies(ret, s.f(ex, mem, 0) == s.pos)), ('false only if the C library refuses a character', z3.Implies(z3.Not(ret), s.flag(ex, mem, 25) == 1)),
                ('no refusal is ignored', z3.Implies(ret, s.flag(ex, mem, 25) == 0)), ('putting back is finalized', s.flag(ex, mem, 24) == 0)]

    def cover(s, ex, ret, mem):
        return [('back', z3.And(s.H, ret, s.pos == 2, s.pb0 == 5)), ('forward', z3.And(s.H, ret, s.pos == 7, s.pb0 == 5)), ('unbuffered', z3.And(z3.Not(s.H), ret, s.pos == 2, s.pb0 == 5)), ('refused', z3.Not(ret))]


class RefFill(Rep):
    """a buffer over the rest of another one, from `start`: its k-th character is the (start + k)-th of the other"""
    fn = 'vp_ref_fill_c'
    func = 'basic_scan_ref_buffer<char>::fill'

    def setup(s, ex):
        s.begin(ex)
        s.N, opb, ocv, pb, cv, s.start = (s.len_(x) for x in ('N', 'opb', 'ocv', 'pb', 'cv', 'start'))
        s.q = z3.BitVec('q', 64)
        s.Tq = z3.BitVec('Tq', 8 * s.elem)
        s.po, _ = s.arr_(ex, 'putback of the other', BV(MAXLEN, 64))
        s.co, _ = s.arr_(ex, 'view of the other', BV(MAXLEN, 64))
        s.o = s.rep(ex, 'other', 64, Ptr.to(s.co), ocv, Ptr.to(s.po), opb)
        s.rest(ex, pb, cv)
        return [Ptr.to(s.b)]

    def rest(s, ex, pb, cv):
        s.ro, _ = s.arr_(ex, 'putback', BV(MAXLEN, 64))
        opb, ocv = s.get(ex, ex.init_mem, s.o, PB_N), s.get(ex, ex.init_mem, s.o, CV_N)
        prop = z3.BitVec('propagate', 8)
        late = z3.ULE(opb, s.start)
        # the view is the rest of the other's putback buffer, or of its view
        view = Ptr([(z3.And(pb == 0, z3.Not(late), prop == 0), s.po, s.start * s.elem), (z3.Not(z3.And(pb == 0, z3.Not(late), prop == 0)), s.co, z3.If(late, s.start - opb, BV(0, 64)) * s.elem)])
        s.b = s.rep(ex, 'buffer', 88, view, cv, Ptr.to(s.ro), pb, {64: (8, Ptr.to(s.o)), 72: (8, s.start), 80: (1, prop)})
        s.a0, s.prop = pb + cv, prop
        s.requires(s.C(ex, ex.init_mem), s.own(ex, ex.init_mem), s.start + s.a0 == z3.If(prop == 0, opb, opb + ocv), z3.Or(prop == 0, prop == 1),
                   z3.If(prop == 0, z3.And(pb == 0, z3.Not(late)), z3.If(late, pb == 0, pb == opb - s.start)))

    def C(s, ex, mem):
        av = s.avail(ex, mem, s.o)
        return z3.And(s.sane(ex, mem, s.o), z3.ULE(av, s.N), z3.ULE(s.start, av), z3.Implies(z3.ULT(s.q, av), s.char(ex, mem, s.o, s.q) == s.Tq))

    def own(s, ex, mem):
        av = s.avail(ex, mem, s.b)
        return z3.And(s.sane(ex, mem, s.b), z3.Implies(z3.And(z3.UGE(s.q, s.start), z3.ULT(s.q - s.start, av)), s.char(ex, mem, s.b, s.q - s.start) == s.Tq))

    def indirect(s, ex, cv, ins, env, mem, reach):
        if not (isinstance(cv, Ptr) and len(cv.alts) == 1 and cv.alts[0][1] is s.slot):
            return NotImplemented
        old, opb = s.avail(ex, mem, s.o), s.get(ex, mem, s.o, PB_N)
        s.fresh_arr(ex, mem, s.po, 'PB')
        s.fresh_arr(ex, mem, s.co, 'CV')
        for off in (PB_N, CV_N):
            ex.store(mem, Ptr.to(s.o, off), ex.fresh(64, 'filled'), 8, reach, 'fill')
        r = ex.fresh_bool('fill')
        new = s.avail(ex, mem, s.o)
        ex.axiom(z3.Implies(z3.ULE(old, s.N), z3.And(s.C(ex, mem), z3.UGE(new, old), z3.UGE(s.get(ex, mem, s.o, PB_N), opb), z3.Implies(r, z3.UGT(new, old)), z3.Implies(z3.Not(r), old == s.N))), reach)
        return r

    def call(s, ex, name, args, ins, mem, reach):
        if 'E6substrE' in name:
            d, do = args[0].single()
            st, so = args[1].single()
            do, so = conc(do), conc(so)
            n = s.get(ex, mem, st, so + 8)
            k, m = args[2], args[3]
            ex.oblige('substr starts inside', reach, z3.ULE(k, n), 'pre')
            ex.trusted['std::basic_string::substr'] = 'copies the characters (libstdc++)'
            ln = z3.If(z3.ULT(m, n - k), m, n - k)
            src = s.at(ex, mem, s.ptr(mem, st, so), s.q)
            t, _ = s.arr_(ex, 'substr', BV(MAXLEN, 64))
            a = s.fresh_arr(ex, mem, t, 'substr')
            ex.axiom(z3.Implies(z3.And(z3.UGE(s.q, k), z3.ULT(s.q - k, ln)), sel(a, s.q - k) == src), reach)
            ex.store(mem, Ptr.to(d, do), Ptr.to(t), 8, reach, 'substr')
            ex.store(mem, Ptr.to(d, do + 8), simp(ln), 8, reach, 'substr')
            return None
        if 'EaSEOS' in name:
            d, do = args[0].single()
            st, so = args[1].single()
            do, so = conc(do), conc(so)
            ex.trusted['std::basic_string::operator=(basic_string&&)'] = 'takes over the characters (libstdc++)'
            ex.store(mem, Ptr.to(d, do), s.ptr(mem, st, so), 8, reach, 'move')
            ex.store(mem, Ptr.to(d, do + 8), s.get(ex, mem, st, so + 8), 8, reach, 'move')
            ex.store(mem, Ptr.to(st, so), Ptr.to(st, so + 16), 8, reach, 'move')
            ex.store(mem, Ptr.to(st, so + 8), BV(0, 64), 8, reach, 'move')
            return args[0]
        return string_call(ex, name, args, mem, reach)

    def ensures(s, ex, ret, mem):
        av = s.avail(ex, mem, s.b)
        return [('what is buffered is the rest of the text', s.own(ex, mem)), ('as much as the other has', s.start + av == s.avail(ex, mem, s.o)),
                ('false only at the end', z3.Implies(z3.Not(ret), s.start + s.a0 == s.N)), ('still of the other from the start', z3.And(s.get(ex, mem, s.b, 72) == s.start, z3.BoolVal(s.ptr(mem, s.b, 64).single()[0] is s.o)))]

    def cover(s, ex, ret, mem):
        opb = s.get(ex, ex.init_mem, s.o, PB_N)
        return [('own', z3.And(ret, s.prop == 0, s.start == 2)), ('propagated', z3.And(ret, s.prop == 1, s.start == 2, opb == 4)), ('late', z3.And(ret, s.start == 3, opb == 2)), ('end', z3.Not(ret))]


class RefInit(RefFill):
    """establishes what RefFill starts from"""
    fn = 'vp_ref_init_c'
    func = 'basic_scan_ref_buffer<char>::basic_scan_ref_buffer(other, starting_pos)'

    def rest(s, ex, pb, cv):
        s.b = ex.new_obj('buffer', 88, 'cells')
        ex.init_mem[s.b] = Cells({})
        s.requires(s.C(ex, ex.init_mem))

    def setup(s, ex):
        RefFill.setup(s, ex)
        return [Ptr.to(s.b), Ptr.to(s.o), s.start]

    def ensures(s, ex, ret, mem):
        opb, ocv = s.get(ex, ex.init_mem, s.o, PB_N), s.get(ex, ex.init_mem, s.o, CV_N)
        pb, cv, prop = s.get(ex, mem, s.b, PB_N), s.get(ex, mem, s.b, CV_N), ex.cell_get(mem, s.b, 80, 1)
        av = pb + cv
        late = z3.ULE(opb, s.start)
        v = s.ptr(mem, s.b, CV_P)
        text = z3.Implies(z3.And(z3.UGE(s.q, s.start), z3.ULT(s.q - s.start, cv)), s.at(ex, mem, v, s.q - s.start) == s.Tq)
        return [('nothing is put back', pb == 0), ('the view is the rest of the text', text), ('the rest of the putback buffer first, then that of the view', s.start + cv == z3.If(prop == 0, opb, opb + ocv)),
                ('what follows in the other is not left out', z3.If(late, prop == 1, prop == 0)),
                ('of the other from the start', z3.And(s.get(ex, mem, s.b, 72) == s.start, z3.BoolVal(s.ptr(mem, s.b, 64).single()[0] is s.o)))]

    def cover(s, ex, ret, mem):
        opb = s.get(ex, ex.init_mem, s.o, PB_N)
        return [('early', z3.ULT(s.start, opb)), ('late', z3.ULT(opb, s.start))]


for _c in (RefInit, CharAt, Segment, ItSegment, AtEnd, Deref, Next, FwdFill, RefFill):
    globals()[_c.__name__ + 'W'] = type(_c.__name__ + 'W', (_c,), {'fn': _c.fn[:-1] + 'w', 'func': _c.func.replace('<char>', '<wchar_t>'), 'elem': 4})


class Gnu(Rep):
    """a stdio file with read pointer and read end in its buffer (glibc)"""

    def setup(s, ex):
        s.begin(ex)
        s.rp, s.re = s.len_('rp'), s.len_('re')
        s.requires(z3.ULE(s.rp, s.re))
        s.fo, s.fa = s.arr_(ex, 'file buffer', s.re)
        s.f = ex.new_obj('FILE', 216, 'cells')
        ex.init_mem[s.f] = Cells({8: (8, Ptr.to(s.fo, s.rp)), 16: (8, Ptr.to(s.fo, s.re))})
        return [Ptr.to(s.f)] + s.more(ex)

    def more(s, ex):
        return []

    def rptr(s, mem):
        p = s.ptr(mem, s.f, 8)
        return p.single()

    def cover(s, ex, ret, mem):
        return [('reached', z3.And(s.rp == 2, s.re == 9))]


class GnuBuffer(Gnu):
    fn = 'vp_gnu_buffer'
    func = 'stdio_file_interface_impl<FILE, gnu_file_tag>::buffer'

    def ensures(s, ex, ret, mem):
        f, ok = ret_off(ret[0], s.fo)
        return [('what the file has buffered', z3.And(ok, f == s.rp, ret[1] == s.re - s.rp))]


class GnuAdvance(Gnu):
    fn = 'vp_gnu_advance'
    func = 'stdio_file_interface_impl<FILE, gnu_file_tag>::unsafe_advance_n'

    def more(s, ex):
        s.k = z3.BitVec('k', 64)
        s.requires(z3.ULE(s.k, s.re - s.rp))
        return [s.k]

    def ensures(s, ex, ret, mem):
        f, ok = ret_off(s.ptr(mem, s.f, 8), s.fo)
        g, ok2 = ret_off(s.ptr(mem, s.f, 16), s.fo)
        return [('as many characters are taken', z3.And(ok, ok2, f == s.rp + s.k, g == s.re))]


class GnuFill(Gnu):
    fn = 'vp_gnu_fill'
    func = 'stdio_file_interface_impl<FILE, gnu_file_tag>::fill_buffer'

    def call(s, ex, name, args, ins, mem, reach):
        if name == '__uflow':
            ex.trusted['__uflow'] = 'reads a buffer and takes its first character, or returns EOF and leaves the buffer empty (glibc)'
            s.n = ex.fresh(64, 'got')
            r = ex.fresh(32, 'c')
            s.no, a = s.arr_(ex, 'new buffer', s.n)
            ex.axiom(z3.And(z3.ULE(s.n, MAXLEN), z3.If(s.n == 0, r == BV(-1, 32), r == z3.ZeroExt(24, sel(a, BV(0, 64))))), reach)
            ex.oblige('of that file', reach, z3.BoolVal(args[0].single()[0] is s.f), 'pre')
            ex.store(mem, Ptr.to(s.f, 8), Ptr.to(s.no, z3.If(s.n == 0, BV(0, 64), BV(1, 64))), 8, reach, name)
            ex.store(mem, Ptr.to(s.f, 16), Ptr.to(s.no, s.n), 8, reach, name)
            return r
        return NotImplemented

    def ensures(s, ex, ret, mem):
        f, ok = ret_off(s.ptr(mem, s.f, 8), s.no)
        g, ok2 = ret_off(s.ptr(mem, s.f, 16), s.no)
        return [('no character is taken', z3.And(ok, ok2, f == 0, g == s.n))]


class GnuPutback(Gnu):
    fn = 'vp_gnu_putback'
    func = 'posix_stdio_file_interface<FILE>::putback'

    def more(s, ex):
        s.c = z3.BitVec('c', 8)
        s.un, s.asked = z3.BitVec('ungetc', 32), z3.BoolVal(False)
        return [s.c]

    def call(s, ex, name, args, ins, mem, reach):
        if name == 'ungetc':
            ex.trusted['ungetc'] = 'C library'
            ex.oblige('the character is put back as such (never taken for EOF)', reach, z3.And(args[0] == z3.ZeroExt(24, s.c), z3.BoolVal(args[1].single()[0] is s.f)), 'pre')
            s.asked = z3.Or(s.asked, reach)
            return s.un
        return NotImplemented

    def ensures(s, ex, ret, mem):
        return [('tells whether it succeeded', ret == (s.un != BV(-1, 32))), ('asks the C library', s.asked)]


class StdPutback(GnuPutback):
    fn = 'vp_std_putback'
    func = 'stdio_file_interface_impl<FILE, default_file_tag>::putback'


class StdRead(Gnu):
    fn = 'vp_std_read_one'
    func = 'stdio_file_interface_impl<FILE, default_file_tag>::read_one'

    def more(s, ex):
        s.c = z3.BitVec('c', 32)
        s.requires(z3.Or(s.c == BV(-1, 32), z3.ULT(s.c, 256)))
        return []

    def call(s, ex, name, args, ins, mem, reach):
        if name in ('fgetc', 'getc'):
            ex.trusted['fgetc'] = 'C library'
            return s.c
        return NotImplemented

    def ensures(s, ex, ret, mem):
        return [('the character that was read, or none at the end', ret == s.c)]


class After(Rep):
    fn = 'vp_after'
    func = 'sync_after_vscan'

    def setup(s, ex):
        s.begin(ex)
        s.sync = ex.new_obj('sync', 8, 'opaque')
        ex.init_mem[s.vt] = Cells({16: (8, Ptr.to(s.slot)), 24: (8, Ptr.to(s.sync))})
        s.b = ex.new_obj('buffer', 64, 'cells')
        ex.init_mem[s.b] = Cells({0: (8, Ptr.to(s.vt))})
        s.out = ex.new_obj('out', 8, 'cells')
        ex.init_mem[s.out] = Cells({0: (8, BV(0, 64))})
        s.ok, s.eof, s.sy = z3.Bools('ok eof sync')
        s.n = z3.BitVec('n', 64)
        s.done = z3.BoolVal(False)
        s.requires(s.n >= 0)
        return [Ptr.to(s.b), s.ok, s.n, s.eof, Ptr.to(s.out)]

    def indirect(s, ex, cv, ins, env, mem, reach):
        if not (isinstance(cv, Ptr) and len(cv.alts) == 1 and cv.alts[0][1] is s.sync):
            return NotImplemented
        a = [ex.val(env, t, v) for t, v, _ in ins.args]
        ex.oblige('the source continues after what was consumed, or where it was before a failure', reach, a[1] == z3.If(s.ok, s.n, BV(0, 64)), 'pre')
        ex.oblige('once', reach, z3.Not(s.done), 'pre')
        s.done = z3.Or(s.done, reach)
        return s.sy

    def ensures(s, ex, ret, mem):
        return [('the source is told', s.done), ('a failure to move the source is reported', z3.Implies(z3.Not(s.sy), ret == 7)),
                ('otherwise the result stays', z3.Implies(s.sy, z3.If(s.ok, z3.And(ret == 0, s.get(ex, mem, s.out, 0) == s.n), ret == z3.If(s.eof, BV(1, 32), BV(3, 32)))))]

    def cover(s, ex, ret, mem):
        return [('ok', ret == 0), ('eof', ret == 1), ('sync fails', ret == 7)]


class RestView(Rep):
    fn = 'vp_rest_view'
    func = 'make_vscan_result_range<std::string_view>'

    def setup(s, ex):
        s.begin(ex)
        s.n = s.len_('n')
        s.k = z3.BitVec('k', 64)
        s.requires(z3.ULE(s.k, s.n))
        s.so, _ = s.arr_(ex, 's', s.n, False)
        return s.args(ex)

    def args(s, ex):
        return [Ptr.to(s.so), s.n, s.k]

    def ensures(s, ex, ret, mem):
        f, ok = ret_off(ret[0], s.so)
        return [('exactly the rest of the source', z3.And(ok, f == s.k, ret[1] == s.n - s.k))]

    def cover(s, ex, ret, mem):
        return [('some', ret[1] == 4), ('none', ret[1] == 0)]


class RestFwd(RestView):
    fn = 'vp_rest_fwd'
    func = 'make_vscan_result_range<forward range>'

    def args(s, ex):
        r = ex.new_obj('range object', 16, 'cells')
        ex.init_mem[r] = Cells({0: (8, Ptr.to(s.so)), 8: (8, Ptr.to(s.so, s.n))})
        return [Ptr.to(r), s.k]

    def invariants(s, ex, L):
        yield from T.generic(ex, L, [(s.so, s.n)])


class RestArray(RestView):
    """a char array holds its text and one terminating character more"""
    fn = 'vp_rest_array'
    func = 'make_vscan_result_range<const char(&)[9]>'

    def args(s, ex):
        s.requires(s.n == 8)
        return [Ptr.to(s.so), s.k]
