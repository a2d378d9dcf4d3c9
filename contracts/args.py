"""Bookkeeping of scanning arguments: visited set, automatic and manual indexing."""
from lib import *


class Visit(BufSpec):
    """representation: argument i is bit i of lo (i < 64), else bit (i-64)%8 of up[(i-64)/8]; bits past the count are 0"""
    fn = 'vp_visit'
    func = 'format_handler_base::set_arg_as_visited, has_arg_been_visited'

    def setup(s, ex):
        s.pre = []
        s.count, s.lo, s.id, s.j = (z3.BitVec(x, 64) for x in ('count', 'lo', 'id', 'j'))
        s.requires(z3.ULE(s.count, 1 << 32))
        s.upn = z3.If(z3.UGT(s.count, 64), z3.LShR(s.count - 64 + 7, 3), BV(0, 64))
        s.u, s.arr = ex.buffer('up', s.upn, 1, True)
        s.requires(s.tail())
        s.inputs = {'count': s.count, 'lo': s.lo, 'id': s.id}
        s.insts, s.seen = [], {}
        s.o, s.nb = s.u, s.upn
        return [s.count, s.lo, Ptr.to(s.u), s.upn] + ([s.id] if s.fn == 'vp_visit' else [])

    def lomask(s):
        return z3.If(z3.UGE(s.count, 64), BV(2**64 - 1, 64), (BV(1, 64) << s.count) - 1)

    def tail(s):
        return (s.lo & ~s.lomask()) == 0

    def vis(s, lo, arr, i):
        k = i - 64
        b = z3.Select(arr, z3.LShR(k, 3))
        return z3.If(z3.ULT(i, 64), z3.Extract(0, 0, z3.LShR(lo, i)) == 1, z3.Extract(0, 0, z3.LShR(b, z3.Extract(7, 0, k & 7))) == 1)

    def ensures(s, ex, ret, mem):
        lo, code = ret
        arr = ex.content(mem, s.u)
        inr = z3.ULT(s.id, s.count)
        was = s.vis(s.lo, s.arr, s.id)
        jr = z3.ULT(s.j, s.count)
        return [('an argument that does not exist: error', z3.Implies(z3.Not(inr), code == E_FORMAT)),
                ('an argument visited before: error', z3.Implies(z3.And(inr, was), code == E_FORMAT)),
                ('an argument not visited before: no error', z3.Implies(z3.And(inr, z3.Not(was)), code == 0)),
                ('afterwards it counts as visited', z3.Implies(inr, s.vis(lo, arr, s.id))),
                ('every other argument is as before', z3.Implies(z3.And(jr, s.j != s.id), s.vis(lo, arr, s.j) == s.vis(s.lo, s.arr, s.j)))]

    def cover(s, ex, ret, mem):
        return [('fresh argument past 64', z3.And(ret[1] == 0, z3.UGT(s.id, 70)))]


class Exhausted(Visit):
    fn = 'vp_exhausted'
    func = 'format_handler_base::check_args_exhausted'

    def setup(s, ex):
        a = Visit.setup(s, ex)
        s.All = z3.Bool('all_full_bytes')     # every byte of up but the last is full; s.j: a counterexample otherwise
        s.requires(z3.Implies(z3.Not(s.All), z3.And(z3.ULT(s.j, s.upn - 1), z3.UGT(s.upn, 1), z3.Select(s.arr, s.j) != 255)))
        s.at_load(lambda k: [z3.Implies(z3.And(s.All, z3.ULT(k, s.upn - 1)), z3.Select(s.arr, k) == 255)])
        return a

    def ghost_candidates(s):
        return [('bytes before are full', lambda k: z3.Or(s.All, z3.ULE(k, s.j))), ('before the last byte', lambda k: z3.ULT(k, s.upn - 1)), ('up to the last byte', lambda k: z3.ULE(k, s.upn - 1))]

    def ensures(s, ex, ret, mem):
        lo, code = ret
        arr = s.arr
        rest = s.count - 64 - 8 * (s.upn - 1)
        lastmask = (BV(1, 64) << rest) - 1
        last = z3.ZeroExt(56, z3.Select(arr, s.upn - 1)) == lastmask
        every = z3.And(s.lo == s.lomask(), z3.Or(z3.ULE(s.count, 64), z3.And(s.All, last)))
        return [('no error exactly when every argument was visited', (code == 0) == every),
                ('otherwise: invalid format string', z3.Or(code == 0, code == E_FORMAT))]

    def cover(s, ex, ret, mem):
        return [('exhausted', z3.And(ret[1] == 0, z3.UGT(s.count, 100))), ('not exhausted', z3.And(ret[1] != 0, z3.UGT(s.count, 100)))]


class NextId(Spec):
    fn = 'vp_next_id'
    func = 'basic_scan_parse_context::next_arg_id'
    extra = 0

    def setup(s, ex):
        s.pre = []
        s.st = z3.BitVec('start', 32)
        s.id = z3.BitVec('id', 64)
        s.requires(z3.And(s.st >= -1, s.st < 1 << 30))
        s.inputs = {'start': s.st, 'id': s.id}
        return [s.st, s.id] if 'check' in s.fn else [s.st]

    def ensures(s, ex, ret, mem):
        id, code = ret
        return [('automatic indexing counts up', z3.Implies(s.st >= 0, z3.And(code == 0, id == z3.ZeroExt(32, s.st) + s.extra))),
                ('after manual indexing: error', z3.Implies(s.st < 0, code == E_FORMAT))]

    def cover(s, ex, ret, mem):
        return [('automatic', ret[1] == 0)]


class NextNextId(NextId):
    fn = 'vp_next_next_id'
    extra = 1


class CheckId(NextId):
    fn = 'vp_check_id'
    func = 'basic_scan_parse_context::check_arg_id'

    def ensures(s, ex, ret, mem):
        return [('manual indexing is refused exactly after automatic indexing', ret == z3.If(s.st > 0, BV(E_FORMAT, 32), BV(0, 32)))]

    def cover(s, ex, ret, mem):
        return [('manual', ret == 0)]


class CheckNextId(NextId):
    fn = 'vp_check_next_id'
    func = 'basic_scan_parse_context::check_arg_id, next_arg_id'

    def ensures(s, ex, ret, mem):
        return [('automatic after manual: error', ret[1] == E_FORMAT)]

    def cover(s, ex, ret, mem):
        return []


class NextCheckId(CheckNextId):
    fn = 'vp_next_check_id'

    def ensures(s, ex, ret, mem):
        return [('manual after automatic: error', ret[1] == E_FORMAT)]
