"""Overflow tables of the integer parser, for every base."""
from lib import *


def limits(b):
    m = 1
    while b ** m <= 2 ** 64 - 1:
        m += 1
    return m, b ** (m - 1)


class MaxDigits(Spec):
    fn = 'vp_maxdigits'
    func = 'impl::maxdigits_u64'
    which = 0

    def setup(s, ex):
        s.pre = []
        s.b = z3.BitVec('base', 32)
        s.requires(z3.UGE(s.b, 2), z3.ULE(s.b, 36))
        s.inputs = {'base': s.b}
        return [s.b]

    def ensures(s, ex, ret, mem):
        return [(f'base {b}: exact', z3.Implies(s.b == b, ret == BV(limits(b)[s.which], 64))) for b in range(2, 37)]

    def cover(s, ex, ret, mem):
        return [('base 36', s.b == 36)]


class MinSafe(MaxDigits):
    fn = 'vp_minsafe'
    func = 'impl::min_safe_u64'
    which = 1
