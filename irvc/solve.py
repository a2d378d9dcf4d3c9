"""Query layer: uninterpreted functions are eliminated by Ackermann expansion (sound and complete), leaving
pure bit-vector problems."""
import z3


def apps_of(es, seen, out):
    stack = list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_app(e):
            d = e.decl()
            if d.arity() > 0 and d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(e)
            stack.extend(e.children())


class Ack:
    """incremental Ackermann expansion shared by the queries of one function"""

    def __init__(self):
        self.seen = {}
        self.apps = []          # (app, const, args')
        self.pairs = []
        self.by = {}            # function name -> [(args', const)]
        self.side = []          # congruence constraints
        self.n = 0
        self.cache = {}

    def prepare(self, es):
        """register all applications occurring in es"""
        new = []
        apps_of(es, self.seen, new)
        fresh = []
        for a in new:
            self.n += 1
            c = z3.Const(f'ack!{a.decl().name()}!{self.n}', a.sort())
            self.pairs.append((a, c))
            fresh.append((a, c))
        for a, c in fresh:
            args = [z3.simplify(z3.substitute(x, *self.pairs)) for x in a.children()]
            l = self.by.setdefault(a.decl().name(), [])
            for args2, c2 in l:
                eq = z3.simplify(z3.And(*[x == y for x, y in zip(args, args2)])) if len(args) > 1 else z3.simplify(args[0] == args2[0])
                if z3.is_false(eq):
                    continue
                self.side.append(c == c2 if z3.is_true(eq) else z3.Implies(eq, c == c2))
            l.append((args, c))

    def tr(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is None:
            r = z3.substitute(e, *self.pairs) if self.pairs else e
            self.cache[i] = r
            self.cache[(i, 'keep')] = e
        return r


def pure_bv(es):
    """no arrays / floats: eligible for the bit-vector solver"""
    seen = set()
    stack = list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        k = e.sort().kind()
        if k not in (z3.Z3_BOOL_SORT, z3.Z3_BV_SORT):
            return False
        stack.extend(e.children())
    return True


def solver(bv, timeout_ms):
    s = z3.SolverFor('QF_BV') if bv else z3.Solver()
    s.set('timeout', int(timeout_ms))
    return s


def uf_solver(timeout_ms):
    s = z3.Tactic(MODE).solver()
    s.set('timeout', int(timeout_ms))
    return s


MODE = 'qfufbv_ackr'
