"""Parser for the textual LLVM-18 IR subset that clang emits for the /repo sources.

Only the syntax needed by the verification-condition generator is understood; anything else
raises IRError when (and only when) the function that contains it is requested.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2})*")
  | (?P<gv>@(?:"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|[-a-zA-Z$._0-9]+))
  | (?P<lv>%(?:"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|[-a-zA-Z$._0-9]+))
  | (?P<md>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<fp>0x[KLMHR]?[0-9A-Fa-f]+ | -?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?)
  | (?P<int>-?[0-9]+)
  | (?P<dots>\.\.\.)
  | (?P<id>[-a-zA-Z$._][-a-zA-Z$._0-9]*)
  | (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: ' + s[i:i + 80])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


# ---- types ---------------------------------------------------------------------------------
# ('i',n) ('ptr',) ('void',) ('float',) ('double',) ('x86_fp80',) ('arr',n,t) ('st',[t],packed)
# ('named',name) ('vec',n,t) ('label',) ('meta',) ('opaque',)

PTR = ('ptr',)
VOID = ('void',)


class Toks:
    def __init__(self, toks, line=''):
        self.t = toks
        self.i = 0
        self.line = line

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError(f'expected {v!r} got {self.peek()!r} in: {self.line[:300]}')

    def done(self):
        return self.i >= len(self.t)


def parse_type(T):
    k = T.next()
    if re.fullmatch(r'i[0-9]+', k):
        t = ('i', int(k[1:]))
    elif k == 'ptr':
        t = PTR
        if T.peek() == 'addrspace':
            raise IRError('addrspace')
    elif k in ('void', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'opaque', 'half'):
        t = (k,)
    elif k == '[':
        n = int(T.next())
        T.expect('x')
        e = parse_type(T)
        T.expect(']')
        t = ('arr', n, e)
    elif k == '{':
        t = ('st', parse_type_list(T, '}'), False)
    elif k == '<':
        if T.peek() == '{':
            T.next()
            l = parse_type_list(T, '}')
            T.expect('>')
            t = ('st', l, True)
        else:
            n = int(T.next())
            T.expect('x')
            e = parse_type(T)
            T.expect('>')
            t = ('vec', n, e)
    elif k[0] == '%':
        t = ('named', k)
    else:
        raise IRError('type ' + k + ' in ' + T.line[:200])
    # function type?
    while T.peek() == '(':
        # function type used in varargs call
        depth = 0
        while True:
            x = T.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        t = ('fn', t)
    return t


def parse_type_list(T, end):
    l = []
    if T.eat(end):
        return tuple(l)
    while True:
        l.append(parse_type(T))
        if T.eat(end):
            return tuple(l)
        T.expect(',')


# ---- constants / operands ------------------------------------------------------------------
# ('lv',name) ('gv',name) ('int',v) ('null',) ('undef',) ('poison',) ('zero',) ('agg',[(t,v)]) ('bytes',b)
# ('ce', op, ...)  ('fp', text)

def unescape(s):
    # s like c"..."
    body = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        if body[i] == '\\':
            out.append(int(body[i + 1:i + 3], 16))
            i += 3
        else:
            out += body[i].encode('latin1')
            i += 1
    return bytes(out)


def parse_value(T, ty):
    k = T.kind()
    v = T.next()
    if k == 'lv':
        return ('lv', v)
    if k == 'gv':
        return ('gv', v)
    if k == 'int':
        return ('int', int(v))
    if k == 'fp':
        return ('fp', v)
    if k == 'str':
        return ('bytes', unescape(v))
    if v == 'true':
        return ('int', 1)
    if v == 'false':
        return ('int', 0)
    if v == 'null':
        return ('null',)
    if v in ('undef',):
        return ('undef',)
    if v == 'poison':
        return ('poison',)
    if v == 'zeroinitializer':
        return ('zero',)
    if v == 'none':
        return ('undef',)
    if v in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[v]
        packed = False
        if v == '<' and T.peek() == '{':
            T.next()
            packed = True
            close = '}'
        elems = []
        if not T.eat(close):
            while True:
                t = parse_type(T)
                x = parse_value(T, t)
                elems.append((t, x))
                if T.eat(close):
                    break
                T.expect(',')
        if packed:
            T.expect('>')
        return ('agg', elems)
    if v == 'getelementptr':
        flags = []
        while T.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
            flags.append(T.next())
        T.expect('(')
        bt = parse_type(T)
        T.expect(',')
        ops = []
        while True:
            while T.peek() in ('inrange',):
                T.next()
            t = parse_type(T)
            x = parse_value(T, t)
            ops.append((t, x))
            if T.eat(')'):
                break
            T.expect(',')
        return ('ce', 'gep', bt, ops)
    if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
        T.expect('(')
        t = parse_type(T)
        x = parse_value(T, t)
        T.expect('to')
        t2 = parse_type(T)
        T.expect(')')
        return ('ce', v, t, x, t2)
    if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
        while T.peek() in ('nsw', 'nuw'):
            T.next()
        T.expect('(')
        t = parse_type(T)
        a = parse_value(T, t)
        T.expect(',')
        t2 = parse_type(T)
        b = parse_value(T, t2)
        T.expect(')')
        return ('ce', v, t, a, b)
    if v == 'icmp':
        pred = T.next()
        T.expect('(')
        t = parse_type(T)
        a = parse_value(T, t)
        T.expect(',')
        t2 = parse_type(T)
        b = parse_value(T, t2)
        T.expect(')')
        return ('ce', 'icmp', pred, t, a, b)
    raise IRError(f'value {v!r} in {T.line[:300]}')


PARAM_ATTRS = {'noundef', 'nocapture', 'readonly', 'writeonly', 'nonnull', 'zeroext', 'signext', 'noalias',
               'immarg', 'readnone', 'returned', 'inreg', 'nofree', 'swiftself', 'nest', 'noreturn', 'nounwind',
               'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'internal', 'linkonce_odr', 'weak_odr',
               'weak', 'available_externally', 'external', 'private', 'comdat', 'fastcc', 'ccc', 'coldcc', 'common',
               'appending', 'extern_weak', 'protected', 'default', 'writable', 'dead_on_unwind', 'alignstack',
               'linkonce'}
PARAM_ATTRS_ARG = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype',
                   'memory', 'range', 'nofpclass', 'initializes', 'inalloca', 'preallocated', 'byref'}


def skip_attrs(T, found=None):
    while True:
        p = T.peek()
        if p in PARAM_ATTRS:
            if found is not None:
                found.append(p)
            T.next()
            continue
        if p in PARAM_ATTRS_ARG:
            if found is not None:
                found.append(p)
            T.next()
            if T.peek() == '(':
                depth = 0
                start = T.i
                while True:
                    x = T.next()
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
                if p == 'byval' and found is not None:
                    sub = Toks(T.t[start + 1:T.i - 1], T.line)
                    found.append(('byvaltype', parse_type(sub)))
            elif p == 'align':
                T.next()
            continue
        return


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'text', 'extra')

    def __init__(self, op, res, ty, args, text, extra=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.args = args
        self.text = text
        self.extra = extra


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succs = []
        self.preds = []


class Function:
    def __init__(self, name, params, retty, lines):
        self.name = name
        self.params = params   # list of (type, name, attrs)
        self.retty = retty
        self.lines = lines
        self._blocks = None

    def blocks(self, module):
        if self._blocks is None:
            parse_body(self, module)
        return self._blocks


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
         'fpext', 'fptrunc'}
FLAGS = {'nsw', 'nuw', 'exact', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'samesign'}


def parse_instr(line):
    T = Toks(tokenize(line), line)
    res = None
    if T.kind() == 'lv' and T.peek(1) == '=':
        res = T.next()
        T.next()
    op = T.next()
    if op in BINOPS:
        flags = []
        while T.peek() in FLAGS:
            flags.append(T.next())
        t = parse_type(T)
        a = parse_value(T, t)
        T.expect(',')
        b = parse_value(T, t)
        return Instr(op, res, t, [a, b], line, flags)
    if op == 'fneg':
        while T.peek() in FLAGS:
            T.next()
        t = parse_type(T)
        a = parse_value(T, t)
        return Instr(op, res, t, [a], line)
    if op in CASTS:
        while T.peek() in FLAGS:
            T.next()
        t = parse_type(T)
        a = parse_value(T, t)
        T.expect('to')
        t2 = parse_type(T)
        return Instr(op, res, t2, [(t, a)], line)
    if op in ('icmp', 'fcmp'):
        while T.peek() in FLAGS:
            T.next()
        pred = T.next()
        t = parse_type(T)
        a = parse_value(T, t)
        T.expect(',')
        b = parse_value(T, t)
        return Instr(op, res, t, [a, b], line, pred)
    if op == 'phi':
        while T.peek() in FLAGS:
            T.next()
        t = parse_type(T)
        inc = []
        while True:
            T.expect('[')
            v = parse_value(T, t)
            T.expect(',')
            b = T.next()
            T.expect(']')
            inc.append((v, b))
            if not (T.peek() == ',' and T.peek(1) == '['):
                break
            T.next()
        return Instr(op, res, t, inc, line)
    if op == 'select':
        while T.peek() in FLAGS:
            T.next()
        ct = parse_type(T)
        c = parse_value(T, ct)
        T.expect(',')
        t = parse_type(T)
        a = parse_value(T, t)
        T.expect(',')
        t2 = parse_type(T)
        b = parse_value(T, t2)
        return Instr(op, res, t, [c, a, b], line)
    if op == 'freeze':
        t = parse_type(T)
        return Instr(op, res, t, [parse_value(T, t)], line)
    if op == 'load':
        while T.peek() in ('volatile', 'atomic'):
            T.next()
        t = parse_type(T)
        T.expect(',')
        pt = parse_type(T)
        p = parse_value(T, pt)
        return Instr(op, res, t, [p], line)
    if op == 'store':
        while T.peek() in ('volatile', 'atomic'):
            T.next()
        t = parse_type(T)
        v = parse_value(T, t)
        T.expect(',')
        pt = parse_type(T)
        p = parse_value(T, pt)
        return Instr(op, res, t, [v, p], line)
    if op == 'alloca':
        T.eat('inalloca')
        t = parse_type(T)
        cnt = ('int', 1)
        if T.peek() == ',' and T.peek(1) and re.fullmatch(r'i[0-9]+', T.peek(1)):
            T.next()
            ct = parse_type(T)
            cnt = parse_value(T, ct)
        return Instr(op, res, t, [cnt], line)
    if op == 'getelementptr':
        while T.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            T.next()
        bt = parse_type(T)
        T.expect(',')
        ops = []
        while True:
            t = parse_type(T)
            x = parse_value(T, t)
            ops.append((t, x))
            if not T.eat(','):
                break
            if T.kind() == 'md':
                break
        return Instr(op, res, bt, ops, line)
    if op == 'br':
        if T.peek() == 'label':
            T.next()
            return Instr('br', None, None, [T.next()], line)
        t = parse_type(T)
        c = parse_value(T, t)
        T.expect(',')
        T.expect('label')
        a = T.next()
        T.expect(',')
        T.expect('label')
        b = T.next()
        return Instr('condbr', None, None, [c, a, b], line)
    if op == 'switch':
        t = parse_type(T)
        v = parse_value(T, t)
        T.expect(',')
        T.expect('label')
        d = T.next()
        T.expect('[')
        cases = []
        while not T.eat(']'):
            ct = parse_type(T)
            cv = parse_value(T, ct)
            T.expect(',')
            T.expect('label')
            cases.append((cv, T.next()))
        return Instr('switch', None, t, [v, d, cases], line)
    if op == 'ret':
        t = parse_type(T)
        if t == VOID:
            return Instr('ret', None, t, [], line)
        return Instr('ret', None, t, [parse_value(T, t)], line)
    if op == 'unreachable':
        return Instr(op, None, None, [], line)
    if op == 'resume':
        return Instr(op, None, None, [], line)
    if op == 'fence':
        return Instr(op, None, None, [], line)
    if op == 'landingpad':
        return Instr(op, res, parse_type(T), [], line)
    if op in ('extractvalue', 'insertvalue'):
        t = parse_type(T)
        v = parse_value(T, t)
        T.expect(',')
        if op == 'insertvalue':
            t2 = parse_type(T)
            v2 = parse_value(T, t2)
            T.expect(',')
        idx = []
        while True:
            idx.append(int(T.next()))
            if not T.eat(','):
                break
            if T.kind() == 'md':
                break
        if op == 'extractvalue':
            return Instr(op, res, t, [v], line, idx)
        return Instr(op, res, t, [v, (t2, v2)], line, idx)
    if op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
        if op in ('tail', 'musttail', 'notail'):
            T.next()
        isinv = op == 'invoke'
        while T.peek() in FLAGS:
            T.next()
        skip_attrs(T)
        t = parse_type(T)
        if t[0] == 'fn':
            t = t[1]
        callee = parse_value(T, PTR)
        T.expect('(')
        args = []
        if not T.eat(')'):
            while True:
                if T.peek() == 'metadata':
                    while T.peek() not in (',', ')'):
                        T.next()
                    args.append((('metadata',), ('undef',), []))
                else:
                    at = parse_type(T)
                    fa = []
                    skip_attrs(T, fa)
                    av = parse_value(T, at)
                    args.append((at, av, fa))
                if T.eat(')'):
                    break
                T.expect(',')
        extra = {'callee': callee}
        while T.kind() == 'attr' or T.peek() in PARAM_ATTRS or T.peek() in ('noreturn', 'nounwind', 'builtin', 'nobuiltin', 'cold'):
            T.next()
        if T.peek() == '[':      # operand bundle
            depth = 0
            while True:
                x = T.next()
                if x in '[':
                    depth += 1
                if x == ']':
                    depth -= 1
                    if depth == 0:
                        break
        if isinv:
            T.expect('to')
            T.expect('label')
            extra['normal'] = T.next()
            T.expect('unwind')
            T.expect('label')
            extra['unwind'] = T.next()
            return Instr('invoke', res, t, args, line, extra)
        return Instr('call', res, t, args, line, extra)
    if op == 'va_arg':
        raise IRError('va_arg')
    if op in ('cmpxchg', 'atomicrmw'):
        return Instr(op, res, None, [], line)
    if op in ('extractelement', 'insertelement', 'shufflevector'):
        return Instr('vector', res, None, [], line)
    raise IRError('instr ' + line[:200])


def parse_body(fn, module):
    blocks = {}
    order = []
    # number of unnamed params -> the implicit entry label
    cur = None
    entry = None
    pending = ''
    for raw in fn.lines:
        line = raw.strip()
        if not line:
            continue
        m = re.match(r'^("(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|[-a-zA-Z$._0-9]+):(\s*;.*)?$', line)
        if m and not pending:
            name = '%' + m.group(1)
            cur = Block(name)
            blocks[name] = cur
            order.append(cur)
            continue
        if cur is None:
            cur = Block('%<entry>')
            blocks[cur.name] = cur
            order.append(cur)
        if pending:
            pending += ' ' + line
            if line == ']' or line.startswith(']'):
                line = pending
                pending = ''
            elif line.startswith('to label'):
                line = pending
                pending = ''
            elif line.startswith(('cleanup', 'catch', 'filter')):
                continue
            else:
                continue
        else:
            if re.match(r'^switch ', line) and not re.search(r'\]', line.split('[', 1)[1] if '[' in line else ''):
                pending = line
                continue
            if ('invoke ' in line.split('@')[0] or re.match(r'^(%\S+ = )?invoke ', line)) and ' to label ' not in line:
                pending = line
                continue
            if line.startswith(('cleanup', 'catch ', 'filter ')):
                continue
        cur.instrs.append(parse_instr(line))
    # entry label naming: implicit number = number of unnamed values so far; find referenced name with no def
    refs = set()
    for b in order:
        for ins in b.instrs:
            if ins.op == 'phi':
                for _, lb in ins.args:
                    refs.add(lb)
            for s in succs_of(ins):
                refs.add(s)
    missing = [r for r in refs if r not in blocks]
    if missing:
        if len(missing) == 1 and order and order[0].name == '%<entry>':
            del blocks['%<entry>']
            order[0].name = missing[0]
            blocks[missing[0]] = order[0]
        else:
            raise IRError('labels ' + repr(missing))
    for b in order:
        if not b.instrs:
            raise IRError('empty block')
        b.succs = []
        for s in succs_of(b.instrs[-1]):
            if s not in b.succs:
                b.succs.append(s)
    for b in order:
        for s in b.succs:
            blocks[s].preds.append(b.name)
    fn._blocks = (order, blocks)


def succs_of(ins):
    if ins.op == 'br':
        return [ins.args[0]]
    if ins.op == 'condbr':
        return [ins.args[1], ins.args[2]]
    if ins.op == 'switch':
        return [ins.args[1]] + [l for _, l in ins.args[2]]
    if ins.op == 'invoke':
        return [ins.extra['normal']]       # unwind edges are not modelled (stated assumption)
    return []


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}     # name -> (type, init or None, isconst)
        self.functions = {}
        self.declares = {}
        self.aliases = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('%') and ' = type ' in l:
                name, rest = l.split(' = type ', 1)
                T = Toks(tokenize(rest), l)
                self.types[name] = parse_type(T)
            elif l.startswith('@'):
                self._global(l)
            elif l.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                self.declares[m.group(1)] = l
            i += 1

    def _global(self, l):
        name = l.split(' = ', 1)[0]
        self.globals[name] = l   # lazily parsed

    def global_info(self, name):
        g = self.globals.get(name)
        if g is None:
            return None
        if isinstance(g, str):
            l = g
            T = Toks(tokenize(l.split(' = ', 1)[1]), l)
            const = False
            ext = False
            while True:
                p = T.peek()
                if p in ('constant', 'global'):
                    const = p == 'constant'
                    T.next()
                    break
                if p == 'alias':
                    T.next()
                    parse_type(T)
                    T.expect(',')
                    parse_type(T)
                    g = ('alias', parse_value(T, PTR))
                    self.globals[name] = g
                    return g
                if p in ('external', 'extern_weak'):
                    ext = True
                T.next()
                if p == '(':
                    pass
            t = parse_type(T)
            init = None
            if not ext and not T.done() and T.peek() != ',':
                init = parse_value(T, t)
            g = (t, init, const)
            self.globals[name] = g
        return g

    def _define(self, l, body):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
        name = m.group(1)
        pre = l[len('define '):m.start()]
        T = Toks(tokenize(pre), l)
        skip_attrs(T)
        retty = parse_type(T)
        T = Toks(tokenize(l[m.end():].split(' personality ')[0].rsplit('{', 1)[0] if False else l[m.end():]), l)
        params = []
        n = 0
        if not T.eat(')'):
            while True:
                if T.peek() == '...':
                    T.next()
                    T.expect(')')
                    break
                t = parse_type(T)
                fa = []
                skip_attrs(T, fa)
                if T.kind() == 'lv':
                    nm = T.next()
                else:
                    nm = '%' + str(n)
                n += 1
                params.append((t, nm, fa))
                if T.eat(')'):
                    break
                T.expect(',')
        self.functions[name] = Function(name, params, retty, body)

    # ---- layout (x86-64 SysV data layout) ----
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'double':
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        if k == 'vec':
            return self.size(t)
        raise IRError('align ' + repr(t))

    def store_size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return (t[1] + 7) // 8
        if t[0] == 'x86_fp80':
            return 10
        return self.size(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'float':
            return 4
        if k == 'double':
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'st':
            return self.struct_layout(t)[1]
        if k == 'vec':
            return t[1] * self.size(t[2])
        raise IRError('size ' + repr(t))

    def struct_layout(self, t):
        offs = []
        o = 0
        for e in t[1]:
            if not t[2]:
                a = self.align(e)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        a = 1 if t[2] else self.align(t)
        return offs, (o + a - 1) // a * a
