"""Parser for the subset of textual LLVM 18 IR that clang emits for the harnesses (opaque pointers, x86-64 layout)."""
import re
from functools import lru_cache


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'elems', 'name', 'packed', '_sa')

    def __init__(self, k, n=0, elems=None, name=None, packed=False):
        self.k, self.n, self.elems, self.name, self.packed = k, n, elems, name, packed
        self._sa = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'struct':
            return '{' + ', '.join(map(repr, self.elems)) + '}'
        if self.k == 'named':
            return self.name
        if self.k in ('array', 'vector'):
            return '[%d x %r]' % (self.n, self.elems)
        return self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


VOID, PTR, FLOAT, DOUBLE, LABEL, META = (Ty(k) for k in ('void', 'ptr', 'float', 'double', 'label', 'metadata'))
_INTS = {}


def IntTy(n):
    if n not in _INTS:
        _INTS[n] = Ty('int', n)
    return _INTS[n]


# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![a-zA-Z0-9._]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?0x[HKLMR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | (?P<word>[a-zA-Z_$][-a-zA-Z0-9_$.]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            raise ParseError('token at %r' % s[pos:pos + 40])
        if m.lastgroup:
            out.append(m.group(m.lastgroup))
        pos = m.end()
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'zeroext', 'signext',
               'returned', 'immarg', 'inreg', 'nest', 'swiftself', 'nofree', 'writable', 'dead_on_unwind', 'allocptr',
               'allocalign', 'noext'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range',
                   'captures', 'memory', 'initializes', 'nofpclass'}


class Cur:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i] if self.i < len(self.t) else None
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %r got %r in %r' % (x, y, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def type(self):
        t = self.next()
        if t is None:
            raise ParseError('type expected')
        if re.fullmatch(r'i\d+', t):
            r = IntTy(int(t[1:]))
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                raise ParseError('addrspace')
        elif t == 'void':
            r = VOID
        elif t == 'float':
            r = FLOAT
        elif t == 'double':
            r = DOUBLE
        elif t == 'label':
            r = LABEL
        elif t == 'metadata':
            r = META
        elif t in ('x86_fp80', 'half', 'fp128', 'opaque', 'token'):
            r = Ty(t)
        elif t.startswith('%'):
            r = Ty('named', name=t)
        elif t == '{':
            el = []
            if not self.accept('}'):
                el.append(self.type())
                while self.accept(','):
                    el.append(self.type())
                self.expect('}')
            r = Ty('struct', elems=el)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                el = []
                if not self.accept('}'):
                    el.append(self.type())
                    while self.accept(','):
                        el.append(self.type())
                    self.expect('}')
                self.expect('>')
                r = Ty('struct', elems=el, packed=True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = Ty('vector', n=n, elems=e)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = Ty('array', n=n, elems=e)
        else:
            raise ParseError('bad type %r in %r' % (t, ' '.join(self.t[max(0, self.i - 5):self.i + 5])))
        # function type
        if self.peek() == '(':
            save = self.i
            self.next()
            try:
                args = []
                if not self.accept(')'):
                    while True:
                        if self.accept('...'):
                            args.append('...')
                        else:
                            args.append(self.type())
                            self.param_attrs()
                        if self.accept(')'):
                            break
                        self.expect(',')
                r = Ty('func', elems=[r] + args)
            except (ParseError, ValueError):
                self.i = save
        return r

    def param_attrs(self):
        at = []
        while True:
            t = self.peek()
            if t in PARAM_ATTRS:
                at.append(self.next())
            elif t in PARAM_ATTRS_ARG:
                at.append(self.next())
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.next()
            elif t and t.startswith('"') and t.endswith('"'):
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return at

    # value of known type
    def value(self, ty):
        t = self.next()
        if t is None:
            raise ParseError('value expected')
        if t.startswith('%'):
            return ('local', t)
        if t.startswith('@'):
            return ('global', t)
        if t == 'true':
            return ('int', 1, ty)
        if t == 'false':
            return ('int', 0, ty)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef', ty)
        if t == 'zeroinitializer':
            return ('zero', ty)
        if t == 'none':
            return ('zero', ty)
        if re.fullmatch(r'-?\d+', t) and ty.k == 'int':
            return ('int', int(t), ty)
        if ty.k in ('float', 'double'):
            return ('fp', t, ty)
        if t in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sub', 'add', 'icmp', 'select'):
            return self.constexpr(t)
        if t == '{' or t == '[' or t == '<':
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                vals = self.agg('}')
                self.expect('>')
                return ('agg', vals, ty)
            return ('agg', self.agg(close), ty)
        if t.startswith('c"'):
            return ('str', t[2:-1], ty)
        if t.startswith('!') or ty.k == 'metadata':
            return ('meta', t)
        raise ParseError('bad value %r of type %r' % (t, ty))

    def agg(self, close):
        vals = []
        if self.accept(close):
            return vals
        while True:
            ty = self.type()
            vals.append((ty, self.value(ty)))
            if self.accept(close):
                return vals
            self.expect(',')

    def typed(self):
        ty = self.type()
        self.param_attrs()
        return ty, self.value(ty)

    def constexpr(self, op):
        if op == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            if self.peek() == 'inrange':  # inrange(a, b)
                self.next()
                while self.next() != ')':
                    pass
            self.expect('(')
            bt = self.type()
            self.expect(',')
            base = self.typed()
            idx = []
            while self.accept(','):
                self.accept('inrange')
                idx.append(self.typed())
            self.expect(')')
            return ('gep', bt, base[1], idx)
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            self.expect('(')
            t, v = self.typed()
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', op, t, v, t2)
        if op in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            a = self.typed()
            self.expect(',')
            b = self.typed()
            self.expect(')')
            return ('bin', op, a, b)
        raise ParseError('constexpr ' + op)


class Instr:
    __slots__ = ('op', 'res', 'a', 'line')

    def __init__(self, op, res, a, line):
        self.op, self.res, self.a, self.line = op, res, a, line

    def __repr__(self):
        return self.line


class Block:
    def __init__(self, name):
        self.name, self.ins, self.succs, self.preds = name, [], [], []


class Function:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.entry = None
        self.defined = False


FAST = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class Module:
    def __init__(self, text):
        self.types, self.globals, self.functions, self.aliases = {}, {}, {}, {}
        self._rawfn = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    self.types[nm] = Ty('opaque')
                else:
                    self.types[nm] = Cur(tokenize(rest), self).type()
            elif ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', ln)
                self._rawfn[m.group(1)] = (ln, lines[i + 1:j])
                i = j
            i += 1

    def _global(self, ln):
        m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
        if not m:
            return
        nm, rest = m.group(1), m.group(2)
        toks = None
        mm = re.search(r'\b(alias)\b', rest)
        if mm and 'unnamed_addr alias' in rest or rest.startswith('alias') or ' alias ' in rest:
            t = re.findall(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', rest)
            if t:
                self.aliases[nm] = t[0]
            return
        mm = re.search(r'\b(global|constant)\b ', rest)
        if not mm:
            return
        self.globals[nm] = (mm.group(1), rest[mm.end():], 'external' in rest[:mm.start()])

    @lru_cache(maxsize=None)
    def global_init(self, nm):
        """returns (type, value or None, isconst)"""
        kind, rest, ext = self.globals[nm]
        c = Cur(tokenize(rest), self)
        ty = c.type()
        if ext:
            return ty, None, kind == 'constant'
        try:
            v = c.value(ty)
        except ParseError:
            v = None
        return ty, v, kind == 'constant'

    def resolve_alias(self, nm):
        while nm in self.aliases:
            nm = self.aliases[nm]
        return nm

    def function(self, nm):
        nm = self.resolve_alias(nm)
        if nm in self.functions:
            return self.functions[nm]
        if nm not in self._rawfn:
            return None
        f = self._parse_fn(nm)
        self.functions[nm] = f
        return f

    def _parse_fn(self, nm):
        head, body = self._rawfn[nm]
        k = head.index(nm + '(')
        pre = head[len('define '):k]
        # return type: last type in pre
        toks = tokenize(pre)
        # parse skipping linkage words
        c = Cur(toks, self)
        ret = None
        while c.peek() is not None:
            save = c.i
            try:
                ret = c.type()
                break
            except (ParseError, ValueError):
                c.i = save
                x = c.next()
                if c.peek() == '(':
                    while c.next() != ')':
                        pass
        c = Cur(tokenize(head[k + len(nm):]), self)
        c.expect('(')
        params = []
        n = 0
        if not c.accept(')'):
            while True:
                if c.accept('...'):
                    c.expect(')')
                    break
                ty = c.type()
                c.param_attrs()
                if c.peek() and c.peek().startswith('%'):
                    pn = c.next()
                else:
                    pn = '%' + str(n)
                n += 1
                params.append((ty, pn))
                if c.accept(')'):
                    break
                c.expect(',')
        f = Function(nm, ret, params)
        f.defined = True
        cur = None
        unn = sum(1 for _, p in params if re.fullmatch(r'%\d+', p))
        i = 0
        while i < len(body):
            ln = body[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = Block('%' + m.group(1))
                f.blocks[cur.name] = cur
                if f.entry is None:
                    f.entry = cur.name
                continue
            if cur is None:
                cur = Block('%' + str(unn))
                f.blocks[cur.name] = cur
                f.entry = cur.name
            # multi-line: switch, invoke, landingpad
            if re.match(r'^switch ', s):
                while not body[i - 1].strip().endswith(']'):
                    s += ' ' + body[i].strip()
                    i += 1
                    if s.endswith(']') or ']' in body[i - 1]:
                        break
            elif 'invoke ' in s and ' unwind label ' not in s:
                s += ' ' + body[i].strip()
                i += 1
            elif ' landingpad ' in s:
                while i < len(body) and re.match(r'^\s+(catch|cleanup|filter)\b', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            cur.ins.append(self._instr(s))
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succs = [t.a['dest']] if 'dest' in t.a else [t.a['t'], t.a['f']]
            elif t.op == 'switch':
                b.succs = [t.a['default']] + [d for _, d in t.a['cases']]
            elif t.op == 'invoke':
                b.succs = [t.a['normal'], t.a['unwind']]
        for b in f.blocks.values():
            for s_ in b.succs:
                f.blocks[s_].preds.append(b.name)
        return f

    def _instr(self, s):
        res = None
        m = re.match(r'^(%"[^"]*"|%[-a-zA-Z$._0-9]+) = ', s)
        body = s
        if m:
            res = m.group(1)
            body = s[m.end():]
        # strip metadata attachments
        body = re.sub(r', ![a-zA-Z.0-9_]+ ![0-9]+', '', body)
        body = re.sub(r', ![a-zA-Z.0-9_]+ !\{[^}]*\}', '', body)
        body = re.sub(r'\s;.*$', '', body)
        c = Cur(tokenize(body), self)
        op = c.next()
        a = {}
        if op in ('tail', 'musttail', 'notail'):
            op = c.next()
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while c.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(c.next())
            a['ty'] = c.type()
            a['x'] = c.value(a['ty'])
            c.expect(',')
            a['y'] = c.value(a['ty'])
            a['fl'] = fl
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while c.peek() in FAST:
                c.next()
            a['ty'] = c.type()
            a['x'] = c.value(a['ty'])
            c.expect(',')
            a['y'] = c.value(a['ty'])
        elif op == 'fneg':
            while c.peek() in FAST:
                c.next()
            a['ty'] = c.type()
            a['x'] = c.value(a['ty'])
        elif op in ('icmp', 'fcmp'):
            while c.peek() in FAST or c.peek() == 'samesign':
                c.next()
            a['pred'] = c.next()
            a['ty'] = c.type()
            a['x'] = c.value(a['ty'])
            c.expect(',')
            a['y'] = c.value(a['ty'])
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'uitofp', 'sitofp',
                    'fptoui', 'fptosi'):
            while c.peek() in ('nneg', 'nuw', 'nsw'):
                c.next()
            a['ty'] = c.type()
            a['x'] = c.value(a['ty'])
            c.expect('to')
            a['to'] = c.type()
        elif op == 'alloca':
            a['ty'] = c.type()
            a['n'] = None
            while c.accept(','):
                if c.peek() == 'align':
                    c.next()
                    c.next()
                else:
                    a['n'] = c.typed()
        elif op == 'load':
            c.accept('volatile')
            a['atomic'] = c.accept('atomic')
            a['ty'] = c.type()
            c.expect(',')
            _, a['p'] = c.typed()
        elif op == 'store':
            c.accept('volatile')
            c.accept('atomic')
            a['ty'], a['v'] = c.typed()
            c.expect(',')
            _, a['p'] = c.typed()
        elif op == 'atomicrmw':
            c.accept('volatile')
            a['rmw'] = c.next()
            _, a['p'] = c.typed()
            c.expect(',')
            a['ty'], a['v'] = c.typed()
        elif op == 'getelementptr':
            while c.peek() in ('inbounds', 'nuw', 'nusw'):
                c.next()
            a['bt'] = c.type()
            c.expect(',')
            _, a['p'] = c.typed()
            a['idx'] = []
            while c.accept(','):
                a['idx'].append(c.typed())
        elif op == 'phi':
            while c.peek() in FAST:
                c.next()
            a['ty'] = c.type()
            a['in'] = []
            while True:
                c.expect('[')
                v = c.value(a['ty'])
                c.expect(',')
                b = c.next()
                c.expect(']')
                a['in'].append((v, b))
                if not c.accept(','):
                    break
        elif op == 'select':
            while c.peek() in FAST:
                c.next()
            a['c'] = c.typed()
            c.expect(',')
            a['ty'], a['x'] = c.typed()
            c.expect(',')
            _, a['y'] = c.typed()
        elif op == 'br':
            if c.peek() == 'label':
                c.next()
                a['dest'] = c.next()
            else:
                _, a['c'] = c.typed()
                c.expect(',')
                c.expect('label')
                a['t'] = c.next()
                c.expect(',')
                c.expect('label')
                a['f'] = c.next()
        elif op == 'switch':
            a['ty'], a['x'] = c.typed()
            c.expect(',')
            c.expect('label')
            a['default'] = c.next()
            c.expect('[')
            a['cases'] = []
            while not c.accept(']'):
                t, v = c.typed()
                c.expect(',')
                c.expect('label')
                a['cases'].append((v, c.next()))
        elif op == 'ret':
            a['ty'] = c.type()
            a['v'] = c.value(a['ty']) if a['ty'].k != 'void' else None
        elif op in ('call', 'invoke'):
            # skip cc / attrs
            while True:
                save = c.i
                if c.peek() in FAST or c.peek() in ('fastcc', 'ccc', 'coldcc'):
                    c.next()
                    continue
                at = c.param_attrs()
                if c.i == save:
                    break
            a['ty'] = c.type()
            if a['ty'].k == 'func':
                a['ty'] = a['ty'].elems[0]
            if c.peek() == 'asm':
                a['callee'] = ('asm',)
                a['args'] = []
            else:
                a['callee'] = c.value(PTR)
                c.expect('(')
                a['args'] = []
                if not c.accept(')'):
                    while True:
                        t = c.type()
                        at = c.param_attrs()
                        if t.k == 'metadata':
                            d = 0
                            while not (d == 0 and c.peek() in (',', ')')):
                                x = c.next()
                                d += x in '([{'
                                d -= x in ')]}'
                            v = ('meta', None)
                        else:
                            v = c.value(t)
                        a['args'].append((t, v, at))
                        if c.accept(')'):
                            break
                        c.expect(',')
            if op == 'invoke':
                while c.peek() != 'to':
                    c.next()
                c.expect('to')
                c.expect('label')
                a['normal'] = c.next()
                c.expect('unwind')
                c.expect('label')
                a['unwind'] = c.next()
        elif op in ('unreachable', 'landingpad', 'resume', 'fence', 'atomicrmw', 'cmpxchg', 'va_arg'):
            pass
        elif op == 'extractvalue':
            a['ty'], a['x'] = c.typed()
            a['idx'] = []
            while c.accept(','):
                a['idx'].append(int(c.next()))
        elif op == 'insertvalue':
            a['ty'], a['x'] = c.typed()
            c.expect(',')
            a['vty'], a['v'] = c.typed()
            a['idx'] = []
            while c.accept(','):
                a['idx'].append(int(c.next()))
        elif op == 'freeze':
            a['ty'], a['x'] = c.typed()
        else:
            raise ParseError('instruction ' + s)
        return Instr(op, res, a, s)

    # ------------------------------------------------------------ layout
    def res(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.name]
        return ty

    def size_align(self, ty):
        ty = self.res(ty)
        if ty._sa:
            return ty._sa
        if ty.k == 'int':
            n = 1
            while n * 8 < ty.n:
                n *= 2
            r = (n, min(n, 16))
        elif ty.k == 'ptr' or ty.k == 'double':
            r = (8, 8)
        elif ty.k == 'float':
            r = (4, 4)
        elif ty.k == 'x86_fp80':
            r = (16, 16)
        elif ty.k in ('array', 'vector'):
            s, al = self.size_align(ty.elems)
            r = (s * ty.n, al)
        elif ty.k == 'struct':
            off, al = 0, 1
            for e in ty.elems:
                s, a_ = self.size_align(e)
                if ty.packed:
                    a_ = 1
                off = (off + a_ - 1) // a_ * a_ + s
                al = max(al, a_)
            r = ((off + al - 1) // al * al, al)
        elif ty.k in ('func', 'opaque', 'void'):
            r = (1, 1)
        else:
            raise ParseError('size of %r' % ty)
        ty._sa = r
        return r

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def field_offset(self, ty, i):
        ty = self.res(ty)
        off = 0
        for j, e in enumerate(ty.elems):
            s, a_ = self.size_align(e)
            if ty.packed:
                a_ = 1
            off = (off + a_ - 1) // a_ * a_
            if j == i:
                return off, e
            off += s
        raise ParseError('field')

    def flatten(self, ty, base=0):
        """list of (offset, scalar type)"""
        ty = self.res(ty)
        if ty.k == 'struct':
            out = []
            for i in range(len(ty.elems)):
                o, e = self.field_offset(ty, i)
                out += self.flatten(e, base + o)
            return out
        if ty.k in ('array', 'vector'):
            s = self.sizeof(ty.elems)
            out = []
            for i in range(ty.n):
                out += self.flatten(ty.elems, base + i * s)
            return out
        return [(base, ty)]
