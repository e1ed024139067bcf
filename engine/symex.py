"""Verification-condition generator: symbolic execution of LLVM IR obtained from the real sources, loops cut at their
headers by invariants (user supplied candidates filtered by induction checks), memory modelled by disjoint regions holding
SMT arrays, every access generating a bounds obligation."""
import re
import struct
import time
from fractions import Fraction
import z3
from dsl import *
import dsl
import llir
from llir import Ty, PTR


BIT = z3.Function('bit', z3.IntSort(), z3.IntSort(), z3.BoolSort())
PC = z3.Function('pc', z3.IntSort(), z3.IntSort())


class Unsupported(Exception):
    pass


class Restart(Exception):
    pass


class PathEnd(Exception):
    pass


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('r', 'off', 'hint')

    def __init__(self, r, off=0, hint=None):
        self.r, self.off, self.hint = r, off, hint

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.off)


NULL = Ptr(None, 0)


class FuncPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class PInt:
    """a pointer converted to an integer"""
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r, self.off = r, off


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Pack:
    """an integer that holds several fields (struct coerced to an integer register): list of (byte offset, Ty, value)"""

    def __init__(self, size, parts):
        self.size, self.parts = size, parts


def unbits(x):
    """the integer that has been reinterpreted as a floating-point number, if any"""
    if x.decl().name() in ('f32_of_bits', 'f64_of_bits'):
        return x.arg(0)
    if x.decl().kind() == z3.Z3_OP_ITE:
        p, q = unbits(x.arg(1)), unbits(x.arg(2))
        if p is not None and q is not None:
            return z3.If(x.arg(0), p, q)
    return None


class CaseSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


# ------------------------------------------------------------------ linear forms
def lin_of(t):
    """z3 Int term -> (const, {atom id: (atom, coeff)})"""
    if isinstance(t, int):
        return t, {}
    c = 0
    d = {}
    st = [(t, 1)]
    while st:
        x, m = st.pop()
        if isinstance(x, int):
            c += x * m
            continue
        k = x.decl().kind()
        if z3.is_int_value(x):
            c += x.as_long() * m
        elif k == z3.Z3_OP_ADD:
            for a in x.children():
                st.append((a, m))
        elif k == z3.Z3_OP_SUB:
            ch = x.children()
            st.append((ch[0], m))
            for a in ch[1:]:
                st.append((a, -m))
        elif k == z3.Z3_OP_UMINUS:
            st.append((x.arg(0), -m))
        elif k == z3.Z3_OP_MUL:
            num = 1
            rest = []
            for a in x.children():
                if z3.is_int_value(a):
                    num *= a.as_long()
                else:
                    rest.append(a)
            if not rest:
                c += num * m
            elif len(rest) == 1:
                st.append((rest[0], m * num))
            else:
                p = rest[0]
                for a in rest[1:]:
                    p = p * a
                i = p.get_id()
                # canonical product: keep the term itself when there is no numeral
                if num == 1:
                    p = x
                    i = x.get_id()
                o = d.get(i)
                d[i] = (p, (o[1] if o else 0) + m * num)
        else:
            i = x.get_id()
            o = d.get(i)
            d[i] = (x, (o[1] if o else 0) + m)
    d = {i: v for i, v in d.items() if v[1] != 0}
    return c, d


def lin_make(c, d):
    r = None
    for i in sorted(d):
        a, m = d[i]
        t = a if m == 1 else a * m
        r = t if r is None else r + t
    if r is None:
        return c
    return r if c == 0 else r + c


def lin_divisible(t, s):
    c, d = lin_of(t)
    return c % s == 0 and all(m % s == 0 for _, m in d.values())


def lin_div(t, s):
    """(quotient term, const remainder) with t = q*s + rem, or None"""
    c, d = lin_of(t)
    if any(m % s for _, m in d.values()):
        return None
    return lin_make(c // s, {i: (a, m // s) for i, (a, m) in d.items()}), c % s


def lin_sub(a, b):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for i, (t, m) in db.items():
        o = d.get(i)
        v = (o[1] if o else 0) - m
        if v:
            d[i] = (t, v)
        else:
            d.pop(i, None)
    return lin_make(ca - cb, d)


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for i, (t, m) in db.items():
        o = d.get(i)
        v = (o[1] if o else 0) + m
        if v:
            d[i] = (t, v)
        else:
            d.pop(i, None)
    return lin_make(ca + cb, d)


def imul(a, n):
    if isinstance(a, int):
        return a * n
    c, d = lin_of(a)
    return lin_make(c * n, {i: (t, m * n) for i, (t, m) in d.items()})


# ------------------------------------------------------------------ memory
class Region:
    def __init__(self, rid, size, name, kind, const=False):
        self.id, self.size, self.name, self.kind, self.const = rid, size, name, kind, const

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Mem:
    """contents of a region; treated as immutable"""
    __slots__ = ('mode', 'cells', 'default', 'stride', 'fields', 'freed')

    def __init__(self):
        self.mode = 'cells'
        self.cells = {}  # off -> (Ty, value)
        self.default = 'undef'
        self.stride = None
        self.fields = {}  # off -> (Ty, z3 array)
        self.freed = False

    def copy(self):
        m = Mem()
        m.mode, m.cells, m.default, m.stride, m.fields, m.freed = (self.mode, dict(self.cells), self.default, self.stride,
                                                                  dict(self.fields), self.freed)
        return m


def tysize(ty):
    if ty.k == 'int':
        return 1 if ty.n <= 8 else 2 if ty.n <= 16 else 4 if ty.n <= 32 else 8 if ty.n <= 64 else 16
    if ty.k == 'float':
        return 4
    return 8


def sort_of(ty):
    if ty.k == 'int':
        return z3.IntSort()
    if ty.k in ('float', 'double'):
        return z3.RealSort()
    raise Unsupported('array of %r' % ty)


class Frame:
    __slots__ = ('fn', 'loc', 'block', 'prev', 'ip', 'ret', 'ctx', 'loops')

    def copy(self):
        f = Frame()
        f.fn, f.loc, f.block, f.prev, f.ip, f.ret, f.ctx, f.loops = (self.fn, dict(self.loc), self.block, self.prev,
                                                                     self.ip, self.ret, self.ctx, list(self.loops))
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []      # quantifier-free facts (z3)
        self.facts = []   # quantified facts
        self.ghost = {}
        self.trace = []

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        return s


class Loop:
    """an active, cut loop"""

    def __init__(self, key, k, body, phis, entry, parent):
        self.key, self.k, self.body, self.phis, self.entry, self.parent = key, k, body, phis, entry, parent


class View:
    """array view handed to invariants and specifications"""

    def __init__(self, arr, ty, base=0, ctx=None):
        self.arr, self.ty, self.base, self.ctx = arr, ty, base, ctx

    def __getitem__(self, i):
        i = i if isz(i) else z3.IntVal(i)
        b = self.base
        if not (isinstance(b, int) and b == 0):
            i = iadd(i, b)
        return z3.Select(self.arr, i)


class SView:
    """struct array view: attribute -> View"""

    def __init__(self, d):
        self.__dict__.update(d)


class PhiInfo:
    __slots__ = ('ty', 'val', 'entry', 'name')

    def __init__(self, ty, val, entry, name):
        self.ty, self.val, self.entry, self.name = ty, val, entry, name


class ModInfo:
    """a modified array field: cur / entry views, ty, region, stride, field offset, n (element count term), alloc: fresh?"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class LoopView:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def phis_of(self, *kinds):
        """phis whose kind ('u32','f64',..) is in kinds"""
        return [p for p in self.phis if kind_of(p.ty) in kinds]

    def mods_of(self, *kinds):
        return [m for m in self.mods if kind_of(m.ty) in kinds]

    def cells_of(self, *kinds):
        return [c for c in self.cells if kind_of(c.ty) in kinds]

    def scalars_of(self, *kinds):
        return self.phis_of(*kinds) + self.cells_of(*kinds)


def kind_of(ty):
    if ty.k == 'int':
        return {1: 'i1', 8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64'}.get(ty.n, 'i%d' % ty.n)
    return {'float': 'f32', 'double': 'f64', 'ptr': 'ptr'}.get(ty.k, ty.k)


class Obligation:
    __slots__ = ('name', 'kind', 'facts', 'goal', 'cand', 'status', 'where', 'seconds', 'model', 'backend')

    def __init__(self, name, kind, facts, goal, cand=None, where=''):
        self.name, self.kind, self.facts, self.goal, self.cand, self.where = name, kind, facts, goal, cand, where
        self.status = None
        self.seconds = 0
        self.model = None
        self.backend = None


class CFGInfo:
    """natural loops of a function"""

    def __init__(self, mod, fn):
        self.fn = fn
        succ = {}
        for b in fn.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                succ[b.name] = [t.a['dest']] if 'dest' in t.a else [t.a['t'], t.a['f']]
            elif t.op == 'switch':
                succ[b.name] = [t.a['default']] + [l for _, l in t.a['cases']]
            elif t.op == 'invoke':
                succ[b.name] = [t.a['normal']]
            else:
                succ[b.name] = []
        self.succ = succ
        # dominators by iterative algorithm
        order = []
        seen = set()
        st = [(fn.entry, iter(succ[fn.entry]))]
        seen.add(fn.entry)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        idx = {n: i for i, n in enumerate(order)}
        preds = {n: [] for n in order}
        for n in order:
            for m in succ[n]:
                preds[m].append(n)
        idom = {fn.entry: fn.entry}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                new = None
                for p in preds[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while idx[a] > idx[b]:
                                    a = idom[a]
                                while idx[b] > idx[a]:
                                    b = idom[b]
                            new = a
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == fn.entry:
                    return False
                b = idom[b]
        self.loops = {}
        for n in order:
            for m in succ[n]:
                if dom(m, n):
                    body = self.loops.setdefault(m, {m})
                    stk = [n]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk += preds[x]
                elif idx[m] <= idx[n]:
                    raise Unsupported('irreducible control flow in %s' % fn.name)


class Executor:
    def __init__(self, mod, contract, fp, demangle=None):
        self.mod, self.c, self.fp = mod, contract, fp
        self.regions = []
        self.globals = {}
        self.cfg = {}
        self.modset = {}      # loop key -> set of ('f',rid,off) / ('c',rid,off)
        self.affine = {}      # loop key -> {phi: step or False}
        self.phiregion = {}
        self.dropped = set()  # candidate ids
        self.ridmap = {}
        self.deltas = {}
        self.regname = {}
        self.demangle = demangle or {}
        self.stubs = {}
        self.trusted = set()
        self.executed = set()
        self.solver = None
        self.sstack = []
        self.nqueries = 0
        self.qtime = 0
        self.unroll = 0
        self.max_paths = 4000
        self.reset()

    # ------------------------------------------------------------ bookkeeping
    def reset(self):
        self.masks = {}
        self.regions = []
        self.globals = {}
        self.obl = []
        self.obl_seen = {}
        self.names = {}
        self.outcomes = []
        self.dirty = False
        self.deferred = None
        self.npaths = 0
        self.used_cands = {}
        self.loopinfo = {}

    def fresh(self, base, sort):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return z3.Const('%s!%d' % (base, n), sort)

    def fresh_of(self, ty, base, st):
        if ty.k == 'int':
            if ty.n == 1:
                return self.fresh(base, z3.BoolSort())
            v = self.fresh(base, z3.IntSort())
            self.assume(st, And(v >= 0, v < 2 ** ty.n))
            return v
        if ty.k in ('float', 'double'):
            return self.fresh(base, z3.RealSort())
        raise Unsupported('fresh value of type %r' % ty)

    def new_region(self, st, size, name, kind, default='undef', const=False, site=None):
        site = site or (kind, name)
        n = st.ghost.get(('alloc', site), 0)
        st.ghost[('alloc', site)] = n + 1
        r = Region(self.rid((site, n)), size, name, kind, const)
        m = Mem()
        m.default = default
        st.mem[r.id] = m
        return r

    def rid(self, key):
        i = self.ridmap.get(key)
        if i is None:
            i = self.ridmap[key] = len(self.ridmap)
        return i

    def assume(self, st, f):
        if not isz(f):
            if not f:
                raise PathEnd()
            return
        if z3.is_and(f):
            for x in f.children():
                self.assume(st, x)
            return
        if has_quant(f):
            st.facts.append(f)
        else:
            st.pc.append(f)

    # ------------------------------------------------------------ solver
    def sync(self, pc):
        if self.solver is None:
            self.solver = z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
            self.solver.set('timeout', 2000)
            self.sstack = []
        i = 0
        n = min(len(pc), len(self.sstack))
        while i < n and pc[i] is self.sstack[i]:
            i += 1
        if len(self.sstack) > i:
            self.solver.pop(len(self.sstack) - i)
            del self.sstack[i:]
        for f in pc[i:]:
            self.solver.push()
            self.solver.add(f)
            self.sstack.append(f)

    def query(self, st, f):
        """is pc /\\ f satisfiable? returns z3 result"""
        if not isz(f):
            if not f:
                return z3.unsat
            f = z3.BoolVal(True)
        t = time.time()
        self.sync(st.pc)
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.nqueries += 1
        self.qtime += time.time() - t
        return r

    def valid(self, st, f):
        if not isz(f):
            return bool(f)
        f = z3.simplify(f) if f.num_args() < 6 else f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self.query(st, z3.Not(f)) == z3.unsat

    def oblige(self, st, name, kind, goal, cand=None, where=''):
        if not isz(goal):
            goal = z3.BoolVal(bool(goal))
        if z3.is_true(goal):
            ob = Obligation(name, kind, None, goal, cand, where)
            ob.status, ob.backend = 'proved', 'simplifier'
            self.obl.append(ob)
            return
        ob = Obligation(name, kind, (list(st.pc), list(st.facts)), goal, cand, where)
        if not has_quant(goal):
            t = time.time()
            if self.query(st, z3.Not(goal)) == z3.unsat:
                ob.status, ob.backend = 'proved', 'z3'
                ob.seconds = time.time() - t
                ob.facts = None
        self.obl.append(ob)

    # ------------------------------------------------------------ integer arithmetic
    def wrap(self, st, r, n, lo=True, hi=True):
        """r: mathematical integer -> canonical unsigned n-bit value; the true value lies within (-2^n, 2^(n+1))"""
        M = 1 << n
        if isinstance(r, int):
            return r % M
        if self.valid(st, z3.And(r >= 0, r < M)):
            return r
        if not self.wrap_ok:
            pass
        if self.valid(st, z3.And(r >= -M, r < M)):
            return z3.If(r < 0, r + M, r)
        if self.valid(st, z3.And(r >= 0, r < 2 * M)):
            return z3.If(r >= M, r - M, r)
        return r % M

    wrap_ok = True

    def signed(self, st, v, n):
        H = 1 << (n - 1)
        if isinstance(v, int):
            return v - 2 * H if v >= H else v
        if self.valid(st, v < H):
            return v
        # undo a wrap
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = v.children()
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_LT and c.arg(0).eq(b) and z3.is_int_value(c.arg(1)) \
                    and c.arg(1).as_long() == 0 and lin_sub(a, b) == 2 * H and \
                    self.valid(st, z3.And(b >= -H, b < H)):
                return b
        return z3.If(v >= H, v - 2 * H, v)

    def binop(self, st, op, ty, x, y, flags=()):
        n = ty.n
        if isinstance(x, Undef) or isinstance(y, Undef):
            x = self.fresh_of(ty, 'undef', st) if isinstance(x, Undef) else x
            y = self.fresh_of(ty, 'undef', st) if isinstance(y, Undef) else y
        if n == 1:
            x, y = tobool(x), tobool(y)
            if op == 'and':
                return And(x, y)
            if op == 'or':
                return Or(x, y)
            if op in ('xor', 'add', 'sub'):
                if not isz(x, y):
                    return x != y
                if not isz(x):
                    return Not(y) if x else y
                if not isz(y):
                    return Not(x) if y else x
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if isinstance(x, PInt) or isinstance(y, PInt):
            if op == 'sub' and isinstance(x, PInt) and isinstance(y, PInt) and x.r is y.r:
                return self.wrap(st, lin_sub(x.off, y.off), n)
            if op == 'add' and isinstance(x, PInt) and not isinstance(y, PInt):
                return PInt(x.r, iadd(x.off, y))
            if op == 'sub' and isinstance(x, PInt) and not isinstance(y, PInt):
                return PInt(x.r, lin_sub(x.off, y))
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(x, Pack) or isinstance(y, Pack):
            return self.pack_op(st, op, ty, x, y)
        if not isz(x, y):
            return self.cbin(op, n, x, y)
        M = 1 << n
        b = self.bitop(st, op, n, x, y)
        if b is not None:
            return b
        if op == 'add':
            # adding a constant with the sign bit set is a subtraction
            if isinstance(y, int) and y >= M // 2:
                return self.wrap(st, iadd(x, y - M), n)
            if isinstance(x, int) and x >= M // 2:
                return self.wrap(st, iadd(y, x - M), n)
            return self.wrap(st, iadd(x, y), n)
        if op == 'sub':
            return self.wrap(st, lin_sub(x, y), n)
        if op == 'mul':
            if 'nsw' in flags and not self.valid(st, And(x < M // 2, y < M // 2)):
                r = self.signed(st, x, n) * self.signed(st, y, n)
                return self.wrap(st, r, n)
            r = imul(x, y) if isinstance(y, int) else imul(y, x) if isinstance(x, int) else x * y
            if 'nuw' in flags:
                return r
            return self.wrap(st, r, n)
        if op == 'udiv':
            self.oblige(st, 'division by zero', 'safety', y != 0 if isz(y) else y != 0)
            if isinstance(y, int):
                q = lin_div(x, y)
                if q and q[1] == 0:
                    return q[0]
            return zi(x) / zi(y)
        if op == 'urem':
            self.oblige(st, 'division by zero', 'safety', y != 0)
            return zi(x) % zi(y)
        if op in ('sdiv', 'srem'):
            self.oblige(st, 'division by zero', 'safety', y != 0)
            sx, sy = self.signed(st, x, n), self.signed(st, y, n)
            if op == 'sdiv' and isinstance(sy, int) and sy > 0:
                q = lin_div(sx, sy)
                if q and q[1] == 0:
                    return self.wrap(st, q[0], n)
            if self.valid(st, And(sx >= 0, sy > 0)):
                return zi(sx) / zi(sy) if op == 'sdiv' else zi(sx) % zi(sy)
            # C division truncates toward zero
            ax = z3.If(zi(sx) < 0, -zi(sx), zi(sx))
            ay = z3.If(zi(sy) < 0, -zi(sy), zi(sy))
            if op == 'sdiv':
                q = ax / ay
                return self.wrap(st, z3.If((zi(sx) < 0) != (zi(sy) < 0), -q, q), n)
            q = ax % ay
            return self.wrap(st, z3.If(zi(sx) < 0, -q, q), n)
        if op == 'shl' and isinstance(y, int):
            return self.wrap(st, imul(x, 1 << y), n)
        if op == 'lshr' and isinstance(y, int):
            q = lin_div(x, 1 << y)
            if q and q[1] == 0:
                return q[0]
            return x / (1 << y)
        if op == 'ashr' and isinstance(y, int):
            sx = self.signed(st, x, n)
            q = lin_div(sx, 1 << y) if not isinstance(sx, int) else None
            if q and q[1] == 0:
                return self.wrap(st, q[0], n)
            return self.wrap(st, sx / (1 << y), n)
        if op == 'and':
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int):
                    if b == 0:
                        return 0
                    if b & (b + 1) == 0:
                        if self.valid(st, a <= b):
                            return a
                        return a % (b + 1)
        if op == 'or':
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int) and b == 0:
                    return a
            if 'disjoint' in flags:
                return iadd(x, y)
        if op == 'xor':
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int) and b == M - 1:
                    return M - 1 - a
                if isinstance(b, int) and b == 0:
                    return a
                if isinstance(b, int) and b == 1 and self.valid(st, a <= 1):
                    return 1 - a
        bx, by = z3.Int2BV(zi(x), n), z3.Int2BV(zi(y), n)
        r = {'and': lambda: bx & by, 'or': lambda: bx | by, 'xor': lambda: bx ^ by, 'shl': lambda: bx << by,
             'lshr': lambda: z3.LShR(bx, by), 'ashr': lambda: bx >> by}[op]()
        r = z3.BV2Int(r)
        v = self.fresh('bv', z3.IntSort())
        self.assume(st, v == r)
        self.assume(st, z3.And(v >= 0, v < M))
        return v

    def bitop(self, st, op, n, x, y):
        """single-bit masks (1 << s): set, clear and test of one bit, in terms of bit(word, position) and pc(word), the number of bits"""
        M = 1 << n
        if op == 'shl' and isinstance(x, int) and x == 1 and isz(y):
            r = self.fresh('mask', z3.IntSort())
            self.assume(st, z3.And(r > 0, r < M))
            self.oblige(st, 'shift amount below the width', 'safety', z3.And(y >= 0, y < n))
            self.masks[r.get_id()] = (r, y, True)
            return r
        mx, my = (self.masks.get(v.get_id()) if isz(v) else None for v in (x, y))
        if op == 'xor' and ((mx and isinstance(y, int) and y == M - 1) or (my and isinstance(x, int) and x == M - 1)):
            m = mx or my
            r = self.fresh('nmask', z3.IntSort())
            self.assume(st, r == M - 1 - m[0])
            self.masks[r.get_id()] = (r, m[1], not m[2])
            return r
        if op not in ('and', 'or') or not (mx or my):
            return None
        (w, m) = (y, mx) if mx else (x, my)
        s, pos = m[1], m[2]
        w = zi(w)
        i = z3.Int(fresh_name('bi'))
        if op == 'or' and pos:
            r = self.fresh('setbit', z3.IntSort())
            self.assume(st, z3.And(r > 0, r < M, r >= w))
            self.assume(st, z3.ForAll([i], BIT(r, i) == z3.Or(BIT(w, i), i == s), patterns=[BIT(r, i)]))
            self.assume(st, PC(r) == PC(w) + z3.If(BIT(w, s), 0, 1))
            return r
        if op == 'and' and not pos:
            r = self.fresh('clrbit', z3.IntSort())
            self.assume(st, z3.And(r >= 0, r <= w))
            self.assume(st, z3.ForAll([i], BIT(r, i) == z3.And(BIT(w, i), i != s), patterns=[BIT(r, i)]))
            self.assume(st, PC(r) == PC(w) - z3.If(BIT(w, s), 1, 0))
            return r
        if op == 'and' and pos:
            r = self.fresh('tstbit', z3.IntSort())
            self.assume(st, z3.And(r >= 0, r <= w, (r != 0) == BIT(w, s)))
            return r
        return None

    def pack_op(self, st, op, ty, x, y):
        if op == 'lshr' and isinstance(x, Pack) and isinstance(y, int) and y % 8 == 0:
            return Pack(x.size, [(o - y // 8, t, v) for o, t, v in x.parts if o >= y // 8])
        if op == 'shl' and isinstance(x, Pack) and isinstance(y, int) and y % 8 == 0:
            return Pack(x.size, [(o + y // 8, t, v) for o, t, v in x.parts if o + y // 8 < x.size])
        if op == 'or' and isinstance(x, Pack) and isinstance(y, Pack):
            return Pack(x.size, x.parts + y.parts)
        raise Unsupported('operation %s on packed value' % op)

    def cbin(self, op, n, x, y):
        M = 1 << n
        x, y = int(x), int(y)

        def sg(v):
            return v - M if v >= M // 2 else v
        if op == 'add':
            return (x + y) % M
        if op == 'sub':
            return (x - y) % M
        if op == 'mul':
            return (x * y) % M
        if op == 'udiv':
            return x // y
        if op == 'urem':
            return x % y
        if op == 'sdiv':
            a, b = sg(x), sg(y)
            q = abs(a) // abs(b)
            return (q if (a < 0) == (b < 0) else -q) % M
        if op == 'srem':
            a, b = sg(x), sg(y)
            q = abs(a) % abs(b)
            return (-q if a < 0 else q) % M
        if op == 'shl':
            return (x << y) % M
        if op == 'lshr':
            return x >> y
        if op == 'ashr':
            return (sg(x) >> y) % M
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        raise Unsupported(op)

    def icmp(self, st, pred, ty, x, y):
        if ty.k == 'ptr':
            return self.pcmp(st, pred, x, y)
        n = ty.n
        if isinstance(x, Undef):
            x = self.fresh_of(ty, 'undef', st)
        if isinstance(y, Undef):
            y = self.fresh_of(ty, 'undef', st)
        if isinstance(x, PInt) or isinstance(y, PInt):
            if isinstance(x, PInt) and isinstance(y, PInt):
                return self.pcmp(st, pred, Ptr(x.r, x.off), Ptr(y.r, y.off))
            raise Unsupported('compare pointer integer')
        if n == 1:
            x, y = tobool(x), tobool(y)
            if pred == 'eq':
                return Iff(x, y)
            if pred == 'ne':
                return Not(Iff(x, y))
            if pred == 'ult':
                return And(Not(x), y)
            if pred == 'ugt':
                return And(x, Not(y))
            raise Unsupported('icmp i1 ' + pred)
        if pred[0] == 's':
            x, y = self.signed(st, x, n), self.signed(st, y, n)
        return cmpop(pred, x, y)

    def pcmp(self, st, pred, x, y):
        if isinstance(x, FuncPtr) or isinstance(y, FuncPtr):
            same = isinstance(x, FuncPtr) and isinstance(y, FuncPtr) and x.name == y.name
            return same if pred == 'eq' else not same
        if isinstance(x, Undef) or isinstance(y, Undef):
            return self.fresh('undefcmp', z3.BoolSort())
        if x.r is not y.r:
            if pred == 'eq':
                return False
            if pred == 'ne':
                return True
            raise Unsupported('ordering of unrelated pointers')
        return cmpop(pred, x.off, y.off)

    # ------------------------------------------------------------ memory access
    def promote(self, st, r, stride, m=None):
        m = (m or st.mem[r.id]).copy()
        if m.mode == 'array':
            return m
        cells = m.cells
        m.mode, m.stride, m.cells = 'array', stride, {}
        for off in sorted(cells):
            ty, v = cells[off]
            if isinstance(v, (Ptr, FuncPtr)):
                raise Unsupported('array of pointers in %r' % r)
            self.astore(st, r, m, off // stride, off % stride, ty, v)
        st.mem[r.id] = m
        return m

    def field(self, st, r, m, fo, ty, create=True):
        """SMT array of a field, creating it on demand (in place on a private copy)"""
        f = m.fields.get(fo)
        if f is not None:
            if f[0].k != ty.k or (ty.k == 'int' and tysize(f[0]) != tysize(ty)):
                if f[0].k == 'int' and ty.k == 'int':
                    raise Unsupported('access of %r field as %r' % (f[0], ty))
                raise Unsupported('access of %r field as %r' % (f[0], ty))
            return f[1]
        for o, (t, _) in m.fields.items():
            if o < fo + tysize(ty) and fo < o + tysize(t):
                raise Unsupported('overlapping fields')
        s = sort_of(ty)
        if m.default == 'zero':
            a = z3.K(z3.IntSort(), z3.IntVal(0) if s == z3.IntSort() else z3.RealVal(0))
        elif m.default == 'ones' and s == z3.IntSort():
            a = z3.K(z3.IntSort(), z3.IntVal(256 ** tysize(ty) - 1))
        else:
            a = z3.Const('%s_%d_f%d!init' % (re.sub(r'\W', '_', r.name), r.id, fo), z3.ArraySort(z3.IntSort(), s))
        m.fields[fo] = (ty, a)
        return a

    def astore(self, st, r, m, idx, fo, ty, v):
        a = self.field(st, r, m, fo, ty)
        if isinstance(v, Undef):
            v = self.fresh('undef', sort_of(ty))
        if ty.k == 'int' and isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            v = z3.If(v, 1, 0) if isz(v) else int(v)
        if isinstance(v, (Ptr, FuncPtr, PInt, Pack)):
            raise Unsupported('pointer stored in an array')
        v = zi(v) if ty.k == 'int' else toreal(v)
        m.fields[fo] = (m.fields[fo][0], z3.Store(a, zi(idx), v))

    def bounds(self, st, p, size, what):
        r = p.r
        if r is None:
            self.oblige(st, what + ' through null pointer', 'safety', False)
            raise PathEnd()
        m = st.mem.get(r.id)
        if m is None or m.freed:
            self.oblige(st, '%s of released object %s' % (what, r.name), 'safety', False)
            raise PathEnd()
        if isinstance(p.off, int) and isinstance(r.size, int):
            ok = 0 <= p.off and p.off + size <= r.size
        else:
            # divide by common stride for simpler arithmetic
            ok = None
            if m.mode == 'array' and m.stride:
                q, s = lin_div(p.off, m.stride), lin_div(r.size, m.stride)
                if q and s and s[1] == 0 and q[1] + size <= m.stride:
                    ok = And(zi(q[0]) >= 0, zi(q[0]) < zi(s[0]))
            if ok is None:
                ok = And(zi(p.off) >= 0, zi(p.off) + size <= zi(r.size))
        if ok is True:
            return
        self.oblige(st, '%s within %s' % (what, r.name), 'safety', ok)
        if isz(ok):
            # continue under the assumption that the access was legal (reported separately otherwise)
            self.assume(st, ok)
        elif not ok:
            raise PathEnd()

    def note_write(self, st, r, kind, off, info=None):
        """register the write with every active loop of the path that is older than... (region must predate the loop)"""
        for fr in st.frames:
            for lp in fr.loops:
                if r.id in lp.entry.mem:
                    ms = self.modset.setdefault(lp.key, {})
                    e = (kind, r.id, off)
                    if e not in ms:
                        ms[e] = info
                        self.dirty = True

    def load(self, st, p, ty):
        if isinstance(p, FuncPtr):
            raise Unsupported('load through function pointer')
        if isinstance(p, Undef):
            self.oblige(st, 'read through uninitialised pointer', 'safety', False)
            raise PathEnd()
        size = self.mod.sizeof(ty)
        self.bounds(st, p, size, 'read')
        r = p.r
        m = st.mem[r.id]
        if ty.k not in ('int', 'float', 'double', 'ptr'):
            rt = self.mod.res(ty)
            if rt.k in ('struct', 'array'):
                out = []
                if rt.k == 'struct':
                    for i in range(len(rt.elems)):
                        o, e = self.mod.field_offset(rt, i)
                        out.append(self.load(st, Ptr(r, iadd(p.off, o), p.hint), e))
                else:
                    s = self.mod.sizeof(rt.elems)
                    for i in range(rt.n):
                        out.append(self.load(st, Ptr(r, iadd(p.off, i * s), p.hint), rt.elems))
                return tuple(out)
            raise Unsupported('load of %r' % ty)
        if m.mode == 'cells' and not isinstance(p.off, int):
            m = self.promote(st, r, self.pick_stride(m, p, size))
        if m.mode == 'array':
            q = lin_div(p.off, m.stride)
            if q is None:
                raise Unsupported('misaligned access to %r (stride %d, offset %s)' % (r, m.stride, p.off))
            fo = q[1]
            if fo not in m.fields:
                m = m.copy()
                st.mem[r.id] = m
            f = m.fields.get(fo)
            if f is not None and f[0].k == 'int' and ty.k == 'int' and tysize(f[0]) < size:
                parts = []
                o = fo
                while o < fo + size:
                    if o not in m.fields:
                        if any(x <= o < x + tysize(t) for x, (t, _) in m.fields.items()):
                            raise Unsupported('wide access')
                        parts.append((o - fo, llir.IntTy(8), UNDEF))
                        o += 1
                        continue
                    t = m.fields[o][0]
                    parts.append((o - fo, t, self.load(st, Ptr(r, iadd(p.off, o - fo)), t)))
                    o += tysize(t)
                return Pack(size, parts)
            if f is not None and f[0].k == 'int' and ty.k in ('float', 'double') and tysize(f[0]) == size:
                return self.fp.ofbits(zi(sel(f[1], zi(q[0]))), 8 * size)
            a = self.field(st, r, m, fo, ty)
            v = sel(a, zi(q[0]))
            if ty.k == 'int':
                self.range_fact(st, r, m, fo, v, ty)
                if ty.n == 1:
                    return v != 0
            return v
        c = m.cells.get(p.off)
        if c is not None:
            t, v = c
            if isinstance(v, tuple) and v and v[0] == 'lazy':
                v = self.const(st, v[2], v[1])
            if tysize(t) == size:
                if t.k == ty.k and (t.k != 'int' or t.n == ty.n):
                    return v
                if t.k == 'int' and ty.k == 'int':
                    return self.conv_int(st, t, ty, v)
                if isinstance(v, Undef):
                    return UNDEF
                if t.k == 'int' and isinstance(v, int) and ty.k in ('float', 'double'):
                    return bits2f(v, ty)
                if t.k == 'int' and isz(v) and ty.k in ('float', 'double') and tysize(t) == size:
                    return self.fp.ofbits(v, 8 * size)
                if t.k == 'int' and ty.k == 'ptr' and isinstance(v, int) and v == 0:
                    return NULL
                if t.k == 'ptr' and ty.k == 'int':
                    return PInt(v.r, v.off) if isinstance(v, Ptr) and v.r is not None else v.off % 2 ** ty.n if isinstance(v, Ptr) and isinstance(v.off, int) else 0
                if t.k == 'int' and ty.k == 'ptr' and isinstance(v, PInt):
                    return Ptr(v.r, v.off)
                if ty.k == 'int' and t.k in ('float', 'double'):
                    return Pack(size, [(0, t, v)])
                raise Unsupported('reinterpretation of %r as %r in %r' % (t, ty, r))
            if tysize(t) < size and ty.k == 'int':
                parts = []
                o = p.off
                while o < p.off + size:
                    cc = m.cells.get(o)
                    if cc is None:
                        parts.append((o - p.off, llir.IntTy(8), UNDEF))
                        o += 1
                        continue
                    parts.append((o - p.off, cc[0], cc[1]))
                    o += tysize(cc[0])
                if all(isinstance(v, int) and not isinstance(v, bool) for _, _, v in parts):
                    return sum(v << (8 * o) for o, _, v in parts)
                return Pack(size, parts)
            if tysize(t) > size and isinstance(v, int):
                return v & (256 ** size - 1)
            raise Unsupported('partial access of %r' % r)
        for o, (t, v) in m.cells.items():
            if o < p.off + size and p.off < o + tysize(t):
                if isinstance(v, int) and o <= p.off and ty.k == 'int' and p.off + size <= o + tysize(t):
                    return (v >> (8 * (p.off - o))) & (256 ** size - 1)
                if ty.k == 'int':
                    parts = []
                    oo = p.off
                    while oo < p.off + size:
                        cc = m.cells.get(oo)
                        if cc is None:
                            parts.append((oo - p.off, llir.IntTy(8), UNDEF))
                            oo += 1
                            continue
                        parts.append((oo - p.off, cc[0], cc[1]))
                        oo += tysize(cc[0])
                    return Pack(size, parts)
                raise Unsupported('overlapping access of %r' % r)
        if m.default == 'zero':
            return zero_of(ty)
        if m.default == 'ones' and ty.k == 'int':
            return 2 ** ty.n - 1
        if m.default == 'init':
            # contents unknown but fixed: allocate a symbolic cell
            v = self.fresh_of(ty, r.name + '_c%d' % p.off, st)
            m = m.copy()
            m.cells[p.off] = (ty, v)
            st.mem[r.id] = m
            return v
        return UNDEF

    def pick_stride(self, m, p, size):
        if p.hint:
            return p.hint
        c, d = lin_of(p.off)
        s = 0
        import math
        for _, k in d.values():
            s = math.gcd(s, abs(k))
        return s if s >= size else size

    def range_fact(self, st, r, m, fo, v, ty):
        if z3.is_int_value(v):
            return
        hi = 2 ** ty.n - 1
        b = self.c_boolfields.get((r.id, fo))
        if b:
            hi = 1
        self.assume(st, z3.And(v >= 0, v <= hi))

    c_boolfields = {}

    def conv_int(self, st, t, ty, v):
        if t.n == ty.n:
            return v
        if ty.n == 1:
            return v != 0 if isz(v) else bool(v & 1) if not isinstance(v, Undef) else v
        if t.n == 1:
            return If(v, 1, 0)
        return v

    def store(self, st, p, ty, v):
        if isinstance(p, Undef):
            self.oblige(st, 'write through uninitialised pointer', 'safety', False)
            raise PathEnd()
        size = self.mod.sizeof(ty)
        self.bounds(st, p, size, 'write')
        r = p.r
        if r.const:
            self.oblige(st, 'write to constant %s' % r.name, 'safety', False)
            raise PathEnd()
        if ty.k not in ('int', 'float', 'double', 'ptr'):
            rt = self.mod.res(ty)
            if rt.k == 'struct':
                for i in range(len(rt.elems)):
                    o, e = self.mod.field_offset(rt, i)
                    self.store(st, Ptr(r, iadd(p.off, o), p.hint), e, UNDEF if isinstance(v, Undef) else v[i])
                return
            raise Unsupported('store of %r' % ty)
        if isinstance(v, Pack):
            for o, t, x in v.parts:
                self.store(st, Ptr(r, iadd(p.off, o), p.hint), t, x)
            return
        m = st.mem[r.id].copy()
        if m.mode == 'cells' and not isinstance(p.off, int):
            m = self.promote(st, r, self.pick_stride(m, p, size), m)
            m = m.copy()
        if m.mode == 'array':
            q = lin_div(p.off, m.stride)
            if q is None:
                raise Unsupported('misaligned write to %r' % r)
            f = m.fields.get(q[1])
            if f is not None and f[0].k == 'int' and ty.k == 'int' and f[0].n != ty.n and tysize(f[0]) != size:
                raise Unsupported('write of %r into %r field' % (ty, f[0]))
            self.astore(st, r, m, q[0], q[1], ty, v)
            self.note_write(st, r, 'f', q[1], (m.stride, ty))
        else:
            for o in [o for o, (t, _) in m.cells.items() if o < p.off + size and p.off < o + tysize(t)]:
                if o != p.off or tysize(m.cells[o][0]) != size:
                    t, x = m.cells[o]
                    if isinstance(x, int) and isinstance(v, int) and o <= p.off and p.off + size <= o + tysize(t):
                        sh = 8 * (p.off - o)
                        x = (x & ~((256 ** size - 1) << sh)) | (v << sh)
                        m.cells[o] = (t, x)
                        st.mem[r.id] = m
                        self.note_write(st, r, 'c', o, t)
                        return
                del m.cells[o]
            m.cells[p.off] = (ty, v)
            self.note_write(st, r, 'c', p.off, ty)
        st.mem[r.id] = m

    # bulk operations
    def memset(self, st, p, val, n):
        if isinstance(n, int) and n == 0:
            return
        r = p.r
        self.range_bounds(st, p, n, 'memset')
        if not isinstance(val, int):
            raise Unsupported('memset with symbolic value')
        m = st.mem[r.id].copy()
        whole = isinstance(p.off, int) and p.off == 0 and self.valid(st, zi(n) == zi(r.size))
        if whole and m.mode == 'cells' and val in (0, 255):
            # keep cell map only to invalidate it
            for o in list(m.cells):
                self.note_write(st, r, 'c', o, m.cells[o][0])
            m.cells = {}
            m.default = 'zero' if val == 0 else 'ones'
            self.note_write(st, r, 'd', 0)
            st.mem[r.id] = m
            return
        if m.mode == 'cells' and isinstance(n, int) and isinstance(p.off, int) and val == 0:
            for o in [o for o, (t, _) in m.cells.items() if o < p.off + n and p.off < o + tysize(t)]:
                t, _ = m.cells[o]
                if o < p.off or o + tysize(t) > p.off + n:
                    raise Unsupported('partial memset')
                m.cells[o] = (t, zero_of(t))
                self.note_write(st, r, 'c', o, t)
            covered = {b for o, (t, _) in m.cells.items() for b in range(o, o + tysize(t))}
            for b in range(p.off, p.off + n):
                if b not in covered:
                    m.cells[b] = (llir.IntTy(8), 0)
                    self.note_write(st, r, 'c', b, llir.IntTy(8))
            st.mem[r.id] = m
            return
        if m.mode == 'cells':
            m = self.promote(st, r, p.hint or 1, m).copy()
        q, c = lin_div(p.off, m.stride), lin_div(n, m.stride)
        if q is None or c is None or q[1] or c[1]:
            raise Unsupported('unaligned memset')
        if not m.fields:
            raise Unsupported('memset of untyped region')
        for fo, (t, a) in list(m.fields.items()):
            if t.k == 'int':
                v = z3.IntVal(int.from_bytes(bytes([val]) * tysize(t), 'little'))
            elif val == 0:
                v = z3.RealVal(0)
            else:
                raise Unsupported('memset of floats')
            if whole:
                b = z3.K(z3.IntSort(), v)
            else:
                b = self.fresh('set_' + r.name, a.sort())
                j = z3.Int(fresh_name('j'))
                self.assume(st, z3.ForAll([j], z3.Select(b, j) == z3.If(z3.And(j >= zi(q[0]), j < zi(iadd(q[0], c[0]))), v,
                                                                       z3.Select(a, j)), patterns=[z3.Select(b, j)]))
            m.fields[fo] = (t, b)
            self.note_write(st, r, 'f', fo, (m.stride, t))
        if whole:
            m.default = 'zero' if val == 0 else m.default
        st.mem[r.id] = m

    def range_bounds(self, st, p, n, what):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(p, Undef) or p.r is None:
            if not self.valid(st, zi(n) == 0):
                self.oblige(st, what + ' through null pointer', 'safety', zi(n) == 0)
            return
        m = st.mem.get(p.r.id)
        if m is None or m.freed:
            self.oblige(st, '%s of released object' % what, 'safety', False)
            raise PathEnd()
        ok = Or(zi(n) == 0, And(zi(p.off) >= 0, zi(p.off) + zi(n) <= zi(p.r.size)))
        ok = z3.simplify(ok)
        if z3.is_true(ok):
            return
        self.oblige(st, '%s within %s' % (what, p.r.name), 'safety', ok)
        self.assume(st, ok)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if isz(n):
            z = self.valid(st, n == 0)
            if z:
                return
            if (isinstance(d, Ptr) and d.r is None) or (isinstance(s, Ptr) and s.r is None):
                self.oblige(st, 'memcpy through null pointer', 'safety', n == 0)
                self.assume(st, n == 0)
                return
        self.range_bounds(st, s, n, 'memcpy source')
        self.range_bounds(st, d, n, 'memcpy destination')
        ms, md = st.mem[s.r.id], st.mem[d.r.id].copy()
        if isinstance(n, int) and ms.mode == 'cells' and md.mode == 'cells' and isinstance(s.off, int) \
                and isinstance(d.off, int):
            cells = []
            for o, (t, v) in ms.cells.items():
                if s.off <= o and o + tysize(t) <= s.off + n:
                    cells.append((o - s.off + d.off, t, v))
                elif o < s.off + n and s.off < o + tysize(t):
                    raise Unsupported('partial copy')
            if ms.default in ('zero', 'init') and n <= 256:
                covered = {b for o, t, _ in cells for b in range(o, o + tysize(t))}
                if ms.default == 'init':
                    if len(covered) < n:
                        raise Unsupported('copy of untyped input')
                else:
                    b = d.off
                    while b < d.off + n:
                        if b in covered:
                            b += 1
                        elif b % 8 == 0 and all(x not in covered for x in range(b, b + 8)) and b + 8 <= d.off + n:
                            cells.append((b, llir.IntTy(64), 0))
                            b += 8
                        else:
                            cells.append((b, llir.IntTy(8), 0))
                            b += 1
            for o in [o for o, (t, _) in md.cells.items() if o < d.off + n and d.off < o + tysize(t)]:
                del md.cells[o]
            for o, t, v in cells:
                md.cells[o] = (t, v)
                self.note_write(st, d.r, 'c', o, t)
            st.mem[d.r.id] = md
            return
        if ms.mode == 'cells' and md.mode == 'cells':
            stride = s.hint or d.hint
            if not stride:
                if ms.default == 'zero' and not ms.cells and isinstance(d.off, int) and d.off == 0 and \
                        self.valid(st, zi(n) == zi(d.r.size)):
                    md.default = 'zero'
                    md.cells = {}
                    self.note_write(st, d.r, 'd', 0)
                    st.mem[d.r.id] = md
                    return
                sizes = {tysize(t) for _, (t, _) in ms.cells.items()}
                stride = sizes.pop() if len(sizes) == 1 else None
            if not stride:
                raise Unsupported('copy between untyped regions')
            ms = self.promote(st, s.r, stride)
        if ms.mode == 'cells':
            ms = self.promote(st, s.r, md.stride)
        if md.mode == 'cells':
            md = self.promote(st, d.r, ms.stride, md).copy()
        if ms.stride != md.stride:
            raise Unsupported('copy between strides %s and %s' % (ms.stride, md.stride))
        S = ms.stride
        qs, qd, c = lin_div(s.off, S), lin_div(d.off, S), lin_div(n, S)
        if qs is None or qd is None or c is None or qs[1] or qd[1] or c[1]:
            # a single element: copy of part of a struct
            if isinstance(n, int) and qs is not None and qd is not None:
                for fo in list(ms.fields):
                    if qs[1] <= fo < qs[1] + n:
                        t = ms.fields[fo][0]
                        v = self.load(st, Ptr(s.r, iadd(s.off, fo - qs[1])), t)
                        self.store(st, Ptr(d.r, iadd(d.off, fo - qs[1])), t, v)
                return
            raise Unsupported('unaligned copy')
        if not ms.fields:
            raise Unsupported('copy of untyped array')
        whole = isinstance(qd[0], int) and qd[0] == 0 and self.valid(st, zi(n) == zi(d.r.size))
        md = md.copy()
        for fo, (t, a) in ms.fields.items():
            da = self.field(st, d.r, md, fo, t)
            if whole and isinstance(qs[0], int) and qs[0] == 0:
                b = a
            elif isinstance(c[0], int) and c[0] <= 4:
                b = da
                for i in range(c[0]):
                    b = z3.Store(b, zi(iadd(qd[0], i)), z3.Select(a, zi(iadd(qs[0], i))))
            else:
                b = self.fresh('copy_' + d.r.name, a.sort())
                j = z3.Int(fresh_name('j'))
                self.assume(st, z3.ForAll([j], z3.Select(b, j) == z3.If(
                    z3.And(j >= zi(qd[0]), j < zi(iadd(qd[0], c[0]))), z3.Select(a, zi(iadd(j, lin_sub(qs[0], qd[0])))),
                    z3.Select(da, j)), patterns=[z3.Select(b, j)]))
            if self.c_boolfields.get((s.r.id, fo)) and whole:
                self.c_boolfields[(d.r.id, fo)] = True
            md.fields[fo] = (t, b)
            self.note_write(st, d.r, 'f', fo, (md.stride, t))
        st.mem[d.r.id] = md

    # ------------------------------------------------------------ globals and constants
    def global_ptr(self, st, name):
        name = self.mod.resolve_alias(name)
        if name not in self.mod.globals:
            return FuncPtr(name)
        if name not in self.globals:
            ty, v, const = self.mod.global_init(name)
            size = self.mod.sizeof(ty) if v is not None else 1 << 20
            r = Region(self.rid(('global', name)), size, name, 'global', const)
            m = Mem()
            if v is not None and (const or name.startswith(('@_ZTV', '@_ZTT', '@.str'))):
                m.default = 'zero'
                self.init_cells(m, 0, ty, v)
            elif v is None:
                m.default = 'undef'
            else:
                m.default = 'zero'
                self.init_cells(m, 0, ty, v)
            self.globals[name] = (r, m)
        r, m = self.globals[name]
        if r.id not in st.mem:
            st.mem[r.id] = m
        return Ptr(r, 0)

    def init_cells(self, m, off, ty, v):
        ty = self.mod.res(ty)
        k = v[0]
        if k in ('zero', 'undef'):
            return
        if k == 'agg':
            if ty.k == 'struct':
                for i, (t, x) in enumerate(v[1]):
                    o, _ = self.mod.field_offset(ty, i)
                    self.init_cells(m, off + o, t, x)
            else:
                s = self.mod.sizeof(ty.elems)
                for i, (t, x) in enumerate(v[1]):
                    self.init_cells(m, off + i * s, t, x)
        elif k == 'str':
            s = v[1]
            i = 0
            o = off
            while i < len(s):
                if s[i] == '\\':
                    b = int(s[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(s[i])
                    i += 1
                m.cells[o] = (llir.IntTy(8), b)
                o += 1
        else:
            m.cells[off] = (ty, ('lazy', ty, v))

    def const(self, st, v, ty):
        k = v[0]
        if k == 'int':
            n = ty.n if ty.k == 'int' else 64
            if n == 1:
                return bool(v[1])
            return v[1] % (1 << n)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero_agg(ty)
        if k == 'fp':
            return parse_fp(v[1], ty)
        if k == 'global':
            return self.global_ptr(st, v[1])
        if k == 'gep':
            base = self.const(st, v[2], PTR)
            return self.gep(st, v[1], base, [(t, self.const(st, x, t)) for t, x in v[3]])
        if k == 'cast':
            x = self.const(st, v[3], v[2])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'bin':
            (t, a), (_, b) = v[2], v[3]
            return self.binop(st, v[1], t, self.const(st, a, t), self.const(st, b, t))
        if k == 'agg':
            return tuple(self.const(st, x, t) for t, x in v[1])
        raise Unsupported('constant %r' % (v,))

    def zero_agg(self, ty):
        rt = self.mod.res(ty)
        if rt.k == 'struct':
            return tuple(self.zero_agg(e) for e in rt.elems)
        if rt.k in ('array', 'vector'):
            return tuple(self.zero_agg(rt.elems) for _ in range(rt.n))
        return zero_of(rt)

    def val(self, st, v, ty):
        if v[0] == 'local':
            try:
                return st.frames[-1].loc[v[1]]
            except KeyError:
                raise KeyError('%s in %s' % (v[1], st.frames[-1].fn.name))
        return self.const(st, v, ty)

    def gep(self, st, bt, base, idx):
        if isinstance(base, Undef):
            return UNDEF
        if isinstance(base, FuncPtr):
            raise Unsupported('gep on function')
        off = base.off
        hint = base.hint
        ty = bt
        for n, (t, i) in enumerate(idx):
            if isinstance(i, Undef):
                return UNDEF
            if n == 0:
                s = self.mod.sizeof(bt)
            else:
                rt = self.mod.res(ty)
                if rt.k == 'struct':
                    o, ty = self.mod.field_offset(rt, i)
                    off = iadd(off, o)
                    continue
                s = self.mod.sizeof(rt.elems)
                ty = rt.elems
            if isinstance(i, int):
                i = i - (1 << t.n) if i >= 1 << (t.n - 1) else i
                off = iadd(off, i * s)
                if n == 0 and i != 0 and hint is None and s > 1:
                    hint = s
            else:
                if isinstance(i, PInt):
                    raise Unsupported('gep by pointer')
                i = self.signed(st, i, t.n)
                off = iadd(off, imul(i, s))
                # the coarsest stride is remembered
                hint = max(hint or 0, s)
        return Ptr(base.r, off, hint)

    def cast(self, st, op, t, x, t2):
        if isinstance(x, Undef):
            return UNDEF
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            if t.k == t2.k:
                return x
            if isinstance(x, Pack) and len(x.parts) == 1 and x.parts[0][1].k == t2.k:
                return x.parts[0][2]
            if isinstance(x, int) and t2.k in ('float', 'double'):
                return bits2f(x, t2)
            if isz(x) and t2.k in ('float', 'double') and t.k == 'int':
                return self.fp.ofbits(x, 8 * tysize(t2))
            if t.k in ('float', 'double') and t2.k == 'int' and isz(x):
                b = unbits(x)
                if b is not None:
                    return b
            if t.k in ('float', 'double') and t2.k == 'int':
                return Pack(tysize(t2), [(0, t, x)])
            raise Unsupported('bitcast %r %r' % (t, t2))
        if op == 'ptrtoint':
            if isinstance(x, Ptr):
                if x.r is None:
                    return x.off
                return PInt(x.r, x.off)
            raise Unsupported('ptrtoint of function')
        if op == 'inttoptr':
            if isinstance(x, PInt):
                return Ptr(x.r, x.off)
            if isinstance(x, int):
                return Ptr(None, x)
            raise Unsupported('inttoptr')
        if op == 'zext':
            if isinstance(x, Pack):
                return Pack(tysize(t2), x.parts)
            if t.n == 1:
                x = tobool(x)
                return If(x, 1, 0)
            return x
        if op == 'sext':
            if t.n == 1:
                return If(tobool(x), (1 << t2.n) - 1, 0)
            if isinstance(x, Pack):
                raise Unsupported('sext pack')
            s = self.signed(st, x, t.n)
            if isinstance(s, int):
                return s % (1 << t2.n)
            return self.wrap(st, s, t2.n)
        if op == 'trunc':
            if isinstance(x, Pack):
                size = tysize(t2)
                parts = [p for p in x.parts if p[0] < size]
                if len(parts) == 1 and parts[0][0] == 0:
                    _, pt, v = parts[0]
                    if pt.k == 'int':
                        return self.cast(st, 'trunc', pt, v, t2) if pt.n > t2.n else v
                    return Pack(size, parts)
                return Pack(size, parts)
            if isinstance(x, PInt):
                raise Unsupported('trunc of pointer')
            if t2.n == 1:
                if isz(x):
                    if self.valid(st, x <= 1):
                        return x != 0 if not (x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and
                                              z3.is_int_value(x.arg(2)) and x.arg(1).as_long() == 1 and
                                              x.arg(2).as_long() == 0) else x.arg(0)
                    return x % 2 == 1
                return bool(x & 1)
            if isz(x):
                M = 1 << t2.n
                if self.valid(st, x < M):
                    return x
                # truncation of a wrapped difference
                if x.decl().kind() == z3.Z3_OP_ITE:
                    s = self.signed(st, x, t.n)
                    if not isinstance(s, int) and not s.eq(x):
                        return self.wrap(st, s, t2.n)
                return x % M
            return x % (1 << t2.n)
        if op in ('uitofp', 'sitofp'):
            w = 32 if t2.k == 'float' else 64
            if t.n == 1:
                return If(tobool(x), 1.0 if op[0] == 'u' else -1.0, 0.0)
            s = self.signed(st, x, t.n) if op[0] == 's' else x
            if isinstance(s, int):
                return dsl.round_w(float(s), w)
            if self.fp.mode != 'real' and not self.valid(st, z3.And(s > -2 ** 24, s < 2 ** 24)) and \
                    (w == 32 or t.n > 53):
                if w == 64 and self.valid(st, z3.And(s > -2 ** 53, s < 2 ** 53)):
                    return z3.ToReal(s)
                return self.fp.rnd(z3.ToReal(s), w) if self.fp.mode == 'rnd' else \
                    self.fp.f('i2f%d' % w, 1)(z3.ToReal(s))
            return z3.ToReal(s)
        if op in ('fptoui', 'fptosi'):
            if isinstance(x, float):
                import math
                if math.isnan(x) or math.isinf(x):
                    return UNDEF
                return int(x) % (1 << t2.n)
            i = z3.ToInt(x)
            if op == 'fptosi' or not self.valid(st, x >= 0):
                i = z3.If(x < 0, -z3.ToInt(-x), z3.ToInt(x))
            lo, hi = (0, 1 << t2.n) if op == 'fptoui' else (-(1 << (t2.n - 1)), 1 << (t2.n - 1))
            # out-of-range conversions are undefined
            g = z3.And(x > lo - 1, x < hi)
            self.oblige(st, 'float to integer conversion in range', 'safety', g)
            self.assume(st, g)
            return self.wrap(st, i, t2.n)
        if op == 'fpext':
            return x
        if op == 'fptrunc':
            return self.fp.to32(x)
        raise Unsupported('cast ' + op)


def sel(a, i):
    """select with local simplification over stores at syntactically decided indices"""
    t = a
    while True:
        if t.decl().kind() == z3.Z3_OP_STORE:
            j = t.arg(1)
            if j.eq(i):
                return t.arg(2)
            d = lin_sub(j, i)
            if isinstance(d, int):
                if d == 0:
                    return t.arg(2)
                t = t.arg(0)
                continue
            break
        if t.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return t.arg(0)
        break
    return z3.Select(t, i)


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def tobool(x):
    if isinstance(x, Undef):
        raise Unsupported('undef condition')
    if isz(x):
        return x if z3.is_bool(x) else x != 0
    return bool(x)


def cmpop(pred, x, y):
    p = pred[-2:]
    if not isz(x, y):
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
    d = lin_sub(x, y)
    if isinstance(d, int):
        return {'eq': d == 0, 'ne': d != 0, 'lt': d < 0, 'le': d <= 0, 'gt': d > 0, 'ge': d >= 0}[p]
    x, y = zi(x), zi(y)
    return {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y,
            'ge': lambda: x >= y}[p]()


def zero_of(ty):
    if ty.k == 'int':
        return False if ty.n == 1 else 0
    if ty.k in ('float', 'double'):
        return 0.0
    if ty.k == 'ptr':
        return NULL
    raise Unsupported('zero of %r' % ty)


def bits2f(v, ty):
    if ty.k == 'double':
        return struct.unpack('d', struct.pack('Q', v))[0]
    return struct.unpack('f', struct.pack('I', v))[0]


def parse_fp(s, ty):
    if s.startswith('0x'):
        return struct.unpack('d', struct.pack('Q', int(s, 16)))[0]
    return float(s)


_qc = {}


def has_quant(f):
    i = f.get_id()
    r = _qc.get(i)
    if r is not None and r[1].eq(f):
        return r[0]
    seen = set()
    st = [f]
    res = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            res = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st += x.children()
    _qc[i] = (res, f)
    return res
