"""Contracts on harness entry points (flat C functions that call the real code) and their verification."""
import hashlib
import math
import os
import random
import re
import subprocess
import sys
import time
import traceback
import z3
from dsl import *
import dsl
import llir
from llir import PTR, IntTy, FLOAT, DOUBLE
from symex import *
from execu import Exec

KINDS = {'u8': (IntTy(8), 1), 'bool': (IntTy(8), 1), 'u32': (IntTy(32), 4), 'i32': (IntTy(32), 4), 'u64': (IntTy(64), 8),
         'i64': (IntTy(64), 8), 'f32': (FLOAT, 4), 'f64': (DOUBLE, 8)}


class Sc:
    def __init__(self, name, kind, lo=None, hi=None, gen=None):
        self.name, self.kind, self.lo, self.hi, self.gen = name, kind, lo, hi, gen


class Arr:
    """array parameter; kind: scalar kind or list of (field name, kind) for arrays of structs (natural alignment)"""

    def __init__(self, name, kind, n, out=False, gen=None, lo=None, hi=None):
        self.name, self.kind, self.n, self.out, self.gen, self.lo, self.hi = name, kind, n, out, gen, lo, hi

    def fields(self):
        if isinstance(self.kind, str):
            return [(None, self.kind, 0)], KINDS[self.kind][1]
        off = 0
        al = 1
        out = []
        for n, k in self.kind:
            s = KINDS[k][1]
            off = (off + s - 1) // s * s
            out.append((n, k, off))
            off += s
            al = max(al, s)
        return out, (off + al - 1) // al * al


class Env:
    """values of the parameters (symbolic or concrete), result and final array contents"""

    def __init__(self, fp, sym):
        self.fp, self.sym = fp, sym
        self.recs = {}
        self.counts = set()
        self.post = SView({})
        self.ret = None
        self.const_cache = {}

    # spec-level functions -------------------------------------------------
    def fold(self, name, init, step, n, *args, sort='real'):
        """left fold: F(args, 0) = init(*args); F(args, i+1) = step(F(args, i), i, *args)"""
        if not self.sym:
            key = (name,) + args
            memo = self.const_cache.setdefault(key, [init(*args)])
            n = max(0, int(n))
            while len(memo) <= n:
                memo.append(step(memo[-1], len(memo) - 1, *args))
            return memo[n]
        s = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort()}[sort]
        r = self.recs.get(name)
        if r is None:
            ss = []
            for a in args:
                ss.append(a.sort() if isz(a) else z3.BoolSort() if isinstance(a, bool) else z3.IntSort() if
                          isinstance(a, int) else z3.RealSort())
            d = z3.Function('rec_' + name, *ss, z3.IntSort(), s)
            r = self.recs[name] = (d, init, step, s)
        av = [a if isz(a) else z3.BoolVal(a) if isinstance(a, bool) else z3.IntVal(a) if isinstance(a, int) else toreal(a)
              for a in args]
        return r[0](*av, zi(n))

    def sum(self, name, n, term, *args, sort='real'):
        if sort == 'int':
            return self.fold(name, lambda *a: 0, lambda acc, i, *a: acc + term(i, *a), n, *args, sort='int')
        return self.fold(name, lambda *a: 0.0, lambda acc, i, *a: self.fp.add(acc, term(i, *a)), n, *args)

    def count(self, name, n, pred, *args):
        self.counts.add(name)
        return self.fold(name, lambda *a: 0, lambda acc, i, *a: acc + If(pred(i, *a), 1, 0), n, *args, sort='int')

    def agg(self, what, arr, n):
        """aggregate of the first n elements of an integer array: 'sum', 'nnz' (number of non-zeros) or 'pc' (number of bits)"""
        if not self.sym:
            l = [arr[i] for i in range(n)]
            return sum(l) if what == 'sum' else sum(1 for x in l if x) if what == 'nnz' else sum(bin(int(x)).count('1') for x in l)
        return z3.Function('agg_' + what, arr.arr.sort(), z3.IntSort(), z3.IntSort())(arr.arr, zi(n))

    def bit(self, w, i):
        return BIT(zi(w), zi(i)) if self.sym else bool((int(w) >> int(i)) & 1)

    def fun(self, name, *args, sort='real'):
        """uninterpreted function (only meaningful in proofs)"""
        s = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort()}[sort]
        d = z3.Function('fn_' + name, *[a.sort() for a in args], s)
        return d(*args)

    def forall(self, lo, hi, f, **kw):
        return forall(lo, hi, f, sym=self.sym, **kw)

    def exists(self, lo, hi, f, **kw):
        return exists(lo, hi, f, sym=self.sym, **kw)


class Contract:
    def __init__(self, name, fn, params, ret=None, requires=None, ensures=None, invs=(), fmode='real', stubs=None, throws=None,
                 lemmas=None, gen=None, doc='', covers=(), native=True, prove=True, tol=1e-9, cases=None, unroll=4, thr_ok=None,
                 extra_axioms=None, timeout=10, real_native=None, bounded_note=None, post_check=None, nan_ok=False, cand_timeout=1.0):
        self.name, self.fn, self.params, self.ret = name, fn, params, ret
        self.requires = requires or (lambda e: [])
        self.ensures = ensures
        self.invs = list(invs)
        self.fmode = fmode
        self.stubs = stubs or {}
        self.throws = throws      # lambda e -> condition under which an exception is raised (None: never)
        self.lemmas = lemmas
        self.gen = gen
        self.doc = doc
        self.covers = covers
        self.native, self.prove, self.tol, self.cases, self.unroll = native, prove, tol, cases, unroll
        self.extra_axioms = extra_axioms
        self.timeout = timeout
        self.bounded_note = bounded_note
        self.nan_ok = nan_ok
        self.cand_timeout = cand_timeout
        self._stubc = {}

    def find_stub(self, name, dem):
        if name in self._stubc:
            return self._stubc[name]
        h = self.stubs.get(name[1:])
        if h is None:
            for k, v in self.stubs.items():
                if k.startswith('re:') and re.search(k[3:], dem):
                    h = v
                    break
        self._stubc[name] = h
        return h

    # -------------------------------------------------------- symbolic side
    def start(self, ex):
        st = State()
        env = Env(ex.fp, True)
        ex.env = env
        args = []
        fn = ex.mod.function('@' + self.fn)
        if fn is None:
            raise Unsupported('harness function %s missing' % self.fn)
        ex.params = {}
        for p in self.params:
            if isinstance(p, Sc):
                if p.kind in ('f32', 'f64'):
                    v = z3.Real(p.name)
                    arg = v
                elif p.kind == 'bool':
                    v = z3.Bool(p.name)
                    arg = v
                else:
                    v = z3.Int(p.name)
                    n = KINDS[p.kind][0].n
                    if p.kind[0] == 'i':
                        lo, hi = -2 ** (n - 1), 2 ** (n - 1) - 1
                    else:
                        lo, hi = 0, 2 ** n - 1
                    st.pc.append(z3.And(v >= max(lo, p.lo if p.lo is not None else lo),
                                        v <= min(hi, p.hi if p.hi is not None else hi)))
                    arg = v if lo == 0 or (p.lo is not None and p.lo >= 0) else z3.If(v < 0, v + 2 ** n, v)
                if p.kind in ('f32', 'f64'):
                    if p.lo is not None:
                        st.pc.append(v >= toreal(p.lo))
                    if p.hi is not None:
                        st.pc.append(v <= toreal(p.hi))
                setattr(env, p.name, v)
                args.append(arg)
        k = 0
        out = []
        for p in self.params:
            if isinstance(p, Sc):
                out.append(args[k])
                k += 1
                continue
            n = p.n(env) if callable(p.n) else getattr(env, p.n) if isinstance(p.n, str) else p.n
            fs, stride = p.fields()
            r = ex.new_region(st, imul(n, stride) if isz(n) else n * stride, p.name, 'param', const=not p.out,
                              site=('param', p.name))
            r.count = n
            m = Mem()
            m.mode, m.stride = 'array', stride
            views = {}
            for fname, kind, off in fs:
                ty = KINDS[kind][0]
                a = z3.Array(p.name + ('' if fname is None else '.' + fname), z3.IntSort(), sort_of(ty))
                m.fields[off] = (ty, a)
                if kind == 'bool':
                    ex.c_boolfields[(r.id, off)] = True
                views[fname] = View(a, ty)
            st.mem[r.id] = m
            setattr(env, p.name, views[None] if None in views else SView(views))
            ex.params[p.name] = r
            out.append(Ptr(r, 0, stride))
        for f in flat(self.requires(env)):
            ex.assume(st, f)
        ex.push(st, fn, out, (None, None), ())
        ex.start_state = st.copy()
        return st

    def fix_ret(self, ex, st, v):
        if self.ret in ('bool',):
            return v if (isinstance(v, bool) or (isz(v) and z3.is_bool(v))) else (v != 0)
        if self.ret in ('i32', 'i64') and v is not None:
            return ex.signed(st, v, 32 if self.ret == 'i32' else 64)
        return v

    def bind_post(self, ex, st, v):
        env = ex.env
        for p in self.params:
            if isinstance(p, Arr):
                m = st.mem[ex.params[p.name].id]
                fs, stride = p.fields()
                views = {fn: View(m.fields[off][1], KINDS[k][0]) for fn, k, off in fs}
                setattr(env.post, p.name, views[None] if None in views else SView(views))
        env.ret = self.fix_ret(ex, st, v)
        if isinstance(env.ret, Undef):
            env.ret = ex.fresh('undefret', z3.RealSort() if self.ret in ('f32', 'f64') else z3.IntSort())

    def on_return(self, ex, st, v):
        self.bind_post(ex, st, v)
        env = ex.env
        if self.throws is not None:
            ex.oblige(st, 'normal return only if arguments are admissible', 'postcondition', Not(self.throws(env)))
        env.final = st
        for i, x in enumerate(self.ensures(env) if self.ensures else []):
            nm, f = x if isinstance(x, tuple) else ('ensures%d' % i, x)
            ex.oblige(st, nm, 'postcondition', f)
        for p in self.params:
            if isinstance(p, Arr) and not p.out:
                m = st.mem[ex.params[p.name].id]
                # input arrays are never written (const region): frame holds by construction
        ex.reach.append(st)

    def on_throw(self, ex, st):
        if self.throws is None:
            ex.oblige(st, 'no exception is raised', 'postcondition', False)
        else:
            ex.oblige(st, 'exception only if arguments are inadmissible', 'postcondition', self.throws(ex.env))
            ex.reach.append(st)


def flat(x):
    out = []
    for y in x or []:
        if isinstance(y, (list, tuple)):
            out += flat(y)
        elif not isinstance(y, str):
            out.append(y)
    return out


# ------------------------------------------------------------------ discharge
_APPS = {}


def apps(forms):
    """applications of uninterpreted functions occurring in the formulas: [(term, contains bound variables)] (cached)"""
    out = {}
    for f in forms:
        k = f.get_id()
        c = _APPS.get(k)
        if c is None:
            if len(_APPS) > 200000:
                _APPS.clear()
            c = _APPS[k] = (f, _apps1(f))
        for t in c[1]:
            out[t[2]] = t
    return out.values()


def _apps1(f):
    out = []
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            ch = x.children()
            if ch:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append((x, has_var(x), i, x.decl().name()))
                st += ch
    return out


def exp_axioms(forms):
    """positivity (and the bound 1 for non-positive arguments) of every occurring ground exponential"""
    out = {}
    for x, var, i, nm in apps(forms):
        if nm in ('exp64', 'exp32'):
            d = x.decl()
            if var:
                v = z3.FreshConst(z3.RealSort(), 'xa')
                out[nm] = z3.ForAll([v], z3.And(d(v) > 0, z3.Implies(v <= 0, d(v) <= 1)), patterns=[d(v)])
            else:
                out[i] = z3.And(x > 0, z3.Implies(x.arg(0) <= 0, x <= 1), z3.Implies(x.arg(0) >= 0, x >= 1))
    return list(out.values())


def agg_axioms(forms):
    """aggregates of updated arrays (theorems about finite sums: replacing one element changes the sum by the difference)"""
    ax, done = [], set()
    todo = [x for x, var, i, nm in apps(forms) if nm.startswith('agg_') and not var]
    one = {'agg_sum': lambda v: v, 'agg_nnz': lambda v: z3.If(v != 0, 1, 0), 'agg_pc': lambda v: PC(v)}
    while todo:
        t = todo.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        d, a, n = t.decl(), t.arg(0), t.arg(1)
        f = one[d.name()]
        if d.name() == 'agg_nnz':
            ax.append(z3.Implies(n >= 0, z3.And(t >= 0, t <= n)))
        if z3.is_int_value(n):
            if n.as_long() <= 0:
                ax.append(t == 0)
                continue
        elif z3.is_add(n):
            c = [x for x in n.children() if z3.is_int_value(x)]
            if len(c) == 1 and c[0].as_long() == 1:
                r = [x for x in n.children() if not z3.is_int_value(x)]
                x = r[0] if len(r) == 1 else z3.Sum(r)
                u = d(a, x)
                ax.append(z3.Implies(x >= 0, t == u + f(z3.Select(a, x))))
                todo.append(u)
        if z3.is_store(a):
            b, i, v = a.children()
            u = d(b, n)
            ax.append(t == u + z3.If(z3.And(0 <= i, i < n), f(v) - f(z3.Select(b, i)), 0))
            todo.append(u)
        elif z3.is_const_array(a):
            ax.append(z3.Implies(n >= 0, t == f(a.arg(0)) * n))
        elif a.decl().kind() == z3.Z3_OP_ITE:
            u, w = d(a.arg(1), n), d(a.arg(2), n)
            ax.append(t == z3.If(a.arg(0), u, w))
            todo += [u, w]
    return ax


def bit_axioms(forms):
    if not any(nm in ('bit', 'pc', 'agg_pc') for x, var, i, nm in apps(forms)):
        return []
    i = z3.Int('bi')
    return [z3.ForAll([i], z3.Not(BIT(0, i)), patterns=[BIT(0, i)]), PC(0) == 0]


_UNFOLD = {}


def rec_axioms(env, forms, depth=2):
    if not env.recs:
        return []
    decls = {d.name(): (d, i, s, srt) for d, i, s, srt in env.recs.values()}
    ax = []
    done = set()
    todo = list(forms)
    for _ in range(depth):
        new = []
        for t, var, i, nm in apps(todo):
            if nm not in decls:
                continue
            d, init, step, srt = decls[nm]
            if not var:
                if i in done:
                    continue
                done.add(i)
                u = _UNFOLD.get((id(env), i))
                if u is None:
                    ch = t.children()
                    args, n = ch[:-1], ch[-1]
                    one = lift(step(d(*args, lin_norm(n - 1)), lin_norm(n - 1), *args), srt)
                    b = lift(init(*args), srt)
                    u = _UNFOLD[(id(env), i)] = (t, [z3.Implies(n > 0, t == one), z3.Implies(n <= 0, t == b)], env)
                new += u[1]
            else:
                n = t.arg(t.num_args() - 1)
                if has_var(n):
                    continue
                k = (nm, n.get_id())
                if k in done:
                    continue
                done.add(k)
                u = _UNFOLD.get((id(env), k))
                if u is None:
                    vs = [z3.FreshConst(d.domain(i), 'qa') for i in range(d.arity() - 1)]
                    app = d(*vs, n)
                    one = lift(step(d(*vs, lin_norm(n - 1)), lin_norm(n - 1), *vs), srt)
                    u = _UNFOLD[(id(env), k)] = (n, [z3.ForAll(vs, app == z3.If(n > 0, one, lift(init(*vs), srt)), patterns=[app])], env)
                new += u[1]
        ax += new
        todo = new
        if not new:
            break
    return ax + count_axioms(env, list(forms))


def count_axioms(env, forms):
    """a count over a prefix neither decreases nor grows by more than the prefix (theorem about the recursive definition:
    each step adds 0 or 1); instances for the occurring ground terms"""
    names = {env.recs[n][0].name() for n in env.counts if n in env.recs}
    if not names:
        return []
    steps = {env.recs[n][0].name(): env.recs[n][2] for n in env.counts if n in env.recs}
    found = {}
    for x, var, i, nm in apps(forms):
        if nm in names and not var:
            found.setdefault(nm, []).append(x)
    ax = []
    for l in found.values():
        l = l[:8]
        for t in l:
            n = t.arg(t.num_args() - 1)
            ax.append(z3.And(t >= 0, z3.Implies(n >= 0, t <= n)))
        for i, a in enumerate(l):
            for b in l[i + 1:]:
                if all(p.eq(q) for p, q in zip(a.children()[:-1], b.children()[:-1])):
                    x, y = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
                    args, step = a.children()[:-1], steps[a.decl().name()]
                    ax.append(z3.Implies(z3.And(0 <= x, x < y), step(a, x, *args) <= b))
                    ax.append(z3.Implies(z3.And(0 <= y, y < x), step(b, y, *args) <= a))
                    ax.append(z3.Implies(x <= y, z3.And(a <= b, z3.Implies(x >= 0, b - a <= y - x))))
                    ax.append(z3.Implies(y <= x, z3.And(b <= a, z3.Implies(y >= 0, a - b <= x - y))))
    return ax


def lin_norm(t):
    c, d = lin_of(t)
    return zi(lin_make(c, d))


def lift(v, srt):
    if isz(v):
        if srt == z3.RealSort() and v.sort() == z3.IntSort():
            return z3.ToReal(v)
        return v
    if srt == z3.RealSort():
        return toreal(v)
    if srt == z3.IntSort():
        return z3.IntVal(int(v))
    return z3.BoolVal(bool(v))


def has_var(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st += x.children()
    return False


def smt_of(facts, goal, axioms):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    for f in axioms:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


def solve_smt(args):
    """worker: returns (status, backend, seconds, model text)"""
    smt, timeout = args[:2]
    quick = len(args) > 2 and args[2]
    t = time.time()
    res = 'unknown'
    try:
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.from_string(smt)
        r = s.check()
        if r == z3.unsat:
            return ('proved', 'z3', time.time() - t, None)
        if r == z3.sat:
            return ('sat', 'z3', time.time() - t, model_dict(s.model()))
    except z3.Z3Exception as ex:
        res = 'unknown'
    mtxt = None
    if quick:
        return (res, 'z3', time.time() - t, None)
    if '(forall' in smt or '(exists' in smt or '*' in smt or '/' in smt:
        try:
            s = z3.Solver()
            s.set('timeout', int(timeout * 1000))
            s.set('mbqi', False)
            s.set('arith.solver', 2)
            s.from_string(smt)
            if s.check() == z3.unsat:
                return ('proved', 'z3', time.time() - t, None)
        except z3.Z3Exception:
            pass
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--no-check-models', '-'],
                               input='(set-logic ALL)\n' + smt.replace('(set-info :status unknown)', ''), capture_output=True, text=True,
                               timeout=timeout + 5)
            o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else ''
            if o == 'unsat':
                return ('proved', 'cvc5', time.time() - t, None)
        except (subprocess.TimeoutExpired, OSError):
            pass
    return (res, 'z3+cvc5', time.time() - t, mtxt)


def model_dict(m):
    """plain-data rendering of the constants and arrays of a model"""
    out = {}
    for d in m.decls():
        nm = d.name()
        if '!' in nm:
            continue
        v = m[d]
        try:
            if d.arity() == 0:
                s = d.range()
                if s.kind() == z3.Z3_ARRAY_SORT:
                    out[nm] = ('array', [num(m.eval(z3.Select(d(), z3.IntVal(i)), model_completion=True)) for i in range(48)])
                else:
                    out[nm] = ('scalar', num(v))
        except Exception:
            pass
    return out


def num(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        if f == NAN_F:
            return math.nan
        if f >= PINF_F:
            return math.inf
        if f <= -PINF_F:
            return -math.inf
        return float(f)
    if z3.is_algebraic_value(v):
        return num(v.approx(20))
    return None


class Result:
    def __init__(self):
        self.status = None       # 'proved' | 'failed' | 'undecided' | 'unsupported'
        self.obligations = []
        self.failed = []
        self.reason = ''
        self.seconds = 0
        self.backends = {}
        self.rounds = 0
        self.trusted = []
        self.executed = []
        self.models = []
        self.vacuous = None
        self.invs = 0
        self.loops = 0
        self.paths = 0


def verify(contract, mod, demangle, pool, unroll=0, maxrounds=40, verbose=False, timeout=None):
    res = verify1(contract, mod, demangle, pool, unroll, maxrounds, verbose, timeout, contract.cand_timeout)
    if res.status == 'failed' and not unroll and contract.cand_timeout < 3:
        if verbose:
            print('   -- second attempt with longer candidate time-outs')
        r2 = verify1(contract, mod, demangle, pool, unroll, maxrounds, verbose, timeout, 5)
        r2.seconds += res.seconds
        return r2
    return res


def verify1(contract, mod, demangle, pool, unroll, maxrounds, verbose, timeout, cand_timeout):
    res = Result()
    t0 = time.time()
    fp = FP(contract.fmode)
    ex = Exec(mod, contract, fp, demangle)
    timeout = timeout or contract.timeout
    cache = {}
    try:
        while True:
            res.rounds += 1
            if res.rounds > maxrounds:
                raise Unsupported('no fixpoint of invariants')
            ex.reset()
            ex.solver = None
            ex.unroll = unroll
            ex.reach = []
            st = contract.start(ex)
            ex.run(st)
            if ex.settle() or ex.dirty:
                continue
            # discharge candidates first
            cand = [o for o in ex.obl if o.cand is not None and o.status is None]
            unentered = set(ex.affine) - ex.backs
            first = [o for o in cand if o.cand[0] == 'auto' and o.cand[1] in unentered] if unentered else []
            if first:
                # loops whose body was not reached under the current candidates: settle their automatic candidates first
                discharge(ex, first, pool, cand_timeout, cache, quick=cand_timeout < 3)
                if any(o.status != 'proved' for o in first):
                    cand = first
            groups = {}
            for o in cand:
                if o.status is not None:
                    continue
                groups.setdefault(o.cand, []).append(o)
            while groups:
                wave = [g.pop(0) for g in groups.values()]
                discharge(ex, wave, pool, cand_timeout, cache, quick=cand_timeout < 3)
                for o in wave:
                    if o.status != 'proved' or not groups[o.cand]:
                        groups.pop(o.cand, None)
            bad = {o.cand for o in cand if o.status not in ('proved', None)} | {o.cand for o in ex.obl if o.cand and o.status not in
                                                                   ('proved', None)}
            if bad:
                if verbose:
                    for o in cand:
                        if o.status not in ('proved', None):
                            print('   drop', o.name, o.status, str(o.cand)[-60:])
                for b in bad:
                    if b[0] == 'affine':
                        ex.affine[b[1]][b[2]] = False
                    else:
                        ex.dropped.add(b)
                continue
            if ex.deferred is not None:
                raise ex.deferred
            rest = [o for o in ex.obl if o.cand is None and o.status is None]
            discharge(ex, rest, pool, timeout, cache)
            break
        res.obligations = ex.obl
        res.failed = [o for o in ex.obl if o.status != 'proved']
        # vacuity: some return / throw state must be reachable
        ok = False
        for s in ex.reach[:6]:
            r = ex.query(s, True)
            if r != z3.unsat:
                ok = True
                break
        if not ex.reach or not ok:
            res.failed.append(Obligation('vacuity: an exit of the function is reachable', 'vacuity', None, z3.BoolVal(False)))
            res.failed[-1].status = 'unknown'
        if ex.reach and ok:
            # false must not be derivable from the assumptions incl. quantified facts
            s = ex.reach[0]
            o = Obligation('vacuity', 'vacuity', (list(s.pc), list(s.facts)), z3.BoolVal(False))
            discharge(ex, [o], pool, 2, {})
            if o.status == 'proved':
                # try other exits
                allv = True
                for s in ex.reach[1:8]:
                    o = Obligation('vacuity', 'vacuity', (list(s.pc), list(s.facts)), z3.BoolVal(False))
                    discharge(ex, [o], pool, 2, {})
                    if o.status != 'proved':
                        allv = False
                        break
                if allv:
                    res.failed.append(Obligation('vacuity: assumptions are contradictory', 'vacuity', None, z3.BoolVal(False)))
                    res.failed[-1].status = 'unknown'
        res.status = 'proved' if not res.failed else 'failed'
        if not res.obligations:
            res.status = 'unsupported'
            res.reason = 'no obligations generated'
    except (Unsupported, llir.ParseError) as e:
        res.status = 'unsupported'
        res.reason = '%s: %s' % (type(e).__name__, e)
        res.obligations = ex.obl
    except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError, AssertionError,
            NotImplementedError) as e:
        res.status = 'unsupported'
        res.reason = 'internal: ' + ''.join(traceback.format_exception(e)[-4:])
    res.seconds = time.time() - t0
    for o in res.obligations:
        if o.backend:
            b = res.backends.setdefault(o.backend, [0, 0.0])
            b[0] += 1
            b[1] += o.seconds
    res.trusted = sorted(ex.trusted)
    res.executed = sorted(demangle.get(x, x) for x in ex.executed)
    res.loops = len(ex.affine)
    res.invs = len({o.cand for o in ex.obl if o.cand})
    res.paths = ex.npaths
    res.ex = ex
    return res


def discharge(ex, obls, pool, timeout, cache, quick=False):
    jobs = []
    for o in obls:
        pc, facts = o.facts
        allf = list(pc) + list(facts)
        if ex.fp.mode == 'rnd':
            allf += ex.fp.rnd_axioms()
        extra = []
        if ex.c.extra_axioms:
            extra = flat(ex.c.extra_axioms(ex.env))
        # conjunctive goals are split
        goals = split_goal(o.goal)
        parts = []
        for g in goals:
            ax = rec_axioms(ex.env, allf + [g] + extra) + extra
            ax += agg_axioms(allf + [g])
            ax += bit_axioms(allf + [g] + ax)
            if ex.fp.mode == 'real':
                ax += exp_axioms(allf + [g] + ax)
            smt = smt_of(allf, g, ax)
            h = hashlib.md5(smt.encode()).hexdigest()
            parts.append((h, smt))
        jobs.append((o, parts))
    todo = {}
    for o, parts in jobs:
        for h, smt in parts:
            if h not in cache:
                todo[h] = smt
    keys = list(todo)
    if pool is not None and len(keys) > 1:
        outs = pool.map(solve_smt, [(todo[h], timeout, quick) for h in keys], chunksize=1)
    else:
        outs = [solve_smt((todo[h], timeout, quick)) for h in keys]
    for h, r in zip(keys, outs):
        cache[h] = r
    for o, parts in jobs:
        rs = [cache[h] for h, _ in parts]
        o.seconds = sum(r[2] for r in rs)
        bad = [r for r in rs if r[0] != 'proved']
        if bad:
            b = next((r for r in bad if r[0] == 'sat'), bad[0])
            o.status, o.backend, o.model = b[0], b[1], b[3]
        else:
            o.status = 'proved'
            o.backend = '+'.join(sorted({r[1] for r in rs})) if rs else 'simplifier'
            o.facts = None


def split_goal(g, n=0):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += split_goal(c)
        return out
    return [g]
