"""Control flow, loops, calls and contract obligations on top of symex.Executor."""
import re
import z3
from dsl import *
import dsl
from symex import *
import llir
from llir import PTR, IntTy

STRING_OP = re.compile(r'^(std::__cxx11::basic_string<|std::__cxx11::to_string|std::to_string|std::allocator<char>|std::char_traits<char>|'
                       r'std::(invalid_argument|runtime_error|out_of_range|logic_error|domain_error|length_error)::)')
NORETURN = re.compile(r'^@(__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_|_ZSt9terminatev|abort|__assert_fail|_ZSt\d+__glibcxx_assert)')


class Exec(Executor):
    # ------------------------------------------------------------ main loop
    def run(self, st):
        work = [st]
        while work:
            st = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            try:
                while True:
                    forks = self.step(st)
                    if forks is not None:
                        if not forks:
                            break
                        st = forks[0]
                        for o in reversed(forks[1:]):
                            work.append(o)
                            self.npaths += 0
            except PathEnd:
                pass
            except Unsupported as u:
                # may stem from what a loop modifies not being known yet; reported unless another round is due
                if self.deferred is None:
                    self.deferred = u

    def cfg_of(self, fn):
        c = self.cfg.get(fn.name)
        if c is None:
            c = self.cfg[fn.name] = CFGInfo(self.mod, fn)
        return c

    def push(self, st, fn, args, ret, ctx):
        f = Frame()
        f.fn, f.loc, f.block, f.prev, f.ip, f.ret, f.ctx, f.loops = fn, {}, fn.entry, None, 0, ret, ctx, []
        for (ty, n), v in zip(fn.params, args):
            f.loc[n] = v
        st.frames.append(f)
        self.executed.add(fn.name)
        if len(st.frames) > 60:
            raise Unsupported('call depth')

    def step(self, st):
        """execute one instruction; None = continue, list = forked states ([] = path ended)"""
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.block]
        ins = b.ins[fr.ip]
        op = ins.op
        a = ins.a
        if op == 'br':
            if 'dest' in a:
                self.goto(st, fr, a['dest'])
                return None
            c = tobool(self.undefb(st, self.val(st, a['c'], IntTy(1))))
            if a['t'] == a['f']:
                self.goto(st, fr, a['t'])
                return None
            return self.branch(st, c, a['t'], a['f'])
        if op == 'switch':
            x = self.val(st, a['x'], a['ty'])
            cases = [(self.const(st, v, a['ty']), l) for v, l in a['cases']]
            if isinstance(x, bool) or (isz(x) and z3.is_bool(x)):
                x = If(x, 1, 0)
                cases = [(int(v), l) for v, l in cases]
            if not isz(x):
                for v, l in cases:
                    if v == x:
                        self.goto(st, fr, l)
                        return None
                self.goto(st, fr, a['default'])
                return None
            out = []
            neg = []
            for v, l in cases:
                if self.query(st, x == v) != z3.unsat:
                    s2 = st.copy()
                    s2.pc.append(x == v)
                    try:
                        self.goto(s2, s2.frames[-1], l)
                        out.append(s2)
                    except PathEnd:
                        pass
                neg.append(x != v)
            if self.query(st, z3.And(*neg)) != z3.unsat:
                st.pc += neg
                try:
                    self.goto(st, fr, a['default'])
                    out.append(st)
                except PathEnd:
                    pass
            return out
        if op == 'ret':
            v = self.val(st, a['v'], a['ty']) if a['v'] is not None else None
            st.frames.pop()
            if not st.frames:
                self.outcomes.append(('return', st, v))
                self.on_return(st, v)
                return []
            self.release_stack(st, fr)
            up = st.frames[-1]
            r, nxt = fr.ret
            if r is not None:
                up.loc[r] = v
            if nxt is None:
                up.ip += 1
            else:
                self.goto(st, up, nxt)
            return None
        if op == 'unreachable':
            raise PathEnd()
        if op in ('call', 'invoke'):
            return self.call(st, fr, ins)
        try:
            v = self.exec_simple(st, fr, ins)
        except CaseSplit as cs:
            out = []
            for c in (cs.cond, z3.Not(cs.cond)):
                if self.query(st, c) != z3.unsat:
                    s2 = st.copy()
                    s2.pc.append(c)
                    out.append(s2)
            return out
        if ins.res is not None:
            fr.loc[ins.res] = v
        fr.ip += 1
        return None

    def release_stack(self, st, fr):
        for rid, m in list(st.mem.items()):
            pass

    def undefb(self, st, c):
        if isinstance(c, Undef):
            return self.fresh('undef', z3.BoolSort())
        return c

    def branch(self, st, c, t, f):
        fr = st.frames[-1]
        if not isz(c):
            self.goto(st, fr, t if c else f)
            return None
        ct = self.query(st, c) != z3.unsat
        cf = self.query(st, z3.Not(c)) != z3.unsat
        out = []
        if ct and cf:
            s2 = st.copy()
            s2.pc.append(z3.Not(c))
            st.pc.append(c)
            for s, d in ((st, t), (s2, f)):
                try:
                    self.goto(s, s.frames[-1], d)
                    out.append(s)
                except PathEnd:
                    pass
            return out
        if ct:
            self.goto(st, fr, t)
        elif cf:
            self.goto(st, fr, f)
        else:
            raise PathEnd()
        return None

    def exec_simple(self, st, fr, ins):
        op, a = ins.op, ins.a
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.binop(st, op, a['ty'], self.val(st, a['x'], a['ty']), self.val(st, a['y'], a['ty']),
                              a.get('fl', ()))
        if op == 'icmp':
            return self.icmp(st, a['pred'], a['ty'], self.val(st, a['x'], a['ty']), self.val(st, a['y'], a['ty']))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = self.fval(st, a['x'], a['ty']), self.fval(st, a['y'], a['ty'])
            w = 32 if a['ty'].k == 'float' else 64
            if op == 'frem':
                return self.fp.bi('fmod', x, y, w)
            if op == 'fdiv' and self.fp.mode == 'real' and isz(y) and self.valid(st, z3.And(y != 0, y != NAN)):
                return self.fp.div(x, y, w, nonzero=True)
            return getattr(self.fp, op[1:])(x, y, w)
        if op == 'fneg':
            return self.fp.neg(self.fval(st, a['x'], a['ty']))
        if op == 'fcmp':
            return self.fcmp(a['pred'], self.fval(st, a['x'], a['ty']), self.fval(st, a['y'], a['ty']))
        if op == 'load':
            v = self.load(st, self.val(st, a['p'], PTR), a['ty'])
            return v
        if op == 'store':
            v = self.val(st, a['v'], a['ty'])
            if self.fp.spec and self.fp.marked(v) and not self.c.nan_ok:
                self.oblige(st, 'value written to memory is a number', 'safety', z3.Not(self.fp.special(v)))
            self.store(st, self.val(st, a['p'], PTR), a['ty'], v)
            return None
        if op == 'atomicrmw':
            if a['rmw'] not in ('add', 'sub', 'xchg', 'and', 'or'):
                raise Unsupported('atomicrmw ' + a['rmw'])
            p = self.val(st, a['p'], PTR)
            old, v = self.load(st, p, a['ty']), self.val(st, a['v'], a['ty'])
            self.store(st, p, a['ty'], v if a['rmw'] == 'xchg' else self.binop(st, a['rmw'], a['ty'], old, v))
            return old
        if op == 'getelementptr':
            return self.gep(st, a['bt'], self.val(st, a['p'], PTR), [(t, self.val(st, i, t)) for t, i in a['idx']])
        if op == 'alloca':
            n = self.mod.sizeof(a['ty'])
            if a.get('n') is not None:
                c = self.val(st, a['n'][1], a['n'][0])
                n = c * n
            r = self.new_region(st, n, 'stack' + ins.res[1:], 'stack', site=(fr.ctx, fr.fn.name, ins.res))
            return Ptr(r, 0)
        if op == 'select':
            c = tobool(self.undefb(st, self.val(st, a['c'][1], a['c'][0])))
            x, y = self.val(st, a['x'], a['ty']), self.val(st, a['y'], a['ty'])
            return self.ite(st, c, x, y, a['ty'])
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext',
                  'fptrunc'):
            x = self.val(st, a['x'], a['ty'])
            if isinstance(x, Undef) and a['to'].k == 'int':
                return UNDEF
            return self.cast(st, op, a['ty'], x, a['to'])
        if op == 'freeze':
            x = self.val(st, a['x'], a['ty'])
            if isinstance(x, Undef):
                return self.fresh_of(a['ty'], 'undef', st)
            return x
        if op == 'extractvalue':
            x = self.val(st, a['x'], a['ty'])
            for i in a['idx']:
                if isinstance(x, Undef):
                    return UNDEF
                x = x[i]
            return x
        if op == 'insertvalue':
            x = self.val(st, a['x'], a['ty'])
            v = self.val(st, a['v'], a['vty'])

            def ins_(x, ty, idx):
                rt = self.mod.res(ty)
                n = len(rt.elems) if rt.k == 'struct' else rt.n
                x = list(x) if isinstance(x, tuple) else [UNDEF] * n
                if len(idx) == 1:
                    x[idx[0]] = v
                else:
                    x[idx[0]] = ins_(x[idx[0]], rt.elems[idx[0]] if rt.k == 'struct' else rt.elems, idx[1:])
                return tuple(x)
            return ins_(x, a['ty'], a['idx'])
        raise Unsupported('instruction ' + op)

    def fval(self, st, v, ty):
        x = self.val(st, v, ty)
        if isinstance(x, Undef):
            return self.fresh('undef', z3.RealSort())
        return x

    def ite(self, st, c, x, y, ty):
        if not isz(c):
            return x if c else y
        if x is y:
            return x
        if isinstance(x, Undef):
            return y
        if isinstance(y, Undef):
            return x
        if ty.k == 'ptr' or isinstance(x, (Ptr, PInt, Pack, FuncPtr, tuple)) or isinstance(y, (Ptr, PInt, Pack)):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and x.r is not None:
                if isinstance(x.off, int) and isinstance(y.off, int) and x.off == y.off:
                    return x
            if self.valid(st, c):
                return x
            if self.valid(st, z3.Not(c)):
                return y
            raise CaseSplit(c)
        if ty.k == 'int':
            if ty.n == 1:
                return If(c, tobool(x), tobool(y))
            if not isz(x, y) and x == y:
                return x
            return z3.If(c, zi(x), zi(y))
        r = z3.If(c, toreal(x), toreal(y))
        fp = self.fp
        if fp.spec:
            if fp.marked(x) and not self.valid(st, z3.Implies(c, z3.Not(fp.special(x)))):
                fp.mark(r)
            if fp.marked(y) and not self.valid(st, z3.Or(c, z3.Not(fp.special(y)))):
                fp.mark(r)
        return r

    def fcmp(self, pred, x, y):
        fp = self.fp
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred == 'ord':
            return Not(Or(fp.isnan(x), fp.isnan(y)))
        if pred == 'uno':
            return Or(fp.isnan(x), fp.isnan(y))
        base = {'eq': fp.eq, 'lt': fp.lt, 'le': fp.le, 'gt': fp.gt, 'ge': fp.ge}
        if pred[0] == 'o':
            if pred == 'one':
                return Or(fp.lt(x, y), fp.gt(x, y))
            return base[pred[1:]](x, y)
        if pred == 'une':
            return Not(fp.eq(x, y))
        if pred == 'ueq':
            return Not(Or(fp.lt(x, y), fp.gt(x, y)))
        inv = {'lt': fp.ge, 'le': fp.gt, 'gt': fp.le, 'ge': fp.lt}[pred[1:]]
        return Not(inv(x, y))

    # ------------------------------------------------------------ control transfer and loops
    def phis(self, st, fr, target, prev):
        blk = fr.fn.blocks[target]
        out = []
        for ins in blk.ins:
            if ins.op != 'phi':
                break
            for v, b in ins.a['in']:
                if b == prev:
                    out.append((ins.res, ins.a['ty'], self.val(st, v, ins.a['ty'])))
                    break
            else:
                raise Unsupported('phi without edge')
        return out

    def goto(self, st, fr, target):
        prev = fr.block
        ph = self.phis(st, fr, target, prev)
        cfg = self.cfg_of(fr.fn)
        lp = None
        while fr.loops and target not in fr.loops[-1].body:
            fr.loops.pop()
        if target in cfg.loops:
            if fr.loops and fr.loops[-1].header == target:
                self.finite_phis(st, ph, fr.loops[-1])
                return self.back_edge(st, fr, fr.loops[-1], ph)
            gk = ('unroll', fr.ctx, fr.fn.name, target)
            inside = prev in cfg.loops[target]
            if self.header_concrete(st, fr, target, prev, ph):
                n = st.ghost.get(gk, 0) if inside else 0
                if n > 300:
                    raise Unsupported('loop unrolled too often')
                st.ghost[gk] = n + 1
            elif self.unroll:
                n = st.ghost.get(gk, 0) if inside else 0
                if n > self.unroll:
                    st.ghost['bounded'] = True
                    raise PathEnd()
                st.ghost[gk] = n + 1
            else:
                self.finite_phis(st, ph, None)
                self.cut(st, fr, target, prev, ph, cfg.loops[target])
                return
        self.enter(fr, target, prev, ph)

    def finite_phis(self, st, ph, lp):
        if self.fp.spec and not self.c.nan_ok:
            heads = {n: v for n, t, v in lp.phis} if lp else {}
            for n, t, v in ph:
                if self.fp.marked(v) and (lp is None or not self.fp.marked(heads[n])):
                    self.oblige(st, 'loop-carried value is a number', 'safety', z3.Not(self.fp.special(v)))

    def enter(self, fr, target, prev, ph):
        for n, t, v in ph:
            fr.loc[n] = v
        fr.prev, fr.block, fr.ip = prev, target, len(ph)

    def header_eval(self, st, target, prev, ph, want):
        """run the header block on a copy; returns terminator condition value (want='cond') or compared pair"""
        s2 = st.copy()
        f2 = s2.frames[-1]
        saved = (self.obl, self.dirty, dict(self.names), {k: dict(v) for k, v in self.modset.items()})
        self.obl = []
        try:
            self.enter(f2, target, prev, ph)
            blk = f2.fn.blocks[target]
            for ins in blk.ins[len(ph):]:
                if ins.op in ('call', 'invoke'):
                    nm = ins.a['callee'][1] if ins.a['callee'][0] == 'global' else ''
                    if nm.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias')):
                        continue
                    return None
                if ins.op == 'store':
                    return None
                if ins.op == 'br':
                    if 'dest' in ins.a:
                        return None
                    if want == 'cond':
                        return self.val(s2, ins.a['c'], IntTy(1))
                    if ins.a['c'][0] != 'local':
                        return None
                    cn, neg = ins.a['c'][1], False
                    for d in reversed(blk.ins):
                        if d.res == cn and d.op == 'xor' and d.a['x'][0] == 'local':
                            cn, neg = d.a['x'][1], not neg
                    for d in blk.ins:
                        if d.res == cn and d.op == 'icmp':
                            NEG = dict(eq='ne', ne='eq', ult='uge', uge='ult', ugt='ule', ule='ugt', slt='sge', sge='slt', sgt='sle', sle='sgt')
                            return (NEG[d.a['pred']] if neg else d.a['pred'], d.a['ty'], self.val(s2, d.a['x'], d.a['ty']),
                                    self.val(s2, d.a['y'], d.a['ty']))
                    return None
                if ins.op in ('switch', 'ret', 'unreachable'):
                    return None
                v = self.exec_simple(s2, f2, ins)
                if ins.res is not None:
                    f2.loc[ins.res] = v
        except (PathEnd, CaseSplit):
            return None
        finally:
            self.obl, self.dirty, self.names, self.modset = saved
        return None

    def header_concrete(self, st, fr, target, prev, ph):
        c = self.header_eval(st, target, prev, ph, 'cond')
        return isinstance(c, bool)

    def loop_key(self, st, fr, target):
        un = tuple(sorted((k[3], v) for k, v in st.ghost.items() if k[0] == 'unroll' and k[1] == fr.ctx and
                          k[2] == fr.fn.name and k[3] != target and target in self.cfg_of(fr.fn).loops[k[3]]))
        return (fr.ctx, fr.fn.name, target, un, tuple(st.trace))

    def cut(self, st, fr, target, prev, ph, body):
        key = self.loop_key(st, fr, target)
        k = self.fresh('k', z3.IntSort())
        entry = st.copy()
        parent = None
        for f in st.frames:
            for l in f.loops:
                parent = l
        lp = Loop(key, k, body, None, entry, parent)
        lp.header = target
        lp.prev = prev
        lp.entry_phis = ph
        mods = self.modset.setdefault(key, {})
        info = self.affine.setdefault(key, {})
        # entry obligations are evaluated in the entry state with promoted memory
        stride_needed = {}
        for (kind, rid, off), x in list(mods.items()):
            if kind == 'f' and rid in st.mem:
                stride_needed[rid] = x[0]
        for rid, s in stride_needed.items():
            m = st.mem[rid]
            if m.mode == 'cells':
                r = self.regobj(st, rid)
                self.promote(st, r, s)
        for (kind, rid, off), x in list(mods.items()):
            if kind == 'f' and rid in st.mem:
                m = st.mem[rid].copy()
                self.field(st, self.regobj(st, rid), m, off, x[1])
                st.mem[rid] = m
        lp.entry = st.copy()
        view0 = self.view(st, lp, 0, ph, fr)
        for cid, label, f in self.cands(view0, lp, st, fr, prev, ph):
            self.oblige(st, 'invariant "%s" on entry of loop' % label, 'invariant', f, cand=cid, where=target)
        # havoc
        st.pc.append(k >= 0)
        newph = []
        for n, ty, e in ph:
            newph.append((n, ty, self.havoc_val(st, key, ('phi', n), ty, e, k, info)))
        for (kind, rid, off), x in sorted(mods.items(), key=lambda z: (z[0][0], z[0][1], z[0][2])):
            if rid not in st.mem:
                continue
            m = st.mem[rid].copy()
            if kind == 'f':
                ty, a = m.fields[off]
                m.fields[off] = (ty, self.fresh('h_%s_%d' % (re.sub(r'\W', '_', self.regobj(st, rid).name), off), a.sort()))
            elif kind == 'c':
                if m.mode == 'array':
                    continue
                old = m.cells.get(off)
                ty = x
                e = old[1] if old else UNDEF
                if isinstance(e, tuple) and e and e[0] == 'lazy':
                    e = self.const(st, e[2], e[1])
                if old is None and m.default == 'zero':
                    e = zero_of(ty)
                m.cells[off] = (ty, self.havoc_val(st, key, ('c', rid, off), ty, e, k, info))
            elif kind == 'd':
                if m.mode != 'array':
                    raise Unsupported('whole-region reset inside a loop')
            elif kind == 'free':
                raise Unsupported('object released inside a loop')
            st.mem[rid] = m
        lp.phis = newph
        lp.head = st.copy()
        fr.loops.append(lp)
        view1 = self.view(st, lp, k, newph, fr)
        for cid, label, f in self.cands(view1, lp, st, fr, prev, newph):
            self.assume(st, f)
        if self.c.lemmas:
            for f in self.c.lemmas(view1) or []:
                self.assume(st, f)
        lp.head = st.copy()
        self.enter(fr, target, prev, newph)
        # (prev is irrelevant afterwards: phis are already evaluated)

    def regobj(self, st, rid):
        return self.robj[rid]

    def havoc_val(self, st, key, name, ty, e, k, info):
        step = info.get(name)
        base = ('p' if name[0] == 'phi' else 'm') + re.sub(r'\W', '_', str(name[-1]))
        if ty.k == 'ptr':
            if not isinstance(e, Ptr) or e.r is None:
                if step == 'const' or step is None:
                    return e
                raise Unsupported('pointer %s without a region modified in a loop' % (name,))
            if step == 'const':
                return e
            if type(step) is int:
                return Ptr(e.r, iadd(e.off, imul(k, step)), e.hint)
            t = self.fresh(base + '_t', z3.IntSort())
            d = self.deltas.get((key, name))
            s = 1
            if d and 'x' not in d:
                import math
                s = 0
                for x in d:
                    s = math.gcd(s, abs(x))
                s = s or 1
            elif e.hint:
                s = e.hint
            elif st.mem[e.r.id].mode == 'array':
                s = st.mem[e.r.id].stride
            elif step is None and name[0] == 'phi':
                s = self.unit_of(key[1], name[1])  # first round only: the step is not known yet
            return Ptr(e.r, iadd(e.off, imul(t, s)), e.hint)
        if isinstance(e, (Ptr, FuncPtr, PInt, Pack)):
            if step is None or step == 'const':
                return e
            raise Unsupported('non-integer value modified in a loop')
        if ty.k == 'int' and ty.n > 1 and type(step) is int and not isinstance(e, Undef):
            return iadd(e, imul(k, step))
        if step == 'const':
            return e
        if ty.k == 'int' and ty.n == 1:
            return self.fresh(base, z3.BoolSort())
        t = self.fresh_of(ty, base, st)
        if ty.k in ('float', 'double') and self.fp.mode == 'real' and self.is_special(e):
            self.fp.mark(t)
        return t

    def is_special(self, x):
        """may the value be NaN or infinite?"""
        if isz(x):
            return self.fp.marked(x)
        return isinstance(x, float) and (x != x or x in (float('inf'), float('-inf')))

    def unit_of(self, fname, n):
        acc, gep = [], []
        for b in self.mod.functions[fname].blocks.values():
            for ins in b.ins:
                p = ins.a.get('p') if isinstance(ins.a, dict) else None
                if p and p[0] == 'local' and p[1] == n:
                    if ins.op == 'getelementptr':
                        gep.append(self.mod.sizeof(ins.a['bt']))
                    elif ins.op in ('load', 'store'):
                        acc.append(self.mod.sizeof(ins.a['ty']))
        return max(gep or acc or [1])

    def note_delta(self, key, name, d):
        s = self.deltas.setdefault((key, name), set())
        if d not in s:
            s.add(d)
            self.dirty = True

    def delta(self, ty, cur, new, e):
        """constant difference new - cur or 'x'"""
        if ty.k == 'ptr':
            if isinstance(cur, Ptr) and isinstance(new, Ptr) and cur.r is new.r:
                d = lin_sub(new.off, cur.off)
                return d if isinstance(d, int) else 'x'
            if cur is new:
                return 0
            return 'other'
        if ty.k == 'int' and ty.n > 1 and not isinstance(new, (Undef, PInt, Pack)) and not isinstance(cur, (Undef, PInt, Pack)):
            d = lin_sub(new, cur)
            if isinstance(d, int):
                return d
            if isz(new) and new.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = new.children()
                M = 1 << ty.n
                d = lin_sub(b, cur)
                if isinstance(d, int) and lin_sub(b, a) in (M, -M):
                    return d
            return 'x'
        if not isz(new) and not isz(cur) and cur is not None and type(new) == type(cur) and \
                not isinstance(cur, (Ptr, Pack, PInt)) and cur == new:
            return 0
        if isz(new) and isz(cur) and new.eq(cur):
            return 0
        if isz(cur) and isinstance(new, Undef):
            return 'x'
        return 'x'

    def back_edge(self, st, fr, lp, ph):
        key = lp.key
        self.backs.add(key)
        info = self.affine.setdefault(key, {})
        heads = {n: v for n, t, v in lp.phis}
        items = []
        for (n, ty, new), (_, _, e) in zip(ph, lp.entry_phis):
            items.append((('phi', n), ty, heads[n], new, e))
        for (kind, rid, off), x in self.modset.get(key, {}).items():
            if kind == 'c' and rid in lp.head.mem and lp.head.mem[rid].mode == 'cells' and st.mem[rid].mode == 'cells':
                h = lp.head.mem[rid].cells.get(off)
                c = st.mem[rid].cells.get(off)
                e = lp.entry.mem[rid].cells.get(off)
                if h is None or c is None:
                    continue
                ev = e[1] if e else UNDEF
                if isinstance(ev, tuple) and ev and ev[0] == 'lazy':
                    ev = self.const(st, ev[2], ev[1])
                if e is None and lp.entry.mem[rid].default == 'zero':
                    ev = zero_of(x)
                items.append((('c', rid, off), x, h[1], c[1], ev))
        for name, ty, cur, new, e in items:
            d = 'x' if isinstance(e, Undef) and ty.k != 'ptr' else self.delta(ty, cur, new, e)
            self.note_delta(key, name, d)
            step = info.get(name)
            if type(step) is int and ty.k == 'int':
                want = iadd(e, imul(lp.k + 1, step))
                self.oblige(st, 'affine progress', 'invariant', zi(new) == zi(want), cand=('affine', key, name))
            elif type(step) is int and ty.k == 'ptr':
                if not isinstance(d, int) or d != step:
                    self.oblige(st, 'affine progress', 'invariant', False, cand=('affine', key, name))
            elif step == 'const':
                if d != 0:
                    self.oblige(st, 'constant', 'invariant', False, cand=('affine', key, name))
            elif ty.k == 'ptr' and d == 'other' and info.get(name, 0) is not None:
                raise Unsupported('pointer phi changes region in a loop')
        view = self.view(st, lp, lp.k + 1, ph, fr)
        for cid, label, f in self.cands(view, lp, st, fr, fr.block, ph):
            self.oblige(st, 'invariant "%s" preserved by loop' % label, 'invariant', f, cand=cid, where=lp.header)
        raise PathEnd()

    def settle(self):
        """after a run: decide affine steps from the recorded deltas"""
        ch = False
        for (key, name), ds in self.deltas.items():
            info = self.affine.setdefault(key, {})
            cur = info.get(name)
            if cur is False:
                continue
            if ds == {0}:
                new = 'const'
            elif len(ds) == 1 and isinstance(next(iter(ds)), int):
                new = next(iter(ds))
            else:
                new = False
            if cur != new:
                if cur is not None and cur != new:
                    new = False
                info[name] = new
                ch = True
        return ch

    def view(self, st, lp, k, ph, fr):
        phis = []
        for (n, ty, v), (_, _, e) in zip(ph, lp.entry_phis):
            if isinstance(v, (Undef, FuncPtr, PInt, Pack, tuple)):
                continue
            phis.append(PhiInfo(ty, v, e, n))
        mods = []
        cells = []
        info = self.affine.get(lp.key, {})
        for (kind, rid, off), x in sorted(self.modset.get(lp.key, {}).items(), key=lambda z: z[0]):
            if rid not in st.mem or rid not in lp.entry.mem:
                continue
            m, me = st.mem[rid], lp.entry.mem[rid]
            r = self.regobj(st, rid)
            if kind == 'f' and m.mode == 'array' and me.mode == 'array' and off in m.fields and off in me.fields:
                s = lin_div(r.size, m.stride)
                mods.append(ModInfo(cur=View(m.fields[off][1], x[1]), entry=View(me.fields[off][1], x[1]), ty=x[1], region=r,
                                    field=off, stride=m.stride, n=s[0] if s else None, name=r.name))
            elif kind == 'c' and m.mode == 'cells' and off in m.cells:
                e = me.cells.get(off)
                v = m.cells[off][1]
                ev = e[1] if e else (zero_of(x) if me.default == 'zero' else UNDEF)
                if isinstance(ev, tuple) and ev and ev[0] == 'lazy':
                    ev = self.const(st, ev[2], ev[1])
                if isinstance(v, tuple) and v and v[0] == 'lazy':
                    v = self.const(st, v[2], v[1])
                if isinstance(v, (Undef, FuncPtr, PInt, Pack, tuple)):
                    continue
                cells.append(PhiInfo(x, v, ev, '%s+%d' % (r.name, off)))
        parent = None
        if lp.parent is not None:
            parent = LoopView(k=lp.parent.k, depth=0)
            p = lp.parent
            while p.parent is not None:
                parent.depth += 1
                p = p.parent
            parent.phis = [PhiInfo(t, v, e, n) for (n, t, v), (_, _, e) in zip(lp.parent.phis, lp.parent.entry_phis)
                           if not isinstance(v, (Undef, FuncPtr, PInt, Pack, tuple))]
        depth = 0
        p = lp.parent
        ks = [k]
        while p is not None:
            depth += 1
            ks.append(p.k)
            p = p.parent
        return LoopView(k=k, ks=ks, phis=phis, mods=mods, cells=cells, e=self.env, parent=parent, depth=depth, st=st, ex=self,
                        lp=lp, key=lp.key)

    def cands(self, view, lp, st, fr, prev, ph):
        """list of (candidate id, label, formula)"""
        out = []
        key = lp.key
        info = self.affine.get(key, {})
        # automatic: no wrap of affine integers, bounds of conditional counters
        for p in view.phis + view.cells:
            name = ('phi', p.name) if p in view.phis else None
            if name is None:
                for (kind, rid, off) in self.modset.get(key, {}):
                    if kind == 'c' and p.name == '%s+%d' % (self.regobj(st, rid).name, off):
                        name = ('c', rid, off)
            step = info.get(name)
            if p.ty.k == 'int' and p.ty.n > 1 and not isinstance(p.entry, (Undef, PInt, Pack)):
                if type(step) is int:
                    out.append((('affine', key, name), 'no wrap-around of %s' % p.name,
                                And(zi(p.val) >= 0, zi(p.val) < 2 ** p.ty.n)))
                elif step is False:
                    ds = self.deltas.get((key, name), ())
                    if ds and all(isinstance(d, int) for d in ds):
                        out.append((('auto', key, name, 'lo'), '%s grows' % p.name,
                                    zi(p.val) >= zi(iadd(p.entry, imul(view.k, min(list(ds) + [0]))))))
                        out.append((('auto', key, name, 'hi'), '%s bounded' % p.name,
                                    zi(p.val) <= zi(iadd(p.entry, imul(view.k, max(list(ds) + [0]))))))
                    else:
                        out.append((('auto', key, name, 'ge'), '%s >= entry' % p.name, zi(p.val) >= zi(p.entry)))
                        out.append((('auto', key, name, 'le'), '%s <= entry' % p.name, zi(p.val) <= zi(p.entry)))
            elif p.ty.k == 'ptr' and isinstance(p.val, Ptr) and isinstance(p.entry, Ptr) and p.val.r is p.entry.r \
                    and p.val.r is not None and step is False:
                ds = self.deltas.get((key, name), ())
                if ds and all(isinstance(d, int) for d in ds):
                    out.append((('auto', key, name, 'lo'), 'ptr grows', zi(p.val.off) >= zi(
                        iadd(p.entry.off, imul(view.k, min(list(ds) + [0]))))))
                    out.append((('auto', key, name, 'hi'), 'ptr bounded', zi(p.val.off) <= zi(
                        iadd(p.entry.off, imul(view.k, max(list(ds) + [0]))))))
        # automatic: conditional integers that move in lock-step
        ints = [p for p in view.phis if p.ty.k == 'int' and p.ty.n > 8 and type(info.get(('phi', p.name))) is not int and
                info.get(('phi', p.name)) != 'const' and not isinstance(p.entry, (Undef, PInt, Pack))]
        for a in range(len(ints)):
            for b in range(a + 1, len(ints)):
                if ints[a].ty.n == ints[b].ty.n and not (isinstance(ints[a].entry, int) and isinstance(ints[b].entry, int) and
                                                         ints[a].entry != ints[b].entry):
                    out.append((('auto', key, ints[a].name, ints[b].name, '=='), '%s == %s' % (ints[a].name, ints[b].name),
                                zi(ints[a].val) == zi(ints[b].val)))
        hc = self.header_eval(st, lp.header, prev, ph, 'pair')
        if hc:
            pred, ty, x, y = hc
            if ty.k == 'ptr':
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and x.r is not None:
                    x, y = x.off, y.off
                else:
                    x = None
            elif not isinstance(x, (Undef, PInt, Pack)) and not isinstance(y, (Undef, PInt, Pack)):
                if ty.n == 1:
                    x = None
                elif pred[0] == 's':
                    x, y = self.signed(st, x, ty.n), self.signed(st, y, ty.n)
            else:
                x = None
            if x is not None:
                out.append((('auto', key, 'hdr', '<='), 'loop bound', zi(x) <= zi(y)))
                out.append((('auto', key, 'hdr', '>='), 'loop bound', zi(x) >= zi(y)))
                out.append((('auto', key, 'hdr', '>=-1'), 'loop bound', zi(x) + 1 >= zi(y)))
        for i, inv in enumerate(self.c.invs):
            try:
                r = inv(view)
            except (AttributeError, IndexError, KeyError) as ex:
                self.invfail = repr(ex)
                r = None
            if not r:
                continue
            seen = {}
            for j, x in enumerate(r):
                lab, f = x if isinstance(x, tuple) else ('inv%d.%d' % (i, j), x)
                # identified by the label, as the number of candidates may change from one round to the next
                n = seen[lab] = seen.get(lab, -1) + 1
                out.append((('user', key, i, n, lab), lab, f))
        return [c for c in out if c[0] not in self.dropped]

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        a = ins.a
        cal = a['callee']
        if cal[0] == 'asm':
            fr.ip += 1
            return None
        fp = self.val(st, cal, PTR)
        if isinstance(fp, Undef) or (isinstance(fp, Ptr) and fp.r is None):
            self.oblige(st, 'call through null pointer', 'safety', False)
            raise PathEnd()
        if not isinstance(fp, FuncPtr):
            raise Unsupported('indirect call through data pointer')
        name = fp.name
        args = [None if t.k == 'metadata' else self.val(st, v, t) for t, v, at in a['args']]
        nxt = a.get('normal')

        def finish(v):
            if ins.res is not None:
                fr.loc[ins.res] = v
            if nxt is None:
                fr.ip += 1
            else:
                self.goto(st, st.frames[-1], nxt)
            return None
        if NORETURN.match(name):
            if name.startswith(('@__cxa_throw', '@__cxa_rethrow', '@_ZSt')) and 'terminate' not in name and 'assert' not in name:
                self.outcomes.append(('throw', st, None))
                self.on_throw(st)
            else:
                self.oblige(st, 'program does not terminate abnormally (%s)' % name, 'safety', False)
            raise PathEnd()
        try:
            h = self.c.find_stub(name, self.demangle.get(name, name))
            if h is not None:
                self.trusted.add(self.demangle.get(name, name))
                return finish(h(self, st, args, ins))
            if name.startswith('@llvm.'):
                return finish(self.intrinsic(st, name, args, a, ins))
            fn = self.mod.function(name)
            if fn is not None:
                self.push(st, fn, args, (ins.res, nxt), fr.ctx + ((fr.fn.name, fr.block, fr.ip),))
                return None
            b = BUILTIN.get(name[1:])
            if b is not None:
                return finish(b(self, st, args, ins))
            if STRING_OP.match(self.demangle.get(name, name)):
                self.trusted.add('std::string operations')
                rt = a.get('ty') or a.get('rt')
                return finish(args[0] if rt is not None and rt.k == 'ptr' else self.fresh_of(rt, 'str', st) if rt is not None and
                              rt.k == 'int' else None)
        except CaseSplit as cs:
            out = []
            for c in (cs.cond, z3.Not(cs.cond)):
                if self.query(st, c) != z3.unsat:
                    s2 = st.copy()
                    s2.pc.append(c)
                    out.append(s2)
            return out
        raise Unsupported('call of external function ' + self.demangle.get(name, name))

    def intrinsic(self, st, name, args, a, ins):
        n = name[6:]
        fp = self.fp
        if n.startswith(('lifetime', 'dbg', 'experimental.noalias', 'invariant', 'stackrestore', 'prefetch')):
            return None
        if n.startswith('stacksave'):
            return NULL
        if n.startswith('assume'):
            return None
        if n.startswith('expect'):
            return args[0]
        if n.startswith(('memcpy', 'memmove')):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if n.startswith('memset'):
            self.memset(st, args[0], args[1], args[2])
            return None
        w = 32 if n.endswith('f32') else 64
        if n.startswith('fabs'):
            return fp.abs(args[0])
        for f in ('exp2', 'exp', 'log2', 'log10', 'log', 'sqrt', 'floor', 'ceil', 'round', 'trunc'):
            if n.startswith(f + '.'):
                if f == 'exp' and getattr(self.c, 'exp_law', False) and isz(args[0]):
                    t, facts = exp_split(fp, args[0], w)
                    for x in facts:
                        self.assume(st, x)
                    return t
                t = fp.un(f, args[0], w)
                if f == 'exp' and isz(t) and fp.mode == 'real':
                    self.assume(st, t > 0)
                return t
        if n.startswith('pow.'):
            return fp.bi('pow', args[0], args[1], w)
        if n.startswith(('minnum', 'maxnum')):
            x, y = args
            c = fp.lt(x, y)
            return self.ite(st, c, x, y, a['ty']) if n.startswith('min') else self.ite(st, c, y, x, a['ty'])
        if n.startswith('is.fpclass'):
            m = args[1]
            x = args[0]
            parts = []
            if m & 3:
                parts.append(fp.isnan(x))
            if m & 4 or m & 512:
                inf = fp.isinf(x)
                if not (m & 4 and m & 512):
                    inf = And(inf, fp.gt(x, 0.0) if m & 512 else fp.lt(x, 0.0))
                parts.append(inf)
            if m & 504 == 504:
                parts.append(And(Not(fp.isnan(x)), Not(fp.isinf(x))))
            elif m & 504:
                raise Unsupported('fpclass %d' % m)
            return Or(*parts)
        if n.startswith('fmuladd') or n.startswith('fma.'):
            return fp.add(fp.mul(args[0], args[1], w), args[2], w)
        if n.startswith(('umin', 'umax', 'smin', 'smax')):
            ty = a['ty']
            c = self.icmp(st, ('u' if n[0] == 'u' else 's') + 'lt', ty, args[0], args[1])
            return self.ite(st, c, args[0], args[1], ty) if n[1:4] == 'min' else self.ite(st, c, args[1], args[0], ty)
        if n.startswith('abs.'):
            s = self.signed(st, args[0], a['ty'].n)
            return abs(s) if isinstance(s, int) else z3.If(s < 0, -s, s)
        if n.startswith(('umul.with.overflow', 'uadd.with.overflow')):
            ty = self.mod.res(a['ty']).elems[0]
            x, y = args
            r = (x * y if not isz(x, y) else imul(x, y) if isinstance(y, int) else imul(y, x) if isinstance(x, int) else x * y) \
                if n[1] == 'm' else iadd(x, y)
            o = r >= 2 ** ty.n if isz(r) else r >= 2 ** ty.n
            if isz(o) and self.valid(st, z3.Not(o)):
                o = False
            return (self.wrap(st, r, ty.n), o)
        if n.startswith('ctpop') and isinstance(args[0], int):
            return bin(args[0]).count('1')
        if n.startswith('eh.typeid') or n.startswith('trap'):
            raise PathEnd()
        if n.startswith('is.constant'):
            return False
        if n.startswith('objectsize'):
            return (1 << 64) - 1
        if n.startswith('fshl') and isinstance(args[2], int):
            ty = a['ty']
            c = args[2] % ty.n
            x = self.binop(st, 'shl', ty, args[0], c)
            y = self.binop(st, 'lshr', ty, args[1], ty.n - c)
            return self.binop(st, 'or', ty, x, y, ('disjoint',))
        raise Unsupported('intrinsic ' + n)

    # ------------------------------------------------------------ hooks
    def on_return(self, st, v):
        self.c.on_return(self, st, v)

    def on_throw(self, st):
        self.c.on_throw(self, st)

    robj = None

    def new_region(self, st, size, name, kind, default='undef', const=False, site=None):
        r = Executor.new_region(self, st, size, name, kind, default, const, site)
        self.robj[r.id] = r
        return r

    def reset(self):
        Executor.reset(self)
        self.robj = {}
        self.backs = set()
        self.c_boolfields = {}

    def global_ptr(self, st, name):
        p = Executor.global_ptr(self, st, name)
        if isinstance(p, Ptr):
            self.robj[p.r.id] = p.r
        return p


# ------------------------------------------------------------------ built-in externals (trusted)
def site_of(st, ins):
    fr = st.frames[-1]
    return (fr.ctx, fr.fn.name, fr.block, fr.ip)


def b_new(ex, st, args, ins):
    n = args[0]
    if isinstance(n, Undef):
        raise Unsupported('allocation of undefined size')
    r = ex.new_region(st, n, 'heap', 'heap', site=site_of(st, ins))
    return Ptr(r, 0)


def b_calloc(ex, st, args, ins):
    n = imul(args[0], args[1]) if isinstance(args[1], int) else imul(args[1], args[0]) if isinstance(args[0], int) else \
        args[0] * args[1]
    r = ex.new_region(st, n, 'heap', 'heap', default='zero', site=site_of(st, ins))
    hint = args[1] if isinstance(args[1], int) and args[1] > 1 else None
    return Ptr(r, 0, hint)


def b_free(ex, st, args, ins):
    p = args[0]
    if isinstance(p, Ptr) and p.r is not None:
        m = st.mem.get(p.r.id)
        if m is None:
            return None
        if m.freed:
            ex.oblige(st, 'no double release', 'safety', False)
            raise PathEnd()
        m = m.copy()
        m.freed = True
        st.mem[p.r.id] = m
        for fr in st.frames:
            for lp in fr.loops:
                if p.r.id in lp.entry.mem and not lp.entry.mem[p.r.id].freed:
                    ex.note_write(st, p.r, 'free', 0)
    return None


def b_realloc(ex, st, args, ins):
    p, n = args
    r = ex.new_region(st, n, 'heap', 'heap', site=site_of(st, ins))
    if p.r is not None:
        m = st.mem[p.r.id].copy()
        if isinstance(p.off, int) and p.off == 0:
            st.mem[r.id] = m
            for k in list(ex.c_boolfields):
                if k[0] == p.r.id:
                    ex.c_boolfields[(r.id, k[1])] = True
        else:
            raise Unsupported('realloc')
        o = m.copy()
        o.freed = True
        st.mem[p.r.id] = o
    return Ptr(r, 0, p.hint)


def un(name, w):
    return lambda ex, st, args, ins: ex.fp.un(name, args[0], w)


def b_memcpy(ex, st, args, ins):
    ex.memcpy(st, args[0], args[1], args[2])
    return args[0]


def b_memset(ex, st, args, ins):
    ex.memset(st, args[0], args[1] & 255 if isinstance(args[1], int) else args[1], args[2])
    return args[0]


BUILTIN = {
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new, 'calloc': b_calloc, 'free': b_free, '_ZdlPv': b_free, '_ZdaPv': b_free,
    '_ZdlPvm': b_free, '_ZdaPvm': b_free, 'realloc': b_realloc, 'exp': un('exp', 64), 'log': un('log', 64), 'log2': un('log2', 64),
    'sqrt': un('sqrt', 64), 'expf': un('exp', 32), 'logf': un('log', 32), 'log2f': un('log2', 32),
    'floor': un('floor', 64), 'ceil': un('ceil', 64), 'pow': lambda ex, st, a, i: ex.fp.bi('pow', a[0], a[1], 64),
    'powf': lambda ex, st, a, i: ex.fp.bi('pow', a[0], a[1], 32), 'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset,
    '__cxa_allocate_exception': b_new, '_ZNSt9exceptionD2Ev': lambda *a: None, '__cxa_atexit': lambda *a: 0,
    '__cxa_guard_acquire': lambda *a: 1, '__cxa_guard_release': lambda *a: None,
}
