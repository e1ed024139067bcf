import math
from lib import *
import P10
from P10 import MAT, STATS, SRC, base, truth, truth_ax, at, row_cursor, val_cursor, near, asc_gen, isset

PART = P10.PART + [Sc('part', 'bool')]
TRI = lambda e: e.nc * (e.nc + 1) // 2
OUT = [Arr('grad', 'f64', lambda e: e.nr * e.nc, out=True), Arr('hess', 'f64', lambda e: e.nr * TRI(e), out=True), Arr('diag', 'f64', 'nc', out=True)]


# ------------------------------------------------------------------ reference: derivatives of the multivariate losses
def ref(kind, t, s, bug=0):
    """gradients, Hessians (lower triangle, row by row) and loss of one example"""
    n = len(s)
    if kind == 'log':
        x = [-a if b else a for a, b in zip(s, t)]
        y = [-1.0 if b else 1.0 for b in t]
        m = max([0.0] + x)
        Z = math.exp(-m) + sum(math.exp(v - m) for v in x)
        p = [math.exp(v - m) / Z for v in x]
        g = [y[i] * p[i] for i in range(n)]
        h = []
        for i in range(n):
            h += [-y[i] * y[j] * p[i] * p[j] for j in range(i)] + [p[i] * (1 - p[i])]
        return g, h, m + math.log(Z)
    if kind == 'sh':
        d = [(v - 1 if v < 1 else 0.0) if b else (v if v > 0 else 0.0) for v, b in zip(s, t)]
    else:
        d = [v - b for v, b in zip(s, t)]
    q = [v * v for v in d]
    if bug:
        q = [v * v - 2 * b * v + 1 for v, b in zip(s, t)]
    D = sum(q)
    if bug and D < 0:
        return [0.0] * n, [0.0] * (n * (n + 1) // 2), 0.0
    z = lambda a, b: a / b if b else 0.0
    g = [z(v, math.sqrt(D)) for v in d]
    h = []
    for i in range(n):
        ok = kind != 'sh' or (s[i] < 1 if t[i] else s[i] > 0)
        h += [z(-d[i] * d[j], D ** 1.5) for j in range(i)] + [z(D - q[i], D ** 1.5) if ok else 1.0]
    return g, h, math.sqrt(sum(v * v for v in d))


def example(c, e):
    t = [truth(e, i) for i in range(e.nc)]
    s = [e.scores[at(e, e.row, i)] for i in range(e.nc)]
    if c == 'se':
        t = [1.0 if v else -1.0 for v in t]
    return t, s


def close(a, b):
    return len(a) == len(b) and all(x == y or (math.isfinite(x) and abs(x - y) <= 1e-6 * max(1.0, abs(y))) for x, y in zip(a, b))


def tiny(kind, t, s):
    """inputs on which the reference itself loses all digits to cancellation"""
    if kind == 'log':
        return False
    d = [(v - 1 if v < 1 else 0.0) if b else (v if v > 0 else 0.0) for v, b in zip(s, t)] if kind == 'sh' else [v - b for v, b in zip(s, t)]
    D = sum(v * v for v in d)
    return D != 0 and D < 1e-4 or D > 1e8


# ------------------------------------------------------------------ proof side (exact arithmetic, unbounded)
def lbl(e, i):
    if hasattr(e, 'row'):
        return truth(e, i)
    return member(e, e.lidx, e.nl, i)


def sc(e, i):
    return e.scores[at(e, e.row, i)] if hasattr(e, 'row') else e.scores[i]


def dd(kind, e, i):
    t, s = lbl(e, i), sc(e, i)
    if kind == 'sh':
        return If(t, If(s < 1, s - 1, 0.0), If(s > 0, s, 0.0))
    return s - If(t, 1.0, -1.0)


def qq(kind, e, i):
    """squared error term of an output"""
    return e.fun('term_' + kind, zi(i))


def defs(kind):
    """definitions of the terms, gradients and Hessians the contracts refer to"""
    def f(e):
        i = z3.Int('i_def')
        if kind == 'log':
            x = If(lbl(e, i), -sc(e, i), sc(e, i))
            P, Z = e.fun('probability', i), 1 + SUM(kind, e, e.nc)
            return [z3.ForAll([i], qq(kind, e, i) == x, patterns=[qq(kind, e, i)]), z3.ForAll([i], P * Z == e.fp.un('exp', x), patterns=[P]),
                    z3.ForAll([i], fin_g(kind, e, i) == If(lbl(e, i), -P, P), patterns=[fin_g(kind, e, i)]), z3.ForAll([i], fin_h(kind, e, i) == P * (1 - P), patterns=[fin_h(kind, e, i)])]
        d = dd(kind, e, i)
        D = SUM(kind, e, e.nc)
        g = e.fp.divz(d, e.fp.un('sqrt', D))
        h = If(active(kind, e, i), e.fp.divz(D - qq(kind, e, i), e.fp.bi('pow', D, z3.RealVal('1.5'))), 1.0)
        return [z3.ForAll([i], qq(kind, e, i) == d * d, patterns=[qq(kind, e, i)]), z3.ForAll([i], fin_g(kind, e, i) == g, patterns=[fin_g(kind, e, i)]),
                z3.ForAll([i], fin_h(kind, e, i) == h, patterns=[fin_h(kind, e, i)])]
    return f


def active(kind, e, i):
    t, s = lbl(e, i), sc(e, i)
    return If(t, s < 1, s > 0) if kind == 'sh' else z3.BoolVal(True)


def SUM(kind, e, n):
    if kind == 'log':
        return e.sum('S', n, lambda i: e.fp.un('exp', If(lbl(e, i), -sc(e, i), sc(e, i))))
    return e.sum('D', n, lambda i: qq(kind, e, i))


def fin_g(kind, e, i):
    return e.fun('gradient_' + kind, zi(i))


def fin_h(kind, e, i):
    return e.fun('hessian_' + kind, zi(i))


def dec_sym(kind, e):
    b = at(e, e.row, 0)
    return [('gradients are the derivatives of the loss', e.forall(0, e.nc, lambda i: e.post.stats.g[b + i] == fin_g(kind, e, i))),
            ('Hessians are the second derivatives of the loss', e.forall(0, e.nc, lambda i: e.post.stats.h[b + i] == fin_h(kind, e, i))),
            ('statistics of other examples are unchanged', e.forall(0, e.nr * e.nc, lambda i: Implies(Or(i < b, i >= b + e.nc), And(e.post.stats.g[i] == e.stats.g[i], e.post.stats.h[i] == e.stats.h[i]))))]


def dec_inv(kind):
    def f(L):
        e, k = L.e, L.k
        b = at(e, e.row, 0)
        out = eval_inv(kind)(L)
        for m in L.mods_of('f64'):
            if m.name != 'stats':
                continue
            old = e.stats.g if m.field == 0 else e.stats.h
            row = lambda i, v, w: If(And(i >= b, i < b + e.nc), If(i < b + k, v, w), old[i])
            if m.field == 0:
                out.append(('terms stored so far', e.forall(0, e.nr * e.nc, lambda i: m.cur[i] == row(i, qq(kind, e, i - b), old[i]))))
                out.append(('gradients stored so far', e.forall(0, e.nr * e.nc, lambda i: m.cur[i] == row(i, fin_g(kind, e, i - b), qq(kind, e, i - b)))))
            else:
                out.append(('Hessians stored so far', e.forall(0, e.nr * e.nc, lambda i: m.cur[i] == row(i, fin_h(kind, e, i - b), old[i]))))
        return out
    return f


def eval_sym(kind, e):
    if kind == 'log':
        from dsl import exp_split
        t, facts = exp_split(e.fp, e.ret)
        return [('value is the loss of the example', Implies(And(*facts), t == 1 + SUM(kind, e, e.nc)))]
    return [('value is the loss of the example', e.ret == e.fp.un('sqrt', SUM(kind, e, e.nc)))]


def eval_inv(kind):
    def f(L):
        e, k = L.e, L.k
        out = []
        for s in L.scalars_of('f64'):
            if kind == 'log':
                out.append(('%s is the scaled sum so far' % s.name, And(s.val == s.entry * (1 + SUM(kind, e, k)), s.val > 0)))
                out.append(('sum of the terms so far is not negative', SUM(kind, e, k) >= 0))
            else:
                out.append(('%s is the sum so far' % s.name, s.val == SUM(kind, e, k)))
        return out
    return f


def dec_ens(kind):
    def f(e):
        if e.sym:
            return dec_sym(kind, e)
        k = 'se' if kind == 'reg' else kind
        t, s = example(kind, e)
        out = []
        if not tiny(k, t, s):
            got = ([e.post.stats.g[at(e, e.row, i)] for i in range(e.nc)], [e.post.stats.h[at(e, e.row, i)] for i in range(e.nc)])
            g, h, _ = ref(k, t, s)
            hd = [h[i * (i + 3) // 2] for i in range(e.nc)]
            sx = ''
            if kind == 'reg' and not (close(got[0], g) and close(got[1], hd)):
                b = ref('se', [1.0 if v else -1.0 for v in t], s)
                if close(got[0], b[0]) and close(got[1], [b[1][i * (i + 3) // 2] for i in range(e.nc)]):
                    sx = ' (the ground truth is treated as a label)'
            out += [('gradients are the derivatives of the loss' + sx, close(got[0], g)), ('Hessians are the second derivatives of the loss' + sx, close(got[1], hd))]
        out.append(('statistics of other examples are unchanged', all(i // e.nc == e.row or (e.post.stats.g[i] == e.stats.g[i] and e.post.stats.h[i] == e.stats.h[i]) for i in range(e.nr * e.nc))))
        return out
    return f


def non_ens(kind):
    def f(e):
        k = 'se' if kind == 'reg' else kind
        t, s = example(kind, e)
        T = TRI(e)
        out = []
        if not tiny(k, t, s):
            gg = [e.post.grad[at(e, e.row, i)] for i in range(e.nc)]
            hh = [e.post.hess[e.row * T + i] for i in range(T)]
            g, h, _ = ref(k, t, s)
            sx = ''
            if kind == 'reg' and not (close(gg, g) and close(hh, h)):
                D = sum(v * v - 2 * b * v + 1 for v, b in zip(s, t))
                w = ref('se', t, s, 1)
                if close(gg, w[0]) and close(hh, w[1]) or abs(D) < 1e-6:
                    sx = ' (1 instead of the squared ground truth)'
            out += [('gradients are the derivatives of the loss' + sx, close(gg, g)), ('Hessians are the second derivatives of the loss' + sx, close(hh, h)),
                    ('diagonal of the Hessian matrix', [repr(e.post.diag[i]) for i in range(e.nc)] == [repr(hh[i * (i + 3) // 2]) for i in range(e.nc)])]
        out.append(('statistics of other examples are unchanged', all(i // e.nc == e.row or e.post.grad[i] == e.grad[i] for i in range(e.nr * e.nc)) and all(i // T == e.row or e.post.hess[i] == 77 for i in range(e.nr * T))))
        return out
    return f


def eval_ens(kind):
    def f(e):
        if e.sym:
            return eval_sym(kind, e)
        k = 'se' if kind == 'reg' else kind
        if hasattr(e, 'row'):
            t, s = example(kind, e)
        else:
            m = {e.lidx[i] for i in range(e.nl)}
            t, s = [i in m for i in range(e.nc)], [e.scores[i] for i in range(e.nc)]
            if k == 'se':
                t = [1.0 if v else -1.0 for v in t]
        w = ref(k, t, s)[2]
        sx = ''
        if kind == 'reg' and not close([e.ret], [w]) and close([e.ret], [ref('se', [1.0 if v else -1.0 for v in t], s)[2]]):
            sx = ' (the ground truth is treated as a label)'
        return [('value is the loss of the example' + sx, close([e.ret], [w]))]
    return f


def gen(c):
    def g(rng):
        nr, nc = rng.randint(1, 3), rng.choice([1, 1, 2, 2, 3, 4, 6])
        row = rng.randrange(nr)
        big = rng.random() < 0.15 and c.name.startswith('log') and 'non' not in c.name
        f = lambda n: [rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-3, 3), rng.choice([-800.0, 800.0, 40.0]) if big else 2.0]) for _ in range(n)]
        ind = asc_gen(rng, nc, 0.6)
        lidx, indptr = [], [0]
        for _ in range(nr):
            lidx += asc_gen(rng, nc)
            indptr.append(len(lidx))
        T = nc * (nc + 1) // 2
        d = dict(nr=nr, nc=nc, row=row, scores=f(nr * nc), stats={'g': f(nr * nc), 'h': f(nr * nc)}, lab=[rng.choice([0, 1]) for _ in range(nr * nc)], lidx=lidx, indptr=indptr, nl=len(lidx),
                 truth=[rng.choice([1.0, -1.0]) if rng.random() < .5 else float(rng.randint(-3, 3)) / 2 for _ in range(nr * nc)], values=[float(rng.randint(-3, 3)) / 2 for _ in lidx], ind=ind, np=len(ind), part=c.name.endswith('partial'),
                 grad=f(nr * nc), hess=[0.0] * (nr * T), diag=[0.0] * nc)
        if c.name.endswith('dist'):
            d['scores'] = f(nc)
            d['lidx'] = asc_gen(rng, nc)
            d['nl'] = len(d['lidx'])
        return {p.name: d[p.name] for p in c.params}
    return g


CONTRACTS = []
for kind in ('log', 'se', 'sh', 'reg'):
    for m in ('dense', 'sparse'):
        src = SRC[('reg_' if kind == 'reg' else 'cls_') + m]
        n = kind + '_%s_' + m
        CONTRACTS += [Contract(n % 'dec', 'h_' + n % 'dec', MAT + STATS + src + PART, requires=lambda e: base(e) + [Not(isset(e.part))], ensures=dec_ens(kind), prove=False),
                      Contract(n % 'dec' + '_partial', 'h_' + n % 'dec', MAT + STATS + src + PART, requires=lambda e: base(e) + [isset(e.part)], ensures=dec_ens(kind), prove=False),
                      Contract(n % 'non', 'h_' + n % 'non', MAT + src + OUT, requires=base, ensures=non_ens(kind), prove=False),
                      Contract(n % 'eval', 'h_' + n % 'eval', MAT + src, 'f64', requires=base, ensures=eval_ens(kind), prove=False)]
    if kind != 'reg':
        CONTRACTS.append(Contract(kind + '_dist', 'h_%s_dist' % kind, [Sc('nc', 'u32', 0, 2 ** 28), Arr('scores', 'f64', 'nc'), Arr('lidx', 'u32', 'nl'), Sc('nl', 'u32', 0, 2 ** 28)], 'f64',
                                  requires=lambda e: [ascending(e, e.lidx, e.nl, e.nc)], ensures=eval_ens(kind), prove=False))
for c in CONTRACTS:
    c.gen = gen(c)
    kind, what = c.name.split('_')[:2]
    if kind != 'reg' and what in ('eval', 'dist', 'dec'):
        c.prove = True
        c.exp_law = True
        if kind == 'log' and what == 'dec':
            c.cand_timeout = 5.0
        if kind != 'log' or what == 'dec':
            c.extra_axioms = defs(kind)
        c.invs = ([cursors(('lidx', 'nl'), heap=True)] if what == 'dist' else [row_cursor]) + [dec_inv(kind) if what == 'dec' else eval_inv(kind)]
    c.bounded_note = 'up to 3 examples with up to 6 outputs'
UNITS = [{'harness': 'h_ndloss.cpp', 'contracts': CONTRACTS}]
