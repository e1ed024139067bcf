import math
from lib import *
from P16 import row_cursor, csr_ok, at

# ------------------------------------------------------------------ losses of a single output
SCORE = Sc('score', 'f64', -1e30, 1e30, gen=lambda r: r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 40.0, -40.0, 800.0, -800.0, 1e5, -1e5, r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-30, 30)]))
LABEL = Sc('label', 'bool')
OUT = Arr('out', 'f64', 2, out=True)


def exp(e, x):
    return e.fp.un('exp', x)


def log(e, x):
    return e.fp.un('log', x)


def near(e, a, b, tol=1e-9):
    if e.sym:
        return a == b
    return a == b or (math.isfinite(a) and abs(a - b) <= tol * max(1.0, abs(b)))


def isset(l):
    return l if isinstance(l, bool) or (isz(l) and z3.is_bool(l)) else l != 0


def logistic_ens(e):
    x, y = e.score, isset(e.label)
    g, h = e.post.out[0], e.post.out[1]
    if e.sym:
        s = 1 / (1 + exp(e, -x))
        z = If(y, -x, x)
        loss = log(e, 1 + exp(e, z))
    else:
        s = 1 / (1 + math.exp(-x)) if x > -700 else 0.0
        z = -x if y else x
        loss = z if z > 700 else math.log1p(math.exp(z))
    return [('gradient is the derivative of the loss', near(e, g, s - If(y, 1.0, 0.0))), ('Hessian is the second derivative of the loss', near(e, h, s * (1 - s))),
            ('loss is log(1 + exp(-y * score))', near(e, e.ret, loss))]


def exp_axioms(e):
    x = e.score
    ex, nx = exp(e, x), exp(e, -x)
    return [ex > 0, nx > 0, ex * nx == 1, log(e, 1 + ex) == x + log(e, 1 + nx), log(e, 1 + nx) == -x + log(e, 1 + ex)]


def se_ens(e):
    y = e.truth if hasattr(e, 'truth') else If(isset(e.label), 1.0, -1.0)
    d = e.score - y
    return [('gradient is half the derivative of the loss', near(e, e.post.out[0], d)), ('Hessian is half the second derivative of the loss', near(e, e.post.out[1], 1.0)),
            ('loss is the squared error', near(e, e.ret, d * d))]


def sh_ens(e):
    y = isset(e.label)
    # relevant labels should be scored at least 1, irrelevant ones at most 0
    d = If(y, If(e.score < 1, e.score - 1, 0.0), If(e.score > 0, e.score, 0.0))
    return [('gradient is half the derivative of the loss', near(e, e.post.out[0], d)), ('Hessian', near(e, e.post.out[1], 1.0)), ('loss is the squared hinge', near(e, e.ret, d * d))]


ONE = [
    Contract('logistic', 'h_logistic', [LABEL, SCORE, OUT], 'f64', ensures=logistic_ens, extra_axioms=exp_axioms),
    Contract('squared_error', 'h_squared_error', [LABEL, SCORE, OUT], 'f64', ensures=se_ens),
    Contract('squared_error_regression', 'h_squared_error_r', [Sc('truth', 'f32', -1e30, 1e30, gen=lambda r: r.randint(-40, 40) / 8), SCORE, OUT], 'f64', ensures=se_ens),
    Contract('squared_hinge', 'h_squared_hinge', [LABEL, SCORE, OUT], 'f64', ensures=sh_ens),
]


# ------------------------------------------------------------------ all outputs of an example
def G(e, t, s):
    if e.sym:
        return e.fun('g', t, s)
    return 3 * s + 2 * t if REGR(e) else 3 * s + (1 if t else -2)


def H(e, t, s):
    if e.sym:
        return e.fun('h', t, s)
    return s * s + t if REGR(e) else s * s + (5 if t else 7)


def Q(e, t, s):
    if e.sym:
        return e.fun('q', t, s)
    return s * 4 + t if REGR(e) else s * 4 + (16 if t else -8)


def REGR(e):
    return hasattr(e, 'truth') or hasattr(e, 'values')


def btoz(v):
    return v if isz(v) and z3.is_bool(v) else z3.BoolVal(bool(v)) if not isz(v) else v != 0


def st_update(regr):
    def f(ex, st, args, ins):
        l, s, gp, hp = args
        l = toreal(l) if regr else btoz(l)
        ex.store(st, gp, llir.DOUBLE, G(ex.env, l, toreal(s)))
        ex.store(st, hp, llir.DOUBLE, H(ex.env, l, toreal(s)))
    return f


def st_eval(regr):
    def f(ex, st, args, ins):
        l, s = args
        return Q(ex.env, toreal(l) if regr else btoz(l), toreal(s))
    return f


STUBS = {'vf_update': st_update(False), 'vf_eval': st_eval(False), 'vf_update_r': st_update(True), 'vf_eval_r': st_eval(True), 're:' + LOWER_BOUND: lower_bound}
OPAQUE = ['^vf_', LOWER_BOUND]
MAT = [Sc('nr', 'u32', 1, 2 ** 14), Sc('nc', 'u32', 1, 2 ** 14), Sc('row', 'u32', 0), Arr('scores', 'f64', lambda e: e.nr * e.nc)]
STATS = [Arr('stats', [('g', 'f64'), ('h', 'f64')], lambda e: e.nr * e.nc, out=True)]
SRC = {'cls_dense': [Arr('lab', 'u8', lambda e: e.nr * e.nc)], 'cls_sparse': [Arr('lidx', 'u32', 'nl'), Arr('indptr', 'u32', lambda e: e.nr + 1), Sc('nl', 'u32', 0, 2 ** 28)],
       'reg_dense': [Arr('truth', 'f32', lambda e: e.nr * e.nc)], 'reg_sparse': [Arr('values', 'f32', 'nl'), Arr('lidx', 'u32', 'nl'), Arr('indptr', 'u32', lambda e: e.nr + 1), Sc('nl', 'u32', 0, 2 ** 28)]}
PART = [Arr('ind', 'u32', 'np'), Sc('np', 'u32', 0, 2 ** 14)]


def base(e):
    r = [e.row < e.nr]
    if e.sym:
        p, q = e.nr * e.nc, e.row * e.nc
        r += [p >= 0, p <= 2 ** 28, q >= 0, q + e.nc <= p]
    if hasattr(e, 'lidx'):
        r += csr_ok(e)
    if hasattr(e, 'ind'):
        r += [ascending(e, e.ind, e.np, e.nc), e.np <= e.nc]
    return r


def truth(e, c):
    if hasattr(e, 'lab'):
        return e.lab[at(e, e.row, c)] != 0
    if hasattr(e, 'truth'):
        return e.truth[at(e, e.row, c)]
    lo, hi = e.indptr[e.row], e.indptr[e.row + 1]
    if not hasattr(e, 'values'):
        return e.exists(lo, hi, lambda j: e.lidx[j] == c)
    if not e.sym:
        return next((e.values[j] for j in range(lo, hi) if e.lidx[j] == c), 0.0)
    return e.fun('truth', zi(c))


def truth_ax(e):
    """definition of the (sparse) ground truth"""
    if not hasattr(e, 'values') or not e.sym:
        return []
    lo, hi = e.indptr[e.row], e.indptr[e.row + 1]
    return [e.forall(lo, hi, lambda j: e.fun('truth', e.lidx[j]) == e.values[j]),
            e.forall(0, e.nc, lambda c: Implies(Not(e.exists(lo, hi, lambda j: e.lidx[j] == c)), e.fun('truth', zi(c)) == 0.0))]


def chosen(e, c, k=None):
    if not hasattr(e, 'ind'):
        return And(0 <= c, c < (e.nc if k is None else k))
    return e.exists(0, e.np if k is None else k, lambda j: e.ind[j] == c)


def upd_ens(e):
    out = []
    for f, F in (('g', G), ('h', H)):
        a, b = getattr(e.post.stats, f), getattr(e.stats, f)
        nm = 'gradients' if f == 'g' else 'Hessians'
        out.append(('%s of exactly the given outputs are updated from their ground truth and score' % nm, e.forall(0, e.nc, lambda c: e.fp.same(
            a[at(e, e.row, c)], If(chosen(e, c), F(e, truth(e, c), e.scores[at(e, e.row, c)]), b[at(e, e.row, c)])))))
        out.append(('%s of other examples are unchanged' % nm, e.forall(0, e.nr * e.nc, lambda i: Implies(Or(i < at(e, e.row, 0), i >= at(e, e.row, e.nc)), e.fp.same(a[i], b[i])))))
    return out


def part_ens(e):
    """clauses of upd_ens; a result that is exactly the one of the recorded finding is named as such"""
    def first():
        for c in range(e.nc):
            i = at(e, e.row, c)
            for f, F in (('g', G), ('h', H)):
                if not e.fp.same(getattr(e.post.stats, f)[i], F(e, e.truth[i], e.scores[i]) if c < e.np else getattr(e.stats, f)[i]):
                    return False
        return True
    r = upd_ens(e)
    return [(n + ' (the first outputs are updated instead)' if first() and 'given outputs' in n else n, v) for n, v in r]


def upd_inv(L):
    e = L.e
    out = []
    b = at(e, e.row, 0)
    for m in L.mods_of('f64'):
        if m.name != 'stats':
            continue
        F, old = (G, e.stats.g) if m.field == 0 else (H, e.stats.h)
        out.append(('field %d updated so far' % m.field, e.forall(0, e.nr * e.nc, lambda i: m.cur[i] == If(
            And(i >= b, i < b + e.nc, chosen(e, i - b, L.k)), F(e, truth(e, i - b), e.scores[i]), old[i]))))
    return out


def val_cursor(L):
    """cursor into the values of the current row of the sparse ground truth moves along with the cursor into the indices"""
    e = L.e
    if not hasattr(e, 'values'):
        return []
    off = {}
    for p in L.phis_of('ptr'):
        if isinstance(p.val, Ptr) and p.val.r is not None:
            q = lin_div(p.val.off, 4)
            off.setdefault(p.val.r.id, []).append((p.name, q[0] if q else zi(p.val.off) / 4, q is None, p.val.off))
    out = []
    for nv, ov, un, raw in off.get(L.ex.params['values'].id, []):
        if un:
            out.append(('value cursor %s aligned' % nv, zi(raw) == 4 * ov))
        for ni, oi, _, _ in off.get(L.ex.params['lidx'].id, []):
            out.append(('value cursor %s moves with %s' % (nv, ni), ov == oi))
    return out


def total(e, n):
    return e.sum('loss', n, lambda i: Q(e, truth(e, i), e.scores[at(e, e.row, 0) + i]))


def mean_inv(L):
    return [('mean %s of the losses so far' % s.name, s.val * toreal(L.k) == total(L.e, L.k)) for s in L.scalars_of('f64')]


def eval_ens(e):
    if e.sym:
        return [('value is the mean of the losses of all outputs', e.ret * toreal(e.nc) == total(e, e.nc))]
    return [('value is the mean of the losses of all outputs', near(e, e.ret, sum(Q(e, truth(e, i), e.scores[at(e, e.row, i)]) for i in range(e.nc)) / e.nc))]


def dist_ens(e):
    q = lambda i: Q(e, member(e, e.maj, e.nm, i), e.scores[i])
    if e.sym:
        return [('value is the mean of the losses of all labels', Implies(e.nc > 0, e.ret * toreal(e.nc) == e.sum('dist', e.nc, q)))]
    return [('value is the mean of the losses of all labels', near(e, e.ret, sum(q(i) for i in range(e.nc)) / e.nc if e.nc else 0.0))]


def dist_inv(L):
    e = L.e
    return [('mean %s of the losses so far' % s.name, s.val * toreal(L.k) == e.sum('dist', L.k, lambda i: Q(e, member(e, e.maj, e.nm, i), e.scores[i]))) for s in L.scalars_of('f64')]


def gen(c):
    def g(rng):
        nr, nc = rng.randint(1, 3), rng.randint(1, 7)
        row = rng.randrange(nr)
        f = lambda n: [rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-3, 3)]) for _ in range(n)]
        ind = asc_gen(rng, nc, 0.6)
        if c.name == 'reg_dense_partial_prefix':
            ind = list(range(len(ind)))
        lidx, indptr = [], [0]
        for _ in range(nr):
            lidx += asc_gen(rng, nc)
            indptr.append(len(lidx))
        maj = asc_gen(rng, nc)
        order = list(range(nc))
        if rng.random() < 0.5:
            rng.shuffle(order)
        d = dict(nr=nr, nc=nc, row=row, scores=f(nr * nc), stats={'g': f(nr * nc), 'h': f(nr * nc)}, lab=[rng.choice([0, 1]) for _ in range(nr * nc)], lidx=lidx, indptr=indptr, nl=len(lidx),
                 truth=[float(rng.randint(-3, 3)) / 2 for _ in range(nr * nc)], values=[float(rng.randint(-3, 3)) / 2 for _ in lidx], ind=ind, np=len(ind), maj=maj, nm=len(maj),
                 order=order, part=rng.random() < .5, csr=rng.random() < .5)
        if c.name == 'distance' or c.name == 'sparse_set':
            d['scores'] = f(nc)
        return {p.name: d[p.name] for p in c.params}
    return g


ALL = []
for k in ('cls_dense', 'cls_sparse', 'reg_dense', 'reg_sparse'):
    for part in (False, True):
        nm = k + ('_partial' if part else '_complete')
        ALL.append(Contract(nm, 'h_' + nm, MAT + STATS + SRC[k] + (PART if part else []), requires=base, ensures=upd_ens, invs=[row_cursor, val_cursor, upd_inv], stubs=STUBS, extra_axioms=truth_ax))
    if k == 'reg_dense':
        # the general case is a known finding: proved for outputs 0, 1, ..., checked at run time otherwise
        ALL.append(Contract('reg_dense_partial_prefix', 'h_reg_dense_partial', ALL[-1].params, requires=lambda e: base(e) + [e.forall(0, e.np, lambda i: e.ind[i] == i)], ensures=upd_ens,
                            invs=[row_cursor, val_cursor, upd_inv], stubs=STUBS, extra_axioms=truth_ax))
        ALL[-2].prove = False
        ALL[-2].ensures = part_ens
        ALL[-2].bounded_note = 'known finding; proved for the case that the given outputs are the first ones (reg_dense_partial_prefix)'
    nm = k + '_eval'
    ALL.append(Contract(nm, 'h_' + nm, MAT + SRC[k], 'f64', requires=base, ensures=eval_ens, invs=[row_cursor, val_cursor, mean_inv], stubs=STUBS, extra_axioms=truth_ax))
ALL.append(Contract('distance', 'h_distance', [Sc('nc', 'u32', 0, 2 ** 28), Arr('scores', 'f64', 'nc'), Arr('maj', 'u32', 'nm'), Sc('nm', 'u32', 0, 2 ** 28)], 'f64',
                    requires=lambda e: [ascending(e, e.maj, e.nm, e.nc)], ensures=dist_ens, invs=[cursors(('maj', 'nm'), heap=True), dist_inv], stubs=STUBS))


def set_ens(e):
    def d(c):
        s = e.scores[c]
        y = e.lab[at(e, e.row, c)]
        return (s - 1 if s < 1 else 0.0) if y else (s if s > 0 else 0.0)
    asc = all(a < b for a, b in zip(*(lambda l: (l, l[1:]))([o for o in [e.order[i] for i in range(e.nc)] if e.scores[o] != 0])))
    out = []
    ch = set(e.ind[i] for i in range(e.np)) if e.part else set(range(e.nc))
    ok = True
    for c in range(e.nc):
        i = at(e, e.row, c)
        if c in ch:
            w = (d(c), 1.0) if d(c) != 0 else (0.0, 0.0)
        else:
            w = (e.stats.g[i], e.stats.h[i]) if e.stats.g[i] != 0 else (0.0, 0.0)
        ok = ok and near(e, e.post.stats.g[i], w[0]) and near(e, e.post.stats.h[i], w[1])
    o2 = '' if asc else ' (scores not stored in increasing order)'
    out.append(('sparse statistics of the given outputs are those with non-zero gradient' + ('' if e.part else o2), ok))
    out.append(('value is the mean of the losses of all outputs' + o2, near(e, e.ret, sum(d(c) ** 2 for c in range(e.nc)) / e.nc)))
    return out


SETP = [Sc('nr', 'u32', 1, 2 ** 14), Sc('nc', 'u32', 1, 2 ** 14), Sc('row', 'u32', 0), Arr('scores', 'f64', 'nc')] + STATS + [Arr('lab', 'u8', lambda e: e.nr * e.nc), Arr('order', 'u32', 'nc')] + PART + [Sc('part', 'bool'), Sc('csr', 'bool')]
SETC = [Contract('sparse_set', 'h_sparse_set', SETP, 'f64', ensures=set_ens, prove=False, bounded_note='sparse statistics (sparse sets): up to 3 examples, 7 labels')]
for c in ALL + SETC:
    c.gen = gen(c)
CONTRACTS = ONE + ALL + SETC
UNITS = [{'harness': 'h_loss.cpp', 'contracts': CONTRACTS, 'opaque': OPAQUE}]
