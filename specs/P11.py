from lib import *
"""scores predicted by the rules' heads"""
T2 = [('g', 'f64'), ('h', 'f64')]
gh = lambda lo: lambda r: r.choice([0.0, 1.0, 0.5, 2.0, r.uniform(0, 5)]) + lo
gg = lambda r: r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, r.uniform(-5, 5)])
L12 = [Sc('l1', 'f64', 0, 1e6, gen=lambda r: r.choice([0.0, 0.0, 0.5, 1.0, r.uniform(0, 3)])), Sc('l2', 'f64', 0, 1e6, gen=lambda r: r.choice([0.0, 1.0, 0.5, r.uniform(0, 3)]))]


def zabs(x):
    return If(x >= 0, x, -x) if isz(x) else abs(x)


def score_def(e, g, h, l1=None, l2=None):
    """minimises g s + h s^2 / 2 + l1 |s| + l2 s^2 / 2"""
    l1, l2 = e.l1 if l1 is None else l1, e.l2 if l2 is None else l2
    num = If(g > l1, l1 - g, If(g < -l1, -g - l1, 0.0))
    d = h + l2
    if not e.sym:
        return num / d if d != 0 else 0.0
    return z3.If(d == 0, z3.RealVal(0), num / d)


def obj(e, s, g, h, l1=None, l2=None):
    l1, l2 = e.l1 if l1 is None else l1, e.l2 if l2 is None else l2
    return g * s + 0.5 * h * s * s + l1 * zabs(s) + 0.5 * l2 * s * s


def near(e, a, b):
    return e.fp.same(a, b) if e.sym else abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


SCORE = Contract('score', 'h_score', [Sc('g', 'f64', -1e9, 1e9, gen=gg), Sc('h', 'f64', 0, 1e9, gen=gh(0))] + L12 + [Sc('t', 'f64', -1e12, 1e12, gen=gg), Arr('q', 'f64', 1, out=True)], 'f64',
                 ensures=lambda e: [('score minimises the regularised objective of the output', near(e, e.ret, score_def(e, e.g, e.h))),
                                    ('quality is the objective for this score', near(e, e.post.q[0], obj(e, e.ret, e.g, e.h))),
                                    ('no other score is better', Implies(e.h + e.l2 > 0, obj(e, e.ret, e.g, e.h) <= obj(e, e.t, e.g, e.h) + (0 if e.sym else 1e-9)))])
QUALITY = Contract('quality', 'h_quality', [Sc('s', 'f64', -1e9, 1e9, gen=gg), Sc('g', 'f64', -1e9, 1e9, gen=gg), Sc('h', 'f64', 0, 1e9, gen=gh(0))] + L12, 'f64',
                   ensures=lambda e: [('quality is the regularised objective', near(e, e.ret, obj(e, e.s, e.g, e.h)))])
LARGER = Contract('larger', 'h_larger', [Sc('a', 'f64', -1e9, 1e9, gen=gg), Sc('b', 'f64', -1e9, 1e9, gen=gg)], 'bool', ensures=lambda e: [('compares absolute scores', e.ret == (zabs(e.a) > zabs(e.b)))])


# ------------------------------------------------------------------ heads
def S(e, i):
    g, h = e.s.g[i], e.s.h[i]
    return e.fun('score', g, h) if e.sym else score_def(e, g, h)


def Q(e, i):
    g, h = e.s.g[i], e.s.h[i]
    if e.sym and hasattr(e, 'threshold'):
        return e.fun('qual', S(e, i), g, h)
    return e.fun('quality', g, h) if e.sym else obj(e, score_def(e, g, h), g, h)


def AX(e):
    g, h = z3.Real('ax_g'), z3.Real('ax_h')
    f, q = e.fun('score', g, h), e.fun('quality', g, h)
    return [z3.ForAll([g, h], f == score_def(e, g, h), patterns=[f]), z3.ForAll([g, h], q == obj(e, f, g, h), patterns=[q])]


STAT = [Arr('s', T2, 'n', lo=-1e6, hi=1e6), Sc('n', 'u32', 1, BIG)] + L12
OUT = [Arr('out', 'f64', 'n', out=True)]
OI = [Arr('oi', 'u32', 'n', out=True)]
QO = [Arr('q', 'f64', 1, out=True)]
IND = [Arr('ind', 'u32', 'n')]


def pos_h(e):
    return [e.forall(0, e.n, lambda i: e.s.h[i] >= 0)]


def near_all(e, n, f):
    return e.forall(0, n, f)


def total(e, n, term, name='q'):
    if e.sym:
        return e.sum(name, n, term)
    return sum(term(i) for i in range(n))


def complete_ens(e):
    return [('each output gets its optimal score', e.forall(0, e.n, lambda i: near(e, e.post.out[i], S(e, i)))),
            ('quality is the sum of the qualities of all outputs', near(e, e.post.q[0], total(e, e.n, lambda i: Q(e, i))))]


def complete_inv(L):
    e = L.e
    return [('%s scores so far' % m.name, e.forall(0, L.k, lambda i: m.cur[i] == S(e, i))) for m in L.mods_of('f64')] + \
        [('%s quality so far' % s.name, s.val == total(e, L.k, lambda i: Q(e, i))) for s in L.scalars_of('f64')]


def oidx(e, i):
    return e.ind[i] if hasattr(e, 'ind') else i


def single_ens(e):
    best = lambda b: And(e.post.oi[0] == oidx(e, b), near(e, e.post.out[0], S(e, b)), near(e, e.post.q[0], Q(e, b)), e.forall(0, e.n, lambda j: zabs(S(e, j)) <= zabs(S(e, b))),
                         e.forall(0, b, lambda j: zabs(S(e, j)) < zabs(S(e, b))))
    return [('the head predicts the first output whose score has the largest absolute value, with its score and quality', e.exists(0, e.n, best))]


def single_inv(L):
    e = L.e
    out = []
    for off in (0, 1):
        k = L.k + off
        for s in L.scalars_of('f64'):
            for p in L.phis_of('u32', 'u64', 'i64'):
                b = p.val
                out.append(('%s, %s best so far (%d)' % (s.name, p.name, off), And(0 <= b, b < k, s.val == S(e, b), e.forall(0, k, lambda j: zabs(S(e, j)) <= zabs(S(e, b))), e.forall(0, b, lambda j: zabs(S(e, j)) < zabs(S(e, b))))))
    return out


U32, DBL = llir.IntTy(32), llir.DOUBLE


SIX, SVX = z3.Array('sorted_idx', z3.IntSort(), z3.IntSort()), z3.Array('sorted_val', z3.IntSort(), z3.RealSort())


def partial_sort(ex, st, args, ins):
    """contract of std::partial_sort for indexed scores, ordered by CompareOutputWiseCriteria (contract 'larger'): the elements are permuted such that the first ones are the largest, in order"""
    first, mid, last = args[:3]
    if not (first.r is mid.r is last.r):
        raise Unsupported('partial_sort over several regions')
    r = first.r
    q = [lin_div(p.off, 16) for p in (first, mid, last)]
    if not all(q) or not (isinstance(q[0][0], int) and q[0][0] == 0):
        raise Unsupported('partial_sort on unaligned range')
    k, n = zi(q[1][0]), zi(q[2][0])
    ex.oblige(st, 'partial_sort: valid ranges', 'precondition', z3.And(0 <= k, k <= n))
    m = st.mem[r.id]
    if m.mode == 'cells':
        m = ex.promote(st, r, 16)
    m = m.copy()
    a, v = ex.field(st, r, m, 0, U32), ex.field(st, r, m, 8, DBL)
    na, nv = SIX, SVX
    if st.ghost.get('sorted'):
        raise Unsupported('several calls of partial_sort')
    st.ghost['sorted'] = True
    perm = z3.Function(fresh_name('perm'), z3.IntSort(), z3.IntSort())
    inv = z3.Function(fresh_name('inv'), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints(fresh_name('i') + ' ' + fresh_name('j'))
    rng = lambda x: z3.And(0 <= x, x < n)
    ex.assume(st, z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(perm(i)), inv(perm(i)) == i, na[i] == a[perm(i)], nv[i] == v[perm(i)])), patterns=[na[i]]))
    ex.assume(st, z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(perm(i)), inv(perm(i)) == i, na[i] == a[perm(i)], nv[i] == v[perm(i)])), patterns=[nv[i]]))
    ex.assume(st, z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(inv(i)), perm(inv(i)) == i, na[inv(i)] == a[i], nv[inv(i)] == v[i])), patterns=[a[i]]))
    ex.assume(st, z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(inv(i)), perm(inv(i)) == i, na[inv(i)] == a[i], nv[inv(i)] == v[i])), patterns=[inv(i)]))
    ex.assume(st, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < k, i < j, j < n), zabs(nv[i]) >= zabs(nv[j])), patterns=[z3.MultiPattern(nv[i], nv[j])]))
    for off, new in ((0, na), (8, nv)):
        t = m.fields[off]
        m.fields[off] = (t[0], new) + tuple(t[2:])
    st.mem[r.id] = m


def fixed_ens(e):
    sel = lambda i: And(0 <= e.post.oi[i], e.post.oi[i] < e.n, near(e, e.post.out[i], S(e, e.post.oi[i])))
    a, b = (z3.Ints(fresh_name('a') + ' ' + fresh_name('b')) if e.sym else (None, None))
    if e.sym:
        distinct = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < e.np), e.post.oi[a] != e.post.oi[b]))
        order = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < e.np), zabs(e.post.out[a]) >= zabs(e.post.out[b])))
    else:
        o = [e.post.oi[i] for i in range(e.np)]
        distinct = len(set(o)) == len(o)
        order = all(abs(e.post.out[i]) >= abs(e.post.out[i + 1]) - 1e-12 for i in range(e.np - 1))
    return [('predicted outputs exist and get their optimal scores', e.forall(0, e.np, sel)), ('predicted outputs are distinct', distinct), ('predictions are ordered by absolute score', order),
            ('the other outputs have no larger absolute scores', e.forall(0, e.n, lambda j: e.forall(0, e.np, lambda i: Or(zabs(S(e, j)) <= zabs(e.post.out[i]) + (0 if e.sym else 1e-12), member(e, e.post.oi, e.np, j))))),
            ('quality is the sum of the qualities of the predicted outputs', near(e, e.post.q[0], total(e, e.np, lambda i: Q(e, e.post.oi[i] if not e.sym else SIX[i])))),
            ('the order is the sorted one', e.forall(0, e.np, lambda i: e.post.oi[i] == SIX[i]) if e.sym else True)]


def fixed_inv(L):
    e = L.e
    out = []
    fs = L.mods_of('f64')
    for m in fs:
        out.append(('%s %d scores of the outputs' % (m.name, m.field), e.forall(0, L.k, lambda i: m.cur[i] == S(e, i))))
    for m in L.mods_of('u32'):
        out.append(('%s %d positions' % (m.name, m.field), e.forall(0, L.k, lambda i: m.cur[i] == i)))
        out.append(('%s %d sorted outputs' % (m.name, m.field), e.forall(0, L.k, lambda i: m.cur[i] == SIX[i])))
    for m in fs:
        out.append(('%s %d sorted scores' % (m.name, m.field), e.forall(0, L.k, lambda i: m.cur[i] == SVX[i])))
    for s in L.scalars_of('f64'):
        out.append(('%s quality' % s.name, s.val == total(e, L.k, lambda i: Q(e, SIX[i]))))
    return out


# ------------------------------------------------------------------ dynamic heads
def mn(e, n):
    return e.fold('mn', lambda: zabs(S(e, 0)), lambda acc, i: If(zabs(S(e, i)) < acc, zabs(S(e, i)), acc), n)


def mx(e, n):
    return e.fold('mx', lambda: zabs(S(e, 0)), lambda acc, i: If(zabs(S(e, i)) > acc, zabs(S(e, i)), acc), n)


def chosen(e, i):
    return e.fun('chosen', zi(i), sort='bool') if e.sym else reaches(e, i)


def DAX(e):
    i = z3.Int('ax_i')
    f = chosen(e, i)
    return [z3.ForAll([i], f == reaches(e, i), patterns=[f])]


def reaches(e, i):
    p = lambda x: e.fp.bi('pow', x, e.exponent)
    return p(zabs(S(e, i)) - mn(e, e.n)) >= p(mx(e, e.n) - mn(e, e.n)) * (1.0 - e.threshold)


def CNT(e, n):
    return e.count('chosen', n, lambda i: chosen(e, i)) if e.sym else sum(1 for i in range(n) if chosen(e, i))


def dyn_ens(e):
    return [('number of predictions', e.ret == CNT(e, e.n)),
            ('exactly the outputs whose absolute score reaches the threshold are predicted, in order', e.forall(0, e.n, lambda i: Implies(chosen(e, i), And(e.post.oi[CNT(e, i)] == i, near(e, e.post.out[CNT(e, i)], S(e, i)))))),
            ('quality is the sum of the qualities of the predicted outputs', near(e, e.post.q[0], total(e, e.n, lambda i: If(chosen(e, i), Q(e, i), 0.0), 'qd')))]


def dyn_inv(L):
    e = L.e
    out = []
    for s in L.scalars_of('f64'):
        for off in (0, 1):
            out += [('%s minimum (%d)' % (s.name, off), s.val == mn(e, L.k + off)), ('%s maximum (%d)' % (s.name, off), s.val == mx(e, L.k + off))]
        out.append(('%s quality' % s.name, s.val == total(e, L.k, lambda i: If(chosen(e, i), Q(e, i), 0.0), 'qd')))
    for off in (0, 1):
        out.append(('minimum does not exceed maximum (%d)' % off, mn(e, L.k + off) <= mx(e, L.k + off)))
    for p in L.phis_of('u32', 'u64', 'i64'):
        out.append(('%s number of predictions' % p.name, And(p.val == CNT(e, L.k), p.val <= L.k)))
    if L.mods_of('u32'):
        out += [('positions ascending', e.forall(0, L.k, lambda i: Implies(chosen(e, i), And(0 <= CNT(e, i), CNT(e, i) < CNT(e, L.k))))), ('positions bounded', And(0 <= CNT(e, L.k), CNT(e, L.k) <= L.k))]
    for m in L.mods_of('f64'):
        out.append(('%s scores' % m.name, e.forall(0, L.k, lambda i: Implies(chosen(e, i), m.cur[CNT(e, i)] == S(e, i)))))
    for m in L.mods_of('u32'):
        out.append(('%s outputs' % m.name, e.forall(0, L.k, lambda i: Implies(chosen(e, i), m.cur[CNT(e, i)] == i))))
    return out


def st_score(ex, st, args, ins):
    """contract of calculateOutputWiseScore (see contract 'score')"""
    e = ex.env
    g, h, l1, l2 = map(toreal, args)
    ex.oblige(st, 'calculateOutputWiseScore: regularisation weights', 'precondition', z3.And(l1 == e.l1, l2 == e.l2))
    return e.fun('score', g, h)


def st_quality(ex, st, args, ins):
    """contract of calculateOutputWiseQuality (see contract 'quality')"""
    e = ex.env
    s, g, h, l1, l2 = map(toreal, args)
    ex.oblige(st, 'calculateOutputWiseQuality: regularisation weights', 'precondition', z3.And(l1 == e.l1, l2 == e.l2))
    return e.fun('qual', s, g, h)


CALC = {'re:^boosting::calculateOutputWiseScore\\(': st_score, 're:^boosting::calculateOutputWiseQuality\\(': st_quality}
TH = [Sc('threshold', 'f32', 0, 1), Sc('exponent', 'f32', 1, 16)]
HEADS = [
    Contract('complete', 'h_complete', STAT + OUT + QO, ensures=complete_ens, invs=[complete_inv], extra_axioms=AX, requires=pos_h),
    Contract('complete_partial', 'h_complete_p', STAT + IND + OUT + QO, ensures=complete_ens, invs=[complete_inv], extra_axioms=AX, requires=pos_h),
    Contract('single', 'h_single', STAT + OUT + OI + QO, ensures=single_ens, invs=[single_inv], extra_axioms=AX, requires=pos_h),
    Contract('single_partial', 'h_single_p', STAT + IND + OUT + OI + QO, ensures=single_ens, invs=[single_inv], extra_axioms=AX, requires=pos_h),
    Contract('fixed', 'h_fixed', STAT + [Sc('np', 'u32', 1, BIG)] + OUT + OI + QO, ensures=fixed_ens, invs=[fixed_inv], extra_axioms=AX, requires=lambda e: pos_h(e) + [e.np <= e.n]),
    Contract('dynamic', 'h_dynamic', STAT + TH + OUT + OI + QO, 'u32', ensures=dyn_ens, invs=[dyn_inv], extra_axioms=DAX, stubs=CALC, requires=pos_h),
]


def fvals(rng, n, neg=True):
    r = [rng.choice([0.0, 1.0, 0.5, 2.0, 0.25, rng.uniform(0, 4)]) for _ in range(n)]
    return [x * rng.choice([1, -1]) for x in r] if neg else r


def gen(c):
    def g(rng):
        n = rng.randint(1, 6)
        kind = rng.randrange(4)
        d = dict(s={'g': fvals(rng, n), 'h': fvals(rng, n, False)}, n=n, l1=rng.choice([0.0, 0.0, 0.5, 1.0, 0.3]), l2=rng.choice([0.0, 1.0, 0.5, 2.0]), out=[9.0] * n, oi=[77] * n, q=[9.0],
                 ind=sorted(rng.sample(range(12), n)), np=rng.randint(1, n), threshold=rng.choice([0.0, 0.015625, 0.5, 1.0, 0.25, 0.875]), exponent=rng.choice([1.0, 2.0, 3.0, 1.5]),
                 kind=kind, sub=rng.random() < .5, sparse=rng.random() < .5 and kind > 0, prev={'g': fvals(rng, n), 'h': fvals(rng, n, False)}, ratio=rng.choice([0.1, 0.3, 0.5, 0.9]), lo=rng.choice([1, 1, 2, 3]), hi=rng.choice([0, 0, 1, 2, 3]))
        d['hi'] = d['hi'] and max(d['hi'], d['lo'])
        if d['sparse']:
            d['s']['g'] = [x or 1.0 for x in d['s']['g']]
        if 'nd' in c.name:
            d['kind'] = {'nd_complete': 0, 'nd_fixed': 2, 'nd_dynamic': 3}[c.name]
            m = rng.choice([[rng.randint(-2, 2) for _ in range(n * n)], [float(i == j) for i in range(n) for j in range(n)]])
            H = [[sum(m[r * n + k] * m[cc * n + k] for k in range(n)) + (r == cc) * (1 + r % 2) for cc in range(n)] for r in range(n)]
            d['h'] = [float(H[cc][r]) for cc in range(n) for r in range(cc + 1)]
            d['t'] = len(d['h'])
            d['g'], d['pg'] = fvals(rng, n), fvals(rng, n)
        return {p.name: d[p.name] for p in c.params}
    return g


# ------------------------------------------------------------------ factories, sparse statistics, repeated use (bounded)
def bounded(n, ratio, lo, hi):
    import numpy as np
    x = int(np.ceil(np.float32(ratio) * np.float32(n)))
    lo = min(lo, n)
    return lo if x < lo else hi if hi >= lo and x > hi else x


def heads(e, kind, sc):
    """positions of the predicted outputs"""
    n = e.n
    if e.sub and kind in (2, 3) or kind == 0:
        return list(range(n))
    if kind == 1:
        return [max(range(n), key=lambda i: (abs(sc[i]), -i))]
    if kind == 2:
        m = bounded(n, e.ratio, e.lo, e.hi)
        o = [e.post.oi[i] for i in range(e.ret)]
        rest = [abs(sc[i]) for i in range(n) if i not in o]
        ok = len(o) == m and len(set(o)) == m and all(0 <= i < n for i in o) and all(abs(sc[i]) >= max(rest + [0.0]) - 1e-12 for i in o) and all(abs(sc[o[i]]) >= abs(sc[o[i + 1]]) - 1e-12 for i in range(m - 1))
        return o if ok else None
    mi, ma = min(map(abs, sc)), max(map(abs, sc))
    return [i for i in range(n) if e.fp.bi('pow', abs(sc[i]) - mi, e.exponent) >= e.fp.bi('pow', ma - mi, e.exponent) * (1.0 - e.threshold)]


def fac_ens(e):
    sc = [S(e, i) for i in range(e.n)]
    o = heads(e, e.kind, sc)
    r = [('outputs predicted by the head', o is not None and e.ret == len(o))]
    if o is None or e.ret != len(o):
        return r
    m = len(o)
    r += [('indices of the predicted outputs', all(e.post.oi[j] == (e.ind[o[j]] if e.sub else o[j]) for j in range(m))),
          ('each output gets its optimal score', all(near(e, e.post.out[j], sc[o[j]]) for j in range(m))),
          ('quality is the sum of the qualities of the predicted outputs', near(e, e.post.q[0], sum(Q(e, i) for i in o)))]
    return r


def solve(M, b):
    n = len(b)
    A = [list(map(float, M[i])) + [float(b[i])] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(A[r][i]))
        A[i], A[p] = A[p], A[i]
        if A[i][i] == 0:
            return None
        for r in range(n):
            if r != i:
                f = A[r][i] / A[i][i]
                A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return [A[i][n] / A[i][i] for i in range(n)]


def tri(i, j):
    i, j = min(i, j), max(i, j)
    return j * (j + 1) // 2 + i


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def nd_ens(e):
    n = e.n
    soft = lambda x: x - e.l1 if x > e.l1 else x + e.l1 if x < -e.l1 else 0.0
    sc = [score_def(e, e.g[i], e.h[tri(i, i)]) for i in range(n)]
    o = heads(e, e.kind, sc)
    if o is None and e.kind == 2:
        return [('outputs predicted by the head', False)]
    m = len(o)
    out = [('outputs predicted by the head', e.ret == m and all(e.post.oi[j] == (e.ind[o[j]] if e.sub else o[j]) for j in range(m)))]
    if not out[0][1]:
        return out
    H = lambda a, b: e.h[tri(o[a], o[b])]
    x = [e.post.out[j] for j in range(m)]

    def quality(hs, gs):
        return sum(gs(a) * x[a] for a in range(m)) + 0.5 * sum(x[a] * hs(a, b) * x[b] for a in range(m) for b in range(m)) + sum(e.l1 * abs(v) + 0.5 * e.l2 * v * v for v in x)

    want = solve([[H(a, b) + (a == b) * e.l2 for b in range(m)] for a in range(m)], [soft(-e.g[i]) for i in o])
    ok = all(close(a, b) for a, b in zip(x, want))
    part = e.kind != 0 and not e.sub
    sfx = ''
    if not ok and part and e.kind == 2:
        # documented faulty behaviour: the Hessian of outputs that are not in ascending order is looked up at the wrong position
        bad = lambda a, b: e.h[o[max(a, b)] * (o[max(a, b)] + 1) // 2 + o[min(a, b)]]
        w2 = solve([[bad(a, b) + (a == b) * e.l2 for b in range(m)] for a in range(m)], [soft(-e.g[i]) for i in o])
        if w2 is None or all(close(a, b) for a, b in zip(x, w2)):
            sfx = ' (wrong Hessians are used if the outputs are not in ascending order)'
    out.append(('scores solve the regularised system of linear equations' + sfx, ok))
    qok = close(e.post.q[0], quality(H, lambda a: e.g[o[a]]))
    sfx = ''
    if not qok and part and close(e.post.q[0], quality(lambda a, b: e.h[tri(a, b)], lambda a: e.g[a])):
        sfx = ' (the statistics of the first outputs are used)'
    out.append(('quality is the regularised objective for these scores' + sfx, qok))
    return out


def nd_throws(e):
    """with the documented wrong Hessians, the system of linear equations may be singular"""
    if e.kind != 2 or e.sub:
        return False
    m = bounded(e.n, e.ratio, e.lo, e.hi)
    for g in (e.pg, e.g):       # the evaluation object is used twice
        sc = [abs(score_def(e, g[i], e.h[tri(i, i)])) for i in range(e.n)]
        if any(abs(sc[i] - sc[j]) <= 1e-9 for i in range(e.n) for j in range(i)):
            return None
        o = sorted(range(e.n), key=lambda i: -sc[i])[:m]
        bad = lambda a, b: e.h[o[max(a, b)] * (o[max(a, b)] + 1) // 2 + o[min(a, b)]]
        if solve([[bad(a, b) + (a == b) * e.l2 for b in range(m)] for a in range(m)], [0.0] * m) is None:
            return None
    return False


GEN = [Sc('ratio', 'f32'), Sc('lo', 'u32'), Sc('hi', 'u32')] + TH + OUT + OI + QO
FAC = [Contract('factories', 'h_dec_factory', [Sc('kind', 'u32'), Sc('sub', 'bool'), Sc('sparse', 'bool')] + STAT + IND + [Arr('prev', T2, 'n')] + GEN, 'u32', ensures=fac_ens, prove=False,
                bounded_note='evaluators created by the factories (virtual calls), including sparse statistics and repeated use')]
NDP = [Sc('kind', 'u32'), Sc('sub', 'bool'), Sc('n', 'u32'), Arr('g', 'f64', 'n'), Arr('h', 'f64', 't'), Sc('t', 'u32')] + L12 + IND + [Arr('pg', 'f64', 'n')] + GEN
for k in ('nd_complete', 'nd_fixed', 'nd_dynamic'):
    FAC.append(Contract(k, 'h_nd_factory', NDP, 'u32', ensures=nd_ens, prove=False, throws=nd_throws, bounded_note='the linear system is solved by LAPACK (replaced by an exact Gaussian elimination)'))
for c in HEADS + FAC:
    c.gen = gen(c)
HEADS[4].stubs = {'re:^void std::partial_sort<IndexedValue<double>\\*, boosting::CompareOutputWiseCriteria>': partial_sort}
UNITS = [{'harness': 'h_score.cpp', 'contracts': [SCORE, QUALITY, LARGER] + HEADS[:5] + FAC, 'opaque': ['^void std::partial_sort<IndexedValue<double>\\*, boosting::CompareOutputWiseCriteria>']},
         {'harness': 'h_score.cpp', 'contracts': HEADS[5:], 'opaque': [k[3:] for k in CALC]}]
