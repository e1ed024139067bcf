from lib import *
from P11 import L12, T2, STAT, IND, OUT, OI, QO, GEN, S, score_def, obj, near, close, heads, bounded, gen as gen11, solve, tri
"""labels are grouped into bins that share a prediction"""
CR = [Arr('crit', 'f64', 'n', lo=-1e9, hi=1e9), Sc('n', 'u32', 0, 2 ** 24), Sc('ratio', 'f32', 0, 1), Sc('lo', 'u32', 1, 2 ** 20), Sc('hi', 'u32', 0, 2 ** 20)]


def info_ens(e):
    r = []
    for j, (nm, sel) in enumerate((('negative', lambda i: e.crit[i] < 0), ('positive', lambda i: e.crit[i] > 0))):
        m = e.count(nm, e.n, sel) if e.sym else sum(1 for i in range(e.n) if sel(i))
        want = If(m == 0, 0, e.fun('bf', zi(m), sort='int')) if e.sym else (bounded(m, e.ratio, e.lo, e.hi) if m else 0)
        r.append(('number of %s bins' % nm, e.post.bins[j] == want))
        a, b = e.post.lim[2 * j], e.post.lim[2 * j + 1]
        r.append(('limits of the %s criteria' % nm, Implies(m > 0, And(e.forall(0, e.n, lambda i: Implies(sel(i), And(a <= e.crit[i], e.crit[i] <= b))), e.exists(0, e.n, lambda i: And(sel(i), e.crit[i] == a)), e.exists(0, e.n, lambda i: And(sel(i), e.crit[i] == b))))))
    r.append(('enough bins are reserved', Implies(e.n > 0, e.ret >= e.post.bins[0] + e.post.bins[1])))
    return r


def bins_ens(e):
    neg, pos, mx = (e.post.num[i] for i in range(3))
    r = [('every label is assigned once', all(e.post.calls[i] == 1 for i in range(e.n))), ('number of bins is within the limit', neg + pos <= mx)]
    N, P = [i for i in range(e.n) if e.crit[i] < 0], [i for i in range(e.n) if e.crit[i] > 0]
    ok = True
    for ids, cnt, off in ((N, neg, 0), (P, pos, neg)):
        if not ids:
            ok = ok and cnt == 0
            continue
        a, b = min(e.crit[i] for i in ids), max(e.crit[i] for i in ids)
        for i in ids:
            k = e.post.bin[i] - off
            span = (b - a) / cnt
            ok = ok and 0 <= k < cnt and (span == 0 or a + k * span - 1e-9 <= e.crit[i] <= a + (k + 1) * span + 1e-9)
            if e.crit[i] == b and span > 0:
                ok = ok and k == cnt - 1
            if e.crit[i] == a:
                ok = ok and k == 0
        ok = ok and all(e.post.bin[i] <= e.post.bin[j] for i in ids for j in ids if e.crit[i] < e.crit[j])
    r.append(('labels are assigned to bins of equal width, separately for negative and positive criteria', ok))
    r.append(('labels with criterion zero are assigned to no bin', all(e.post.bin[i] == 1000000 for i in range(e.n) if e.crit[i] == 0)))
    return r


def partition(e, o, sc):
    """bin (numbered from 0) of each predicted label, None for labels with score zero"""
    out = [None] * len(o)
    off = 0
    for sgn in (-1, 1):
        ids = [j for j, i in enumerate(o) if sc[i] * sgn > 0]
        if not ids:
            continue
        cnt = bounded(len(ids), e.bratio, e.blo, e.bhi)
        v = [sc[o[j]] for j in ids]
        a, b = min(v), max(v)
        span = (b - a) / cnt
        for j in ids:
            x = (sc[o[j]] - a) / span if span else 0.0
            if abs(x - round(x)) < 1e-7 and 0 < round(x) < cnt:
                return None     # rounding decides
            out[j] = off + min(cnt - 1, int(x))
        off += cnt
    return out


SFX = ' (statistics of the first labels are aggregated instead)'


def dec_ens(e):
    sc = [S(e, i) for i in range(e.n)]
    o = heads(e, e.kind, sc)
    r = [('labels predicted by the head', o is not None and e.ret == len(o) and all(e.post.oi[j] == (e.ind[o[j]] if e.sub else o[j]) for j in range(len(o))))]
    if not r[0][1]:
        return r
    b = partition(e, o, sc)
    if b is None:
        return r

    def result(src):
        q, val = 0.0, {}
        for k in set(b) - {None}:
            ids = [j for j in range(len(o)) if b[j] == k]
            g, h, w = sum(e.s.g[src(j)] for j in ids), sum(e.s.h[src(j)] for j in ids), len(ids)
            s = score_def(e, g, h, w * e.l1, w * e.l2)
            q += obj(e, s, g, h, w * e.l1, w * e.l2)
            val[k] = s
        return all(near(e, e.post.out[j], val.get(b[j], 0.0)) for j in range(len(o))), near(e, e.post.q[0], q)

    v, q = result(lambda j: o[j])
    s = SFX if all(result(lambda j: j)) and e.kind != 0 and not e.sub else ''
    return r + [('labels in a bin get the optimal score of the bin, others zero' + ('' if v else s), v), ('quality is the sum of the qualities of the bins' + ('' if q else s), q)]


def nd_ens(e):
    n = e.n
    sc = [score_def(e, e.g[i], e.h[tri(i, i)]) for i in range(n)]
    o = heads(e, e.kind, sc)
    r = [('labels predicted by the head', o is not None and e.ret == len(o) and all(e.post.oi[j] == (e.ind[o[j]] if e.sub else o[j]) for j in range(len(o))))]
    if not r[0][1]:
        return r
    b = partition(e, o, sc)
    if b is None:
        return r
    ks = sorted(set(b) - {None})
    m = len(ks)
    ids = [[j for j in range(len(o)) if b[j] == k] for k in ks]

    def result(src):
        g = [sum(e.g[src(j)] for j in x) for x in ids]
        # Hessians of pairs of labels in the same bin are not taken into account (documented in the code)
        H = [[sum(e.h[tri(src(j), src(j))] for j in ids[x]) if x == y else sum(e.h[tri(src(i), src(j))] for i in ids[x] for j in ids[y]) for y in range(m)] for x in range(m)]
        soft = lambda x, l: x - l if x > l else x + l if x < -l else 0.0
        s = solve([[H[x][y] + (x == y) * len(ids[x]) * e.l2 for y in range(m)] for x in range(m)], [soft(-g[x], len(ids[x]) * e.l1) for x in range(m)])
        if s is None:
            return None, None
        if max(map(abs, s), default=0) > 1e4:
            return True, True
        q = sum(g[x] * s[x] for x in range(m)) + 0.5 * sum(s[x] * H[x][y] * s[y] for x in range(m) for y in range(m)) + sum(len(ids[x]) * (e.l1 * abs(s[x]) + 0.5 * e.l2 * s[x] ** 2) for x in range(m))
        want = {k: s[x] for x, k in enumerate(ks)}
        return all(close(e.post.out[j], want.get(b[j], 0.0)) for j in range(len(o))), close(e.post.q[0], q)

    v, q = result(lambda j: o[j])
    if v is None:
        return r
    s = SFX if all(result(lambda j: j)) and e.kind != 0 and not e.sub else ''
    return r + [('labels in a bin get the score that solves the aggregated system of linear equations, others zero' + ('' if v else s), v), ('quality is the objective of the aggregated statistics' + ('' if q else s), q)]


def st_bf(ex, st, args, ins):
    """contract of calculateBoundedFraction (P08): monotone in the number of elements"""
    e = ex.env
    n, f, lo, hi = args
    ex.oblige(st, 'calculateBoundedFraction: bounds', 'precondition', z3.And(toreal(f) == toreal(e.ratio), zi(lo) == e.lo, zi(hi) == e.hi))
    return e.fun('bf', zi(n), sort='int')


def bf_ax(e):
    a, b = z3.Ints('bf_a bf_b')
    f = lambda x: e.fun('bf', x, sort='int')
    return [z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b), f(a) <= f(b)), patterns=[z3.MultiPattern(f(a), f(b))]), z3.ForAll([a], z3.Implies(a >= 0, z3.And(f(a) >= 0, f(a) <= a)), patterns=[f(a)]),
            z3.ForAll([a], z3.Implies(a >= 1, f(a) >= 1), patterns=[f(a)])]


def info_inv(L):
    e = L.e
    out = []
    for nm, sel in (('negative', lambda i: e.crit[i] < 0), ('positive', lambda i: e.crit[i] > 0)):
        c = e.count(nm, L.k, sel)
        out.append(('number of %s' % nm, And(0 <= c, c <= L.k)))
        for p in L.phis_of('u32'):
            out.append(('%s counts %s' % (p.name, nm), And(p.val == c, c <= L.k, c >= 0)))
        for s in L.scalars_of('f64'):
            hit = And(sel_any(e, L.k, sel, s.val))
            nonzero = 0 if nm == 'negative' else 2e9
            out.append(('%s lower limit %s' % (s.name, nm), And(Implies(c == 0, e.fp.le(nonzero, s.val)), e.forall(0, L.k, lambda i: Implies(sel(i), e.fp.le(s.val, e.crit[i]))), Implies(c > 0, hit))))
            nonzero = 0 if nm == 'positive' else -2e9
            out.append(('%s upper limit %s' % (s.name, nm), And(Implies(c == 0, e.fp.le(s.val, nonzero)), e.forall(0, L.k, lambda i: Implies(sel(i), e.fp.le(e.crit[i], s.val))), Implies(c > 0, hit))))
    return out


def sel_any(e, k, sel, v):
    return e.exists(0, k, lambda i: And(sel(i), e.fp.eq(e.crit[i], v)))


INFO = Contract('label_info', 'h_label_info', CR + [Arr('bins', 'u32', 2, out=True), Arr('lim', 'f64', 4, out=True)], 'u32', ensures=info_ens, invs=[info_inv], extra_axioms=bf_ax, nan_ok=True,
                requires=lambda e: [e.ratio > 0, Or(e.hi == 0, e.hi >= e.lo), e.forall(0, e.n, lambda i: And(e.crit[i] <= 1e9, e.crit[i] >= -1e9))], stubs={'re:^(unsigned int )?util::calculateBoundedFraction': st_bf})
BINS = Contract('create_bins', 'h_create_bins', CR + [Arr('bin', 'u32', 'n', out=True), Arr('calls', 'u32', 'n', out=True), Arr('num', 'u32', 3, out=True)], 'u32', ensures=bins_ens, prove=False,
                bounded_note='callbacks passed as std::function objects')
B = [Sc('bratio', 'f32'), Sc('blo', 'u32'), Sc('bhi', 'u32')]
G2 = GEN[:5] + B + OUT + OI + [Arr('bins', 'u32', 'n', out=True)] + QO
BOUND = 'evaluators created by the factories (virtual calls, std::function objects)'
DEC = [Contract('dec_' + k, 'h_dec_binned', [Sc('kind', 'u32'), Sc('sub', 'bool'), Sc('sparse', 'bool')] + STAT + IND + [Arr('prev', T2, 'n')] + G2, 'u32', ensures=dec_ens, prove=False, bounded_note=BOUND) for k in ('complete', 'fixed', 'dynamic')]
NDP = [Sc('kind', 'u32'), Sc('sub', 'bool'), Sc('n', 'u32'), Arr('g', 'f64', 'n'), Arr('h', 'f64', 't'), Sc('t', 'u32')] + L12 + IND + [Arr('pg', 'f64', 'n')] + G2
ND = [Contract('nd_' + k, 'h_nd_binned', NDP, 'u32', ensures=nd_ens, prove=False, throws=lambda e: None, bounded_note=BOUND + '; the linear system is solved by LAPACK (replaced by Gaussian elimination)') for k in ('complete', 'fixed', 'dynamic')]
KIND = {'complete': 0, 'fixed': 2, 'dynamic': 3}


def gcrit(c):
    def g(rng):
        n = rng.randint(0, 12)
        lo = rng.choice([1, 1, 2, 3])
        return {p.name: d[p.name] for d in [dict(n=n, crit=[rng.choice([0.0, 1.0, -1.0, 0.5, -2.0, rng.uniform(-3, 3), 4.0]) for _ in range(n)], ratio=rng.choice([0.04, 0.25, 0.5, 0.9]), lo=lo, hi=rng.choice([0, 0, lo, lo + 1, 5]),
                                            bins=[0, 0], lim=[0.0] * 4, bin=[7] * n, calls=[0] * n, num=[0] * 3)] for p in c.params}
    return g


def gbin(c):
    def g(rng):
        base = Contract(c.name, c.fn, [p for p in c.params if p.name not in ('bratio', 'blo', 'bhi', 'bins')])
        d = gen11(base)(rng)
        d['kind'] = KIND[c.name.split('_')[1]]
        if 'sparse' in d and d['kind'] == 0:
            d['sparse'] = False
        d['bratio'], d['blo'] = rng.choice([0.04, 0.25, 0.5, 0.9]), rng.choice([1, 1, 2, 3])
        d['bhi'] = rng.choice([0, 0, d['blo'], d['blo'] + 1])
        d['bins'] = [0] * d['n']
        return {p.name: d[p.name] for p in c.params}
    return g


for c in (INFO, BINS):
    c.gen = gcrit(c)
for c in DEC + ND:
    c.gen = gbin(c)
UNITS = [{'harness': 'h_binning.cpp', 'contracts': [INFO, BINS] + DEC + ND, 'opaque': ['^(unsigned int )?util::calculateBoundedFraction']}]
