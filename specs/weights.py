from lib import *
from indices import available, total_req, distinct, inv_of, below
"""contracts of the instance sampling methods"""
STUBS = dict(SAMPLING_STUBS)
STUBS['re:' + BF] = bf_stub
OPAQUE = SAMPLING_OPAQUE + [BF]


def wreq(e):
    return total_req(e, False) + [e.forall(0, e.nt, lambda i: e.total[i] < e.n), e.nt <= e.n]


def w_ens(num, av, n):
    def ens(e):
        return [('only available examples are selected', e.forall(0, n(e), lambda p: Implies(e.post.out[p] != 0, av(e, p)))),
                ('weights are 0 or 1', e.forall(0, n(e), lambda p: Or(e.post.out[p] == 0, e.post.out[p] == 1))),
                ('exactly the demanded number of examples is selected', e.agg('sum', e.post.out, n(e)) == num(e)),
                ('reported number of non-zero weights', e.ret == num(e))]
    return ens


def inv_w(av, n, num):
    def inv(L):
        e = L.e
        W = ghost_view(L, 'weights')
        if W is None:
            return []
        k = L.k if L.parent is None else L.parent.k
        out = [('selected examples are available', e.forall(0, n(e), lambda p: Implies(W[p] != 0, av(e, p)))),
               ('weights are 0 or 1', e.forall(0, n(e), lambda p: Or(W[p] == 0, W[p] == 1)))]
        # (a) sampling loops
        out += [('number of selected examples', e.agg('sum', W, n(e)) == k)]
        sel = [m for m in L.mods if m.name == 'selected']
        for m in sel:
            out.append(('selected examples are remembered', e.forall(0, n(e), lambda p: Implies(W[p] != 0, m.cur[p] == 1))))
            if L.parent is not None:
                for b in L.phis_of('u8', 'bool'):
                    for s in L.scalars_of('u32'):
                        v = s.val if isz(s.val) or isinstance(s.val, int) else z3.Int(fresh_name('any'))
                        out.append(('if %s signals success, %s is a new example' % (b.name, s.name), Or(b.val != 0, And(av(e, v), m.cur[v] == 1, W[v] == 0))))
        for m in L.mods_of('u32'):
            if m.name == 'heap':
                out += [('pool: initialised', e.forall(0, L.k, lambda i: m.cur[i] == src(e, i))),
                        ('pool: distinct', distinct(e, m.cur, e.nt - L.k)), ('pool: available', e.forall(0, e.nt - L.k, lambda i: And(av(e, m.cur[i]), m.cur[i] < n(e)))),
                        ('pool: not selected yet', e.forall(0, e.nt - L.k, lambda i: W[m.cur[i]] == 0))]
        # (b) training examples visited one by one
        if hasattr(e, 'total'):
            out.append(('visited examples are selected', e.forall(0, n(e), lambda p: (W[p] != 0) == And(av(e, p), inv_of(e, p) < L.k))))
        # (c) reading the result
        o = cur(L, 'out')
        out += [('weights read', e.forall(0, L.k, lambda p: o[p] == W[p])), ('sum of weights read', e.agg('sum', o, L.k) == e.agg('sum', W, L.k)),
                ('sum of weights', e.agg('sum', W, n(e)) == num(e))]
        return out

    def src(e, i):
        return e.total[i] if hasattr(e, 'total') else i
    return inv


TOT = [Arr('total', 'u32', 'nt'), Sc('nt', 'u32', 0, 2 ** 28)]
NS = [Sc('ns', 'u32', 0, 2 ** 28)]
OUT = [Arr('out', 'u8', 'n', out=True), Sc('n', 'u32', 0, 2 ** 28), Sc('seed', 'u32')]
SIZE = [Sc('size', 'f32'), Sc('mn', 'u32'), Sc('mx', 'u32')]
WITHOUT = []
nn = lambda e: e.n
ns = lambda e: e.ns
nbf = lambda e: bf(e, e.nt, e.size, e.mn, e.mx)
for nm in ('tracking', 'pool', 'any'):
    WITHOUT.append(Contract('weights_' + nm, 'h_w_' + nm, TOT + NS + OUT, 'u32', requires=lambda e: wreq(e) + [e.ns <= e.nt], ensures=w_ens(ns, available, nn),
                            invs=[inv_w(available, nn, ns)], stubs=STUBS))
nt = lambda e: e.nt
WITHOUT.append(Contract('weights_range', 'h_w_range', [TOT[1]] + NS + [Arr('out', 'u8', 'nt', out=True), Sc('seed', 'u32')], 'u32', requires=lambda e: [e.ns <= e.nt],
                        ensures=w_ens(ns, below, nt), invs=[inv_w(below, nt, ns)], stubs=STUBS))
WITHOUT.append(Contract('without_replacement_bi', 'h_without_bi', TOT + [OUT[1]] + SIZE + [OUT[0], OUT[2]], 'u32', requires=lambda e: wr(e), ensures=w_ens(nbf, available, nn),
                        invs=[inv_w(available, nn, nbf)], stubs=STUBS))
WITHOUT.append(Contract('without_replacement_single', 'h_without_single', [TOT[1]] + SIZE + [Arr('out', 'u8', 'nt', out=True), Sc('seed', 'u32')], 'u32', requires=lambda e: wr(e),
                        ensures=w_ens(nbf, below, nt), invs=[inv_w(below, nt, nbf)], stubs=STUBS))
WITHOUT.append(Contract('no_sampling_bi', 'h_no_bi', TOT + [OUT[1], OUT[0]], 'u32', requires=wreq, ensures=w_ens(nt, available, nn), invs=[inv_w(available, nn, nt)], stubs=STUBS))
WITHOUT.append(Contract('no_sampling_single', 'h_no_single', [TOT[1], Sc('j', 'u32'), Arr('w', 'u32', 1, out=True), Arr('zero', 'bool', 1, out=True)], 'u32',
                        requires=lambda e: [e.j < e.nt], ensures=lambda e: [('every example has weight 1', e.post.w[0] == 1), ('no zero weights', e.post.zero[0] == 0), ('number of non-zero weights', e.ret == e.nt)]))


def wr(e):
    r = wreq(e) if hasattr(e, 'total') else []
    return [x for x in r] + [e.size > 0, e.size <= 1, e.mn >= 1, Or(e.mx == 0, e.mx >= e.mn)]


def r_ens(av, n):
    def ens(e):
        return [('only available examples are selected', e.forall(0, n(e), lambda p: Implies(e.post.out[p] != 0, av(e, p)))),
                ('weights sum up to the demanded number of samples', e.agg('sum', e.post.out, n(e)) == nbf(e)),
                ('reported number of non-zero weights', e.ret == e.agg('nnz', e.post.out, n(e)))]
    return ens


def inv_r(av, n):
    def inv(L):
        e = L.e
        out = []
        for m in L.mods_of('u32'):
            if m.name == 'heap':
                out += [('sum of cleared weights', e.agg('sum', m.cur, L.k) == 0), ('number of cleared weights', e.agg('nnz', m.cur, L.k) == 0),
                        ('cleared', e.forall(0, L.k, lambda p: m.cur[p] == 0)),
                        ('selected examples are available', e.forall(0, n(e), lambda p: Implies(m.cur[p] != 0, av(e, p)))),
                        ('weights are bounded', e.forall(0, n(e), lambda p: And(0 <= m.cur[p], m.cur[p] <= L.k))),
                        ('number of samples', e.agg('sum', m.cur, n(e)) == L.k)]
                for s in L.scalars_of('u32'):
                    out.append(('%s is the number of non-zero weights' % s.name, e.agg('nnz', m.cur, n(e)) == s.val))
        return out
    return inv


WITH = [
    Contract('with_replacement_bi', 'h_with_bi', TOT + [OUT[1]] + SIZE + [Arr('out', 'u32', 'n', out=True), OUT[2]], 'u32', requires=lambda e: wr(e), ensures=r_ens(available, nn),
             invs=[inv_r(available, nn)], stubs=STUBS),
    Contract('with_replacement_single', 'h_with_single', [TOT[1]] + SIZE + [Arr('out', 'u32', 'nt', out=True), OUT[2]], 'u32', requires=lambda e: wr(e), ensures=r_ens(below, nt),
             invs=[inv_r(below, nt)], stubs=STUBS),
]
VECTORS = [
    Contract('has_zero_bit', 'h_has_zero_bit', [Sc('n', 'u32', 0, 2 ** 28), Sc('k', 'u32')], 'bool', requires=lambda e: [e.k <= e.n],
             ensures=lambda e: [('zero weights exist iff not all weights are non-zero', Iff(e.ret, e.k < e.n))]),
    Contract('has_zero_dense', 'h_has_zero_dense', [Sc('n', 'u32', 0, 2 ** 28), Sc('k', 'u32')], 'bool', requires=lambda e: [e.k <= e.n],
             ensures=lambda e: [('zero weights exist iff not all weights are non-zero', Iff(e.ret, e.k < e.n))]),
    Contract('out_of_sample_dense', 'h_out_of_sample_dense', [Arr('weights', 'u32', 'n'), Sc('n', 'u32', 1, 2 ** 28), Sc('j', 'u32'), Arr('len', 'u32', 1, out=True)], 'bool',
             requires=lambda e: [e.j < e.n], ensures=lambda e: [('out of sample iff weight is zero', Iff(e.ret, e.weights[e.j] == 0)), ('length', e.post.len[0] == e.n)]),
    Contract('out_of_sample_bit', 'h_out_of_sample_bit', [Sc('n', 'u32', 1, 2 ** 28), Sc('i', 'u32'), Sc('j', 'u32'), Arr('len', 'u32', 1, out=True)], 'bool', stubs=STUBS,
             requires=lambda e: [e.j < e.n, e.i < e.n], ensures=lambda e: [('out of sample iff weight is zero', Iff(e.ret, e.i != e.j)), ('length', e.post.len[0] == e.n)]),
]


def gen(c):
    def g(rng):
        n = rng.choice([1, 2, 3, 5, 8, 17, 33, 70, 120])
        k = rng.randint(1, n)
        mn = rng.choice([1, 1, 2, 5])
        d = dict(n=n, nt=k, total=rng.sample(range(n), k), ns=rng.choice([0, 1, k, rng.randint(0, k), rng.randint(0, k)]), out=[3] * n, seed=rng.randint(0, 2 ** 32 - 1),
                 size=rng.choice([0.01, 0.05, 0.33, 0.5, 0.7, 0.99, 1.0]), mn=mn, mx=rng.choice([0, 0, mn, mn + 1, mn + 7]), j=rng.randrange(n), i=rng.randrange(n), w=[5], zero=[True],
                 k=rng.randint(0, n), weights=[rng.choice([0, 0, 1, 3]) for _ in range(n)], len=[0])
        d['ns'] = min(d['ns'], k)
        if c.name in ('weights_range', 'without_replacement_single', 'with_replacement_single', 'no_sampling_single'):
            d['nt'] = n
        return {p.name: d[p.name] for p in c.params}
    return g


for c in WITHOUT + WITH + VECTORS:
    c.gen = gen(c)
