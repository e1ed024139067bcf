from lib import *
"""numbers of samples, and the random number generator"""
from P07 import gen as gen7
N24 = 2 ** 24


def exact(e):
    return [e.fp.rnd(z3.ToReal(zi(e.n)), 32) == z3.ToReal(zi(e.n))] if e.sym else []


def bf_ens(e):
    if e.sym:
        x = e.fp.un('ceil', e.fp.mul(e.fraction, e.fp.rnd(z3.ToReal(zi(e.n)), 32), 32), 32)
        c = z3.ToInt(x)
    else:
        import numpy as np
        c = int(np.ceil(np.float32(e.fraction) * np.float32(e.n)))
    lo = If(e.minimum > e.n, e.n, e.minimum)
    want = If(c < lo, lo, If(And(e.maximum >= e.minimum, c > e.maximum), e.maximum, c))
    return [('fraction rounded up, within the given bounds', e.ret == want), ('not more than available', e.ret <= e.n),
            ('at least the minimum, if available', e.ret >= lo), ('at most the maximum', Implies(e.maximum >= e.minimum, e.ret <= e.maximum))]


BFC = Contract('bounded_fraction', 'h_bounded_fraction', [Sc('n', 'u32', 0, N24), Sc('fraction', 'f32'), Sc('minimum', 'u32'), Sc('maximum', 'u32')], 'u32', fmode='rnd',
               requires=lambda e: [e.fraction > 0, e.fraction <= 1] + exact(e), ensures=bf_ens)


def g(rng):
    n = rng.choice([0, 1, 2, 3, 5, 10, 100, 1000, rng.randint(0, N24), N24])
    mn = rng.choice([0, 1, 2, n, n + 1, rng.randint(0, n)])
    return dict(n=n, fraction=rng.choice([1.0, 0.5, 0.25, 0.1, 0.33, 0.66, 0.99999994, rng.uniform(1e-6, 1)]), minimum=mn, maximum=rng.choice([0, mn, max(0, mn - 1), mn + 1, mn + 5, n, 2 ** 32 - 1]))


BFC.gen = g
RNGC = [Contract('random_int', 'h_random_int', [Sc('seed', 'u32'), Sc('lo', 'u32'), Sc('hi', 'u32'), Arr('again', 'u32', 1, out=True)], 'u32', requires=lambda e: [e.lo < e.hi],
                 ensures=lambda e: [('within the given range', And(e.lo <= e.ret, e.ret < e.hi)), ('determined by the random state', e.ret == e.post.again[0])]),
        Contract('random_seq', 'h_random_seq', [Sc('seed', 'u32', 1), Sc('lo', 'u32'), Sc('hi', 'u32'), Arr('x', 'u32', 'n', out=True), Arr('y', 'u32', 'n', out=True), Sc('n', 'u32')], None,
                 prove=False, bounded_note='sequences of numbers drawn via the configuration', requires=lambda e: [e.lo < e.hi],
                 ensures=lambda e: [('within the given range', e.forall(0, e.n, lambda i: And(e.lo <= e.post.x[i], e.post.x[i] < e.hi))),
                                    ('equal seeds give equal sequences', e.forall(0, e.n, lambda i: e.post.x[i] == e.post.y[i])),
                                    ('the numbers vary', Or(e.n < 60, e.hi - e.lo < 2, len(set(e.post.x[i] for i in range(e.n))) > 1))])]


def gr(c):
    def g(rng):
        lo = rng.choice([0, 1, 5, rng.randint(0, 2 ** 20)])
        hi = lo + rng.choice([1, 1, 2, 3, 10, 1000, rng.randint(1, 2 ** 31)])
        n = rng.choice([1, 2, 60, 100])
        d = dict(seed=rng.choice([1, 1, 2, 2 ** 31, 2 ** 32 - 1, rng.randint(1, 2 ** 32 - 1)] + ([0] if c.name == 'random_int' else [])), lo=lo, hi=hi, again=[0], x=[0] * n, y=[0] * n, n=n)
        return {p.name: d[p.name] for p in c.params}
    return g


for c in RNGC:
    c.gen = gr(c)
UNITS = [{'harness': 'h_weights.cpp', 'contracts': [BFC]}, {'harness': 'h_part.cpp', 'contracts': RNGC}]
