from contract import *


def peak_of(e):
    # a peak of zero means: the (rounded) average number of relevant labels, at least one
    if isz(e.total):
        r = e.fp.un('round', e.cardinality, 32)
        c = z3.ToInt(r)
        return z3.If(e.peak > 0, z3.If(e.peak < e.total, e.peak, e.total), z3.If(c < 1, 1, c))
    return min(e.peak, e.total) if e.peak > 0 else max(1, int(math.floor(e.cardinality + 0.5)))


def ir(i):
    return toreal(i) if isz(i) else float(i)


def peak_lift(e, n):
    p = peak_of(e)
    ex = e.fp.div(1.0, e.curvature, nonzero=True) if isz(n, e.curvature) else 1.0 / e.curvature
    d = lambda a, b: toreal(a) / toreal(b) if isz(a, b) else (a / b if b else 0.0)
    up = d(n - 1, p - 1)
    down = d(e.total - n, e.total - p)
    f = lambda b: 1 + e.fp.bi('pow', b, ex) * (e.maxLift - 1)
    if not isz(n, p):
        return e.maxLift if n == p else f(up) if n < p else f(down)
    return If(n == p, e.maxLift, If(n < p, f(up), f(down)))


def round_ax(e):
    """round() of the cardinality: integral and within one half"""
    r = e.fp.un('round', e.cardinality, 32)
    x, x1, x2, y = z3.Reals('x x1 x2 y')
    p = e.fp.f('pow64', 2)
    return [z3.IsInt(r), r >= e.cardinality - z3.RealVal('1/2'), r <= e.cardinality + z3.RealVal('1/2'),
            z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x <= 1, y > 0), z3.And(p(x, y) >= 0, p(x, y) <= 1)), patterns=[p(x, y)]),
            z3.ForAll([x1, x2, y], z3.Implies(z3.And(x1 >= 0, x1 <= x2, y > 0), p(x1, y) <= p(x2, y)), patterns=[z3.MultiPattern(p(x1, y), p(x2, y))])]


def req(e):
    r = [e.n >= 1, e.n <= e.total, e.m >= 1, e.m <= e.total]
    if e.sym and hasattr(e, 'peak'):
        r += round_ax(e)[:3]
    return r + [e.cardinality >= 0, e.cardinality <= e.total]


def inv(L):
    e = L.e
    out = []
    for m in L.mods_of('f64'):
        out.append(('bounds behind the peak equal the lift', e.forall(0, L.k, lambda i: m.cur[i] == peak_lift(e, peak_of(e) + i))))
    return out


def gen_peak(rng):
    t = rng.randint(1, 8)
    return {'total': t, 'cardinality': rng.choice([0.0, 0.4, 0.5, 1.0, 1.5, 2.5, float(t), t / 2]), 'peak': rng.choice([0, 0, 1, 2, 3, t, 9]),
            'maxLift': rng.choice([1.0, 1.08, 2.0, 1.5]), 'curvature': rng.choice([1.0, 2.0, 0.5, 3.0, 0.3]), 'n': rng.randint(1, t),
            'm': rng.randint(1, t), 'out': [0.0, 0.0]}


def gen2(c):
    def g(rng):
        d = gen_peak(rng)
        d['k'] = rng.choice([0.2, 1.0, 0.01, 3.0])
        return {p.name: d[p.name] for p in c.params}
    return g


base = [Sc('total', 'u32', 1, 2 ** 31), Sc('cardinality', 'f32', 0)]
tail = [Sc('n', 'u32', 1), Sc('m', 'u32', 1), Arr('out', 'f64', 2, out=True)]


def log_ax(e):
    x1, x2 = z3.Reals('lx1 lx2')
    p = e.fp.f('log64', 1)
    return [p(z3.RealVal(1)) == 0, z3.ForAll([x1, x2], z3.Implies(z3.And(x1 >= 1, x1 <= x2), p(x1) <= p(x2)), patterns=[z3.MultiPattern(p(x1), p(x2))])]


def ens_peak(e):
    return [('lift rises to its maximum at the peak and falls afterwards', e.fp.same(e.post.out[0], peak_lift(e, e.n))),
            ('lift lies between one and its maximum', And(e.fp.ge(e.post.out[0], 1.0), e.fp.le(e.post.out[0], e.maxLift))),
            ('the bound is at least the lift of every larger head', Implies(e.n >= e.m, e.fp.ge(e.post.out[1], e.post.out[0])))]


def ens_kln(e):
    want = lambda n: 1 + e.k * e.fp.un('log', ir(n))
    return [('lift grows with the logarithm of the number of labels', e.fp.same(e.post.out[0], want(e.n))),
            ('the bound is at least the lift of every larger head', Implies(e.n >= e.m, e.fp.ge(e.post.out[1], e.post.out[0])))]


CONTRACTS = [
    Contract('lift_peak', 'h_lift_peak', base + [Sc('peak', 'u32'), Sc('maxLift', 'f64', 1), Sc('curvature', 'f64', 1e-6)] + tail, requires=req,
             ensures=ens_peak, invs=[inv], extra_axioms=round_ax),
    Contract('lift_kln', 'h_lift_kln', base + [Sc('k', 'f64', 1e-9)] + tail, requires=req, ensures=ens_kln, extra_axioms=log_ax),
    Contract('lift_no', 'h_lift_no', base + tail, requires=req, ensures=lambda e: [
        ('no lift', And(e.fp.same(e.post.out[0], 1.0), e.fp.same(e.post.out[1], 1.0)))]),
]
for c in CONTRACTS:
    c.gen = gen2(c)
UNITS = [{'harness': 'h_lift.cpp', 'contracts': CONTRACTS}]
