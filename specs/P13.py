from lib import *
from P16 import at

# ------------------------------------------------------------------ decomposable statistics
T2 = [('g', 'f64'), ('h', 'f64')]
DD = [Arr('v', T2, 'n', out=True), Sc('n', 'u32', 0, BIG), Arr('m', T2, lambda e: e.nr * e.nc), Sc('nr', 'u32', 1, 2 ** 14), Sc('nc', 'u32', 0, 2 ** 14), Sc('row', 'u32', 0)]
W = [Sc('w', 'f64', -1e6, 1e6)]
PART = [Arr('ind', 'u32', 'np'), Sc('np', 'u32', 0, BIG)]


def shape(e):
    r = [e.row < e.nr]
    if e.sym:
        p, q = e.nr * e.nc, e.row * e.nc
        r += [p >= 0, p <= 2 ** 28, q >= 0, q + e.nc <= p]
    if hasattr(e, 'ind'):
        r += [e.n == e.np, ascending(e, e.ind, e.np, e.nc)]
    else:
        r += [e.n == e.nc]
    return r


def src(e, i):
    """position of the i-th output in the row"""
    return at(e, e.row, e.ind[i] if hasattr(e, 'ind') else i)


def sign(e):
    return -1.0 if e.minus else 1.0


def dd_new(e, f, i, minus):
    """contents of an element after the operation"""
    x = getattr(e.m, f)[src(e, i)]
    if hasattr(e, 'w'):
        x = x * e.w
    o = getattr(e.v, f)[i]
    return o - x if minus else o + x


def elementwise(new):
    """every element of the vector v gets the value new(e, field, i)"""
    def ens(e):
        return [('%s of every output' % ('sum of gradients' if f == 'g' else 'sum of Hessians'), e.forall(0, e.n, lambda i: e.fp.same(getattr(e.post.v, f)[i], new(e, f, i)))) for f in 'gh']

    def inv(L):
        e = L.e
        out = []
        for m in L.mods_of('f64'):
            f = 'g' if m.field == 0 else 'h'
            ent = m.entry
            out.append(('%s %s updated so far' % (m.name, f), e.forall(0, e.n, lambda i: m.cur[i] == If(i < L.k, new(e, f, i), ent[i]))))
        return out
    return ens, inv


def C(name, fn, params, new, requires, **kw):
    ens, inv = elementwise(new)
    return Contract(name, fn, params, requires=requires, ensures=ens, invs=[inv], **kw)


CONTRACTS = []
for nm, extra, minus in (('add', [], 0), ('add_w', W, 0), ('remove', [], 1), ('remove_w', W, 1), ('subset_c', [], 0), ('subset_c_w', W, 0), ('subset_p', PART, 0), ('subset_p_w', W + PART, 0)):
    CONTRACTS.append(C('dd_' + nm, 'h_dd_' + nm, DD + extra, (lambda mi: lambda e, f, i: dd_new(e, f, i, mi))(minus), shape))
V = DD[:2]
CONTRACTS.append(C('dd_vec', 'h_dd_vec', V + [Arr('o', T2, 'n')], lambda e, f, i: getattr(e.v, f)[i] + getattr(e.o, f)[i], None))


def copy_inv(L):
    e = L.e
    return [('%s %d copied so far' % (m.name, m.field), e.forall(0, e.n, lambda i: m.cur[i] == If(i < L.k, getattr(e.o, 'g' if m.field == 0 else 'h')[i], m.entry[i]))) for m in L.mods_of('f64')]


CONTRACTS[-1].invs.append(copy_inv)
CONTRACTS.append(C('dd_clear', 'h_dd_clear', V, lambda e, f, i: 0.0, None))
CONTRACTS.append(C('dd_diff_c', 'h_dd_diff_c', V + [Arr('f', T2, 'n'), Arr('s', T2, 'n')], lambda e, f, i: getattr(e.f, f)[i] - getattr(e.s, f)[i], None))
CONTRACTS.append(C('dd_diff_p', 'h_dd_diff_p', V + [Arr('f', T2, 'nf'), Sc('nf', 'u32', 0, BIG), Arr('s', T2, 'n')] + PART, lambda e, f, i: getattr(e.f, f)[e.ind[i]] - getattr(e.s, f)[i],
                   lambda e: [e.n == e.np, ascending(e, e.ind, e.np, e.nf)]))

# ------------------------------------------------------------------ non-decomposable statistics
tri = lambda n: n * (n + 1) // 2
ND = [Arr('g', 'f64', 'n', out=True), Sc('n', 'u32', 0, 2 ** 14), Arr('h', 'f64', 't', out=True), Sc('t', 'u32', 0, BIG)]
MAT = [Arr('mg', 'f64', lambda e: e.nr * e.nc), Arr('mh', 'f64', lambda e: e.nr * TRI(e)), Sc('nr', 'u32', 1, 2 ** 10), Sc('nc', 'u32', 0, 2 ** 10), Sc('row', 'u32', 0)]


def TRI(e):
    return e.nc * (e.nc + 1) / 2 if e.sym else tri(e.nc)


def nd_shape(e):
    r = [e.row < e.nr]
    if e.sym:
        T = TRI(e)
        r += [e.nr * e.nc >= 0, e.nr * e.nc <= 2 ** 28, e.row * e.nc >= 0, e.row * e.nc + e.nc <= e.nr * e.nc, e.nr * T <= 2 ** 28, e.nr * T >= 0, e.row * T >= 0, e.row * T + T <= e.nr * T, T >= 0,
              e.t == T, e.nc * (e.nc + 1) < 2 ** 32, e.nc * (e.nc + 1) == 2 * T]
    elif not hasattr(e, 'ind'):
        r += [e.t == tri(e.n)]
    if hasattr(e, 'ind'):
        r += [e.n == e.np, e.t == (e.n * (e.n + 1) / 2 if e.sym else tri(e.n)), ascending(e, e.ind, e.np, e.nc)]
    else:
        r += [e.n == e.nc]
    return r


def nd_new(e, f, i, minus):
    """new value of gradient i or Hessian i (position in the triangle)"""
    if f == 'g':
        x, o = e.mg[at(e, e.row, e.ind[i] if hasattr(e, 'ind') else i)], e.g[i]
    else:
        if hasattr(e, 'ind'):
            r = next(q for q in range(e.n) if tri(q) <= i < tri(q + 1))
            c = i - tri(r)
            p = tri(e.ind[r]) + e.ind[c]
        else:
            p = i
        x, o = e.mh[e.row * TRI(e) + p], e.h[i]
    if hasattr(e, 'w'):
        x = x * e.w
    return o - x if minus else o + x


def nd_elem(new):
    def ens(e):
        return [('sum of gradients of every output', e.forall(0, e.n, lambda i: e.fp.same(e.post.g[i], new(e, 'g', i)))),
                ('sum of Hessians of every pair of outputs', e.forall(0, e.t, lambda i: e.fp.same(e.post.h[i], new(e, 'h', i))))]

    def inv(L):
        e = L.e
        out = []
        for m in L.mods_of('f64'):
            for f, n in (('g', e.n), ('h', e.t)):
                out.append(('%s updated so far (%s)' % (m.name, f), e.forall(0, n, lambda i: m.cur[i] == If(i < L.k, new(e, f, i), m.entry[i]))))
        return out
    return ens, inv


def N(name, params, new, requires, **kw):
    ens, inv = nd_elem(new)
    return Contract(name, 'h_' + name, params, requires=requires, ensures=ens, invs=[inv], **kw)


for nm, extra, minus in (('add', [], 0), ('add_w', W, 0), ('remove', [], 1), ('remove_w', W, 1), ('subset_c', [], 0), ('subset_c_w', W, 0), ('subset_p', PART, 0), ('subset_p_w', W + PART, 0)):
    CONTRACTS.append(N('nd_' + nm, ND + MAT + extra, (lambda mi: lambda e, f, i: nd_new(e, f, i, mi))(minus), nd_shape, prove='_p' not in nm))
same_t = lambda e: [e.t == (e.n * (e.n + 1) / 2 if e.sym else tri(e.n)), e.n * (e.n + 1) < 2 ** 32] + ([2 * e.t == e.n * (e.n + 1)] if e.sym else [])
CONTRACTS.append(N('nd_vec', ND + [Arr('og', 'f64', 'n'), Arr('oh', 'f64', 't')], lambda e, f, i: getattr(e, f)[i] + getattr(e, 'o' + f)[i], same_t))


def nd_copy_inv(L):
    e = L.e
    return [('%s copied so far (%s)' % (m.name, f), e.forall(0, n, lambda i: m.cur[i] == If(i < L.k, a[i], m.entry[i]))) for m in L.mods_of('f64') for f, n, a in (('g', e.n, e.og), ('h', e.t, e.oh))]


CONTRACTS[-1].invs.append(nd_copy_inv)
CONTRACTS.append(N('nd_clear', ND, lambda e, f, i: 0.0, same_t))
CONTRACTS.append(N('nd_diff_c', ND + [Arr('fg', 'f64', 'n'), Arr('fh', 'f64', 't'), Arr('sg', 'f64', 'n'), Arr('sh', 'f64', 't')], lambda e, f, i: getattr(e, 'f' + f)[i] - getattr(e, 's' + f)[i], same_t))


def diff_p(e, f, i):
    if f == 'g':
        return e.fg[e.ind[i]] - e.sg[i]
    r = next(q for q in range(e.n) if tri(q) <= i < tri(q + 1))
    return e.fh[tri(e.ind[r]) + e.ind[i - tri(r)]] - e.sh[i]


CONTRACTS.append(N('nd_diff_p', ND + [Arr('fg', 'f64', 'nf'), Sc('nf', 'u32', 0, 100), Arr('fh', 'f64', 'ft'), Sc('ft', 'u32', 0, BIG), Arr('sg', 'f64', 'n'), Arr('sh', 'f64', 't')] + PART, diff_p,
                   lambda e: same_t(e) + [e.ft == tri(e.nf), e.n == e.np, ascending(e, e.ind, e.np, e.nf)], prove=False))


# ------------------------------------------------------------------ sparse statistics
def sparse_ens(e):
    full = [[0.0, 0.0] for _ in range(e.nc)]
    part = [[0.0, 0.0] for _ in range(e.np)]

    def one(r, c):
        g = e.m.g[r * e.nc + c]
        return (g, e.m.h[r * e.nc + c]) if g != 0 else (0.0, 1.0)

    def acc(v, idx, r, w):
        for k, c in enumerate(idx):
            g, h = one(r, c)
            v[k][0] += w * g
            v[k][1] += w * h
    cs, ps = list(range(e.nc)), [e.ind[i] for i in range(e.np)]
    for i in range(e.nops):
        op, r, w = e.ops[i], e.rows[i], e.ws[i]
        if op in (0, 4):
            acc(full, cs, r, 1.0)
            acc(part, ps, r, 1.0)
        elif op in (1, 5):
            acc(full, cs, r, w)
            acc(part, ps, r, w)
        elif op == 2:
            acc(full, cs, r, -1.0)
        elif op == 3:
            acc(full, cs, r, -w)
        elif op == 6:
            acc(full, cs, r, w)
        else:
            full = [[0.0, 0.0] for _ in range(e.nc)]
            part = [[0.0, 0.0] for _ in range(e.np)]
    dc = [list(x) for x in full]
    acc(dc, cs, 0, -2.0)
    ok = lambda a, i, x: e.fp.same(a.g[i], x[0]) and e.fp.same(a.h[i], x[1])
    return [('sparse sums (implicit statistics have gradient 0 and Hessian 1)', all(ok(e.post.out, i, full[i]) for i in range(e.nc))),
            ('sparse sums for a subset of the outputs', all(ok(e.post.outp, i, part[i]) for i in range(e.np))),
            ('difference of sparse sums', all(ok(e.post.out, e.nc + i, dc[i]) for i in range(e.nc)) and
             all(ok(e.post.outd, i, [full[ps[i]][0] - part[i][0], full[ps[i]][1] - part[i][1]]) for i in range(e.np)))]


CONTRACTS.append(Contract('sparse', 'h_sparse', [Sc('nr', 'u32', 1, 20), Sc('nc', 'u32', 1, 20), Arr('m', T2, lambda e: e.nr * e.nc), Sc('nops', 'u32', 0, 20), Arr('ops', 'u32', 'nops'), Arr('rows', 'u32', 'nops'),
                                                 Arr('ws', 'f64', 'nops')] + PART + [Arr('out', T2, lambda e: 2 * e.nc, out=True), Arr('outp', T2, 'np', out=True), Arr('outd', T2, 'np', out=True)],
                          ensures=sparse_ens, prove=False, bounded_note='sequences of up to 8 operations on up to 4 examples and 5 outputs'))


def gen(c):
    def g(rng):
        nr, nc = rng.randint(1, 3), rng.randint(0 if 'sparse' not in c.name else 1, 5)
        ind = asc_gen(rng, nc, 0.6)
        part = any(p.name == 'ind' for p in c.params)
        n = len(ind) if part and c.name != 'sparse' else nc
        f = lambda k: [float(rng.randint(-6, 6)) / 2 for _ in range(k)]
        T = lambda k: {'g': f(k), 'h': f(k)}
        d = dict(n=n, nr=nr, nc=nc, row=rng.randrange(nr), v=T(n), m=T(nr * nc), w=rng.choice([0.0, 1.0, 2.0, 0.5, 3.0]), ind=ind, np=len(ind), o=T(n), nf=nc, f=T(nc if part else n), s=T(n), g=f(n), t=tri(n), h=f(tri(n)),
                 mg=f(nr * nc), mh=f(nr * tri(nc)), og=f(n), oh=f(tri(n)), fg=f(nc if part else n), ft=tri(nc), fh=f(tri(nc if part else n)), sg=f(n), sh=f(tri(n)))
        k = rng.randint(0, 8)
        d.update(nops=k, ops=[rng.choice([0, 1, 2, 3, 4, 5, 6, 0, 1, 5, 7]) for _ in range(k)], rows=[rng.randrange(nr) for _ in range(k)], ws=[rng.choice([0.0, 1.0, 2.0, 0.5]) for _ in range(k)], out=T(2 * nc), outp=T(len(ind)), outd=T(len(ind)))
        return {p.name: d[p.name] for p in c.params}
    return g


for c in CONTRACTS:
    c.gen = gen(c)
UNITS = [{'harness': 'h_stat.cpp', 'contracts': CONTRACTS}]
