from contract import *



def body_params():
    out = []
    for j in range(6):
        out += [Sc('n%d' % j, 'u32', 0, 2 ** 28), Arr('i%d' % j, 'u32', 'n%d' % j, lo=0, hi=5),
                Arr('t%d' % j, 'f32' if j < 2 else 'i32', 'n%d' % j)]
    return out


CMP = [lambda e, v, t: Not(e.fp.gt(v, t)), lambda e, v, t: e.fp.gt(v, t), lambda e, v, t: trunc(e, v) <= t,
       lambda e, v, t: trunc(e, v) > t, lambda e, v, t: trunc(e, v) == t, lambda e, v, t: trunc(e, v) != t]


def trunc(e, v):
    if isz(v):
        return z3.If(v < 0, -z3.ToInt(-v), z3.ToInt(v))
    return int(v)


def sgn(e, j, i):
    a = getattr(e, 't%d' % j)
    return a[i] if j < 2 else s32(a[i])


def sat(e, val, j, n=None):
    ix = getattr(e, 'i%d' % j)
    return e.forall(0, n if n is not None else getattr(e, 'n%d' % j), lambda i: CMP[j](e, val(ix[i]), sgn(e, j, i)))


def all_sat(e, val):
    return And(*[sat(e, val, j) for j in range(6)])


def idx_ok(e):
    return [e.forall(0, getattr(e, 'n%d' % j), lambda i: And(0 <= getattr(e, 'i%d' % j)[i], getattr(e, 'i%d' % j)[i] < e.nf))
            for j in range(6)]


def dense_req(e):
    return idx_ok(e) + [e.forall(0, e.nf, lambda i: And(e.row[i] >= -2 ** 31, e.row[i] < 2 ** 31))]


def inv_scan(val):
    def f(L):
        e = L.e
        return [('conditions of kind %d checked so far hold' % j, sat(e, val(e), j, L.k)) for j in range(6)]
    return f


CONTRACTS = [
    Contract('covers_dense', 'h_covers_dense', body_params() + [Arr('row', 'f32', 'nf'), Sc('nf', 'u32', 0, 2 ** 28)], 'bool',
             requires=dense_req, ensures=lambda e: [('covers <=> every condition holds', Iff(e.ret, all_sat(e, lambda f: e.row[f])))],
             invs=[inv_scan(lambda e: lambda f: e.row[f])]),
]


def sval(e, f, k=None):
    """value of feature f in a sparse row: last occurrence among the first k entries, else the sparse value"""
    return e.fold('sval', lambda f: e.sparseValue, lambda acc, i, f: If(e.idx[i] == f, e.val[i], acc), e.nd if k is None else k, f)


def gen_sparse(c):
    def g(rng):
        from native import rnd_scalar
        nf = rng.randint(1, 6)
        inp = {'nf': nf}
        for j in range(6):
            n = rng.choice([0, 0, 1, 2])
            inp['n%d' % j] = n
            inp['i%d' % j] = [rng.randrange(nf) for _ in range(n)]
            inp['t%d' % j] = [rnd_scalar(rng, 'f32') if j < 2 else rng.randint(-2, 2) for _ in range(n)]
        nd = rng.randint(0, nf)
        idx = rng.sample(range(nf), nd)
        inp.update(nd=nd, idx=idx, val=[rnd_scalar(rng, 'f32') for _ in idx], sparseValue=rng.choice([0.0, 1.0, -1.5]))
        n = rng.randint(1, 3)
        inp.update(n=n, tmp1=[rnd_scalar(rng, 'f32') for _ in range(nf)], tmp2=[rng.choice([x for x in range(5) if x != n]) for _ in range(nf)],
                   row=[rnd_scalar(rng, 'f32') for _ in range(nf)])
        return {p.name: inp[p.name] for p in c.params}
    return g


def sp_params():
    return [Arr('idx', 'u32', 'nd'), Arr('val', 'f32', 'nd'), Sc('nd', 'u32', 0, 2 ** 28), Sc('sparseValue', 'f32'),
            Arr('tmp1', 'f32', 'nf', out=True), Arr('tmp2', 'u32', 'nf', out=True), Sc('n', 'u32'), Sc('nf', 'u32', 0, 2 ** 28)]


def sparse_req(e):
    rng = lambda v: And(v >= -2 ** 31, v < 2 ** 31)
    return idx_ok(e) + [e.forall(0, e.nd, lambda i: And(0 <= e.idx[i], e.idx[i] < e.nf)), e.forall(0, e.nf, lambda f: e.tmp2[f] != e.n),
                        e.forall(0, e.nf, lambda f: rng(e.tmp1[f])), e.forall(0, e.nd, lambda i: rng(e.val[i])), rng(e.sparseValue)]


def cur(L, name):
    for m in L.mods:
        if m.name == name:
            return m.cur
    st = L.st
    r = L.ex.params[name]
    return View(st.mem[r.id].fields[0][1], None)


def inv_copy(L):
    e = L.e
    t1, t2 = cur(L, 'tmp1'), cur(L, 'tmp2')
    return [('scratch holds the dense values read so far', e.forall(0, e.nf, lambda f: If(t2[f] == e.n, t1[f], e.sparseValue) == sval(e, f, L.k))),
            ('scratch values stay in range', e.forall(0, e.nf, lambda f: And(t1[f] >= -2 ** 31, t1[f] < 2 ** 31)))]


CONTRACTS.append(
    Contract('covers_sparse', 'h_covers_sparse', body_params() + sp_params(), 'bool', requires=sparse_req,
             ensures=lambda e: [('covers <=> every condition holds for the row with absent features equal to the sparse value',
                                 Iff(e.ret, all_sat(e, lambda f: sval(e, f))))],
             invs=[inv_copy, inv_scan(lambda e: lambda f: sval(e, f))]))
for c in CONTRACTS:
    c.gen = gen_sparse(c)

UNITS = [{'harness': 'h_body.cpp', 'contracts': CONTRACTS}]
