from lib import *

COV = [Sc('nr', 'u32', 1, 2 ** 14), Sc('nc', 'u32', 1, 2 ** 14), Sc('row', 'u32', 0)]
COVA = [Arr('cov', 'u32', lambda e: e.nr * e.nc, out=True, lo=0, hi=2), Sc('sum', 'f64'), Arr('maj', 'u32', 'nm'), Sc('nm', 'u32', 0, 2 ** 14)]


def base_req(e):
    r = [e.row < e.nr, ascending(e, e.maj, e.nm, e.nc), e.nm <= e.nc]
    if e.sym:
        p, q = e.nr * e.nc, e.row * e.nc
        r += [p >= 0, p <= 2 ** 28, q >= 0, q + e.nc <= p]
    return r


def flips(e, p, lab):
    """the prediction p deviates from the majority"""
    return Iff(Not(e.fp.eq(p, 0.0)), Not(member(e, e.maj, e.nm, lab)))


def deviates(e, i, lab):
    return Not(Iff(Not(e.fp.eq(e.pred[i], 0.0)), member(e, e.maj, e.nm, lab)))


def dev_complete(e, lab):
    return deviates(e, lab, lab)


def dev_partial(e, lab):
    return e.exists(0, e.np, lambda i: And(e.ind[i] == lab, deviates(e, i, lab)))


def at(e, r, c):
    return r * e.nc + c


def upd(dec, dev):
    d = -1 if dec else 1

    def ens(e):
        out = [('coverage of exactly the labels whose prediction deviates from the majority changes by one',
                e.forall(0, e.nc, lambda l: e.post.cov[at(e, e.row, l)] == e.cov[at(e, e.row, l)] + If(dev(e, l), d, 0))),
               ('no other example is affected', e.forall(0, e.nr * e.nc, lambda i: Implies(Or(i < at(e, e.row, 0), i >= at(e, e.row, e.nc)),
                                                                                      e.post.cov[i] == e.cov[i])))]
        if e.sym:
            out.append(('sum of uncovered weights tracks the labels that become (un)covered', e.ret == e.sum + (1 if dec else -1) * toreal(chg(e, dec, dev, e.nn))))
        else:
            n = sum(1 for l in range(e.nc) if e.cov[at(e, e.row, l)] == (1 if dec else 0) and dev(e, l))
            out.append(('sum of uncovered weights tracks the labels that become (un)covered', e.fp.same(e.ret, e.sum + (n if dec else -n))))
        return out
    return ens


def chg(e, dec, dev, n):
    """number of labels among the first n (predicted) ones that become uncovered / covered"""
    c0 = 1 if dec else 0
    if dev is dev_complete:
        return e.count('chg', n, lambda i: And(e.cov[at(e, e.row, 0) + i] == c0, deviates(e, i, i)))
    return e.count('chg', n, lambda i: And(e.cov[at(e, e.row, 0) + e.ind[i]] == c0, deviates(e, i, e.ind[i])))


def heap(L, kind):
    return [m for m in L.mods_of(kind)]


def inv_cov(dec, dev):
    d = -1 if dec else 1

    def inv(L):
        e = L.e
        out = []
        base = at(e, e.row, 0)
        for m in L.mods_of('u32'):
            if dev is dev_complete:
                out.append(('updated so far', e.forall(0, e.nr * e.nc, lambda i: m.cur[i] == e.cov[i] + If(
                    And(i >= base, i < base + L.k, dev_complete_at(e, i - base)), d, 0))))
            else:
                out.append(('updated so far', e.forall(0, e.nr * e.nc, lambda i: m.cur[i] == e.cov[i] + If(
                    And(i >= base, i < base + e.nc, e.exists(0, L.k, lambda j: And(e.ind[j] == i - base, deviates(e, j, i - base)))), d, 0))))
                out.append(('labels not reached', e.forall(L.k, e.np, lambda j: m.cur[base + e.ind[j]] == e.cov[base + e.ind[j]])))
        for s in L.scalars_of('f64'):
            out.append(('sum %s' % s.name, s.val == e.sum + (1 if dec else -1) * toreal(chg(e, dec, dev, L.k))))
        return out
    return inv


def dev_complete_at(e, l):
    return deviates(e, l, l)


def g_cov(c):
    def g(rng):
        nr, nc = rng.randint(1, 3), rng.randint(1, 6)
        row = rng.randrange(nr)
        maj = asc_gen(rng, nc)
        ind = asc_gen(rng, nc, 0.6)
        np = len(ind) if any(p.name == 'ind' for p in c.params) else nc
        dec = 'dec' in c.name
        d = dict(nr=nr, nc=nc, row=row, maj=maj, nm=len(maj), ind=ind, np=len(ind), pred=[rng.choice([0.0, 1.0]) for _ in range(np)],
                 sum=float(rng.randint(0, 20)), cov=[rng.randint(1 if dec else 0, 3) if rng.random() < .8 else (1 if dec else 0) for _ in range(nr * nc)],
                 weight=rng.choice([1.0, 2.0, 0.5]), lab=[rng.randint(0, 1) for _ in range(nr * nc)])
        nv = len(ind) if any(p.name == 'ind' for p in c.params) else nc
        f4 = lambda n: {k: [rng.uniform(0, 5) for _ in range(n)] for k in ('in', 'ip', 'rn', 'rp')}
        d['v'] = f4(nv)
        lidx, indptr = [], [0]
        for r in range(nr):
            lidx += asc_gen(rng, nc)
            indptr.append(len(lidx))
        d.update(lidx=lidx, indptr=indptr, nl=len(lidx))
        n = rng.randint(1, 5)
        if c.name.startswith(('conf_sum', 'conf_diff', 'conf_clear')):
            ind = asc_gen(rng, n, 0.6)
            d.update(n=n, ind=ind, np=len(ind))
            d['v'] = f4(len(ind) if c.name == 'conf_diff_partial' else n)
            d['w'], d['a'], d['b'] = f4(n), f4(n), f4(len(ind) if c.name == 'conf_diff_partial' else n)
        return {p.name: d[p.name] for p in c.params}
    return g


CONTRACTS = []
for dec in (False, True):
    for part in (False, True):
        dev = dev_partial if part else dev_complete
        nm = ('dec' if dec else 'inc') + ('_partial' if part else '_complete')
        ps = COV + COVA + [Arr('pred', 'f64', 'np' if part else 'nc')] + ([Arr('ind', 'u32', 'np'), Sc('np', 'u32', 0, 2 ** 14)] if part else [])

        def req(e, dec=dec, part=part):
            if e.sym:
                e.nn = e.np if part else e.nc
            r = base_req(e) + [e.forall(0, e.nr * e.nc, lambda i: And(e.cov[i] < 2 ** 31, e.cov[i] >= (1 if dec else 0)))]
            if part:
                r += [ascending(e, e.ind, e.np, e.nc), e.np <= e.nc]
            return r
        CONTRACTS.append(Contract(nm, 'h_' + nm, ps, 'f64', requires=req, ensures=upd(dec, dev),
                                  invs=[cursors(('maj', 'nm')), inv_cov(dec, dev)] + ([walks('ind', 'np')] if part else [])))

FIELDS = [('in', 'f64'), ('ip', 'f64'), ('rn', 'f64'), ('rp', 'f64')]
CONF = COV + [Arr('cov', 'u32', lambda e: e.nr * e.nc, lo=0, hi=2), Arr('maj', 'u32', 'nm'), Sc('nm', 'u32', 0, 2 ** 14)]


def truth(e, l):
    if hasattr(e, 'lab'):
        return e.lab[at(e, e.row, l)] != 0
    return e.exists(e.indptr[e.row], e.indptr[e.row + 1], lambda j: e.lidx[j] == l)


def sel(e, l, off):
    t, m = truth(e, l), member(e, e.maj, e.nm, l)
    # irrelevant/relevant label, negative prediction (majority relevant) / positive prediction
    return And(t if off >= 16 else Not(t), m if off in (0, 16) else Not(m))


def inc(e, l, off, sign):
    return If(And(e.cov[at(e, e.row, l)] == 0, sel(e, l, off)), sign * e.weight, 0.0)


def conf_ens(part, sign):
    def ens(e):
        n = e.np if part else e.nc
        lab = (lambda i: e.ind[i]) if part else (lambda i: i)
        return [('element "%s" changes by the weight iff the label is uncovered and of that kind' % f,
                 e.forall(0, n, lambda i: e.fp.same(getattr(e.post.v, f)[i], getattr(e.v, f)[i] + inc(e, lab(i), off, sign))))
                for (f, _), off in zip(FIELDS, (0, 8, 16, 24))]
    return ens


def conf_inv(part, sign):
    def inv(L):
        e = L.e
        n = e.np if part else e.nc
        lab = (lambda i: e.ind[i]) if part else (lambda i: i)
        out = []
        for m in L.mods_of('f64'):
            out.append(('field %d updated so far' % m.field, e.forall(0, n, lambda i: m.cur[i] == m.entry[i] + If(i < L.k, inc(e, lab(i), m.field, sign), 0.0))))
        return out
    return inv


def csr_ok(e):
    if not e.sym:
        ok = e.indptr[0] == 0 and e.indptr[e.nr] == e.nl and all(e.indptr[i] <= e.indptr[i + 1] for i in range(e.nr))
        return [ok and all(e.lidx[j] < e.lidx[j + 1] for r in range(e.nr) for j in range(e.indptr[r], e.indptr[r + 1] - 1)) and all(
            e.lidx[j] < e.nc for j in range(e.nl))]
    a, b = z3.Ints('ca cb')
    lo, hi = e.indptr[e.row], e.indptr[e.row + 1]
    return [0 <= lo, lo <= hi, hi <= e.nl, z3.ForAll([a, b], z3.Implies(z3.And(lo <= a, a < b, b < hi), e.lidx[a] < e.lidx[b])),
            e.forall(0, e.nl, lambda j: And(0 <= e.lidx[j], e.lidx[j] < e.nc))]


def row_cursor(L):
    """cursor into the indices of the current row of the sparse label matrix"""
    e = L.e
    out = []
    if not hasattr(e, 'lidx'):
        return out
    lo, hi = e.indptr[e.row], e.indptr[e.row + 1]
    poss = [('k', L.k)] + [(p.name, p.val) for p in L.phis_of('u32')]
    for p in L.phis_of('ptr'):
        if not isinstance(p.val, Ptr) or p.val.r is None or p.val.r.id != L.ex.params['lidx'].id:
            continue
        q = lin_div(p.val.off, 4)
        o = q[0] if q else zi(p.val.off) / 4
        out.append(('row cursor %s within the row' % p.name, And(lo <= o, o <= hi)))
        if not q:
            out.append(('row cursor %s aligned' % p.name, zi(p.val.off) == 4 * o))
        for nm, w in poss:
            out.append(('row cursor %s: passed indices lie below %s' % (p.name, nm), e.forall(lo, o, lambda j: e.lidx[j] < w)))
            out.append(('row cursor %s: next index is not below %s' % (p.name, nm), Implies(o < hi, e.lidx[o] >= w)))
            out.append(('row cursor %s: cached index %s' % (p.name, nm), Implies(o < hi, e.lidx[o] == w)))
        if hasattr(e, 'ind'):
            out.append(('row cursor %s: passed indices lie below the coming index' % p.name, Implies(L.k < e.np, e.forall(lo, o, lambda j: e.lidx[j] < e.ind[L.k]))))
    return out


for kind in ('dense', 'sparse'):
    for op in ('add', 'remove', 'subset_complete', 'subset_partial'):
        part = op == 'subset_partial'
        sign = -1 if op == 'remove' else 1
        nm = 'conf_%s_%s' % (op, kind)
        ps = CONF + [Arr('v', FIELDS, 'np' if part else 'nc', out=True), Sc('weight', 'f64')]
        ps += [Arr('lab', 'u8', lambda e: e.nr * e.nc)] if kind == 'dense' else [
            Arr('lidx', 'u32', 'nl'), Arr('indptr', 'u32', lambda e: e.nr + 1), Sc('nl', 'u32', 0, 2 ** 28)]
        if part:
            ps += [Arr('ind', 'u32', 'np'), Sc('np', 'u32', 0, 2 ** 14)]

        def req(e, part=part, kind=kind):
            r = base_req(e) + [e.forall(0, e.nr * e.nc, lambda i: And(e.cov[i] >= 0, e.cov[i] < 2 ** 31))]
            if part:
                r += [ascending(e, e.ind, e.np, e.nc), e.np <= e.nc]
            if kind == 'sparse':
                r += csr_ok(e)
            return r
        CONTRACTS.append(Contract(nm, 'h_' + nm, ps, requires=req, ensures=conf_ens(part, sign),
                                  invs=[cursors(('maj', 'nm')), row_cursor, conf_inv(part, sign)] + ([walks('ind', 'np')] if part else [])))


def ew(f):
    """element-wise invariant over the four fields"""
    def inv(L):
        return [('field %d computed so far' % m.field, L.e.forall(0, L.k, lambda i: m.cur[i] == f(L.e, m, i))) for m in L.mods_of('f64')] + [
            ('field %d not yet touched' % m.field, L.e.forall(L.k, m.n, lambda i: m.cur[i] == m.entry[i])) for m in L.mods_of('f64')]
    return inv


NAMES = {0: 'in', 8: 'ip', 16: 'rn', 24: 'rp'}
CONTRACTS += [
    Contract('conf_sum', 'h_conf_sum', [Sc('n', 'u32', 0, 2 ** 24), Arr('v', FIELDS, 'n', out=True), Arr('w', FIELDS, 'n')],
             ensures=lambda e: [('element-wise sum of "%s"' % f, e.forall(0, e.n, lambda i: e.fp.same(getattr(e.post.v, f)[i], getattr(e.v, f)[i] + getattr(e.w, f)[i])))
                                for f, _ in FIELDS],
             invs=[ew(lambda e, m, i: m.entry[i] + getattr(e.w, NAMES[m.field])[i]), ew(lambda e, m, i: getattr(e.v, NAMES[m.field])[i])]),
    Contract('conf_diff_complete', 'h_conf_diff_complete', [Sc('n', 'u32', 0, 2 ** 24), Arr('v', FIELDS, 'n', out=True), Arr('a', FIELDS, 'n'), Arr('b', FIELDS, 'n')],
             ensures=lambda e: [('element-wise difference of "%s"' % f, e.forall(0, e.n, lambda i: e.fp.same(getattr(e.post.v, f)[i], getattr(e.a, f)[i] - getattr(e.b, f)[i])))
                                for f, _ in FIELDS],
             invs=[ew(lambda e, m, i: getattr(e.a, NAMES[m.field])[i] - getattr(e.b, NAMES[m.field])[i])]),
    Contract('conf_diff_partial', 'h_conf_diff_partial', [Sc('n', 'u32', 0, 2 ** 24), Arr('v', FIELDS, 'np', out=True), Arr('a', FIELDS, 'n'), Arr('b', FIELDS, 'np'),
                                                         Arr('ind', 'u32', 'np'), Sc('np', 'u32', 0, 2 ** 24)],
             requires=lambda e: [e.forall(0, e.np, lambda i: And(0 <= e.ind[i], e.ind[i] < e.n))],
             ensures=lambda e: [('element-wise difference of "%s"' % f, e.forall(0, e.np, lambda i: e.fp.same(
                 getattr(e.post.v, f)[i], getattr(e.a, f)[e.ind[i]] - getattr(e.b, f)[i]))) for f, _ in FIELDS],
             invs=[ew(lambda e, m, i: getattr(e.a, NAMES[m.field])[e.ind[i]] - getattr(e.b, NAMES[m.field])[i])]),
    Contract('conf_clear', 'h_conf_clear', [Sc('n', 'u32', 0, 2 ** 24), Arr('v', FIELDS, 'n', out=True)],
             ensures=lambda e: [('all elements are zero', And(*[e.forall(0, e.n, lambda i: e.fp.same(getattr(e.post.v, f)[i], 0.0)) for f, _ in FIELDS]))],
             invs=[ew(lambda e, m, i: 0.0)]),
]
for c in CONTRACTS:
    c.gen = g_cov(c)
    c.stubs['re:' + LOWER_BOUND] = lower_bound
UNITS = [{'harness': 'h_seco_cov.cpp', 'contracts': CONTRACTS, 'opaque': [LOWER_BOUND]}]
