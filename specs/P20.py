from lib import *
from symex import kind_of
"""the search for refinements: all candidates are assessed, with the examples they cover"""
EPS32 = 1.1920928955078125e-07


def vmax(a, b):
    return If(a >= b, a, b)


def vabs(a):
    return If(a >= 0, a, -a)


def approx(a, b):
    return vabs(a - b) <= EPS32 * vmax(1, vmax(vabs(a), vabs(b)))



def mean(e, a, b):
    return a + (b - a) * 0.5 if e.sym else float(np32(a + np32((b - a) * 0.5)))


def np32(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]


# ------------------------------------------------------------------ numerical features
def W(e, k):
    return e.count('cnt', k, lambda j: e.w[e.x.index[j]] != 0)


def H(e, k):
    return e.sum('hsum', k, lambda j: If(e.w[e.x.index[j]] != 0, e.h[e.x.index[j]], 0.0))


def num_req(e):
    v = e.x.value
    r = [e.first <= e.n, e.forall(0, e.first, lambda j: v[j] < e.sv), e.forall(e.first, e.n, lambda j: v[j] >= e.sv), e.forall(0, e.n, lambda j: And(e.x.index[j] >= 0, e.x.index[j] < e.m)),
         e.total >= W(e, e.n), Implies(Not(e.sparse), And(e.total == W(e, e.n), e.ht == H(e, e.n))), e.b <= e.n, e.cov[0] == 0]
    return r


def num_exact(e, b, prefix):
    """is there a condition that separates the elements before b from the others? Number and sum of the elements in the range, threshold"""
    v = e.x.value
    f = e.first
    inner = lambda: mean(e, v[b - 1], v[b])
    if prefix:
        c, hs = W(e, b), H(e, b)
        between = And(b < f, c > 0, lambda: And(e.w[e.x.index[b]] != 0, Not(approx(v[b - 1], v[b]))))
        last = And(b == f, c > 0, c < e.total)
        outer = lambda: If2(e, e.sparse, lambda: mean(e, v[b - 1], e.sv), inner)
    else:
        c, hs = W(e, e.n) - W(e, b), H(e, e.n) - H(e, b)
        between = And(b > f, c > 0, lambda: And(e.w[e.x.index[b - 1]] != 0, Not(approx(v[b - 1], v[b]))))
        last = And(b == f, e.sparse)
        outer = lambda: If2(e, c > 0, lambda: mean(e, e.sv, v[b]), lambda: mean(e, e.sv, e.sv))
    return Or(between, last), c, hs, lambda: If2(e, b == f, outer, inner)


def num_doc(e, b, prefix):
    """documented faulty behaviour: the first element that is not less than the sparse value is ignored, if there are any weights after it"""
    v = e.x.value
    f = e.first
    cand, c, hs, thr = num_exact(e, b, prefix)
    after, h = If2(e, f < e.n, lambda: W(e, e.n) - W(e, f + 1), lambda: 0), If2(e, f < e.n, lambda: H(e, e.n) - H(e, f + 1), lambda: 0.0)
    skip = And(b == f, after > 0)
    if prefix:
        return cand, c, hs, lambda: If2(e, And(skip, Not(e.sparse)), lambda: mean(e, v[b - 1], v[f + 1]), thr)
    return And(cand, b != f + 1), If2(e, skip, lambda: after, lambda: c), If2(e, skip, lambda: h, lambda: hs), lambda: If2(e, skip, lambda: mean(e, e.sv, v[f + 1]), thr)


def If2(e, c, a, b):
    if e.sym:
        return If(c, a(), b())
    return a() if c else b()


def slot1(e, P, prefix, inv, cand_of, n):
    """recorded refinement"""
    b = e.b
    cov, hs, bound, thr = [P(k) for k in ('cov', 'hs', 'bound', 'thr')]
    cand, c, h, thr_of = cand_of(e, b, prefix)
    num, ex = (e.total - c, e.ht - h) if inv else (c, h)
    pushed = And(e.gate, cand, num >= e.minc)
    if e.sym:
        return _And(cov[0] == If(pushed, num + 1, 0), Implies(pushed, _And(hs[0] == ex, bound[0] == (0 if prefix else n), thr[0] == thr_of())))
    return bool(cov[0] == (num + 1 if pushed else 0) and (not pushed or (abs(hs[0] - ex) < 1e-9 and bound[0] == (0 if prefix else n) and thr[0] == thr_of())))


def slot(e, P, prefix, inv, cands, n):
    """as intended, or as documented"""
    if e.sym:
        return Or(*[slot1(e, P, prefix, inv, c, n) for c in cands])
    return [slot1(e, P, prefix, inv, c, n) for c in cands]


_And = And


def And(*a):
    """lazy conjunction"""
    r = []
    for x in a:
        if callable(x):
            if any(y is False for y in r):
                return False
            x = x()
        if not isz(x):
            x = bool(x)
        r.append(x)
        if x is False:
            return False
    return _And(*r)


def rec_ens(prefix, inv, cands, size, what):
    def f(e):
        x = slot(e, lambda k: getattr(e.post, k), prefix, inv, cands, size(e))
        t = 'the candidate is assessed for the examples it covers, iff it separates examples and covers enough of them'
        if e.sym:
            return [(t, x)]
        return [(t + (' (%s)' % what if not x[0] and any(x) else ''), x[0])]
    return f


QUERY = [('pre', True, 0), ('pre_inv', True, 1), ('suf', False, 0), ('suf_inv', False, 1)]
SUB = [Sc('m', 'u32', 1, 2 ** 24), Arr('w', 'bool', 'm'), Arr('h', 'f64', 'm'), Sc('ht', 'f64'), Sc('total', 'u32', 1, 2 ** 24), Sc('minc', 'u32', 1, 2 ** 24), Sc('gate', 'bool'), Sc('b', 'u32', 0, 2 ** 24), Arr('cov', 'u32', 1, out=True), Arr('hs', 'f64', 1, out=True), Arr('bound', 'u32', 1, out=True)]
N = [Sc('n', 'u32', 1, 2 ** 24), Arr('x', [('index', 'u32'), ('value', 'f32')], 'n'), Sc('sv', 'f32'), Sc('sparse', 'bool'), Sc('first', 'u32')] + SUB + [Arr('thr', 'f32', 1, out=True)]


def gnum(rng):
    m = rng.randint(1, 7)
    sv = rng.choice([0.0, 0.0, 1.0, -1.0])
    sparse = rng.random() < .5
    n = rng.randint(1, m - 1) if sparse and m > 1 else m
    sparse = n < m
    idx = rng.sample(range(m), n)
    vals = sorted(rng.choice([sv - 2, sv - 1, sv + 1, sv + 2, sv + 3, rng.randint(-24, 24) / 8]) for _ in range(n))
    if sparse:
        vals = [v if v != sv else v + .5 for v in vals]
        vals.sort()
    p = rng.choice([0.0, 0.0, .3, .6])
    w = [0 if rng.random() < p else 1 for _ in range(m)]
    if not any(w):
        w[rng.randrange(m)] = 1
    h = [float(1 << i) for i in range(m)]
    return dict(n=n, x=dict(index=idx, value=vals), sv=sv, sparse=sparse, first=sum(1 for v in vals if v < sv), m=m, w=w, h=h, ht=sum(a for a, b in zip(h, w) if b), total=sum(w), minc=rng.choice([1, 1, 2, 3]), b=rng.randint(0, n), gate=rng.random() < .9,
                cov=[0], hs=[-1.0], bound=[99], thr=[-99.0])



def sg(p):
    return If(p >= 2 ** 63, p - 2 ** 64, p) if isz(p) else p


NUMERICAL = [num_exact, num_doc]


def num_inv(prefix, inv):
    def f(L):
        e = L.e
        out = []
        v = e.x.value
        ints = L.phis_of('i64', 'u64')
        P = lambda nm: cur(L, nm)
        cov = P('cov')
        x = slot(e, P, prefix, inv, NUMERICAL, e.n)
        for q in ints:
            nm, p = q.name, sg(q.val)
            out.append(('%s in range' % nm, _And(p >= -1, p <= e.n)))
            out.append(('%s is not negative' % nm, p >= 0))
            out.append(('%s less than n' % nm, p < e.n))
            out.append(('%s at most first' % nm, p <= e.first))
            out.append(('%s at least first - 1' % nm, p >= e.first - 1))
            for q in L.scalars_of('u32'):
                out.append(('%s counts the elements before %s' % (q.name, nm), q.val == W(e, p)))
                out.append(('%s counts the elements after %s' % (q.name, nm), q.val == W(e, e.n) - W(e, p + 1)))
                out.append(('%s is positive' % q.name, q.val > 0))
            out.append(('no elements before %s' % nm, W(e, p) == 0))
            out.append(('no elements after %s' % nm, W(e, e.n) == W(e, p + 1)))
            out.append(('no sum before %s' % nm, H(e, p) == 0))
            out.append(('no sum after %s' % nm, H(e, e.n) == H(e, p + 1)))
            for q in L.scalars_of('f64'):
                out.append(('%s sums the elements before %s' % (q.name, nm), q.val == H(e, p)))
                out.append(('%s sums the elements after %s' % (q.name, nm), q.val == H(e, e.n) - H(e, p + 1)))
            for q in L.scalars_of('f32'):
                out.append(('%s is the value before %s' % (q.name, nm), q.val == v[p - 1]))
                out.append(('%s is the value after %s' % (q.name, nm), q.val == v[p + 1]))
            if prefix:
                out.append(('recorded before %s' % nm, If(e.b < p, x, cov[0] == 0)))
            else:
                out.append(('recorded after %s' % nm, If(_And(e.b > p + 1, e.b > e.first), x, cov[0] == 0)))
        if prefix:
            out.append(('recorded before first', If(e.b < e.first, x, cov[0] == 0)))
        out.append(('nothing recorded', cov[0] == 0))
        return out
    return f


def cov_req(req):
    return lambda e: req(e) + [e.cov[0] == 0]


NUM = [Contract('numerical_' + nm, 'h_numerical_' + nm, N, requires=num_req, ensures=rec_ens(p, i, NUMERICAL, lambda e: e.n, 'the first element that is not less than the sparse value is ignored'), invs=[num_inv(p, i)], gen=gnum) for nm, p, i in QUERY]


# ------------------------------------------------------------------ features with bins (nominal, ordinal, binned)
def val(e, i):
    """the elements of an array are represented as unsigned integers"""
    v = e.val[i]
    return If(v >= 2 ** 31, v - 2 ** 32, v) if e.sym else v


def raw(e, v):
    return If(v < 0, v + 2 ** 32, v) if e.sym else v


def WB(e, k):
    return e.count('cntb', k, lambda j: e.w[e.ind[j]] != 0)


def HB(e, k):
    return e.sum('hsumb', k, lambda j: If(e.w[e.ind[j]] != 0, e.h[e.ind[j]], 0.0))


def C(e, i):
    return WB(e, e.ptr[i])


def G(e, i):
    return HB(e, e.ptr[i])


def bin_req(e):
    r = [e.ptr[0] == 0, e.ptr[e.nb] == e.n, e.forall(0, e.n, lambda j: And(e.ind[j] >= 0, e.ind[j] < e.m)), e.total >= C(e, e.nb), e.cov[0] == 0]
    if e.sym:
        a, b = z3.Ints('pa pb')
        r += [z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= e.nb), e.ptr[a] <= e.ptr[b])), e.forall(0, e.nb + 1, lambda i: And(e.ptr[i] >= 0, e.ptr[i] <= e.n))]
    return r


def ord_req(e):
    return bin_req(e) + [e.first <= e.nb, e.forall(0, e.first, lambda i: val(e, i) < e.maj), e.forall(e.first, e.nb, lambda i: val(e, i) > e.maj), e.b <= e.nb]


def binned_req(e):
    return bin_req(e) + [e.first < e.nb, e.ptr[e.first] == e.ptr[e.first + 1], e.b <= e.nb]


def ord_exact(e, b, prefix):
    if prefix:
        c, hs = C(e, b), G(e, b)
        return Or(And(b < e.first, c > 0), And(b == e.first, c > 0, c < e.total)), c, hs, lambda: e.val[b - 1]
    c, hs = C(e, e.nb) - C(e, b), G(e, e.nb) - G(e, b)
    return Or(b == e.first, And(b > e.first, c > 0)), c, hs, lambda: If2(e, b == e.first, lambda: raw(e, e.maj), lambda: e.val[b - 1])


def ord_doc(e, b, prefix):
    """documented faulty behaviour: values before (after) the majority value are not taken into account if the first (last) one has only zero weights, and in the former case values less than the majority value are treated like greater ones"""
    active = And(e.first > 0, lambda: C(e, 1) > 0)
    if prefix:
        cand, c, hs, thr = ord_exact(e, b, prefix)
        return And(active, cand), c, hs, thr
    f = If2(e, active, lambda: e.first, lambda: 0)
    last = And(e.first < e.nb, C(e, e.nb) - C(e, e.nb - 1) > 0)
    c, hs = C(e, e.nb) - C(e, b), G(e, e.nb) - G(e, b)
    return Or(b == f, And(b > f, b < e.nb, last)), If2(e, last, lambda: c, lambda: 0), If2(e, last, lambda: hs, lambda: 0.0), lambda: If2(e, b == f, lambda: raw(e, e.maj), lambda: e.val[b - 1])


def binned_exact(e, b, prefix):
    if prefix:
        return ord_exact(e, b, prefix)[:3] + (lambda: e.thr_in[b - 1],)
    c, hs = C(e, e.nb) - C(e, b), G(e, e.nb) - G(e, b)
    return And(b > e.first, c > 0), c, hs, lambda: e.thr_in[b - 1]


def binned_doc(e, b, prefix):
    """documented faulty behaviour: bins before (after) the sparse bin are not taken into account if the first (last) one has only zero weights, and the wrong score is used for the sparse bin and the ones before"""
    cand, c, hs, thr = binned_exact(e, b, prefix)
    if prefix:
        return And(C(e, 1) > 0, cand), c, hs, thr
    last = And(e.first < e.nb - 1, C(e, e.nb) - C(e, e.nb - 1) > 0)
    return And(last, cand), c, hs, thr


def binned_doc_suf_inv(e, b, prefix):
    """in addition, the last condition on the bins after the sparse bin uses the scores of the examples that are not covered"""
    cand, c, hs, thr = binned_doc(e, b, prefix)
    return cand, c, If2(e, b == e.first + 1, lambda: e.ht - hs, lambda: hs), thr


ORD_CANDS = [ord_exact, ord_doc]
BINNED_CANDS = [binned_exact, binned_doc]
BINNED_CANDS_SUF_INV = [binned_exact, binned_doc_suf_inv]


BINS = [Sc('nb', 'u32', 1, 2 ** 24), Arr('ptr', 'u32', lambda e: e.nb + 1), Sc('n', 'u32', 0, 2 ** 24), Arr('ind', 'u32', 'n')] + [p for p in SUB if p.name not in ('b', 'cov', 'hs', 'bound')]
Q = [Sc('b', 'u32', 0, 2 ** 24), Arr('cov', 'u32', 1, out=True), Arr('hs', 'f64', 1, out=True)]
BOUND = [Arr('bound', 'u32', 1, out=True)]
TI = [Arr('thr', 'i32', 1, out=True)]
NOM = BINS + [Arr('val', 'i32', 'nb'), Sc('maj', 'i32')] + Q + TI
ORD = BINS + [Arr('val', 'i32', 'nb'), Sc('maj', 'i32'), Sc('first', 'u32')] + Q + BOUND + TI
BIN = BINS + [Arr('thr_in', 'f32', lambda e: e.nb - 1), Sc('first', 'u32', 0, 2 ** 24)] + Q + BOUND + [Arr('thr', 'f32', 1, out=True)]


def bins_of(L):
    """positions of the surrounding loops"""
    out = []
    P = L.parent
    while P is not None:
        for q in P.phis:
            if kind_of(q.ty) in ('i64', 'u64', 'u32'):
                out.append((q.name, sg(q.val) if kind_of(q.ty) != 'u32' else q.val))
        P = getattr(P, 'parent', None)
    return out or [('first', z3.IntVal(0)), ('last', L.e.nb - 1)]


def inner_inv(L):
    """the examples of a bin"""
    e = L.e
    out = []
    for nm, i in bins_of(L):
        k = L.k
        d = WB(e, e.ptr[i] + k) - C(e, i)
        out.append(('examples of bin %s' % nm, _And(i >= 0, i < e.nb, k <= e.ptr[i + 1] - e.ptr[i])))
        for q in L.scalars_of('u32'):
            out.append(('%s counts the examples of %s with zero weights' % (q.name, nm), q.val == k - d))
            out.append(('%s counts the examples of %s' % (q.name, nm), q.val == k))
        for q in L.scalars_of('f64'):
            x = HB(e, e.ptr[i] + k)
            out.append(('%s sums the elements of bin %s' % (q.name, nm), q.val == x - G(e, i)))
            out.append(('%s sums the elements up to bin %s' % (q.name, nm), q.val == x))
            out.append(('%s sums the elements from bin %s' % (q.name, nm), q.val == x - G(e, i) + G(e, e.nb) - G(e, i + 1)))
    return out


def bin_inv(x_of, prefix=None):
    def f(L):
        e = L.e
        out = []
        P = lambda nm: cur(L, nm)
        first = getattr(e, 'first', None)
        xs = x_of(e, lambda nm: cur(L, nm))
        for q in L.phis_of('i64', 'u64', 'u32'):
            nm, p = q.name, sg(q.val) if kind_of(q.ty) != 'u32' else q.val
            out.append(('%s in range' % nm, _And(p >= -1, p <= e.nb)))
            out.append(('%s is not negative' % nm, p >= 0))
            if first is not None:
                out.append(('%s at most first' % nm, p <= first))
                out.append(('%s at least first - 1' % nm, p >= first - 1))
                out.append(('%s at least first' % nm, p >= first))
            for r in L.scalars_of('u32'):
                if r is not q:
                    out.append(('%s counts the examples before %s' % (r.name, nm), r.val == C(e, p)))
                    out.append(('%s counts the examples after %s' % (r.name, nm), r.val == C(e, e.nb) - C(e, p + 1)))
                    out.append(('%s is positive' % r.name, r.val > 0))
            out.append(('no examples before %s' % nm, C(e, p) == 0))
            out.append(('no examples after %s' % nm, C(e, e.nb) == C(e, p + 1)))
            out.append(('no sum before %s' % nm, G(e, p) == 0))
            out.append(('no sum after %s' % nm, G(e, e.nb) == G(e, p + 1)))
            for r in L.scalars_of('f64'):
                out.append(('%s sums the elements before %s' % (r.name, nm), r.val == G(e, p)))
                out.append(('%s sums the elements after %s' % (r.name, nm), r.val == G(e, e.nb) - G(e, p + 1)))
                out.append(('%s is zero' % r.name, r.val == 0))
            if 'val' in L.ex.params:
                for r in L.scalars_of('u32'):
                    out.append(('%s is the value before %s' % (r.name, nm), r.val == e.val[p - 1]))
                    out.append(('%s is the value after %s' % (r.name, nm), r.val == e.val[p + 1]))
            c0 = P('cov')[0] == 0
            if prefix is not False:
                out.append(('recorded before %s' % nm, If(e.b < p, xs, c0)))
            if prefix is not True:
                out.append(('recorded after %s' % nm, If(e.b > p + 1 if first is None else _And(e.b > p + 1, e.b > first), xs, c0)))
        if first is not None:
            out.append(('recorded before first', If(e.b < first, xs, P('cov')[0] == 0)))
        out.append(('nothing recorded', P('cov')[0] == 0))
        return out
    return f


def gbins(rng, kind):
    m = rng.randint(1, 7)
    nb = rng.randint(1, 4) if kind != 'binary' else 1
    first = rng.randrange(nb) if kind == 'binned' else rng.randint(0, nb)
    of = [rng.randint(0, nb) for _ in range(m)]
    bins = [[j for j in range(m) if of[j] == i] if kind != 'binned' or i != first else [] for i in range(nb)]
    ind = [j for x in bins for j in x]
    ptr = [0]
    for x in bins:
        ptr.append(ptr[-1] + len(x))
    p = rng.choice([0.0, 0.0, .3, .6])
    w = [0 if rng.random() < p else 1 for _ in range(m)]
    if not any(w):
        w[rng.randrange(m)] = 1
    h = [float(1 << i) for i in range(m)]
    d = dict(nb=nb, ptr=ptr, n=len(ind), ind=ind, m=m, w=w, h=h, ht=sum(a for a, b in zip(h, w) if b), total=sum(w), minc=rng.choice([1, 1, 2, 3]), gate=rng.random() < .9, b=rng.randint(0, nb), cov=[0], hs=[-1.0], thr=[-99])
    vals = sorted(rng.sample(range(-6, 7), nb + 1))
    if kind in ('nominal', 'binary'):
        maj = rng.choice(vals)
        vals.remove(maj)
        if rng.random() < .5:
            rng.shuffle(vals)
        d.update(val=vals, maj=maj, b=rng.randrange(nb))
    elif kind == 'ordinal':
        d.update(maj=vals.pop(first), val=vals, first=first, bound=[99])
    else:
        d.update(thr_in=[v / 2 for v in vals[:nb - 1]], first=first, bound=[99], thr=[-99.0])
    return d


def exact(num, ex, thr, req=lambda e: []):
    """contract for a refinement that is always a candidate"""
    def x(e, P):
        c = num(e)
        pushed = And(e.gate, c >= e.minc)
        if e.sym:
            return _And(P('cov')[0] == If(pushed, c + 1, 0), Implies(pushed, _And(P('hs')[0] == ex(e), P('thr')[0] == thr(e))))
        return P('cov')[0] == (c + 1 if pushed else 0) and (not pushed or (abs(P('hs')[0] - ex(e)) < 1e-9 and P('thr')[0] == thr(e)))
    return (lambda e: bin_req(e) + req(e)), (lambda e: [('the candidate is assessed for the examples it covers, iff it covers enough of them', x(e, lambda nm: getattr(e.post, nm)))]), x


def nominal(name, kind, num, ex, thr, req=lambda e: []):
    rq, en, x = exact(num, ex, thr, req)
    return Contract(name, 'h_' + name, NOM, requires=rq, ensures=en, invs=[inner_inv, bin_inv(x)], gen=lambda rng: gbins(rng, kind))


inb = lambda e: [e.b < e.nb]
one = lambda e: [e.nb == 1]
of_b = lambda e: C(e, e.b + 1) - C(e, e.b)
sum_b = lambda e: G(e, e.b + 1) - G(e, e.b)
NOMINAL = [nominal('nominal_eq', 'nominal', of_b, sum_b, lambda e: e.val[e.b], inb),
           nominal('nominal_neq', 'nominal', lambda e: e.total - of_b(e), lambda e: e.ht - sum_b(e), lambda e: e.val[e.b], inb),
           nominal('nominal_neq_majority', 'nominal', lambda e: C(e, e.nb), lambda e: G(e, e.nb), lambda e: raw(e, e.maj)),
           nominal('nominal_eq_majority', 'nominal', lambda e: e.total - C(e, e.nb), lambda e: e.ht - G(e, e.nb), lambda e: raw(e, e.maj)),
           nominal('binary_minority', 'binary', lambda e: C(e, 1), lambda e: G(e, 1), lambda e: e.val[0], one),
           nominal('binary_majority', 'binary', lambda e: e.total - C(e, 1), lambda e: e.ht - G(e, 1), lambda e: raw(e, e.maj), one)]


def slot_of(p, i, cands):
    return lambda e, P: slot(e, P, p, i, cands, e.nb)


SIZES = 'six nested loops with shared state: up to 4 bins with up to 7 examples'
ORDINAL = [Contract('ordinal_' + nm, 'h_ordinal_' + nm, ORD, requires=ord_req, ensures=rec_ens(p, i, ORD_CANDS, lambda e: e.nb, 'the first or last bin has only zero weights'), invs=[inner_inv, bin_inv(slot_of(p, i, ORD_CANDS), p)], gen=lambda rng: gbins(rng, 'ordinal'), prove=False, bounded_note=SIZES) for nm, p, i in QUERY]
BINNED = [Contract('binned_' + nm, 'h_binned_' + nm, BIN, requires=binned_req, ensures=rec_ens(p, i, c, lambda e: e.nb, w), invs=[inner_inv, bin_inv(slot_of(p, i, c), p)], gen=lambda rng: gbins(rng, 'binned'), prove=False, bounded_note=SIZES)
          for nm, p, i, c, w in [q + ((BINNED_CANDS, 'the first or last bin has only zero weights') if q[0] != 'suf_inv' else (BINNED_CANDS_SUF_INV, 'the last bin has only zero weights or the scores of the wrong examples are used')) for q in QUERY]]

UNITS = [dict(harness='h_search.cpp', contracts=NUM + NOMINAL + ORDINAL + BINNED)]
