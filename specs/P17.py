from lib import *
from fractions import Fraction as F
import math
"""isotonic calibration of probabilities"""


# ------------------------------------------------------------------ calibration (proved)
def cal_req(e):
    t, p = e.bins.t, e.bins.v
    return [e.p >= 0, e.p <= 1, Or(e.p > 0, t[0] > 0), e.forall(0, e.n, lambda i: And(t[i] >= 0, t[i] <= 1, p[i] >= 0, p[i] <= 1)), e.forall(0, e.n, lambda i: e.forall(0, i, lambda j: And(t[j] < t[i], p[j] <= p[i])))]


def cal_ens(e):
    t, p = e.bins.t, e.bins.v

    def seg(i):
        """between bins i - 1 and i"""
        lt, lp = If(i > 0, t[i - 1], 0), If(i > 0, p[i - 1], 0)
        ut, up = If(i < e.n, t[i], 1), If(i < e.n, p[i], 1)
        return lt, lp, ut, up

    def cond(i):
        lt, lp, ut, up = seg(i)
        inside = And(Or(i == 0, lt < e.p), Or(i == e.n, e.p <= ut))
        return inside, lt, lp, ut, up
    r = []
    if e.sym:
        i = z3.Int('seg')
        inside, lt, lp, ut, up = cond(i)
        rng = z3.And(0 <= i, i <= e.n, inside)
        r.append(('interpolates linearly between the neighbouring bins', z3.ForAll([i], z3.Implies(rng, z3.If(ut > lt, (e.ret - lp) * (ut - lt) == (e.p - lt) * (up - lp), e.ret == up)))))
        r.append(('lies between the probabilities of the neighbouring bins', z3.ForAll([i], z3.Implies(rng, z3.And(lp <= e.ret, e.ret <= up)))))
    else:
        k = next(i for i in range(e.n + 1) if (i == 0 or t[i - 1] < e.p) and (i == e.n or e.p <= t[i]))
        lt, lp = (t[k - 1], p[k - 1]) if k > 0 else (0.0, 0.0)
        ut, up = (t[k], p[k]) if k < e.n else (1.0, 1.0)
        w = lp + (e.p - lt) / (ut - lt) * (up - lp) if ut > lt else up
        r.append(('interpolates linearly between the neighbouring bins', abs(e.ret - w) <= 1e-9))
        r.append(('lies between the probabilities of the neighbouring bins', lp - 1e-12 <= e.ret <= up + 1e-12))
    return r


def bs_inv(L):
    """binary search for the first bin whose threshold is not smaller"""
    e = L.e
    t = e.bins.t
    out = []
    for a in L.phis_of('ptr'):
        if not isinstance(a.val, Ptr) or a.val.r is None:
            continue
        o = zi(a.val.off)
        out.append(('%s aligned' % a.name, z3.And(o % 16 == 0, o >= 0)))
        q = o / 16
        out.append(('%s: smaller thresholds before' % a.name, e.forall(0, q, lambda j: t[j] < e.p)))
        for b in L.phis_of('u64'):
            out.append(('%s/%s: within the bins' % (a.name, b.name), z3.And(zi(b.val) >= 0, q + zi(b.val) <= e.n)))
            out.append(('%s/%s: no smaller thresholds after' % (a.name, b.name), e.forall(q + zi(b.val), e.n, lambda j: t[j] >= e.p)))
    return out


CAL = [Contract('calibrate', 'h_calibrate', [Sc('n', 'u32', 1, 2 ** 24), Arr('bins', [('t', 'f64'), ('v', 'f64')], 'n'), Sc('p', 'f64', 0.0, 1.0)], 'f64', requires=cal_req, ensures=cal_ens, invs=[bs_inv])]


def grid(rng, n, ones=True):
    return sorted(rng.sample(range(0 if ones else 1, 17), n))


def gcal(rng):
    n = rng.randint(1, 6)
    t = [x / 16 for x in grid(rng, n)]
    v = sorted(rng.randint(0, 16) / 16 for _ in range(n))
    return dict(n=n, bins={'t': t, 'v': v}, p=rng.choice([0.0, 1.0, rng.choice(t), rng.randint(0, 64) / 64, rng.random()]))


CAL[0].gen = gcal


# the probability 0 if the threshold of the first bin is 0: a width of zero
def zero_ens(e):
    return [('the probability of the bin is returned, if the probability equals its threshold' + (' (not a number for the probability 0)' if e.ret != e.ret else ''), e.ret == e.bins.v[0])]


def gzero(rng):
    d = gcal(rng)
    d['bins']['t'][0] = d['p'] = 0.0
    return d


CAL.append(Contract('calibrate_zero', 'h_calibrate', CAL[0].params, 'f64', ensures=zero_ens, gen=gzero, prove=False, nan_ok=True, bounded_note='excluded from the contract "calibrate" because of a known finding: only the probability 0 and models whose first threshold is 0'))


# ------------------------------------------------------------------ fitting (bounded)
def average(thr, prob):
    d = {}
    for t, p in zip(thr, prob):
        d.setdefault(t, []).append(F(p))
    return [(t, sum(d[t]) / len(d[t])) for t in sorted(d)]


def pava(bins):
    """merges maximal non-increasing sequences into their mean, from left to right, restarting at the previous bin; None: a comparison is too close to call"""
    b = list(bins)
    i = 0
    exact = [True] * len(b)

    def le(x, y):
        if x[1] == y[1] and not (x[2] and y[2]):
            raise ArithmeticError
        return x[1] <= y[1]
    b = [(t, p, p.denominator in (1, 2, 4, 8)) for t, p in b]
    while i + 1 < len(b):
        if not le(b[i + 1], b[i]):
            i += 1
            continue
        j = i + 1
        while j + 1 < len(b) and le(b[j + 1], b[j]):
            j += 1
        m = sum(x[1] for x in b[i:j + 1]) / (j - i + 1)
        b[i:j + 1] = [(b[i][0], m, all(x[2] for x in b[i:j + 1]) and j - i + 1 in (1, 2))]
        i = max(0, i - 1)
    return [(t, p) for t, p, _ in b]


def fit_ens(e):
    k = e.ret
    r = [('number of bins', 1 <= k <= e.n)]
    if not r[0][1]:
        return r
    t, p = list(e.post.outThr)[:k], list(e.post.outProb)[:k]
    r.append(('thresholds are observed ones, in increasing order', all(x in set(e.thr) for x in t) and all(a < b for a, b in zip(t, t[1:]))))
    r.append(('probabilities increase', all(a < b for a, b in zip(p, p[1:]))))
    r.append(('probabilities are between the observed ones', all(min(e.prob) - 1e-12 <= x <= max(e.prob) + 1e-12 for x in p)))
    try:
        w = pava(average(e.thr, e.prob))
        r.append(('probabilities of equal thresholds are averaged, non-increasing sequences are replaced by their mean', len(w) == k and all(a == t[i] and abs(b - p[i]) <= 1e-9 for i, (a, b) in enumerate(w))))
    except ArithmeticError:
        pass
    return r


def gbins(rng):
    n = rng.randint(1, 9)
    big = rng.random() < .5
    thr = [rng.choice([0.0, 1.0, rng.randint(0, 16) / 16, rng.randint(0, 4) / 4]) for _ in range(n)] if big else [x / 16 for x in grid(rng, n)]
    if rng.random() < .5:
        rng.shuffle(thr)
    return n, thr, [rng.choice([0.0, 1.0, 1.0, 0.0, rng.randint(0, 8) / 8]) for _ in range(n)]


BINS = [Sc('n', 'u32'), Arr('thr', 'f64', 'n'), Arr('prob', 'f64', 'n')]


def gfit(rng):
    n, thr, prob = gbins(rng)
    return dict(n=n, thr=thr, prob=prob, outThr=[9.0] * n, outProb=[9.0] * n)


def gpair(rng):
    n, thr, prob = gbins(rng)
    p, q = sorted(rng.choice([0.0, 1.0, rng.choice(thr), rng.randint(0, 64) / 64]) for _ in range(2))
    return dict(n=n, thr=thr, prob=prob, p=p, q=q, joint=rng.random() < .5, out=[9.0, 9.0])


def pair_ens(e):
    a, b = e.post.out[0], e.post.out[1]
    # documented faulty behaviour: the probability 0, if a fitted threshold is 0
    def nan(x, p):
        return x != x and p == 0 and 0.0 in list(e.thr)
    if nan(a, e.p):
        return [('calibrated probabilities are probabilities (not a number for the probability 0)', False)]
    return [('calibrated probabilities are probabilities', 0 <= a <= 1 and 0 <= b <= 1), ('larger probabilities have no smaller calibrated probabilities', a <= b + 1e-12)]


FIT = [Contract('fit', 'h_fit', BINS + [Arr('outThr', 'f64', 'n', out=True), Arr('outProb', 'f64', 'n', out=True)], 'u32', ensures=fit_ens, prove=False, gen=gfit,
                bounded_note='std::sort and std::vector::resize are out of reach: up to 9 bins with ties'),
       Contract('monotone', 'h_calibrate_pair', BINS + [Sc('p', 'f64'), Sc('q', 'f64'), Sc('joint', 'bool'), Arr('out', 'f64', 2, out=True)], ensures=pair_ens, prove=False, gen=gpair,
                bounded_note='fitted models of up to 9 bins, pairs of probabilities')]


# ------------------------------------------------------------------ bins that are used for fitting (bounded)
def logistic(x):
    return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))


def score(e, x, c):
    return e.s[x * e.no + c] if not e.sparseScores or e.has[x * e.no + c] else 0.0


def multiset_close(a, b):
    a, b = sorted(a), sorted(b)
    return len(a) == len(b) and all(abs(x[0] - y[0]) <= 1e-9 and abs(x[1] - y[1]) <= 1e-9 for x, y in zip(a, b))


def lists(e, n, cap):
    return [[(round(e.post.outThr[i * cap + j], 12), e.post.outProb[i * cap + j]) for j in range(e.post.cnt[i])] for i in range(n)]


def marg_ens(e):
    if e.ret:
        return [('number of bins', False)]
    got = lists(e, e.no, e.m + 1)
    ok = True
    for c in range(e.no):
        w, zero = [], []
        for x in list(e.ex)[:e.m]:
            y = 1.0 if e.y[x * e.no + c] else 0.0
            if e.sparseScores and not e.has[x * e.no + c]:
                zero.append(y)
            else:
                w.append((round(logistic(e.s[x * e.no + c]), 12), y))
        if e.sparseScores:
            w.append((0.0, sum(zero) / len(zero) if zero else 0.0))
        ok = ok and multiset_close(got[c], w)
    return [('one bin per example and label, examples without a score are averaged', ok)]


def joint_ens(e):
    if e.ret:
        return [('number of bins', False)]
    got = lists(e, e.nl, e.m)
    ok = faulty = True
    for i in range(e.nl):
        w, f = [], []
        for x in list(e.ex)[:e.m]:
            p = 1.0
            for c in range(e.no):
                q = logistic(score(e, x, c))
                p *= q if e.lv[i * e.no + c] else 1 - q
            a, b = [c for c in range(e.no) if e.y[x * e.no + c]], [c for c in range(e.no) if e.lv[i * e.no + c]]
            w.append((round(p, 12), 1.0 if a == b else 0.0))
            # documented faulty behaviour: further relevant labels of the example are ignored
            f.append((round(p, 12), 1.0 if a[:len(b)] == b else 0.0))
        ok = ok and multiset_close(got[i], w)
        faulty = faulty and multiset_close(got[i], f)
    return [('one bin per example and label vector, whose probability is 1 iff the labels of the example are exactly this label vector' + (' (further relevant labels of the example are ignored)' if faulty and not ok else ''), ok)]


XP = [Sc('nr', 'u32'), Sc('no', 'u32'), Arr('y', 'u8', lambda e: e.nr * e.no), Arr('s', 'f64', lambda e: e.nr * e.no), Arr('has', 'u8', lambda e: e.nr * e.no), Sc('sparseLabels', 'bool'), Sc('sparseScores', 'bool'), Sc('m', 'u32'), Arr('ex', 'u32', 'm')]


def gext(c):
    def g(rng):
        nr, no = rng.randint(1, 4), rng.randint(1, 4)
        m = rng.randint(1, nr)
        nl = rng.randint(1, 4)
        full = rng.random() < .3
        d = dict(nr=nr, no=no, m=m, nl=nl, y=[rng.randint(0, 1) for _ in range(nr * no)], s=[rng.choice([0.0, 1.0, -1.0, 2.5, rng.randint(-16, 16) / 8]) for _ in range(nr * no)],
                 has=[1 if full else rng.randint(0, 1) for _ in range(nr * no)], sparseLabels=rng.random() < .5, sparseScores=rng.random() < .5, ex=rng.sample(range(nr), m))
        d['lv'] = [rng.randint(0, 1) for _ in range(nl * no)]
        if rng.random() < .5:
            d['lv'][:no] = d['y'][:no]
        k, cap = (nl, m) if c.name == 'joint_bins' else (no, m + 1)
        d.update(cnt=[9] * k, outThr=[9.0] * (k * cap), outProb=[9.0] * (k * cap))
        return {p.name: d[p.name] for p in c.params}
    return g


EXT = [Contract('marginal_bins', 'h_marginal_bins', XP + [Arr('cnt', 'u32', 'no', out=True), Arr('outThr', 'f64', lambda e: e.no * (e.m + 1), out=True), Arr('outProb', 'f64', lambda e: e.no * (e.m + 1), out=True)], 'u32',
                ensures=marg_ens, prove=False, bounded_note='virtual calls and std::vector: up to 4 examples and labels, dense and sparse labels and scores'),
       Contract('joint_bins', 'h_joint_bins', XP + [Sc('nl', 'u32'), Arr('lv', 'u8', lambda e: e.nl * e.no), Arr('cnt', 'u32', 'nl', out=True), Arr('outThr', 'f64', lambda e: e.nl * e.m, out=True), Arr('outProb', 'f64', lambda e: e.nl * e.m, out=True)], 'u32',
                ensures=joint_ens, prove=False, bounded_note='virtual calls and std::vector: up to 4 examples, labels and label vectors, dense and sparse labels and scores')]
for c in EXT:
    c.gen = gext(c)
UNITS = [{'harness': 'h_calib.cpp', 'contracts': CAL + FIT}, {'harness': 'h_extract.cpp', 'contracts': EXT}]
