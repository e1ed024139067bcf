from lib import *
from P02 import MODEL, DATA, order, covers, head, gmodel, sums
from P17 import logistic
import itertools
"""labels and probabilities that are derived from predicted scores"""


# ------------------------------------------------------------------ transformations of a row of scores (proved)
def inv(f):
    def g(L):
        e = L.e
        return [('%s so far' % m.name, e.forall(0, L.k, lambda i: m.cur[i] == f(e, i))) for m in L.mods]
    return g


BIG = 2 ** 28
LABEL = lambda e, i: If(e.scores[i] > e.threshold, 1, 0)
SIG = lambda e, x: If(x >= 0, 1 / (1 + e.fp.exp(0 - x)), e.fp.exp(x) / (1 + e.fp.exp(x)))
DISC = Contract('discretize', 'h_discretize', [Sc('n', 'u32', 0, BIG), Arr('scores', 'f64', 'n'), Sc('threshold', 'f64'), Arr('out', 'u8', 'n', out=True)],
                ensures=lambda e: [('a label is relevant iff its score exceeds the threshold', e.forall(0, e.n, lambda i: e.post.out[i] == LABEL(e, i)))], invs=[inv(LABEL)])


def gdisc(rng):
    n = rng.randint(0, 6)
    t = rng.choice([0.0, 0.5, -1.0])
    return dict(n=n, scores=[rng.choice([t, t + 1e-9, t - 1e-9, 0.0, rng.randint(-8, 8) / 4]) for _ in range(n)], threshold=t, out=[7] * n)


DISC.gen = gdisc


# ------------------------------------------------------------------ whole predictions (bounded)
def marginal(e, c, s):
    p = logistic(s)
    return p * p if e.useCal and c % 2 else p


def vectors(e):
    return [[bool(e.lv[i * e.no + c]) for c in range(e.no)] for i in range(e.nl)]


def joint(e, i, v, s):
    p = 1.0
    for c in range(e.no):
        q = marginal(e, c, s[c])
        p *= q if v[c] else 1 - q
    return p * (2 - p) if e.useCal and i % 2 else p


def dist(e, s):
    j = [joint(e, i, v, s) for i, v in enumerate(vectors(e))]
    t = sum(j)
    return [x / t if t > 0 else 0.0 for x in j]


def f1(y, z):
    tp = sum(a and b for a, b in zip(y, z))
    return 1.0 if not any(y) and not any(z) else 2 * tp / (sum(y) + sum(z))


def bin_ens(e):
    w = sums(e)
    ok = e.ret == 0
    rows = [w[x * e.no:(x + 1) * e.no] for x in range(e.nr)]
    got = [[e.post.out[x * e.no + c] for c in range(e.no)] for x in range(e.nr)]
    r = [('rows of sparse predictions list the relevant labels in increasing order', ok), ('predictions are 0 or 1', all(v in (0, 1) for g in got for v in g))]
    good = True
    for s, g in zip(rows, got):
        if e.how == 0:
            good = good and g == [int(v > e.threshold) for v in s]
        elif e.how == 1:
            good = good and all(abs(marginal(e, c, v) - .5) < 1e-9 or g[c] == int(marginal(e, c, v) > .5) for c, v in enumerate(s))
        elif e.nl == 0:
            good = good and not any(g)
        elif e.how in (2, 3):
            V = vectors(e)
            d = [sum(a != (x > 0) for a, x in zip(v, s)) if e.how == 2 else 1.0 - joint(e, i, v, s) for i, v in enumerate(V)]
            m = min(d)
            cand = [i for i in range(e.nl) if d[i] <= m + 1e-9]
            if all(d[i] == m for i in cand):
                best = max(cand, key=lambda i: (e.freq[i], -i))
                good = good and [bool(v) for v in g] == V[best]
            else:
                good = good and any([bool(v) for v in g] == V[i] for i in cand)
        else:
            V, P = vectors(e), dist(e, s)
            q = lambda z: sum(p * f1(v, z) for v, p in zip(V, P))
            good = good and q([bool(v) for v in g]) >= max(q(z) for z in itertools.product([False, True], repeat=e.no)) - 1e-9
    what = {0: 'labels whose score exceeds the threshold are relevant', 1: 'labels whose probability exceeds 0.5 are relevant', 2: 'the closest known label vector (the most frequent one of several) is predicted',
            3: 'the most probable known label vector (the most frequent one of several) is predicted', 4: 'the prediction maximises the expected F1-measure'}[e.how]
    return r + [(what, good)]


def prob_ens(e):
    w = sums(e)
    good = True
    for x in range(e.nr):
        s = w[x * e.no:(x + 1) * e.no]
        g = [e.post.out[x * e.no + c] for c in range(e.no)]
        if e.how == 0:
            want = [marginal(e, c, v) for c, v in enumerate(s)]
        elif e.nl == 0:
            want = [0.0] * e.no
        else:
            V, P = vectors(e), dist(e, s)
            want = [sum(p for v, p in zip(V, P) if v[c]) for c in range(e.no)]
        good = good and all(abs(a - b) <= 1e-9 for a, b in zip(g, want))
    return [('probabilities are the calibrated logistic transforms of the scores' if e.how == 0 else 'probabilities are the sums of the normalised probabilities of the label vectors that contain the label', good),
            ('probabilities are within [0, 1]', all(-1e-12 <= e.post.out[i] <= 1 + 1e-12 for i in range(len(w))))]


PP = MODEL + DATA + [Sc('step', 'u32'), Sc('nl', 'u32'), Arr('lv', 'u8', lambda e: e.nl * e.no), Arr('freq', 'u32', 'nl'), Sc('useCal', 'bool'), Sc('how', 'u32')]


def gpred(c, kinds):
    def g(rng):
        d = gmodel(rng)
        no = d['no']
        allv = list(itertools.product([0, 1], repeat=no))
        nl = rng.randint(0, min(4, len(allv)))
        V = rng.sample(allv, nl)
        d.update(step=rng.choice([0, 0, 1, 2]), nl=nl, lv=[x for v in V for x in v], freq=[rng.randint(1, 3) for _ in range(nl)], useCal=rng.random() < .4, how=rng.choice(kinds), sparseLabels=rng.random() < .5,
                 threshold=rng.choice([0.0, 0.5, -1.0]), out=[7] * (d['nr'] * no) if c.name != 'probabilities' else [7.0] * (d['nr'] * no))
        return {p.name: d[p.name] for p in c.params}
    return g


NOTE = 'whole predictions (virtual calls, std::function visitors, std::partial_sort): models of up to 5 rules, 4 examples, 4 labels, 4 label vectors, dense and sparse, at once and incrementally'
PRED = []
for name, kinds in (('output_wise', (0, 1)), ('example_wise', (2, 3)), ('gfm', (4,))):
    c = Contract(name, 'h_predict_binary', PP + [Sc('sparseLabels', 'bool'), Sc('threshold', 'f64'), Arr('out', 'u8', lambda e: e.nr * e.no, out=True)], 'u32', ensures=bin_ens, prove=False, bounded_note=NOTE)
    c.gen = gpred(c, kinds)
    PRED.append(c)
c = Contract('probabilities', 'h_predict_prob', PP + [Arr('out', 'f64', lambda e: e.nr * e.no, out=True)], 'u32', ensures=prob_ens, prove=False, bounded_note=NOTE)
c.gen = gpred(c, (0, 1))
PRED.append(c)
UNITS = [{'harness': 'h_transform.cpp', 'contracts': [DISC] + PRED}]
