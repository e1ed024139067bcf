from lib import *
from indices import distinct, disjoint
import numpy as np
NF = [Sc('nf', 'u32', 0, 2 ** 28), Sc('ns', 'u32', 0, 2 ** 28)]


def sym_disjoint(e, a, n, b, m):
    if e.sym:
        return disjoint(e, a, n, b, m)
    return not (set(a[i] for i in range(n)) & set(b[i] for i in range(m)))


def split_ens(e):
    f, s = e.post.first, e.post.second
    return [('training examples are valid', e.forall(0, e.nf, lambda i: And(0 <= f[i], f[i] < e.nf + e.ns))),
            ('holdout examples are valid', e.forall(0, e.ns, lambda i: And(0 <= s[i], s[i] < e.nf + e.ns))),
            ('no training example occurs twice', distinct(e, f, e.nf)), ('no holdout example occurs twice', distinct(e, s, e.ns)),
            ('the sets are disjoint', sym_disjoint(e, f, e.nf, s, e.ns))]


def inv_split(L):
    e = L.e
    out = []
    for m in L.mods_of('u32'):
        if m.name != 'heap':
            continue
        n = e.nf + e.ns
        out += [('training indices', e.forall(0, L.k, lambda i: m.cur[i] == i)), ('all training indices', e.forall(0, e.nf, lambda i: m.cur[i] == i)),
                ('holdout indices', e.forall(e.nf, e.nf + L.k, lambda i: m.cur[i] == i)),
                ('indices are valid', e.forall(0, n, lambda i: And(0 <= m.cur[i], m.cur[i] < n))), ('indices are distinct', distinct(e, m.cur, n))]
    return out


SPLIT = [
    Contract('random_split', 'h_random_split', NF + [Arr('first', 'u32', 'nf', out=True), Arr('second', 'u32', 'ns', out=True), Sc('seed', 'u32')], None, ensures=split_ens, invs=[inv_split],
             stubs=SAMPLING_STUBS),
    Contract('bi_accessors', 'h_bi_accessors', NF + [Arr('out', 'u32', 9, out=True)], None, ensures=lambda e: [
        ('sizes and ranges', And(e.post.out[0] == e.nf, e.post.out[1] == e.ns, e.post.out[2] == e.nf + e.ns, e.post.out[3] == e.nf, e.post.out[4] == e.ns, e.post.out[5] == e.nf,
                                 e.post.out[6] == e.nf, e.post.out[7] == e.ns, e.post.out[8] == e.nf))]),
]


def holdout(e):
    return int(np.float32(e.size) * np.float32(e.n))


def strata(e, kind, idx):
    """the strata of the given examples, in the order in which they are processed"""
    rows = {i: tuple(1 if e.labels[i * e.m + j] else 0 for j in range(e.m)) for i in idx}
    if kind == 0:
        d = {}
        for i in idx:
            d.setdefault(rows[i], []).append(i)
        return list(d.values())
    left = set(idx)
    out = []
    while True:
        cnt = {j: sum(rows[i][j] for i in left) for j in range(e.m)}
        c = [(cnt[j], j) for j in range(e.m) if cnt[j] > 0]
        if not c:
            break
        j = min(c)[1]
        s = [i for i in idx if i in left and rows[i][j]]
        left -= set(s)
        out.append(s)
    if left:
        out.append(sorted(left))
    return out


def cfg_ens(e):
    nf = e.n - holdout(e)
    o = [e.post.out[i] for i in range(e.n)]
    out = [('size of the training set', e.ret == nf), ('every example belongs to exactly one set', sorted(o) == list(range(e.n))),
           ('reproducible', all(e.post.again[i] == o[i] for i in range(e.n)))]
    if e.sort:
        out.append(('sorted', o[:nf] == sorted(o[:nf]) and o[nf:] == sorted(o[nf:])))
    if e.kind:
        tr = set(o[:nf])
        st = strata(e, e.kind - 1, range(e.n))
        if e.kind == 1:
            st.sort(key=len)
            if len(set(len(x) for x in st)) < len(st):
                st = []
        a, b = nf, e.n - nf
        for x in st:
            k = sum(i in tr for i in x)
            f = float(np.float32(np.float32(a) / np.float32(a + b)) * np.float32(len(x)))
            out.append(('every stratum is split in proportion to the remaining sizes of both sets', any(
                k == (a if c > a else len(x) - b if len(x) - c > b else c) for c in (int(np.floor(f)), int(np.ceil(f))))))
            a, b = a - k, b - (len(x) - k)
    return out


def reg_ens(e):
    o = [e.post.out[i] for i in range(e.n)]
    if e.no:
        return [('all examples belong to the training set', e.ret == e.n and o == list(range(e.n)))]
    return [('size of the training set', e.ret == e.n - holdout(e)), ('every example belongs to exactly one set', sorted(o) == list(range(e.n)))]


def strat_ens(e):
    idx = [e.total[i] for i in range(e.nt)] if e.bi else list(range(e.n))
    w = [e.post.out[i] for i in range(e.n)]
    out = [('only training examples are selected', all(i in set(idx) for i in range(e.n) if w[i])), ('reported number of non-zero weights', e.ret == sum(w))]
    for s in strata(e, e.kind, idx):
        x = float(np.float32(e.size) * np.float32(len(s)))
        k = sum(w[i] for i in s)
        out.append(('every stratum is sampled proportionally', k in (int(np.floor(x)), int(np.ceil(x)))))
    return out


def gen(c):
    def g(rng):
        n, m = rng.choice([1, 2, 3, 5, 8, 13, 30, 70]), rng.choice([1, 1, 2, 3, 5])
        d = rng.choice([0.1, 0.3, 0.5, 0.8])
        k = rng.randint(1, n)
        mn = rng.choice([1, 1, 2, 5])
        nf = rng.choice([0, 1, 2, 5, 30, 64, 65])
        ns = rng.choice([0, 1, 2, 5, 30, 64, 65])
        v = dict(n=n, m=m, labels=[1 if rng.random() < d else 0 for _ in range(n * m)], kind=rng.randint(0, 2 if c.name == 'split_config' else 1), sparse=rng.random() < 0.5,
                 size=rng.choice([0.01, 0.1, 0.33, 0.5, 0.66, 0.9, 0.99]), seed=rng.randint(1, 2 ** 32 - 1), sort=rng.random() < 0.5, nt=k, total=rng.sample(range(n), k), bi=rng.random() < 0.6,
                 mn=mn, mx=rng.choice([0, 0, mn, mn + 3]), rounds=rng.randint(1, 3), no=rng.random() < 0.3, nf=nf, ns=ns)
        for p in c.params:
            if getattr(p, 'out', False):
                v[p.name] = [9] * 9 if c.name == 'bi_accessors' else [77] * (nf if p.name == 'first' else ns if p.name == 'second' else n)
        return {p.name: v[p.name] for p in c.params}
    return g


LAB = [Arr('labels', 'u8', lambda e: e.n * e.m), Sc('n', 'u32', 1), Sc('m', 'u32', 1), Sc('kind', 'u8', 0, 2), Sc('sparse', 'bool')]
NOTE = 'hash maps, ordered sets and std::sort are used to form the strata, and the sizes are obtained by floating-point rounding per stratum'
SPLIT += [
    Contract('split_config', 'h_split_config', LAB + [Sc('size', 'f32'), Sc('seed', 'u32', 1), Sc('sort', 'bool'), Arr('out', 'u32', 'n', out=True), Arr('again', 'u32', 'n', out=True)], 'u32',
             ensures=cfg_ens, prove=False, bounded_note=NOTE),
    Contract('split_regression', 'h_split_regression', [Sc('n', 'u32', 1), Sc('size', 'f32'), Sc('seed', 'u32', 1), Sc('sparse', 'bool'), Sc('no', 'bool'), Arr('out', 'u32', 'n', out=True)], 'u32',
             ensures=reg_ens, prove=False, bounded_note=NOTE),
]
STRAT = Contract('stratified_weights', 'h_strat_weights', LAB + [Arr('total', 'u32', 'nt'), Sc('nt', 'u32', 1), Sc('bi', 'bool'), Sc('size', 'f32'), Sc('mn', 'u32', 1), Sc('mx', 'u32'),
                 Sc('seed', 'u32', 1), Sc('rounds', 'u32'), Arr('out', 'u8', 'n', out=True)], 'u32', ensures=strat_ens, prove=False, bounded_note=NOTE)
for c in SPLIT + [STRAT]:
    c.gen = gen(c)
UNITS = [{'harness': 'h_part.cpp', 'contracts': SPLIT, 'opaque': SAMPLING_OPAQUE}]
