from lib import *

TOT = [Arr('total', 'u32', 'nt'), Sc('nt', 'u32', 0, 2 ** 28)]
SMP = [Arr('out', 'u32', 'ns', out=True), Sc('ns', 'u32', 0, 2 ** 28), Sc('seed', 'u32')]


def inv_of(e, v):
    """position of index v among the available indices"""
    return e.fun('pos', v, sort='int')


def total_req(e, smp=True):
    cnt = [e.ns <= e.nt] if smp else []
    if not e.sym:
        return cnt + [len(set(e.total[i] for i in range(e.nt))) == e.nt]
    i = z3.Int(fresh_name('i'))
    return cnt + [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e.nt), inv_of(e, e.total[i]) == i), patterns=[e.total[i]])]


def distinct(e, a, n, lo=0):
    if not e.sym:
        l = [a[i] for i in range(lo, n)]
        return len(set(l)) == len(l)
    i, j = z3.Ints(fresh_name('i') + ' ' + fresh_name('j'))
    return z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < n), a[i] != a[j]))


def available(e, v):
    if not e.sym:
        return any(e.total[i] == v for i in range(e.nt))
    p = inv_of(e, v)
    return And(0 <= p, p < e.nt, e.total[p] == v)


def smp_ens(e):
    return [('no index is drawn twice', distinct(e, e.post.out, e.ns)),
            ('only available indices are drawn', e.forall(0, e.ns, lambda i: available(e, e.post.out[i])))]


def rng_ens(e):
    return [('no index is drawn twice', distinct(e, e.post.out, e.ns)),
            ('only available indices are drawn', e.forall(0, e.ns, lambda i: And(0 <= e.post.out[i], e.post.out[i] < e.nt)))]


def inv_tracking(av):
    def inv(L):
        e = L.e
        out = []
        sel = [m for m in L.mods if m.name == 'selected']
        o = cur(L, 'out')
        n = L.k if L.parent is None else L.parent.k
        for m in sel:
            out += [('drawn indices are remembered', e.forall(0, n, lambda i: m.cur[o[i]] == 1)),
                    ('drawn indices are available', e.forall(0, n, lambda i: av(e, o[i]))),
                    ('drawn indices are distinct', distinct(e, o, n))]
            if L.parent is not None:
                for b in L.phis_of('u8', 'bool'):
                    for s in L.scalars_of('u32'):
                        v = s.val if isz(s.val) or isinstance(s.val, int) else z3.Int(fresh_name('any'))
                        out.append(('if %s signals success, %s is a new index' % (b.name, s.name), Or(
                            b.val != 0, And(av(e, v), m.cur[v] == 1, e.forall(0, n, lambda i: o[i] != v)))))
        return out
    return inv


def inv_pos(av, val):
    """phase 1: the first k samples are the first k indices; phase 2: each sample is one of the first s + k indices"""
    def inv(L):
        e = L.e
        o = cur(L, 'out')
        out = [('first samples', e.forall(0, If(L.k < e.ns, L.k, e.ns), lambda i: o[i] == val(e, i)))]
        pos = (lambda v: inv_of(e, v)) if val is tot_at else (lambda v: v)
        out += [('samples stem from the indices visited so far', e.forall(0, e.ns, lambda i: And(av(e, o[i]), pos(o[i]) < e.ns + L.k))),
                ('samples are distinct', distinct(e, o, e.ns))]
        return out
    return inv


def tot_at(e, i):
    return e.total[i]


def cat(L, e, rest):
    """sampled indices followed by the unused ones"""
    o = cur(L, 'out')
    return lambda i: If(i < e.ns, o[i], rest[i - e.ns])


def inv_perm(av, val):
    def inv(L):
        e = L.e
        o = cur(L, 'out')
        out = [('first samples', e.forall(0, L.k, lambda i: o[i] == val(e, i)))]
        for m in rest_of(L):
            out += [('unused indices', e.forall(0, L.k, lambda i: m.cur[i] == val(e, e.ns + i))),
                    ('unused indices are available', e.forall(0, e.nt - e.ns, lambda i: av(e, m.cur[i]))),
                    ('unused indices are distinct', distinct(e, m.cur, e.nt - e.ns)),
                    ('sampled indices are available', e.forall(0, e.ns, lambda i: av(e, o[i]))),
                    ('sampled indices are distinct', distinct(e, o, e.ns)),
                    ('sampled indices are not unused', disjoint(e, o, e.ns, m.cur, e.nt - e.ns))]
        return out
    return inv


def disjoint(e, a, n, b, m):
    i, j = z3.Ints(fresh_name('i') + ' ' + fresh_name('j'))
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < m), a[i] != b[j]))


def rest_of(L):
    return [m for m in L.mods_of('u32') if m.name == 'heap']


INDEX = []
for nm, inv in (('tracking', inv_tracking(available)), ('reservoir', inv_pos(available, tot_at)), ('permutation', inv_perm(available, tot_at))):
    INDEX.append(Contract('indices_' + nm, 'h_idx_' + nm, TOT + SMP, None, requires=lambda e: total_req(e), ensures=smp_ens, invs=[inv], stubs=SAMPLING_STUBS))
below = lambda e, v: And(0 <= v, v < e.nt)
INDEX.append(Contract('indices_any', 'h_idx_any', TOT[1:] + SMP, None, requires=lambda e: [e.ns <= e.nt], ensures=rng_ens,
                      invs=[inv_tracking(below), inv_pos(below, lambda e, i: i), inv_perm(below, lambda e, i: i)], stubs=SAMPLING_STUBS))


def sample_range(ex, st, args, ins):
    """contract of sampleIndicesWithoutReplacement over a range (proved as indices_any)"""
    p, ns, nt = args[0], zi(args[1]), zi(args[3])
    ex.oblige(st, 'sampleIndicesWithoutReplacement: not more samples than available', 'precondition', z3.And(0 <= ns, ns <= nt))
    ex.range_bounds(st, p, imul(ns, 4), 'samples')
    q = lin_div(p.off, 4)
    if not q:
        raise Unsupported('unaligned samples')
    lo = zi(q[0])
    m = ex.promote(st, p.r, 4).copy()
    old = ex.field(st, p.r, m, 0, U32)
    new = ex.fresh('samples', old.sort())
    i, j = z3.Ints(fresh_name('i') + ' ' + fresh_name('j'))
    ex.assume(st, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < lo + ns), z3.And(0 <= new[i], new[i] < nt)), patterns=[new[i]]))
    ex.assume(st, z3.ForAll([i], z3.Implies(z3.Or(i < lo, i >= lo + ns), new[i] == old[i]), patterns=[new[i]]))
    ex.assume(st, z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < lo + ns), new[i] != new[j])))
    m.fields[0] = (m.fields[0][0], new)
    st.mem[p.r.id] = m
    ex.note_write(st, p.r, 'f', 0, (4, U32))


SAMPLE = r'^void sampleIndicesWithoutReplacement<IndexIterator>\('
CLASSES = []
CLASSES.append(Contract('outputs', 'h_outputs', TOT[1:] + SMP, None, requires=lambda e: [e.ns <= e.nt], ensures=rng_ens, stubs={'re:' + SAMPLE: sample_range}))
CLASSES.append(Contract('round_robin', 'h_round_robin', [Sc('n', 'u32', 1, 2 ** 28), Sc('k', 'u32'), Arr('next', 'u32', 1, out=True)], 'u32',
                      requires=lambda e: [e.k < e.n],
                      ensures=lambda e: [('the next output is selected', e.ret == e.k), ('outputs take turns', e.post.next[0] == If(e.k + 1 == e.n, 0, e.k + 1))]))


def g_total(rng):
    nt = rng.choice([0, 1, 2, 3, 5, 8, 17, 40, 70, 120])
    ns = rng.choice([0, nt, rng.randint(0, nt), rng.randint(0, nt), min(nt, 2)])
    nf = rng.randint(0, nt)
    idx = rng.sample(range(nt * 2), nt)
    n = rng.choice([1, 2, 3, 5, 9, 30])
    ret = rng.choice([0, 0, 1, 2, n, n + 1])
    mn = rng.choice([1, 1, 2, 5])
    mx = rng.choice([0, 0, mn, mn + 1, mn + 7])
    return dict(nt=nt, ns=ns, total=idx, out=[2 ** 32 - 1] * ns, seed=rng.randint(1, 2 ** 32 - 1), n=n, k=rng.randrange(n), next=[7],
                kind=rng.randint(0, 2), size=rng.choice([0.01, 0.05, 0.33, 0.5, 0.7, 0.99]), mn=mn, mx=mx, rounds=rng.randint(1, n + 2), no=rng.random() < .2,
                retained=ret, mode=rng.randint(0, 2))


def bounded_fraction(e, n, f, mn, mx):
    """intended number of samples (small numbers, where products of 32-bit floats are unambiguous)"""
    import math
    import numpy as np
    r = int(np.ceil(np.float32(f) * np.float32(n)))
    lo = min(mn, n)
    return lo if r < lo else min(r, mx) if mx >= mn else r


def outcfg_ens(e):
    out = [e.post.out[i] for i in range(e.ret)] if e.ret <= e.n else None
    if out is None:
        return [('no more outputs than available', False)]
    if e.kind == 0:
        return [('all outputs are included', out == list(range(e.n)))]
    if e.kind == 1:
        return [('outputs take turns', out == [(e.rounds - 1) % e.n])]
    return [('no output is drawn twice', len(set(out)) == len(out)), ('only available outputs are drawn', all(o < e.n for o in out)),
            ('as many outputs as configured', len(out) == bounded_fraction(e, e.n, e.size, e.mn, e.mx))]


def featcfg_ens(e):
    import math
    if e.ret > e.n:
        return [('no more features than available', False)]
    out = [e.post.out[i] for i in range(e.ret)]
    again = [e.post.again[i] for i in range(e.ret)]
    if e.no:
        return [('all features are included', out == list(range(e.n)))]
    ret = min(e.retained, e.n)
    rem = e.n - ret
    num = bounded_fraction(e, rem, e.size, e.mn, e.mx) if e.size > 0 else int(math.log2(rem - 1) + 1) if rem > 1 else rem
    return [('no feature is drawn twice', len(set(out)) == len(out)), ('only available features are drawn', all(o < e.n for o in out)),
            ('retained features are included', all(f in out for f in range(rem, e.n))), ('as many features as configured', len(out) == num + ret),
            ('a fixed sample does not change', e.mode != 2 or out == again)]


def g_cfg(c):
    def g(rng):
        d = g_total(rng)
        if c.name == 'feature_config':
            d['size'] = rng.choice([0.0, 0.0, 0.05, 0.33, 0.5, 0.7, 0.99])
        if c.name in ('feature_config', 'output_config'):
            d['out'] = [9999] * (d['n'] + 40)
            d['again'] = [9999] * (d['n'] + 40)
        if c.name == 'features':
            d['retained'] = rng.choice([0, 0, 1, 3])
            d['out'] = [9999] * (d['ns'] + d['retained'])
        return {p.name: d[p.name] for p in c.params}
    return g


CFG = [Sc('size', 'f32'), Sc('mn', 'u32'), Sc('mx', 'u32')]
N = lambda e: e.n + 40
NOTE = 'the configuration passes through type-erased callables (std::function) and virtual factories; the sampling itself is proved by the other contracts'
CLASSES.append(Contract('output_config', 'h_output_config', [Sc('n', 'u32', 1), Sc('kind', 'u8', 0, 2)] + CFG + [Sc('seed', 'u32'), Sc('rounds', 'u32'), Arr('out', 'u32', N, out=True)], 'u32',
                      ensures=outcfg_ens, prove=False, bounded_note=NOTE))
CLASSES.append(Contract('feature_config', 'h_feature_config', [Sc('n', 'u32', 1), Sc('no', 'bool')] + CFG + [Sc('retained', 'u32'), Sc('seed', 'u32'), Sc('rounds', 'u32'), Sc('mode', 'u8', 0, 2),
                      Arr('out', 'u32', N, out=True), Arr('again', 'u32', N, out=True)], 'u32', ensures=featcfg_ens, prove=False, bounded_note=NOTE))


def feat_ens(e):
    r = e.retained
    return [('no feature is drawn twice', distinct(e, e.post.out, e.ns + r)),
            ('only available features are drawn', e.forall(r, e.ns + r, lambda i: And(0 <= e.post.out[i], e.post.out[i] < e.nt))),
            ('the last features are retained', e.forall(0, r, lambda i: e.post.out[i] == e.nt + i))]


def inv_feat(L):
    e = L.e
    o = next((m.cur for m in L.mods_of('u32') if m.name == 'heap'), None)
    if o is None:
        return []
    return [('retained features', e.forall(0, If(L.k < e.retained, L.k, e.retained), lambda i: o[i] == e.nt + i))]


FEATURES = Contract('features', 'h_features', [Sc('nt', 'u32', 0, 2 ** 28), Sc('retained', 'u32', 0, 2 ** 28), Arr('out', 'u32', lambda e: e.ns + e.retained, out=True),
                                                Sc('ns', 'u32', 0, 2 ** 28), Sc('seed', 'u32')], None, requires=lambda e: [e.ns <= e.nt], ensures=feat_ens, stubs={'re:' + SAMPLE: sample_range},
                    invs=[inv_feat])
CLASSES.append(FEATURES)
for c in INDEX + CLASSES:
    c.gen = g_cfg(c)
UNITS = [{'harness': 'h_index.cpp', 'contracts': INDEX, 'opaque': SAMPLING_OPAQUE},
         {'harness': 'h_index.cpp', 'contracts': CLASSES, 'opaque': SAMPLING_OPAQUE + [SAMPLE]}]
