from lib import *

# ------------------------------------------------------------------ order of the rules


def total(e):
    return e.n + If(e.hasDefault, 1, 0)


def length(e):
    t = total(e)
    m = If(And(e.usedOnly, e.used > 0), e.used, t)
    if hasattr(e, 'maxRules'):
        m = If(And(e.maxRules > 0, e.maxRules < m), e.maxRules, m)
    return m


def rule(e, j):
    return If(e.hasDefault, If(e.prec, If(j == 0, -1, j - 1), If(j == length(e) - 1, -1, j)), j)


def g_rule(rng):
    n = rng.choice([0, 1, 2, 3, 7])
    d = rng.random() < .6
    t = n + d
    if t == 0:
        n = t = 1
    used = rng.randint(0, t)
    return dict(n=n, hasDefault=d, prec=rng.random() < .5, used=used, maxRules=rng.randint(0, t + 2), usedOnly=rng.random() < .6, j=rng.randint(0, t),
                count=[0, 0, 0], partial=[rng.randint(0, 1) for _ in range(n)], seen=[7] * (4 * (t + 2)))


PRE = [Sc('n', 'u32', 0, 2 ** 24), Sc('hasDefault', 'bool'), Sc('prec', 'bool'), Sc('used', 'u32', 0)]


def visit_ens(e):
    m = length(e)
    exp = []
    for j in range(m):
        r = rule(e, j)
        exp += [-1, 0, -1, 0] if r < 0 else [r, 1, r, e.partial[r]]
    return [('every (used) rule is visited once, in order', e.ret == m), ('bodies and heads belong to the visited rules', [e.post.seen[i] for i in range(4 * m)] == exp)]


RULES = [
    Contract('rule_at', 'h_rule_at', PRE + [Sc('maxRules', 'u32', 0), Sc('usedOnly', 'bool'), Sc('j', 'u32'), Arr('count', 'u32', 3, out=True)], 'i32',
             requires=lambda e: [e.used <= total(e), e.j < length(e)],
             ensures=lambda e: [('number of rules', e.post.count[1] == total(e)), ('number of used rules', e.post.count[2] == If(e.used > 0, e.used, total(e))),
                                ('as many rules are enumerated as demanded', e.post.count[0] == length(e)),
                                ('rules are enumerated in the order of their addition, the default rule first or last', e.ret == rule(e, e.j))]),
    Contract('visit', 'h_visit', PRE + [Sc('usedOnly', 'bool'), Arr('partial', 'u8', 'n'), Arr('seen', 'i32', lambda e: 4 * (total(e) + 2), out=True)], 'u32',
             requires=lambda e: [e.used <= total(e)], ensures=visit_ens, prove=False,
             bounded_note='type-erased visitors (std::function) and a vector of owned objects of symbolic length are outside the verifier'),
]
for c in RULES:
    def g(rng, c=c):
        while True:
            d = g_rule(rng)
            d = {p.name: d[p.name] for p in c.params}
            return d
    c.gen = g

# ------------------------------------------------------------------ condition lists
OUT = [Arr('cnt', 'u32', 7, out=True)]
for j in range(6):
    OUT += [Arr('i%d' % j, 'u32', 'n', out=True), Arr('t%d' % j, 'f32' if j < 2 else 'i32', 'n', out=True)]
CON = [Sc('n', 'u32', 0, 2 ** 24), Arr('fi', 'u32', 'n'), Arr('cmp', 'u8', 'n'), Arr('tf', 'f32', 'n'), Arr('ti', 'i32', 'n')]


COND = Arr('cond', [('vt', 'u64'), ('start', 'u32'), ('end', 'u32'), ('inverse', 'u8'), ('feature', 'u32'), ('cmp', 'u8'), ('raw', 'u32'), ('which', 'u8'),
                    ('covered', 'u32')], 'n')

COND1 = Arr('cond', COND.kind, 1)


def rank(e, c, j):
    return e.count('rank%d' % c, j, lambda i: e.cond.cmp[i] == c)


def thr(e, c, j):
    return e.fp.ofbits(e.cond.raw[j], 32) if c < 2 else e.cond.raw[j]


def body_ens(e):
    out = []
    for c in range(6):
        out.append(('conditions of kind %d: number' % c, e.post.cnt[c] == rank(e, c, e.n)))
        ix, th = getattr(e.post, 'i%d' % c), getattr(e.post, 't%d' % c)
        same = (lambda a, b: e.fp.same(a, b)) if c < 2 else lambda a, b: a == b if e.sym else (a - b) % 2 ** 32 == 0
        out.append(('conditions of kind %d: features in the order of their addition' % c, e.forall(0, e.n, lambda j: Implies(
            e.cond.cmp[j] == c, ix[rank(e, c, j)] == e.cond.feature[j]))))
        out.append(('conditions of kind %d: thresholds in the order of their addition' % c, e.forall(0, e.n, lambda j: Implies(
            e.cond.cmp[j] == c, same(th[rank(e, c, j)], thr(e, c, j))))))
    return out


def body_req(e):
    return [e.forall(0, e.n, lambda j: And(e.cond.cmp[j] >= 0, e.cond.cmp[j] < 6, e.cond.which[j] == If(e.cond.cmp[j] < 2, 0, 1)))] + [
        e.num[c] == rank(e, c, e.n) for c in range(6)]


def inv_body(L):
    e = L.e
    out = []
    for c in range(6):
        out.append(('rank %d ascending' % c, e.forall(0, L.k, lambda j: Implies(e.cond.cmp[j] == c, And(0 <= rank(e, c, j), rank(e, c, j) < rank(e, c, L.k))))))
        out.append(('rank %d bounded' % c, And(0 <= rank(e, c, L.k), rank(e, c, L.k) <= L.k)))
        for p in L.phis_of('u32'):
            out.append(('counter %s of kind %d' % (p.name, c), p.val == rank(e, c, L.k)))
        for m in L.mods:
            if kind_of(m.ty) == 'u32':
                out.append(('%s: indices of kind %d' % (m.name, c), e.forall(0, L.k, lambda j: Implies(e.cond.cmp[j] == c, m.cur[rank(e, c, j)] == e.cond.feature[j]))))
                if c > 1:
                    out.append(('%s: thresholds of kind %d' % (m.name, c), e.forall(0, L.k, lambda j: Implies(e.cond.cmp[j] == c, m.cur[rank(e, c, j)] == e.cond.raw[j]))))
            if kind_of(m.ty) == 'f32' and c < 2:
                out.append(('%s: thresholds of kind %d' % (m.name, c), e.forall(0, L.k, lambda j: Implies(e.cond.cmp[j] == c, m.cur[rank(e, c, j)] == thr(e, c, j)))))
    return out


def lemma_rank(L):
    """the number of conditions of a kind does not decrease (induction over the prefix)"""
    e = L.e
    return []


def hist(e):
    """indices of the conditions that remain"""
    seq = []
    for i in range(e.n):
        if i == e.first:
            del seq[len(seq) - e.nr:]
        seq.append(i)
    return seq


def hist_ens(e):
    seq = hist(e)
    out = [('number of conditions', e.post.cnt[6] == len(seq))]
    for c in range(6):
        s = [i for i in seq if e.cmp[i] == c]
        src = e.tf if c < 2 else e.ti
        k = len(s)
        out.append(('conditions of kind %d: number' % c, e.post.cnt[c] == k))
        out.append(('conditions of kind %d: features in the order of their addition' % c, getattr(e.post, 'i%d' % c).l[:k] == [e.fi[i] for i in s]))
        out.append(('conditions of kind %d: thresholds' % c, all(e.fp.same(a, src[i]) for a, i in zip(getattr(e.post, 't%d' % c).l[:k], s))))
    return out


def g_con(c):
    def g(rng):
        n = rng.choice([0, 1, 2, 3, 5, 9])
        if c.name == 'remove_last':
            n = 1
        d = dict(n=n, fi=[rng.randint(0, 9) for _ in range(n)], cmp=[rng.randint(0, 5) for _ in range(n)], tf=[rng.uniform(-3, 3) for _ in range(n)],
                 ti=[rng.randint(-5, 5) for _ in range(n)], cnt=[9] * 7, copy=rng.random() < .5, first=rng.randint(0, n))
        d['nr'] = rng.randint(0, min(d['first'], n)) if d['first'] < n else 0
        d['num'] = [sum(x == k for x in d['cmp']) for k in range(6)]
        for j in range(6):
            d['i%d' % j] = [77] * n
            d['t%d' % j] = [77.0 if j < 2 else 77] * n
        d['cond'] = {'vt': [0] * n, 'start': [0] * n, 'end': [0] * n, 'inverse': [0] * n, 'feature': d['fi'], 'cmp': d['cmp'],
                     'raw': [rng.choice([0, 1, 0x3fc00000, 0xc0200000, 0x41200000, 7, 2 ** 32 - 3]) for _ in range(n)], 'which': [int(x > 1) for x in d['cmp']],
                     'covered': [0] * n}
        d['tf'] = [float(__import__('struct').unpack('f', __import__('struct').pack('f', x))[0]) for x in d['tf']]
        return {p.name: d[p.name] for p in c.params}
    return g


def rm_ens(e):
    return [('the number of conditions of the kind of the last one decreases by one', And(*[e.post.cnt[c] == e.num[c] - If(e.cond.cmp[0] == c, 1, 0) for c in range(6)])),
            ('one condition is removed', e.ret == 0)]


CONDS = [
    Contract('create_body', 'h_create_body', [Sc('n', 'u32', 0, 2 ** 24), COND, Arr('num', 'u32', 6)] + OUT, requires=body_req, ensures=body_ens, invs=[inv_body]),
    Contract('remove_last', 'h_remove_last', [COND1, Arr('num', 'u32', 6), Arr('cnt', 'u32', 7, out=True)], 'u32',
             requires=lambda e: [e.forall(0, 1, lambda j: And(e.cond.cmp[j] >= 0, e.cond.cmp[j] < 6))] + [e.num[c] >= If(e.cond.cmp[0] == c, 1, 0) for c in range(6)],
             ensures=rm_ens),
    Contract('list_history', 'h_list_history', CON + [Sc('first', 'u32'), Sc('nr', 'u32'), Sc('copy', 'bool')] + OUT,
             requires=lambda e: [e.nr <= e.first, Or(e.first < e.n, e.nr == 0)], ensures=hist_ens, prove=False,
             bounded_note='growth of std::vector is library code'),
]
for c in CONDS:
    c.gen = g_con(c)
UNITS = [{'harness': 'h_model.cpp', 'contracts': RULES + CONDS}]
