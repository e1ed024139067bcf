from lib import *
import math
"""stopping criteria and pruning of models"""
INF = float('inf')


def near(e, a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


# ------------------------------------------------------------------ aggregation functions, evaluation of models (proved)
XS = [Sc('n', 'u32', 1, 2 ** 24), Arr('x', 'f64', 'n')]


def ext_ens(le):
    def f(e):
        if e.sym:
            return [('no element is better', e.forall(0, e.n, lambda i: le(e.ret, e.x[i]))), ('is an element', z3.Exists([z3.Int('wi')], z3.And(z3.Int('wi') >= 0, z3.Int('wi') < e.n, e.x[z3.Int('wi')] == e.ret)))]
        return [('is the extremum', e.ret in list(e.x) and all(le(e.ret, v) for v in e.x))]
    return f


def ext_inv(le):
    def f(L):
        e = L.e
        out = []
        for s in L.scalars_of('f64'):
            w = z3.Int('wi')
            out.append(('%s is no worse than the elements so far' % s.name, e.forall(0, L.k + 1, lambda i: le(s.val, e.x[i]))))
            out.append(('%s is an element' % s.name, z3.Exists([w], z3.And(w >= 0, w <= L.k, w < e.n, e.x[w] == s.val))))
        return out
    return f


def mean_ens(name, at, num):
    def f(e):
        m = num(e)
        if e.sym:
            return [('mean of the elements', e.ret * toreal(m) == e.sum(name, m, lambda i: at(e, i))), ('zero if there are no elements', Implies(m == 0, e.ret == 0))]
        w = [at(e, i) for i in range(m)]
        return [('mean of the elements', near(e, e.ret, sum(w) / m if m else 0.0))]
    return f


def mean_inv(name, at):
    return lambda L: [('mean %s so far' % s.name, s.val * toreal(L.k) == L.e.sum(name, L.k, lambda i: at(L.e, i))) for s in L.scalars_of('f64')] + [('%s is zero at first' % s.name, Implies(L.k == 0, s.val == 0)) for s in L.scalars_of('f64')]


lo, hi = (lambda a, b: a <= b), (lambda a, b: a >= b)
xa = lambda e, i: e.x[i]
bi_at = lambda e, i: e.x[e.idx[If(e.holdout, e.nf, 0) + i]] if e.sym else e.x[e.idx[(e.nf if e.holdout else 0) + i]]
bi_n = lambda e: If(e.holdout, e.ns, e.nf) if e.sym else e.ns if e.holdout else e.nf


def bi_req(e):
    return [e.n == e.nf + e.ns, e.forall(0, e.n, lambda i: And(e.idx[i] >= 0, e.idx[i] < e.n))]


AGG = [Contract('minimum', 'h_agg_min', XS, 'f64', ensures=ext_ens(lo), invs=[ext_inv(lo)]),
       Contract('maximum', 'h_agg_max', XS, 'f64', ensures=ext_ens(hi), invs=[ext_inv(hi)]),
       Contract('mean', 'h_agg_mean', XS, 'f64', ensures=mean_ens('agg', xa, lambda e: e.n), invs=[mean_inv('agg', xa)]),
       Contract('evaluate', 'h_eval_single', [Sc('n', 'u32', 0, 2 ** 24), Arr('x', 'f64', 'n'), Sc('holdout', 'bool')], 'f64', ensures=mean_ens('agg', xa, lambda e: e.n), invs=[mean_inv('agg', xa)]),
       Contract('evaluate_split', 'h_eval_bi', [Sc('n', 'u32', 0, 2 ** 24), Arr('x', 'f64', 'n'), Sc('nf', 'u32', 1, 2 ** 23), Sc('ns', 'u32', 1, 2 ** 23), Arr('idx', 'u32', 'n'), Sc('holdout', 'bool')], 'f64', requires=bi_req,
                ensures=mean_ens('agg', bi_at, bi_n), invs=[mean_inv('agg', bi_at)])]


def gx(rng):
    n = rng.randint(1, 7)
    return dict(n=n, x=[rng.choice([0.0, 1.0, -1.0, rng.randint(-16, 16) / 8]) for _ in range(n)], holdout=rng.random() < .5)


def gbi(rng):
    nf, ns = rng.randint(1, 5), rng.randint(1, 5)
    n = nf + ns
    idx = list(range(n))
    rng.shuffle(idx)
    return dict(n=n, x=[rng.randint(-16, 16) / 8 for _ in range(n)], nf=nf, ns=ns, idx=idx, holdout=rng.random() < .5)


for c in AGG:
    c.gen = (lambda c: lambda rng: {k: v for k, v in (gbi if c.name == 'evaluate_split' else gx)(rng).items() if k in [p.name for p in c.params]})(c)


# ------------------------------------------------------------------ ring buffer (proved)
def ring_req(e):
    return [e.pos < e.cap]


def ring_ens(e):
    nxt = If(e.pos + 1 >= e.cap, 0, e.pos + 1)
    full = Or(e.full, e.pos + 1 >= e.cap)
    s = e.post.state
    cnt = If(full, e.cap, nxt)
    return [('an element is returned iff the buffer was full', e.ret == e.full), ('the returned element is the oldest one', Implies(e.full, e.post.oldest[0] == e.a[e.pos])),
            ('the oldest element is replaced', e.forall(0, e.cap, lambda i: e.post.a[i] == If(i == e.pos, e.v, e.a[i]))), ('position of the oldest element', s[0] == nxt),
            ('buffer is full once all positions are used', (s[1] != 0) == full), ('number of elements', And(s[2] == cnt, s[3] == cnt))]


def gring(rng):
    cap = rng.randint(1, 6)
    return dict(cap=cap, a=[rng.randint(-16, 16) / 8 for _ in range(cap)], pos=rng.randrange(cap), full=rng.random() < .5, v=rng.randint(-16, 16) / 8, oldest=[9.0], state=[9] * 4)


RING = [Contract('ring_buffer', 'h_ring', [Sc('cap', 'u32', 1, 2 ** 24), Arr('a', 'f64', 'cap', out=True), Sc('pos', 'u32'), Sc('full', 'bool'), Sc('v', 'f64'), Arr('oldest', 'f64', 1, out=True), Arr('state', 'u32', 4, out=True)], 'bool', requires=ring_req, ensures=ring_ens, gen=gring)]


# ------------------------------------------------------------------ size, post-pruning (proved)
def size_ens(e):
    return [('stops iff the maximum number of rules is reached, and does not restrict the used rules', e.ret == If(e.numRules >= e.maxRules, 1, 0))]


def post_ens(e):
    m = e.sum('agg', e.n, lambda i: e.x[i]) if e.sym else sum(e.x) / e.n if e.n else 0.0
    due = And(e.numRules >= e.minRules, e.numRules % e.interval == 0)
    better = m < e.best[0] * toreal(e.n) if e.sym else m < e.best[0]
    if e.sym:
        # without examples, the mean is zero
        better = If(e.n == 0, e.best[0] > 0, better)
    take = And(due, better)
    r = [('the rules are used if they are better than any smaller model', e.ret == If(take, e.numRules, 0)), ('the induction is not stopped', e.post.stop[0] == 0),
         ('number of rules of the best model', e.post.bestRules[0] == If(take, e.numRules, e.bestRules[0]))]
    if e.sym:
        r.append(('score of the best model', If(take, e.post.best[0] * toreal(e.n) == If(e.n == 0, 0, m), e.post.best[0] == e.best[0])))
    else:
        r.append(('score of the best model', near(e, e.post.best[0], m if take else e.best[0])))
    return r


def gpost(rng):
    d = gx(rng)
    d['n'] = n = rng.randint(0, 2)
    d['x'] = [rng.randint(-16, 16) / 8 for _ in range(n)]
    d.update(minRules=rng.randint(1, 6), interval=rng.randint(1, 3), best=[rng.choice([0.0, 1.0, -0.5, rng.randint(-16, 16) / 8])], bestRules=[rng.randint(0, 9)], numRules=rng.randint(0, 12), stop=[1])
    d.pop('holdout')
    return d


CRIT = [Contract('size', 'h_size', [Sc('maxRules', 'u32', 1), Sc('numRules', 'u32')], 'u32', ensures=size_ens, gen=lambda rng: dict(maxRules=rng.randint(1, 9), numRules=rng.randint(0, 12))),
        Contract('post_pruning_step', 'h_post_step', [Sc('n', 'u32', 0, 2 ** 24), Arr('x', 'f64', 'n'), Sc('minRules', 'u32', 1), Sc('interval', 'u32', 1), Arr('best', 'f64', 1, out=True), Arr('bestRules', 'u32', 1, out=True), Sc('numRules', 'u32'), Arr('stop', 'u8', 1, out=True)], 'u32',
                 ensures=post_ens, invs=[mean_inv('agg', xa)], gen=gpost)]


# ------------------------------------------------------------------ sequences of tests (bounded)
class Size:
    def __init__(self, cfg):
        self.max = cfg[0]

    def test(self, n, score, unc):
        return n >= self.max, 0


class Coverage:
    def __init__(self, threshold):
        self.t = threshold

    def test(self, n, score, unc):
        return unc <= self.t, 0


class Post:
    def __init__(self, cfg):
        self.min, self.iv, self.best = cfg[0], cfg[1], INF

    def test(self, n, score, unc):
        if n >= self.min and n % self.iv == 0 and score < self.best:
            self.best = score
            return False, n
        return False, 0


class Pre:
    """scores are assessed at every update interval; the past scores are those that precede the recent ones"""

    def __init__(self, cfg, improvement):
        self.min, self.up, self.remove, self.iv, self.past, self.recent, agg = cfg[0], cfg[1], cfg[3], cfg[4], cfg[5], cfg[6], cfg[7]
        self.agg = [min, max, lambda s: sum(s) / len(s)][agg]
        self.improvement = improvement
        b = (self.past + self.recent) * self.up
        self.offset = self.min - b if b < self.min else 0
        self.h, self.best, self.rules, self.done = [], INF, None, False

    def test(self, n, score, unc):
        if self.done or n <= self.offset or n % self.up:
            return False, 0
        r = (False, 0)
        if len(self.h) >= self.past + self.recent:
            if score < self.best:
                self.best, self.rules = score, n
            if n % self.iv == 0:
                recent, past = self.agg(self.h[-self.recent:]), self.agg(self.h[-self.recent - self.past:-self.recent])
                if recent == 0:
                    raise ArithmeticError
                imp = (past - recent) / recent
                if abs(imp - self.improvement) < 1e-9:
                    raise ArithmeticError
                if imp < self.improvement:
                    self.done = True
                    r = (bool(self.remove), self.rules)
        self.h.append(score)
        return r


def criteria(e):
    cs = []
    for k in range(4):
        if e.kinds >> k & 1:
            cfg = [e.cfg[8 * k + i] for i in range(8)]
            cs.append([lambda: Size(cfg), lambda: Post(cfg), lambda: Pre(cfg, e.improvement), lambda: Coverage(e.improvement)][k]())
    return cs


def together(cs, n, scores, unc):
    stop, used = False, 0
    for c, s in zip(cs, scores):
        a, b = c.test(n, s, unc)
        stop = stop or a
        used = b or used
    return stop, used


def holdouts(e):
    return [not isinstance(c, (Post, Pre)) or bool(e.cfg[8 * (1 if isinstance(c, Post) else 2) + 2]) for c in criteria(e)]


def tests_ens(e):
    try:
        cs, hold = criteria(e), holdouts(e)
        n = e.nf + e.ns
        ok = True
        for t in range(e.nt):
            row = [e.scores[t * n + i] for i in range(n)]
            first = [row[e.idx[i]] for i in range(e.nf)] if e.ns else row
            second = [row[e.idx[e.nf + i]] for i in range(e.ns)] if e.ns else row
            m = lambda x: sum(x) / len(x)
            w = together(cs, e.start + t, [m(second) if h else m(first) for h in hold], e.uncovered[t])
            ok = ok and (bool(e.post.stop[t]), e.post.used[t]) == w
    except ArithmeticError:
        return []
    return [('each test stops and restricts the used rules as configured', ok)]


def gcfg(rng):
    out = []
    for k in range(4):
        up = rng.randint(1, 3)
        out += [rng.randint(1, 9), up, rng.randint(0, 1), rng.randint(0, 1), up * rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3), rng.randint(0, 2)]
    return out


def gtests(rng):
    nf, ns = rng.randint(1, 2), rng.randint(0, 2)
    n, nt = nf + ns, rng.randint(1, 20)
    idx = list(range(n))
    rng.shuffle(idx)
    lvl = [2.0 ** -rng.randint(0, 4) if rng.random() < .5 else rng.randint(1, 16) / 4 for _ in range(nt)]
    return dict(kinds=rng.choice([1, 2, 4, 4, 4, 8, rng.randint(0, 15)]), cfg=gcfg(rng), improvement=rng.choice([0.0, 0.005, 0.25, 0.5]), nf=nf, ns=ns, idx=idx, start=rng.choice([0, 1, rng.randint(0, 6)]), nt=nt,
                scores=[lvl[t] + rng.choice([0.0, rng.randint(0, 8) / 8]) for t in range(nt) for _ in range(n)], uncovered=[rng.choice([0.0, 0.25, 1.0]) for _ in range(nt)], stop=[9] * nt, used=[99] * nt)


def asm_ens(e):
    try:
        cs = criteria(e)
        rules, used, failed = 0, 0, 0
        while True:
            if rules >= e.nt:
                return []
            m = sum(e.scores[rules * e.nf + i] for i in range(e.nf)) / e.nf
            stop, u = together(cs, rules + (1 if e.dflt else 0), [m] * len(cs), 1.0)
            used = u or used
            if stop:
                break
            if rules == e.limit:
                failed = 1
                break
            rules += 1
    except ArithmeticError:
        return []
    o = e.post.out
    return [('rules are induced until a criterion is met or no rule is found', o[0] == rules), ('number of used rules is the one given last by a criterion', o[1] == used),
            ('the default rule is induced once and in the first place, if it is used', o[2] == (1 if e.dflt else 0)), ('each rule is learned on a new sample of examples and outputs', o[3] == failed and o[4] == 1)]


def gasm(rng):
    nf, limit = rng.randint(1, 2), rng.randint(0, 20)
    nt = limit + 2
    lvl = [2.0 ** -rng.randint(0, 4) if rng.random() < .5 else rng.randint(1, 16) / 4 for _ in range(nt)]
    return dict(kinds=rng.randint(0, 7), cfg=gcfg(rng), improvement=rng.choice([0.0, 0.005, 0.25]), nf=nf, dflt=rng.random() < .5, limit=limit, nt=nt, scores=[lvl[t] + rng.choice([0.0, rng.randint(0, 8) / 8]) for t in range(nt) for _ in range(nf)], out=[99] * 5)


def time_ens(e):
    return [('stops iff the time limit has been exceeded since the first test', all(e.post.stop[i] == (1 if i and (e.t[i] - e.t[0]) // 10 ** 9 >= e.limit else 0) for i in range(e.n)))]


def gtime(rng):
    n = rng.randint(1, 6)
    t = [rng.randint(0, 10 ** 12)]
    for _ in range(n - 1):
        t.append(t[-1] + rng.choice([0, 1, 10 ** 9, 10 ** 9 - 1, 2 * 10 ** 9, rng.randint(0, 4 * 10 ** 9)]))
    return dict(limit=rng.randint(1, 5), n=n, t=t, stop=[9] * n)


CFG = [Sc('kinds', 'u32'), Arr('cfg', 'u32', 32), Sc('improvement', 'f64'), Sc('nf', 'u32')]
SEQ = [Contract('tests', 'h_tests', CFG + [Sc('ns', 'u32'), Arr('idx', 'u32', lambda e: e.nf + e.ns), Sc('start', 'u32'), Sc('nt', 'u32'), Arr('scores', 'f64', lambda e: e.nt * (e.nf + e.ns)), Arr('uncovered', 'f64', 'nt'), Arr('stop', 'u32', 'nt', out=True), Arr('used', 'u32', 'nt', out=True)],
                ensures=tests_ens, prove=False, gen=gtests, bounded_note='criteria created from their configurations, alone and in combination: up to 20 tests and 4 examples'),
       Contract('assemblage', 'h_assemble', CFG + [Sc('dflt', 'bool'), Sc('limit', 'u32'), Sc('nt', 'u32'), Arr('scores', 'f64', lambda e: e.nt * e.nf), Arr('out', 'u32', 5, out=True)],
                ensures=asm_ens, prove=False, gen=gasm, bounded_note='virtual calls: up to 20 rules'),
       Contract('time', 'h_time', [Sc('limit', 'u32'), Sc('n', 'u32'), Arr('t', 'i64', 'n'), Arr('stop', 'u32', 'n', out=True)], ensures=time_ens, prove=False, gen=gtime, bounded_note='the clock is replaced: up to 6 tests')]
UNITS = [{'harness': 'h_stop.cpp', 'defs': ['-no-pie', '-Wl,--unresolved-symbols=ignore-all'], 'contracts': AGG + RING + CRIT + SEQ}]
