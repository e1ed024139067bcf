from lib import *
"""predicted scores are the sums of the heads of the covering rules"""
MODEL = [Sc('nf', 'u32'), Sc('no', 'u32'), Sc('n', 'u32'), Arr('kind', 'u32', lambda e: 2 * e.n), Arr('feat', 'u32', lambda e: 2 * e.n), Arr('thr', 'f32', lambda e: 2 * e.n), Arr('part', 'u8', 'n'),
         Arr('mask', 'u8', lambda e: e.n * e.no), Arr('vals', 'f64', lambda e: e.n * e.no), Sc('hasDefault', 'bool'), Arr('def', 'f64', 'no'), Sc('prec', 'bool'), Sc('used', 'u32')]
DATA = [Sc('nr', 'u32'), Arr('X', 'f32', lambda e: e.nr * e.nf), Sc('sparse', 'bool'), Sc('sv', 'f32'), Sc('maxRules', 'u32')]


def holds(k, v, t):
    if k < 2:
        return v <= t if k == 0 else v > t
    v, t = int(v), int(t)
    return [v <= t, v > t, v == t, v != t][k - 2]


def order(e):
    """rules in the order they are used; -1 is the default rule"""
    m = e.n + bool(e.hasDefault)
    if e.used > 0:
        m = min(m, e.used)
    if e.maxRules > 0:
        m = min(m, e.maxRules)
    if not e.hasDefault or m == 0:
        return list(range(m))
    return [-1] + list(range(m - 1)) if e.prec else list(range(m - 1)) + [-1]


def covers(e, r, x):
    return r < 0 or all(e.kind[j] == 6 or holds(e.kind[j], e.X[x * e.nf + e.feat[j]], e.thr[j]) for j in (2 * r, 2 * r + 1))


def head(e, r):
    """predicted outputs and values"""
    if r < 0:
        return [(c, getattr(e, 'def')[c]) for c in range(e.no)]
    return [(c, e.vals[r * e.no + c]) for c in range(e.no) if not e.part[r] or e.mask[r * e.no + c]]


def sums(e):
    o = order(e)
    out = [0.0] * (e.nr * e.no)
    for x in range(e.nr):
        for r in o:
            if covers(e, r, x):
                for c, v in head(e, r):
                    out[x * e.no + c] += v
    return out


def score_ens(e):
    w = sums(e)
    m = len(order(e))
    return [('scores are the sums of the heads of the covering rules', all(e.post.out[i] == w[i] for i in range(len(w)))),
            ('incremental predictions arrive at the same scores', all(e.post.inc[i] == w[i] for i in range(len(w)))),
            ('each step uses as many further rules as demanded', e.ret == -(-m // e.step))]


def gmodel(rng, vals=None):
    nf, no, n, nr = rng.randint(1, 4), rng.randint(1, 4), rng.randint(0, 5), rng.randint(1, 4)
    sv = rng.choice([0.0, 0.0, 1.0, -1.0])
    val = vals or (lambda: rng.choice([0.0, 1.0, -1.0, 0.5, -0.25, 2.0, rng.randint(-16, 16) / 8]))
    fv = lambda: rng.choice([sv, sv, 0.0, 1.0, -1.0, 2.0, 0.5, -1.5, 3.0])
    kind = [rng.choice([0, 1, 2, 3, 4, 5, 6, 6]) for _ in range(2 * n)]
    total = n + 1
    hd = rng.random() < 0.7
    return dict(nf=nf, no=no, n=n, kind=kind, feat=[rng.randrange(nf) for _ in kind], thr=[fv() if k < 2 else float(rng.choice([0, 1, -1, 2, int(sv)])) for k in kind], part=[rng.choice([0, 1]) for _ in range(n)],
                mask=[rng.choice([0, 1]) for _ in range(n * no)], vals=[val() for _ in range(n * no)], hasDefault=hd, prec=rng.random() < 0.5, used=rng.choice([0, 0, rng.randint(0, n + hd)]),
                nr=nr, X=[fv() for _ in range(nr * nf)], sparse=rng.random() < 0.5, sv=sv, maxRules=rng.choice([0, 0, 1, rng.randint(0, total)]), step=rng.choice([1, 1, 2, 3, 10]),
                out=[7.0] * (nr * no), inc=[7.0] * (nr * no), **{'def': [val() for _ in range(no)]})


def gen(c):
    def g(rng):
        d = gmodel(rng)
        return {p.name: d[p.name] for p in c.params}
    return g


SCORES = Contract('scores', 'h_predict_scores', MODEL + DATA + [Sc('step', 'u32'), Arr('out', 'f64', lambda e: e.nr * e.no, out=True), Arr('inc', 'f64', lambda e: e.nr * e.no, out=True)], 'u32',
                  ensures=score_ens, prove=False, bounded_note='whole predictions (virtual calls, std::function visitors): models of up to 6 rules with up to 2 conditions, 4 examples, 4 features, 4 outputs')
SCORES.gen = gen(SCORES)


# ------------------------------------------------------------------ effect of a single head, updates of rows
def vec_of(e):
    """(array, position of an output, old value, new contents)"""
    return e.scores if hasattr(e, 'scores') else e.m


def pos(e, c):
    return c if hasattr(e, 'scores') else e.row * e.nc + c


def upd(e, minus):
    return (lambda a, b: e.fp.sub(a, b)) if minus else (lambda a, b: e.fp.add(a, b))


def head_ens(minus):
    def f(e):
        a, b = (e.post.scores, e.scores) if hasattr(e, 'scores') else (e.post.m, e.m)
        up = upd(e, minus)
        size = (e.no if hasattr(e, 'no') else e.n) if hasattr(e, 'scores') else e.nr * e.nc
        m = e.n if hasattr(e, 'scores') else e.np if hasattr(e, 'ind') else e.nc
        if hasattr(e, 'ind'):
            inside = lambda q: e.exists(0, m, lambda i: pos(e, e.ind[i]) == q)
            return [('each predicted output is updated by its value', e.forall(0, m, lambda i: e.fp.same(a[pos(e, e.ind[i])], up(b[pos(e, e.ind[i])], e.vals[i])))),
                    ('nothing else changes', e.forall(0, size, lambda q: Or(inside(q), e.fp.same(a[q], b[q]))))]
        return [('each output is updated by its value', e.forall(0, m, lambda i: e.fp.same(a[pos(e, i)], up(b[pos(e, i)], e.vals[i])))),
                ('nothing else changes', e.forall(0, size, lambda q: Or(And(pos(e, 0) <= q, q < pos(e, m)), e.fp.same(a[q], b[q]))))]
    return f


def head_inv(minus):
    def f(L):
        e = L.e
        up = upd(e, minus)
        out = []
        ix = (lambda i: pos(e, e.ind[i])) if hasattr(e, 'ind') else (lambda i: pos(e, i))
        n = e.n if hasattr(e, 'scores') else e.np if hasattr(e, 'ind') else e.nc
        for m in L.mods_of('f64'):
            q = z3.Int(fresh_name('q'))
            if hasattr(e, 'ind'):
                out.append(('%s updated so far' % m.name, e.forall(0, L.k, lambda i: m.cur[ix(i)] == up(m.entry[ix(i)], e.vals[i]))))
                out.append(('%s not updated yet' % m.name, e.forall(L.k, n, lambda i: m.cur[ix(i)] == m.entry[ix(i)])))
                out.append(('%s otherwise unchanged' % m.name, z3.ForAll([q], z3.Or(e.exists(0, n, lambda i: ix(i) == q), m.cur[q] == m.entry[q]))))
            else:
                b = pos(e, 0)
                out.append(('%s updated so far' % m.name, z3.ForAll([q], m.cur[q] == z3.If(z3.And(b <= q, q < b + L.k), up(m.entry[q], e.vals[q - b]), m.entry[q]))))
        return out
    return f


BIG = 2 ** 28
VALS = [Sc('n', 'u32', 0, BIG)]
HEADS = [Contract('head_complete', 'h_apply_complete', [Sc('n', 'u32', 0, BIG), Arr('vals', 'f64', 'n'), Arr('scores', 'f64', 'n', out=True)], ensures=head_ens(0), invs=[head_inv(0)]),
         Contract('head_partial', 'h_apply_partial', [Sc('n', 'u32', 0, BIG), Arr('ind', 'u32', 'n'), Arr('vals', 'f64', 'n'), Sc('no', 'u32', 0, BIG), Arr('scores', 'f64', 'no', out=True)],
                  requires=lambda e: [ascending(e, e.ind, e.n, e.no)], ensures=head_ens(0), invs=[head_inv(0)])]


def row_req(e):
    r = [e.row < e.nr]
    if e.sym:
        r += [e.nr * e.nc >= 0, e.nr * e.nc <= BIG, e.row * e.nc >= 0, e.row * e.nc + e.nc <= e.nr * e.nc]
    if hasattr(e, 'ind'):
        r += [ascending(e, e.ind, e.np, e.nc)]
    return r


ROW = [Sc('nr', 'u32', 1, 2 ** 14), Sc('nc', 'u32', 0, 2 ** 14), Sc('row', 'u32', 0), Arr('m', 'f64', lambda e: e.nr * e.nc, out=True)]
for k, mi in (('add', 0), ('rem', 1)):
    HEADS.append(Contract('row_%s_complete' % k, 'h_row_%s_c' % k, ROW + [Arr('vals', 'f64', 'nc')], requires=row_req, ensures=head_ens(mi), invs=[head_inv(mi)]))
    HEADS.append(Contract('row_%s_partial' % k, 'h_row_%s_p' % k, ROW + [Arr('vals', 'f64', 'np'), Arr('ind', 'u32', 'np'), Sc('np', 'u32', 0, 2 ** 14)], requires=row_req, ensures=head_ens(mi), invs=[head_inv(mi)]))


def ghead(c):
    def g(rng):
        nr, nc = rng.randint(1, 3), rng.randint(0, 6)
        ind = asc_gen(rng, nc, 0.6)
        v = lambda n: [rng.choice([0.0, 1.0, -2.5, rng.uniform(-3, 3)]) for _ in range(n)]
        part = any(p.name == 'ind' for p in c.params)
        k = len(ind) if part else nc
        d = dict(nr=nr, nc=nc, row=rng.randrange(nr), m=v(nr * nc), ind=ind, np=len(ind), n=k, no=nc, vals=v(k), scores=v(nc))
        return {p.name: d[p.name] for p in c.params}
    return g


for c in HEADS:
    c.gen = ghead(c)


# ------------------------------------------------------------------ order in which heads are applied
def r_total(e):
    return e.n + If(e.hasDefault, 1, 0)


def r_len(e):
    m = If(e.used > 0, e.used, r_total(e))
    return If(And(e.maxRules > 0, e.maxRules < m), e.maxRules, m)


def r_at(e, j):
    return If(e.hasDefault, If(e.prec, If(j == 0, -1, j - 1), If(j == r_len(e) - 1, -1, j)), j)


def r_cov(e, r):
    return e.cov[r + 1] != 0


def trace(e, k):
    """abstract state after the first k rules: each covering rule transforms it"""
    return e.fold('trace', lambda: e.trace[0], lambda acc, i: If(r_cov(e, r_at(e, i)), e.fun('apply', acc, zi(r_at(e, i))), acc), k)


def reg(ex, st, args, ins):
    st.ghost['rules'] = tuple(args)


def rule_id(ex, st, p):
    body, head, rules = st.ghost['rules']
    if p.r is rules.r:
        q = lin_div(p.off, 16)
        if not q:
            raise Unsupported('pointer to a rule')
        return q[0] if isinstance(q, tuple) else q
    return -1


def get_body(ex, st, args, ins):
    b = st.ghost['rules'][0]
    return select_rule(ex, st, args[0], b)


def get_head(ex, st, args, ins):
    return select_rule(ex, st, args[0], st.ghost['rules'][1])


def select_rule(ex, st, rule, obj):
    i = rule_id(ex, st, rule)
    v = z3.If(zi(i) < 0, zi(i) + 2 ** 32, zi(i)) if isz(i) else i % 2 ** 32
    ex.store(st, Ptr(obj.r, iadd(obj.off, 8)), llir.IntTy(32), v)
    return obj


def s32v(v):
    if isz(v):
        return z3.If(v >= 2 ** 31, v - 2 ** 32, v)
    return v - 2 ** 32 if v >= 2 ** 31 else v


def covered(ex, st, args, ins):
    return r_cov(ex.env, s32v(args[0]))


def apply_head(ex, st, args, ins):
    """any effect of the head of a rule on the scores of the example"""
    head, scores = args[0], args[1]
    e = ex.env
    i = s32v(ex.load(st, Ptr(head.r, iadd(head.off, 8)), llir.IntTy(32)))
    want = ex.params['scores']
    if scores.r is not want:
        ex.oblige(st, 'head is applied to the scores of the example', 'precondition', False)
    else:
        ex.oblige(st, 'head is applied to the scores of the example', 'precondition', zi(scores.off) == 0)
    t = Ptr(ex.params['trace'], 0)
    ex.store(st, t, llir.DOUBLE, e.fun('apply', toreal(ex.load(st, t, llir.DOUBLE)), zi(i)))


def trace_inv(L):
    e = L.e
    out = []
    for m in L.mods_of('f64'):
        out.append(('%s is the result of the rules so far' % m.name, m.cur[0] == trace(e, L.k)))
    for c in L.cells_of('f64'):
        out.append(('%s is the result of the rules so far' % c.name, c.val == trace(e, L.k)))
    for c in L.scalars_of('u32'):
        out.append(('%s counts the rules' % c.name, c.val == L.k))
        out.append(('%s is zero' % c.name, c.val == 0))
    return out


RP = [Sc('n', 'u32', 0, 2 ** 24), Arr('cov', 'u8', lambda e: e.n + 1), Sc('hasDefault', 'bool'), Sc('prec', 'bool'), Sc('used', 'u32', 0), Sc('maxRules', 'u32', 0), Arr('trace', 'f64', 1, out=True)]
RSTUBS = {'vf_register': reg, 'vf_covered': covered, 're:^RuleList::Rule::getBody': get_body, 're:^RuleList::Rule::getHead': get_head, 're:^boosting::applyHead\\(IHead': apply_head}
rule_ens = lambda e: [('the heads of exactly the covering rules are applied, in order', e.post.trace[0] == trace(e, r_len(e))), ('temporary arrays are marked differently for each rule', e.ret == 0)]
RULES = [Contract('rules_dense', 'h_apply_rules_dense', RP + [Sc('nf', 'u32', 0, BIG), Arr('row', 'f32', 'nf'), Sc('no', 'u32', 0, BIG), Arr('scores', 'f64', 'no')], 'u32', requires=lambda e: [e.used <= r_total(e)],
                  ensures=rule_ens, invs=[trace_inv], stubs=RSTUBS, native=False),
         Contract('rules_sparse', 'h_apply_rules_sparse', RP + [Sc('nf', 'u32', 0, 2 ** 24), Arr('idx', 'u32', 'nd'), Arr('row', 'f32', 'nd'), Sc('nd', 'u32', 0, BIG), Sc('sv', 'f32'), Sc('no', 'u32', 0, BIG), Arr('scores', 'f64', 'no')], 'u32',
                  requires=lambda e: [e.used <= r_total(e)], ensures=rule_ens, invs=[trace_inv], stubs=RSTUBS, native=False)]
UNITS = [{'harness': 'h_predict.cpp', 'contracts': [SCORES] + HEADS}, {'harness': 'h_predict.cpp', 'contracts': RULES, 'opaque': ['^RuleList::Rule::get(Body|Head)', '^boosting::applyHead\\(IHead']}]
