from lib import *
from P02 import MODEL, DATA, order, covers, head, gmodel, RP, RSTUBS, rule_ens, trace_inv, r_total, s32v
"""SeCo models are decision lists: for each label, the first covering rule that predicts for it decides"""


def list_ens(e):
    w = [0] * (e.nr * e.no)
    for x in range(e.nr):
        done = set()
        for r in order(e):
            if covers(e, r, x):
                for c, v in head(e, r):
                    if c not in done:
                        done.add(c)
                        w[x * e.no + c] = 1 if v > 0 else 0
    ok = all(e.post.out[i] == w[i] for i in range(len(w)))
    sfx = ''
    if not ok and e.sparseLabels:
        # documented faulty behaviour: a label is relevant if any covering rule predicts it as relevant
        u = [0] * (e.nr * e.no)
        for x in range(e.nr):
            for r in order(e):
                for c, v in head(e, r) if covers(e, r, x) else []:
                    u[x * e.no + c] |= v != 0
        if all(e.post.out[i] == u[i] for i in range(len(u))):
            sfx = ' (any covering rule that predicts a label as relevant decides)'
    return [('the first covering rule that predicts for a label decides, labels without such a rule are irrelevant' + sfx, ok),
            ('rows of sparse predictions list the relevant labels in increasing order', e.ret == 0)]


def gen(c):
    def g(rng):
        d = gmodel(rng, vals=lambda: rng.choice([0.0, 1.0, 1.0]))
        d['sparseLabels'] = rng.random() < .5 if c.name == 'decision_list' else c.name == 'sparse'
        d['out'] = [7] * len(d['out'])
        return {p.name: d[p.name] for p in c.params}
    return g


LIST = [Contract(k, 'h_predict_list', MODEL + DATA + [Sc('sparseLabels', 'bool'), Arr('out', 'u8', lambda e: e.nr * e.no, out=True)], 'u32', ensures=list_ens, prove=False,
                 bounded_note='whole predictions (virtual calls, std::function visitors): models of up to 6 rules with up to 2 conditions, 4 examples, 4 features, 4 labels') for k in ('dense', 'sparse')]
for c in LIST:
    c.gen = gen(c)


# ------------------------------------------------------------------ effect of a single head
def head_ens(e):
    ix = (lambda i: e.ind[i]) if hasattr(e, 'ind') else (lambda i: i)
    n = e.n if hasattr(e, 'ind') else e.no
    pred = lambda i: If(e.vals[i] > 0, 1, 0)
    r = [('a label that is not decided yet is decided by the head', e.forall(0, n, lambda i: And(e.post.out[ix(i)] == If(e.mask[ix(i)] != 0, e.out[ix(i)], pred(i)), e.post.mask[ix(i)] == 1)))]
    if hasattr(e, 'ind'):
        r.append(('nothing else changes', e.forall(0, e.no, lambda q: Or(e.exists(0, n, lambda i: ix(i) == q), And(e.post.out[q] == e.out[q], e.post.mask[q] == If(e.mask[q] != 0, 1, 0))))))
    return r


def head_inv(L):
    e = L.e
    ix = (lambda i: e.ind[i]) if hasattr(e, 'ind') else (lambda i: i)
    n = e.n if hasattr(e, 'ind') else e.no
    pred = lambda i: If(e.vals[i] > 0, 1, 0)
    q = z3.Int(fresh_name('q'))
    b = ghost_view(L, 'weights')
    out = []
    m01 = lambda j: If(e.mask[j] != 0, 1, 0)
    if b is not None:
        out.append(('mask set up so far', e.forall(0, L.k, lambda j: b[j] == m01(j))))
        out.append(('mask after decisions', e.forall(0, L.k, lambda j: b[ix(j)] == 1)))
        out.append(('mask not changed yet', e.forall(L.k, n, lambda j: b[ix(j)] == m01(ix(j)))))
        out.append(('mask otherwise unchanged', e.forall(0, e.no, lambda j: Or(e.exists(0, n, lambda i: ix(i) == j), b[j] == m01(j)))))
    for m in L.mods_of('u8'):
        out.append(('%s decided so far' % m.name, e.forall(0, L.k, lambda j: m.cur[ix(j)] == If(e.mask[ix(j)] != 0, e.out[ix(j)], pred(j)))))
        out.append(('%s not decided yet' % m.name, e.forall(L.k, n, lambda j: m.cur[ix(j)] == e.out[ix(j)])))
        out.append(('%s otherwise unchanged' % m.name, e.forall(0, e.no, lambda j: Or(e.exists(0, n, lambda i: ix(i) == j), m.cur[j] == e.out[j]))))
        if b is not None:
            out.append(('%s mask read back' % m.name, e.forall(0, L.k, lambda j: m.cur[j] == b[j])))
    return out


BV = {'re:^BitVector::set\\(': bits_set, 're:^BitVector::operator\\[\\]\\(': bits_get, 'vf_bits': bits_clear}
BIG = 2 ** 28
OM = [Arr('out', 'u8', 'no', out=True), Arr('mask', 'u8', 'no', out=True)]
HEADS = [Contract('head_complete', 'h_list_complete', [Sc('no', 'u32', 0, BIG), Arr('vals', 'f64', 'no')] + OM, ensures=head_ens, invs=[head_inv], stubs=BV),
         Contract('head_partial', 'h_list_partial', [Sc('n', 'u32', 0, BIG), Arr('ind', 'u32', 'n'), Arr('vals', 'f64', 'n'), Sc('no', 'u32', 0, BIG)] + OM, requires=lambda e: [ascending(e, e.ind, e.n, e.no)],
                  ensures=head_ens, invs=[head_inv], stubs=BV)]


def ghead(c):
    def g(rng):
        no = rng.randint(0, 70) if rng.random() < .3 else rng.randint(0, 7)
        ind = asc_gen(rng, no, 0.6)
        n = len(ind) if c.name == 'head_partial' else no
        d = dict(no=no, n=n, ind=ind, vals=[rng.choice([0.0, 1.0, -1.0]) for _ in range(n)], out=[rng.choice([0, 1, 7]) for _ in range(no)], mask=[rng.choice([0, 1]) for _ in range(no)])
        return {p.name: d[p.name] for p in c.params}
    return g


for c in HEADS:
    c.gen = ghead(c)


# ------------------------------------------------------------------ order in which heads are applied
def apply_head(ex, st, args, ins):
    head, target = args[0], args[1]
    e = ex.env
    i = s32v(ex.load(st, Ptr(head.r, iadd(head.off, 8)), llir.IntTy(32)))
    if 'scores' in ex.params:
        ok = target.r is ex.params['scores']
        ex.oblige(st, 'head is applied to the predictions for the example', 'precondition', zi(target.off) == e.pi * e.no if ok else False)
    t = Ptr(ex.params['trace'], 0)
    ex.store(st, t, llir.DOUBLE, e.fun('apply', toreal(ex.load(st, t, llir.DOUBLE)), zi(i)))


def noop(ex, st, args, ins):
    return None


ST = dict(RSTUBS)
ST.pop('re:^boosting::applyHead\\(IHead')
ST.update(BV)
ST.update({'re:^seco::applyHead\\(IHead': apply_head, 're:^(void )?std::sort<': noop})
PRED = [Sc('nr', 'u32', 1, 2 ** 14), Sc('no', 'u32', 0, 2 ** 14)]
DP = PRED + [Arr('scores', 'u8', lambda e: e.nr * e.no, out=True), Sc('pi', 'u32', 0), Sc('ei', 'u32', 0)]
SP = PRED + [Sc('ei', 'u32', 0)]
DX = [Sc('nf', 'u32', 0, 2 ** 14), Arr('X', 'f32', lambda e: e.nr * e.nf)]
SX = [Sc('nf', 'u32', 0, 2 ** 14), Arr('val', 'f32', 'nv'), Arr('idx', 'u32', 'nv'), Arr('ptr', 'u32', lambda e: e.nr + 1), Sc('nv', 'u32', 0, BIG), Sc('sv', 'f32')]


def rq(e):
    r = [e.used <= r_total(e), e.ei < e.nr]
    if hasattr(e, 'pi'):
        r += [e.pi < e.nr, e.pi * e.no >= 0, e.pi * e.no + e.no <= e.nr * e.no]
    if hasattr(e, 'X'):
        r += [e.ei * e.nf >= 0, e.ei * e.nf + e.nf <= e.nr * e.nf]
    if hasattr(e, 'ptr'):
        r += [e.forall(0, e.nr, lambda i: And(e.ptr[i] <= e.ptr[i + 1], e.ptr[i + 1] <= e.nv))]
    return r


RULES = [Contract('rules_' + k, 'h_list_' + k, RP + p + x, 'u32', requires=rq, ensures=rule_ens, invs=[trace_inv], stubs=ST, native=False)
         for k, p, x in (('dense', DP, DX), ('sparse', DP, SX), ('dense_s', SP, DX), ('sparse_s', SP, SX))]
OP = ["^BitVector::(set|operator\\[\\])\\("]
UNITS = [{'harness': 'h_predict_seco.cpp', 'contracts': LIST + HEADS, 'opaque': OP},
         {'harness': 'h_predict_seco.cpp', 'contracts': RULES, 'opaque': OP + ['^RuleList::Rule::get(Body|Head)', '^seco::applyHead\\(IHead', '^(void )?std::sort<']}]
