from contract import *

NAMES = ['cin', 'cip', 'crn', 'crp', 'uin', 'uip', 'urn', 'urp']


def g(rng):
    return rng.choice([0.0, 0.0, 1.0, 2.0, 3.0, 0.5, rng.uniform(0, 20), float(rng.randint(0, 50))])


CM = [Sc(n, 'f64', 0, 1e12, gen=g) for n in NAMES]


def parts(e):
    c_ok, c_bad = e.cin + e.crp, e.cip + e.crn        # covered: prediction equals / differs from the ground truth
    u_ok, u_bad = e.uin + e.urp, e.uip + e.urn        # uncovered: prediction would be equal / would differ
    return c_ok, c_bad, u_ok, u_bad


def precision(e):
    c_ok, c_bad, _, _ = parts(e)
    return e.fp.divz(c_ok, c_ok + c_bad)


def recall(e):
    c_ok, _, u_ok, _ = parts(e)
    return e.fp.divz(c_ok, c_ok + u_ok)


def accuracy(e):
    # a label that is not covered is predicted correctly if it differs from what the rule would have predicted
    c_ok, c_bad, u_ok, u_bad = parts(e)
    return e.fp.divz(c_ok + u_bad, c_ok + c_bad + u_ok + u_bad)


def laplace(e):
    c_ok, c_bad, _, _ = parts(e)
    return e.fp.divz(c_ok + 1, c_ok + c_bad + 2)


def wra(e):
    c_ok, c_bad, u_ok, u_bad = parts(e)
    c, t = c_ok + c_bad, c_ok + c_bad + u_ok + u_bad
    d = e.fp.divz
    return If(c > 0, d(c, t) * (d(c_ok, c) - d(c_ok + u_ok, t)), 0.0)


def fmeasure(e):
    c_ok, c_bad, u_ok, _ = parts(e)
    b = e.beta * e.beta
    return If(e.beta == 0, precision(e), e.fp.divz((1 + b) * c_ok, (1 + b) * c_ok + b * u_ok + c_bad))


def mestimate(e):
    c_ok, c_bad, u_ok, u_bad = parts(e)
    t = c_ok + c_bad + u_ok + u_bad
    return If(e.m == 0, precision(e), If(t == 0, 0.0, e.fp.divz(c_ok + e.m * e.fp.divz(c_ok + u_ok, t), c_ok + c_bad + e.m)))


def mk(name, formula, extra=(), unit=True):
    def ens(e):
        out = [('value is the documented one', e.fp.same(e.ret, formula(e)))]
        if unit:
            out.append(('value lies in [0, 1]', And(e.fp.ge(e.ret, 0.0), e.fp.le(e.ret, 1.0 if e.sym else 1.0 + 1e-9))))
        else:
            out.append(('value lies in [-1, 1]', And(e.fp.ge(e.ret, -1.0), e.fp.le(e.ret, 1.0))))
        return out
    return Contract(name, 'h_' + name, CM + list(extra), 'f64', ensures=ens)


CONTRACTS = [mk('accuracy', accuracy), mk('precision', precision), mk('recall', recall), mk('laplace', laplace), mk('wra', wra, unit=False),
             mk('f_measure', fmeasure, [Sc('beta', 'f64', 0, 1e6, gen=lambda r: r.choice([0.0, 0.25, 1.0, 2.0, 0.5, r.uniform(0, 5)]))]),
             mk('f_measure_inf', recall),
             mk('m_estimate', mestimate, [Sc('m', 'f64', 0, 1e6, gen=lambda r: r.choice([0.0, 22.466, 1.0, 2.0, 0.5, r.uniform(0, 50)]))]),
             mk('m_estimate_inf', wra, unit=False)]
UNITS = [{'harness': 'h_heur.cpp', 'contracts': CONTRACTS}]
