from lib import *
from settings import SETTINGS
"""configuration parameters: admissible values are stored, inadmissible ones are refused"""


def ok(e, k):
    v = e.v
    if k == 'any':
        return True
    if k[:2] == 'ge':
        return v >= int(k[2:])
    if k[:4] == 'z_ge':
        return Or(v == 0, v >= int(k[4:]))
    return {'gt0': lambda: v > 0, 'oi': lambda: And(v > 0, v < 1), 'oic': lambda: And(v > 0, v <= 1), 'coi': lambda: And(v >= 0, v < 1), 'ci': lambda: And(v >= 0, v <= 1),
            'z_oi': lambda: And(v >= 0, v < 1), 'max': lambda: Or(v == 0, v >= e.m), 'mult': lambda: And(v >= 1, v % e.m == 0)}[k]()


def make(g, cls, name, t, k, dep):
    ps = [Sc('v', t)] + ([Sc('m', 'u32', dep)] if dep else []) + [Arr('out', t, 1, out=True)]

    def req(e):
        # values that are "approximately" zero are taken for zero
        return [Or(e.v == 0, e.v > 1e-6, e.v < -1e-6)] if k == 'z_oi' else []

    def ens(e):
        return [('the value is stored', e.post.out[0] == e.v)]

    def nens(e):
        w = bool(ok(e, k))
        return [('inadmissible values are refused with an invalid_argument exception, admissible ones are not', (e.ret == 0) == w),
                ('a refused value leaves the setting unchanged', e.ret in (0, 1)), ('the value is stored', e.ret != 0 or e.post.out[0] == e.v)]

    def gen(rng):
        d = {'out': [0]}
        if dep:
            d['m'] = rng.choice([dep, dep + 1, 5, rng.randint(dep, 40)])
        if t == 'bool':
            d['v'] = rng.random() < .5
        elif t == 'u32':
            d['v'] = rng.choice([0, 1, 2, 3, 4, 5, rng.randint(0, 100), 2 ** 32 - 1] + ([d['m'], d['m'] - 1, d['m'] + 1, d['m'] * rng.randint(0, 5)] if dep else []))
        else:
            d['v'] = rng.choice([0.0, 1.0, 0.5, -1.0, 2.0, 1.5, -0.25, 1 - 2 ** -20, 1 + 2 ** -20, 2 ** -10, -2 ** -10, 1024.0])
        return d
    n = '%s.%s' % (cls.replace('Config', ''), name)
    return [Contract(n, 'c_%s_%s' % (cls, name), ps, requires=req, ensures=ens, throws=(lambda e: Not(ok(e, k))) if k != 'any' else None, gen=gen),
            Contract(n + ' refused', 'nc_%s_%s' % (cls, name), ps, 'u32', requires=req, ensures=nens, prove=False, gen=gen, bounded_note='state after an exception: boundary values')]


UNITS = []
for g in sorted(set(s[0] for s in SETTINGS)):
    UNITS.append({'harness': 'h_config.cpp', 'defs': ['-DVF_G_%s=1' % g.upper(), '-no-pie', '-Wl,--unresolved-symbols=ignore-all'], 'contracts': [c for s in SETTINGS if s[0] == g for c in make(*s)]})
