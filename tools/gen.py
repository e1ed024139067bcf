"""Writes properties.jsonl and MANIFEST.json from the property descriptions below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, B, S = ('cpp/subprojects/%s/' % x for x in ('common', 'boosting', 'seco'))


def prop(id, title, statement, text, why, files, mech, over=('inputs',), note='', na=None):
    return dict(id=id, title=title, statement=statement, quantifier={'over': list(over), 'text': text}, why_tests_cant=why,
                anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, note=note, na=na)


def load():
    out = []
    d = os.path.join(V, 'tools', 'props')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            ns = dict(prop=prop, C=C, B=B, S=S)
            exec(open(os.path.join(d, f)).read(), ns)
            out += ns['PROPS']
    return sorted(out, key=lambda p: p['id'])


def main():
    ps = load()
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in ps:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
            if p['na']:
                na.append({'property': p['id'], 'reason': p['na']})
                continue
            checks.append({
                'property': p['id'], 'quick_cmd': 'python3-vt engine/check.py %s' % p['id'],
                'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % p['id'],
                'technique': 'contract-based deductive verification: contracts on the C++ functions of /repo, verification conditions '
                             'generated from their LLVM IR (loop invariants, no unrolling), discharged by z3/cvc5',
                'level': 'proof', 'level_note': p['note']})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': na},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
