"""check.py <property id> [--tier quick|thorough]: decides one property on /repo's current working tree."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'specs'))
import z3  # noqa: E402
import build  # noqa: E402
import contract as ct  # noqa: E402
import native  # noqa: E402


def slice_hash(mod, fn, text_fns):
    """hash of the IR of all functions reachable from fn (metadata and attribute numbers removed)"""
    seen = set()
    todo = ['@' + fn]
    h = []
    while todo:
        n = mod.resolve_alias(todo.pop())
        if n in seen:
            continue
        seen.add(n)
        raw = mod._rawfn.get(n)
        if raw is None:
            g = mod.globals.get(n)
            if g:
                todo += re.findall(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', g[1])
                h.append(n + re.sub(r'!\d+|#\d+', '', g[1]))
            continue
        body = raw[0] + '\n'.join(raw[1])
        body = re.sub(r'![a-zA-Z._]* ?!\d+|!\d+|#\d+', '', body)
        h.append(body)
        todo += re.findall(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', body)
    return hashlib.sha256('\n'.join(sorted(h)).encode()).hexdigest()[:24]


def prove_job(args):
    """runs in its own process: verification of one contract"""
    pid, unit, cname, irfile, dem, nproc, tier = args
    try:
        spec = importlib.import_module(pid)
        u = spec.UNITS[unit]
        c = next(x for x in u['contracts'] if x.name == cname)
        mod = build.llir.Module(open(irfile).read())
        h = slice_hash(mod, c.fn, None)
        if not c.prove:
            return {'contract': cname, 'status': 'not attempted', 'hash': h, 'reason': c.bounded_note or 'bounded by design'}
        pool = multiprocessing.Pool(nproc) if nproc > 1 else None
        to = c.timeout * (3 if tier == 'thorough' else 1)
        r = ct.verify(c, mod, dem, pool, timeout=to)
        models = []
        if r.status == 'failed':
            models = [o.model for o in r.failed if o.model]
            ub = ct.verify(c, mod, dem, pool, unroll=c.unroll, timeout=5)
            models += [o.model for o in ub.failed if o.model]
        elif r.status == 'unsupported':
            try:
                ub = ct.verify(c, mod, dem, pool, unroll=c.unroll, timeout=5)
                models += [o.model for o in ub.failed if o.model]
            except Exception:
                pass
        if pool:
            pool.terminate()
        kinds = {}
        for o in r.obligations:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
        return {'contract': cname, 'status': r.status, 'hash': h, 'reason': r.reason, 'seconds': r.seconds,
                'obligations': len(r.obligations), 'discharged': sum(o.status == 'proved' for o in r.obligations),
                'kinds': kinds, 'backends': {k: [v[0], round(v[1], 3)] for k, v in r.backends.items()},
                'failed': [(o.kind, o.name, o.status, str(o.goal)[:400]) for o in r.failed[:10]], 'models': models[:20],
                'trusted': r.trusted, 'executed': r.executed, 'loops': r.loops, 'paths': r.paths, 'rounds': r.rounds,
                'invariants': r.invs}
    except Exception as e:
        return {'contract': cname, 'status': 'unsupported', 'hash': '?', 'reason': 'internal: ' + traceback.format_exc()[-1500:],
                'seconds': 0, 'obligations': 0, 'discharged': 0}


def model_input(c, m):
    """verifier model -> concrete input, or None"""
    inp = {}
    try:
        e = ct.Env(native.TolFP(c.fmode, c.tol), False)
        for p in c.params:
            if isinstance(p, ct.Sc):
                v = m.get(p.name, ('scalar', 0))[1]
                if v is None:
                    return None
                if p.kind in ('f32', 'f64'):
                    v = float(v)
                    if p.kind == 'f32':
                        v = native.dsl.round32(v)
                if p.kind == 'bool':
                    v = bool(v)
                inp[p.name] = v
                setattr(e, p.name, v)
        for p in c.params:
            if isinstance(p, ct.Arr):
                n = p.n(e) if callable(p.n) else getattr(e, p.n) if isinstance(p.n, str) else p.n
                if n > 48:
                    return None
                fs, _ = p.fields()
                d = {}
                for fn, k, off in fs:
                    key = p.name + ('' if fn is None else '.' + fn)
                    a = m.get(key, ('array', [0] * 48))[1]
                    l = []
                    for i in range(n):
                        v = a[i]
                        if v is None:
                            v = 0
                        if k in ('f32', 'f64'):
                            v = float(v)
                            if k == 'f32':
                                v = native.dsl.round32(v)
                        elif k == 'bool':
                            v = bool(v)
                        else:
                            bits = 8 * ct.KINDS[k][1]
                            v = int(v) % (1 << bits)
                            if k[0] == 'i' and v >= 1 << (bits - 1):
                                v -= 1 << bits
                        l.append(v)
                    d[fn] = l
                inp[p.name] = d[None] if None in d else d
        return inp
    except Exception:
        return None


def search_job(args):
    pid, unit, cname, server, seconds, seed, seeds = args
    spec = importlib.import_module(pid)
    u = spec.UNITS[unit]
    c = next(x for x in u['contracts'] if x.name == cname)
    s = native.Server(server, u['contracts'])
    t = time.time()
    try:
        ins = [model_input(c, m) for m in seeds]
        known = [k.get('clauses', []) for k in load_known(pid) if k['contract'] == cname]
        n, f = native.search(s, c, seconds, seed, seeds=[i for i in ins if i], known=known)
        if f is not None:
            # confirm in a fresh process
            s.stop()
            try:
                out = s.call(c, f[0])
                bad = native.evaluate(c, f[0], out)
                f = (f[0], out, bad) if bad else None
            except native.Crash as ex:
                f = (f[0], None, [str(ex)])
            except IndexError as ex:
                f = (f[0], out, ['specification reads outside an array'])
    except Exception as e:
        return {'contract': cname, 'cases': 0, 'fail': None, 'error': traceback.format_exc()[-1500:]}
    finally:
        s.stop()
    return {'contract': cname, 'cases': n, 'fail': f, 'seconds': time.time() - t}


def build_job(args):
    pid, unit, work, what = args
    base, work = work, os.path.join(work, 'u%d' % unit)
    os.makedirs(work, exist_ok=True)
    spec = importlib.import_module(pid)
    u = spec.UNITS[unit]
    src = os.path.join(VERIF, 'harness', u['harness'])
    try:
        if what == 'ir':
            mod, dem, text = build.to_ir(src, work, u.get('opaque', ()), u.get('defs', ()))
            f = os.path.join(work, 'u%d.ll' % unit)
            open(f, 'w').write(text)
            return unit, what, (f, dem), None
        return unit, what, build.build_server(src, u['contracts'], work, defs=u.get('defs', ())), None
    except Exception as e:
        return unit, what, None, str(e)[-2500:]


def run_jobs(tasks, par, limit, end=None):
    """each task in a process of its own; yields (task, result or error text)"""
    pend = list(tasks)
    live = []
    ctx = multiprocessing.get_context('fork')

    def child(w, fn, j):
        os.setpgid(0, 0)
        try:
            w.send(fn(j))
        except BaseException as e:
            w.send('died: %r' % e)
        w.close()
        os._exit(0)
    while pend or live:
        if end and time.time() > end:
            for t in pend:
                yield t, 'time limit of the check'
            pend = []
        while pend and len(live) < par:
            t = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, t[0], t[1]))
            p.start()
            w.close()
            live.append((p, r, t, time.time()))
        multiprocessing.connection.wait([x[1] for x in live], timeout=1.0)
        nl = []
        for p, r, t, st in live:
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    res = 'process ended without a result'
                kill(p)
                yield t, res
            elif time.time() - st > limit or (end and time.time() > end):
                kill(p)
                yield t, 'time limit (%d s)' % (time.time() - st)
            else:
                nl.append((p, r, t, st))
                continue
            r.close()
        live = nl


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.join()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--baseline', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.pid
    spec = importlib.import_module(pid)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    rc = 0
    try:
        rc = decide(a, pid, spec, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(a, pid, spec, tier, seed, work, t0):
    bfile = os.path.join(VERIF, 'baseline', pid + '.json')
    baseline = json.load(open(bfile)) if os.path.exists(bfile) else {}
    known = load_known(pid)
    nu = len(spec.UNITS)
    ncore = os.cpu_count() or 4
    errs = []
    irs, servers = {}, {}
    jobs = [(build_job, (pid, u, work, w)) for u in range(nu) for w in ('srv', 'ir')]
    if True:
        for (fn, j), res in run_jobs(jobs, ncore, 600):
            unit, what, r, err = res if isinstance(res, tuple) else (j[1], j[3], None, str(res))
            if err:
                errs.append((unit, what, err))
            elif what == 'ir':
                irs[unit] = r
            else:
                servers[unit] = r
    clist = [(u, c) for u in range(nu) for c in spec.UNITS[u]['contracts']]
    proofs, nat = {}, {}
    # proofs
    pj = [(pid, u, c.name, irs[u][0], irs[u][1], max(3, ncore // max(1, sum(1 for _, k in clist if k.prove))), tier) for u, c in clist if u in irs]
    budget = (spec.SECONDS if hasattr(spec, 'SECONDS') else 2.0) * (10 if tier == 'thorough' else 1)
    sj = [(pid, u, c.name, servers[u], c_seconds(c, budget), seed, []) for u, c in clist if u in servers and c.native]
    limit = 2400 if tier == 'thorough' else 420
    end = t0 + (6 * 3600 if tier == 'thorough' else 640)

    def dead(j, why):
        return {'contract': j[2], 'status': 'unsupported', 'hash': '?', 'reason': 'worker: ' + why, 'seconds': 0, 'obligations': 0,
                'discharged': 0}
    for (fn, j), r in run_jobs([(search_job, j) for j in sj], ncore, limit):
        r = r if isinstance(r, dict) else {'contract': j[2], 'cases': 0, 'fail': None, 'error': str(r)}
        nat[r['contract']] = r
    broken = {n for n, r in nat.items() if r.get('fail') and not match_known(known, n, r['fail'][0], r['fail'][2])}
    if broken and not a.baseline:
        # a failing input is at hand: name the obligations that fail for the same contracts, leave the others undecided
        pj = [j for j in pj if j[2] in broken][:8]
        limit, end = 120, min(end, time.time() + 240)
    for (fn, j), r in run_jobs([(prove_job, j) for j in pj], ncore, limit, end):
        r = r if isinstance(r, dict) else dead(j, str(r))
        proofs[r['contract']] = r
    # replay of verifier counterexamples and a longer search where the proof did not go through
    again = []
    for u, c in clist:
        p = proofs.get(c.name)
        if p and p['status'] in ('failed', 'unsupported') and u in servers and c.native and not (nat.get(c.name) or {}).get('fail'):
            changed = baseline.get(c.name, {}).get('hash') != p['hash']
            if changed or p.get('models'):
                again.append((pid, u, c.name, servers[u], 30.0 if changed else 3.0, seed + 1000, p.get('models') or []))
    if again and not broken:
        for (fn, j), r in run_jobs([(search_job, j) for j in again], ncore, 300):
            if isinstance(r, dict):
                o = nat.get(r['contract'], {'cases': 0})
                r['cases'] += o.get('cases', 0)
                nat[r['contract']] = r
    viol, notes, kf = [], [], []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    newbase = {}
    for u, c in clist:
        p = proofs.get(c.name)
        n = nat.get(c.name)
        if p:
            newbase[c.name] = {'hash': p['hash'], 'status': p['status'], 'obligations': p.get('obligations', 0)}
        if n and n.get('fail'):
            inp, out, bad = n['fail']
            k = match_known(known, c.name, inp, bad)
            if k:
                kf.append(k)
                continue
            path = os.path.join(rdir, '%s_%s.json' % (pid, c.name))
            json.dump({'property': pid, 'contract': c.name, 'function': c.fn, 'harness': spec.UNITS[u]['harness'],
                       'violated_clauses': bad, 'input': inp,
                       'observed': None if out is None else {'exception': bool(out[0]), 'result': out[1], 'arrays': out[2]},
                       'failed_obligations': (p or {}).get('failed', []),
                       'how': 'the input was run against the code compiled from /repo; the clauses above evaluate to false on the result'},
                      open(path, 'w'), indent=1, default=str)
            viol.append((c.name, path, '', '; '.join(bad)))
        elif p and p['status'] == 'failed':
            base = baseline.get(c.name, {})
            if base.get('hash') == p['hash']:
                notes.append('%s: %d obligation(s) undecided by the solvers on unchanged code: %s' % (
                    c.name, len(p['failed']), '; '.join('%s (%s)' % (x[1], x[2]) for x in p['failed'][:4])))
            elif base.get('status') == 'proved':
                path = os.path.join(rdir, '%s_%s.json' % (pid, c.name))
                json.dump({'property': pid, 'contract': c.name, 'function': c.fn, 'harness': spec.UNITS[u]['harness'],
                           'failed_obligations': p['failed'], 'models': p.get('models', [])[:5],
                           'how': 'these obligations were discharged for the recorded baseline and are not discharged for the current '
                                  'source; no concrete failing input was found by replaying models and searching'},
                          open(path, 'w'), indent=1, default=str)
                viol.append((c.name, path, ' no-failing-input-found', '; '.join(x[1] for x in p['failed'][:4])))
            else:
                notes.append('%s: not proved (%s); bounded run-time check only' % (c.name, '; '.join(x[1] for x in p['failed'][:3])))
        elif p and p['status'] == 'unsupported':
            notes.append('%s: outside the reach of the verifier (%s); bounded run-time check only' % (c.name, p['reason'][:300]))
    for unit, what, err in errs:
        notes.append('%s of %s could not be built: %s' % (what, spec.UNITS[unit]['harness'], err[-300:]))
    for n in nat.values():
        if n.get('error'):
            notes.append('search %s: %s' % (n['contract'], n['error'][-300:]))
    write_evidence(a, pid, spec, tier, seed, clist, proofs, nat, viol, notes, kf, errs, t0)
    if a.baseline:
        os.makedirs(os.path.dirname(bfile), exist_ok=True)
        json.dump(newbase, open(bfile, 'w'), indent=1, sort_keys=True)
    proved = sum(1 for p in proofs.values() if p['status'] == 'proved')
    print('%s: %d contracts, %d proved, %d obligations discharged of %d, %d native runs, %.1f s' % (
        pid, len(clist), proved, sum(p.get('discharged', 0) for p in proofs.values()),
        sum(p.get('obligations', 0) for p in proofs.values()), sum(n.get('cases', 0) for n in nat.values()), time.time() - t0))
    for n in notes:
        print('note:', n)
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for nm, path, suffix, why in viol:
        print('contract %s: %s' % (nm, why[:500]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, suffix))
    if viol:
        return 1
    if clist and not proofs and not nat:
        print('ERROR: nothing could be built')
        return 2
    return 0


def c_seconds(c, budget):
    return budget * getattr(c, 'effort', 1.0)


def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == pid]


def match_known(known, cname, inp, bad):
    for k in known:
        if k['contract'] == cname and set(bad) <= set(k.get('clauses', [])):
            return k['what']
    return None


def write_evidence(a, pid, spec, tier, seed, clist, proofs, nat, viol, notes, kf, errs, t0):
    ob = sum(p.get('obligations', 0) for p in proofs.values())
    di = sum(p.get('discharged', 0) for p in proofs.values())
    be = {}
    for p in proofs.values():
        for k, v in (p.get('backends') or {}).items():
            b = be.setdefault(k, [0, 0.0])
            b[0] += v[0]
            b[1] = round(b[1] + v[1], 3)
    trusted = sorted({t for p in proofs.values() for t in p.get('trusted', [])})
    fns = sorted({x for p in proofs.values() if p['status'] == 'proved' for x in p.get('executed', [])})
    allp = all(proofs.get(c.name, {}).get('status') == 'proved' for _, c in clist if c.prove) and clist
    level = spec.LEVEL if hasattr(spec, 'LEVEL') else 'proof'
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'python3-vt engine/check.py %s --tier %s' % (pid, tier),
        'trusted_base': ['clang-18 front end and the listed opt passes (extraction from C++ to LLVM IR)',
                         'engine/llir.py, engine/symex.py, engine/execu.py (verification-condition generator)', 'z3 %s' % z3.get_version_string(),
                         'cvc5'] + ['assumed contract: ' + t for t in trusted],
        'obligations_by_kind': sumdict([p.get('kinds', {}) for p in proofs.values()]),
        'discharged_by_backend_[count,seconds]': be,
        'contracts': [{
            'name': c.name, 'harness_function': c.fn, 'covers': list(c.covers),
            'result': proofs.get(c.name, {}).get('status', 'not built'), 'obligations': proofs.get(c.name, {}).get('obligations', 0),
            'loops_with_invariants': proofs.get(c.name, {}).get('loops', 0), 'invariants': proofs.get(c.name, {}).get('invariants', 0),
            'paths': proofs.get(c.name, {}).get('paths', 0), 'prover_seconds': round(proofs.get(c.name, {}).get('seconds', 0) or 0, 2),
            'arithmetic': c.fmode, 'bounded_native_runs': nat.get(c.name, {}).get('cases', 0),
            'strength': 'proved' if proofs.get(c.name, {}).get('status') == 'proved' else 'bounded'} for _, c in clist],
        'functions_executed_under_contract': [f for f in fns if not f.startswith('std::')][:200],
        'evaluations': sum(n.get('cases', 0) for n in nat.values()),
        'native_runs_note': 'contracts evaluated at run time on the compiled code (address sanitizer); bounded complement, not part of the proof',
        'notes': notes, 'known_findings': kf}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + list(getattr(spec, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)


def sumdict(ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    return o


ASSUME = [
    'memory allocation succeeds; exceptions other than explicit throws of the code under contract are not modelled',
    'array parameters of a harness function do not overlap',
    'termination of loops is not proved (partial correctness)',
    'floating-point contracts in mode "real" treat machine arithmetic as exact rational arithmetic (rounding, overflow and NaN inputs excluded); '
    'mode "uf" treats operations as uninterpreted, i.e. claims the same sequence of roundings',
    'the IR is extracted from /repo by clang with optimisation passes limited to inlining, SROA, CSE and CFG simplification',
]

if __name__ == '__main__':
    main()
