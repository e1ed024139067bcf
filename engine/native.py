"""Concrete execution of the real code through the native server; the contract's clauses are evaluated on the results."""
import math
import os
import random
import select
import struct
import subprocess
import time
from dsl import *
import dsl
from contract import Sc, Arr, Env, KINDS, flat
from symex import SView

FMT = {'u8': 'B', 'bool': '?', 'u32': 'I', 'i32': 'i', 'u64': 'Q', 'i64': 'q', 'f32': 'f', 'f64': 'd'}


class Crash(Exception):
    pass


class Server:
    def __init__(self, path, contracts):
        self.path, self.contracts = path, contracts
        self.idx = {c.name: i for i, c in enumerate(contracts)}
        self.p = None

    def start(self):
        r, w = os.pipe()

        def pre():
            os.dup2(w, 3)
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=2000'
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                  pass_fds=(w,) if w == 3 else (), preexec_fn=pre, close_fds=False, env=env)
        os.close(w)
        self.r = r

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stderr):
                try:
                    f.close()
                except OSError:
                    pass
            os.close(self.r)
            self.p = None

    def read(self, n, timeout):
        out = b''
        end = time.time() + timeout
        while len(out) < n:
            t = end - time.time()
            if t <= 0:
                raise Crash('no result within %d s' % timeout)
            rl, _, _ = select.select([self.r], [], [], t)
            if not rl:
                raise Crash('no result within %d s' % timeout)
            b = os.read(self.r, n - len(out))
            if not b:
                err = self.p.stderr.read().decode(errors='replace')
                lines = [l for l in err.split('\n') if 'ERROR' in l or 'runtime error' in l or 'terminate' in l or 'what' in l]
                frames = [l.split(' in ', 1)[1].replace('/repo/', '') for l in err.split('\n') if l.strip().startswith('#') and ' in ' in l][:5]
                raise Crash('process died: ' + ' | '.join(lines[:3])[:400] + (' at ' + ' < '.join(f[:160] for f in frames) if frames else ''))
            out += b
        return out

    def call(self, c, inp, timeout=20):
        """inp: dict name -> value/list; returns (status, ret, post dict)"""
        if self.p is None:
            self.start()
        msg = struct.pack('I', self.idx[c.name])
        sizes = []
        for p in c.params:
            v = inp[p.name]
            if isinstance(p, Sc):
                msg += struct.pack('<' + FMT[p.kind], bool(v) if p.kind == 'bool' else v)
            else:
                b = pack_arr(p, v)
                msg += struct.pack('I', len(b)) + b
                if p.out:
                    sizes.append((p, len(b), len(v) if not isinstance(v, dict) else 0))
        try:
            self.p.stdin.write(msg)
            self.p.stdin.flush()
        except BrokenPipeError:
            self.stop()
            raise Crash('process died')
        try:
            status = self.read(1, timeout)[0]
            ret = None
            if c.ret:
                s = struct.calcsize('<' + FMT[c.ret])
                ret = struct.unpack('<' + FMT[c.ret], self.read(s, timeout))[0]
            post = {}
            for p, n, _ in sizes:
                post[p.name] = unpack_arr(p, self.read(n, timeout))
        except Crash:
            self.stop()
            raise
        return status, ret, post


def pack_arr(p, v):
    fs, stride = p.fields()
    if fs[0][0] is None:
        if p.kind == 'bool':
            v = [bool(x) for x in v]
        return struct.pack('<%d%s' % (len(v), FMT[p.kind]), *v)
    n = len(v[fs[0][0]])
    b = bytearray(n * stride)
    for name, k, off in fs:
        for i in range(n):
            struct.pack_into('<' + FMT[k], b, i * stride + off, v[name][i])
    return bytes(b)


def unpack_arr(p, b):
    fs, stride = p.fields()
    n = len(b) // stride
    if fs[0][0] is None:
        return list(struct.unpack('<%d%s' % (n, FMT[p.kind]), b))
    out = {}
    for name, k, off in fs:
        out[name] = [struct.unpack_from('<' + FMT[k], b, i * stride + off)[0] for i in range(n)]
    return out


class CView:
    """concrete array view: out-of-range reads in specifications raise IndexError"""

    def __init__(self, l):
        self.l = l

    def __getitem__(self, i):
        if i < 0 or i >= len(self.l):
            raise IndexError(i)
        v = self.l[i]
        return int(v) if isinstance(v, bool) else v

    def __len__(self):
        return len(self.l)


class TolFP(FP):
    """concrete arithmetic; equality up to rounding when the proof treats arithmetic as exact"""

    def __init__(self, mode, tol):
        FP.__init__(self, mode)
        self.tol = tol

    def same(self, x, y):
        x, y = float(x), float(y)
        if x == y or (x != x and y != y):
            return True
        if self.mode == 'uf':
            return False
        if math.isinf(x) or math.isinf(y) or math.isnan(x) or math.isnan(y):
            return False
        return abs(x - y) <= self.tol * max(1.0, abs(x), abs(y))


def cenv(c, inp):
    e = Env(TolFP(c.fmode, c.tol), False)
    for p in c.params:
        v = inp[p.name]
        if isinstance(p, Arr):
            v = CView(v) if not isinstance(v, dict) else SView({k: CView(x) for k, x in v.items()})
        setattr(e, p.name, v)
    return e


def evaluate(c, inp, out):
    """returns list of violated clause names"""
    status, ret, post = out
    e = cenv(c, inp)
    for p in c.params:
        if isinstance(p, Arr):
            v = post.get(p.name, inp[p.name])
            setattr(e.post, p.name, CView(v) if not isinstance(v, dict) else SView({k: CView(x) for k, x in v.items()}))
    bad = []
    if c.throws is not None:
        want = c.throws(e)
        if want is None:        # either is admissible
            if status:
                return []
            want = False
        want = bool(want)
        if want != bool(status):
            return ['exception raised iff arguments are inadmissible (raised=%s, expected=%s)' % (bool(status), want)]
        if status:
            return []
    elif status:
        return ['no exception is raised']
    e.ret = ret if c.ret != 'bool' else bool(ret)
    if c.ensures:
        for i, x in enumerate(c.ensures(e)):
            nm, f = x if isinstance(x, tuple) else ('ensures%d' % i, x)
            if not f:
                bad.append(nm)
    return bad


def admissible(c, inp):
    e = cenv(c, inp)
    for p in c.params:
        if isinstance(p, Arr):
            n = p.n(e) if callable(p.n) else getattr(e, p.n) if isinstance(p.n, str) else p.n
            v = inp[p.name]
            ln = len(v) if not isinstance(v, dict) else len(next(iter(v.values())))
            if ln != n:
                return False
        elif p.kind not in ('bool',):
            if p.lo is not None and inp[p.name] < p.lo or p.hi is not None and inp[p.name] > p.hi:
                return False
    try:
        return all(bool(f) for f in flat(c.requires(e)))
    except IndexError:
        return False


FVALS = [0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 3.0, 0.25, 1.5, -2.0]


def rnd_scalar(rng, kind, lo=None, hi=None, gen=None, size=8):
    if gen is not None:
        return gen(rng)
    if kind == 'bool':
        return rng.random() < 0.5
    if kind in ('f32', 'f64'):
        r = rng.random()
        if lo is not None or hi is not None:
            l = lo if lo is not None else -10.0
            h = hi if hi is not None else 10.0
            if r < 0.25:
                v = rng.choice([l, h])
            elif r < 0.5:
                v = l + (h - l) * rng.randrange(0, 9) / 8
            else:
                v = rng.uniform(l, h)
        elif r < 0.6:
            v = rng.choice(FVALS)
        else:
            v = rng.uniform(-5, 5)
        if kind == 'f32':
            v = dsl.round32(v)
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        return v
    l = lo if lo is not None else (-4 if kind[0] == 'i' else 0)
    h = hi if hi is not None else 6
    if h - l > 40:
        h = l + rng.choice([2, 4, size])
    return rng.randint(l, h)


def default_gen(c, rng, size=6):
    inp = {}
    e = Env(TolFP(c.fmode, c.tol), False)
    for p in c.params:
        if isinstance(p, Sc):
            lo, hi = p.lo, p.hi
            inp[p.name] = rnd_scalar(rng, p.kind, lo, hi if hi is not None else (size if p.kind[0] in 'ui' else None), p.gen, size)
            setattr(e, p.name, inp[p.name])
    for p in c.params:
        if isinstance(p, Arr):
            n = p.n(e) if callable(p.n) else getattr(e, p.n) if isinstance(p.n, str) else p.n
            fs, _ = p.fields()
            d = {}
            for name, k, off in fs:
                g = p.gen
                d[name] = [rnd_scalar(rng, k, p.lo, p.hi, g) for _ in range(n)]
            inp[p.name] = d[None] if None in d else d
    return inp


def search(server, c, seconds, seed=1, maxcases=None, seeds=(), known=()):
    """returns (number of cases run, failing (inp, out, clauses) or None); an input on which only clauses of one recorded
    finding fail is remembered and the search goes on"""
    seen = None
    rng = random.Random(seed)
    t0 = time.time()
    n = 0
    rej = 0
    pend = list(seeds)
    if c.cases:
        pend += list(c.cases())
    while time.time() - t0 < seconds and (maxcases is None or n < maxcases or pend):
        if pend:
            inp = pend.pop(0)
            if inp is None:
                continue
        else:
            inp = c.gen(rng) if c.gen else default_gen(c, rng, rng.choice([1, 2, 3, 4, 6, 10]))
        if inp is None or not admissible(c, inp):
            rej += 1
            if rej > 20000 and n == 0:
                break
            continue
        n += 1
        try:
            out = server.call(c, inp)
        except Crash as ex:
            return n, (inp, None, [str(ex)])
        try:
            bad = evaluate(c, inp, out)
        except (ZeroDivisionError, OverflowError, ValueError) as ex:
            continue
        except IndexError as ex:
            bad = ['specification reads outside an array (%s)' % ex]
        if bad:
            if any(set(bad) <= set(k) for k in known):
                seen = seen or (inp, out, bad)
                continue
            return n, (inp, out, bad)
    return n, seen
