"""Specification language shared by the prover (z3 terms) and by the concrete evaluator (Python values).

Every operator dispatches on its operands: if one of them is a z3 term a z3 term is built, otherwise the value is computed.
Integers are mathematical; f32/f64 values are z3 Reals (with codes for NaN and the infinities) or Python floats.
"""
import math
import struct
from fractions import Fraction
import z3

PINF = z3.RealVal(2) ** 1100
PINF_F = Fraction(2) ** 1100
NAN_F = Fraction(2) ** 1200
PINF = z3.RealVal(str(PINF_F))
NINF = z3.RealVal(str(-PINF_F))
NAN = z3.RealVal(str(NAN_F))


def isz(*a):
    return any(isinstance(x, z3.ExprRef) for x in a)


def And(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = tuple(a[0])
    out = []
    for x in a:
        if isz(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    if len(a) == 1 and isinstance(a[0], (list, tuple)):
        a = tuple(a[0])
    out = []
    for x in a:
        if isz(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    return z3.Not(x) if isz(x) else (not x)


def Implies(a, b):
    if isz(a):
        if not isz(b):
            return True if b else z3.Not(a)
        return z3.Implies(a, b)
    return b if a else True


def Iff(a, b):
    if isz(a, b):
        a = a if isz(a) else z3.BoolVal(bool(a))
        b = b if isz(b) else z3.BoolVal(bool(b))
        return a == b
    return bool(a) == bool(b)


def tofrac(x):
    """Python number -> exact Fraction code"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, float):
        if math.isnan(x):
            return NAN_F
        if math.isinf(x):
            return PINF_F if x > 0 else -PINF_F
        return Fraction(x)
    return Fraction(x)


def toreal(x):
    if isz(x):
        return z3.ToReal(x) if x.sort() == z3.IntSort() else x
    return z3.RealVal(str(tofrac(x)))


def If(c, a, b):
    if not isz(c):
        return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        a = a if isz(a) else z3.BoolVal(a)
        b = b if isz(b) else z3.BoolVal(b)
        return z3.If(c, a, b)
    if not isz(a, b):
        if isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
            a, b = toreal(a), toreal(b)
        else:
            a = z3.IntVal(a)
            b = z3.IntVal(b)
    else:
        if isz(a) and not isz(b):
            b = toreal(b) if a.sort() == z3.RealSort() else z3.IntVal(b)
        elif isz(b) and not isz(a):
            a = toreal(a) if b.sort() == z3.RealSort() else z3.IntVal(a)
    return z3.If(c, a, b)


_cnt = [0]


def fresh_name(p='v'):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])


class Quant:
    """factory for bounded quantifiers; symbolic flag decides the back end"""


def forall(lo, hi, f, sym=None, pats=None, name='q'):
    """for all integers lo <= i < hi : f(i)"""
    if sym is None:
        sym = isz(lo, hi)
        if not sym:
            if hi - lo > 64 or _force_sym[0]:
                sym = True
    if not sym:
        return And([f(i) for i in range(lo, hi)])
    i = z3.Int(fresh_name(name))
    b = f(i)
    if b is True:
        return True
    body = Implies(And(lo <= i, i < hi), b)
    if not isz(body):
        return body
    return z3.ForAll([i], body, patterns=pats(i)) if pats else z3.ForAll([i], body)


def exists(lo, hi, f, sym=None, name='q'):
    if sym is None:
        sym = isz(lo, hi) or _force_sym[0]
    if not sym:
        return Or([f(i) for i in range(lo, hi)])
    i = z3.Int(fresh_name(name))
    body = And(lo <= i, i < hi, f(i))
    return z3.Exists([i], body) if isz(body) else body


_force_sym = [False]


# ------------------------------------------------------------- floating point
class FP:
    """Floating-point back end. mode: 'uf' (operations are uninterpreted: equality of results means bit-for-bit the same
    computation up to commutativity), 'real' (exact arithmetic: rounding ignored), 'rnd' (exact result followed by a
    monotone rounding function; overflow excluded)."""

    def __init__(self, mode='uf'):
        self.mode = mode
        R = z3.RealSort()
        self.uf = {}
        self.rnd_terms = {64: [], 32: []}
        self.side = []
        self.rndf = {64: z3.Function('rnd64', R, R), 32: z3.Function('rnd32', R, R)}
        self.to32_terms = []
        self.spec = {}           # terms that may carry a NaN or infinity code ('real' mode)

    def f(self, name, n):
        k = (name, n)
        if k not in self.uf:
            R = z3.RealSort()
            self.uf[k] = z3.Function(name, *([R] * (n + 1)))
        return self.uf[k]

    def ofbits(self, x, w):
        """floating-point value with the given bit pattern (uninterpreted)"""
        if isz(x):
            return z3.Function('f%d_of_bits' % w, z3.IntSort(), z3.RealSort())(x)
        import struct
        return struct.unpack('f' if w == 32 else 'd', struct.pack('I' if w == 32 else 'Q', x))[0]

    def rnd(self, x, w):
        t = self.rndf[w](x)
        if not any(t.eq(o) for o in self.rnd_terms[w]):
            self.rnd_terms[w].append(t)
        return t

    def rnd_axioms(self, exact=()):
        """pairwise monotonicity instances for all rounding terms, plus fixpoints for exactly representable terms"""
        ax = []
        for w in (64, 32):
            ts = [(t.arg(0), t) for t in self.rnd_terms[w]]
            if not ts:
                continue
            ex = [(e, e) for e in list(exact) + [z3.RealVal(0), z3.RealVal(1), z3.RealVal('1/2'), z3.RealVal(2)]]
            # results of a rounding are representable themselves
            ex += [(t, t) for _, t in ts]
            allp = ts + ex
            for a in range(len(ts)):
                for b in range(len(allp)):
                    if a == b:
                        continue
                    (x, rx), (y, ry) = ts[a], allp[b]
                    ax.append(z3.Implies(x <= y, rx <= ry))
                    ax.append(z3.Implies(y <= x, ry <= rx))
        return ax

    # --- special values in 'real' mode: only divisions whose divisor may be zero produce them; inputs are finite
    def mark(self, t, cond=None):
        """cond: conditions under which t is NaN, +inf, -inf (otherwise the value tells)"""
        self.spec[t.get_id()] = (t, cond)
        return t

    def cond(self, x):
        c = self.spec[x.get_id()][1] if self.marked(x) else None
        return c if c is not None else (x == NAN, x == PINF, x == NINF)

    def marked(self, x):
        return isz(x) and x.get_id() in self.spec

    def special(self, x):
        return z3.Or(*self.cond(x))

    def guard(self, name, w, val, *xs):
        m = [x for x in xs if self.marked(x)]
        if not m:
            return val
        return self.mark(z3.If(z3.Or([self.special(x) for x in m]), self.f('sp_%s%d' % (name, w), len(xs))(*xs), val))

    # w = 32 / 64
    def _c(self, fn, w):
        """constant fold with IEEE semantics; fn works on python floats"""
        r = fn()
        if w == 32:
            r = round32(r)
        return r

    def const(self, x):
        return isinstance(x, float)

    def tofloat(self, v):
        """z3 numeral or Python number -> python float if exactly a constant, else None"""
        if isinstance(v, (int, float)):
            return float(v)
        return None

    def add(self, x, y, w=64):
        if not isz(x, y):
            return round_w(float(x) + float(y), w)
        if not isz(x) and x == 0:
            return y
        if not isz(y) and y == 0:
            return x
        x, y = toreal(x), toreal(y)
        if self.mode == 'real':
            return self.guard('add', w, x + y, x, y)
        if self.mode == 'rnd':
            return self.rnd(x + y, w)
        # x + (-y) is x - y
        if _isneg(x) and not _isneg(y):
            x, y = y, x
        if x.get_id() > y.get_id():
            x, y = y, x
        return self.f('fadd%d' % w, 2)(x, y)

    def neg(self, x, w=64):
        if not isz(x):
            return -float(x)
        if self.marked(x):
            n, p, m = self.cond(x)
            return self.mark(z3.If(n, NAN, -x), (n, m, p))
        if self.mode in ('real', 'rnd'):
            return -x
        return z3.If(x == NAN, NAN, -x)

    def abs(self, x, w=64):
        if not isz(x):
            return abs(float(x))
        if self.marked(x):
            n, p, m = self.cond(x)
            return self.mark(z3.If(n, NAN, z3.If(x < 0, -x, x)), (n, z3.Or(p, m), z3.BoolVal(False)))
        if self.mode in ('real', 'rnd'):
            return z3.If(x < 0, -x, x)
        return z3.If(x == NAN, NAN, z3.If(x < 0, -x, x))

    def sub(self, x, y, w=64):
        if not isz(x, y):
            return round_w(float(x) - float(y), w)
        if not isz(y) and y == 0:
            return x
        x, y = toreal(x), toreal(y)
        if self.mode == 'real':
            return self.guard('sub', w, x - y, x, y)
        if self.mode == 'rnd':
            return self.rnd(x - y, w)
        return self.add(x, self.neg(y, w), w)

    def mul(self, x, y, w=64):
        if not isz(x, y):
            return round_w(float(x) * float(y), w)
        if not isz(x) and x == 1:
            return y
        if not isz(y) and y == 1:
            return x
        x, y = toreal(x), toreal(y)
        if self.mode == 'real':
            return self.guard('mul', w, x * y, x, y)
        if self.mode == 'rnd':
            return self.rnd(x * y, w)
        if x.get_id() > y.get_id():
            x, y = y, x
        return self.f('fmul%d' % w, 2)(x, y)

    def div(self, x, y, w=64, nonzero=False):
        if not isz(x, y):
            x, y = float(x), float(y)
            if y == 0:
                r = math.nan if (x == 0 or math.isnan(x)) else math.copysign(math.inf, x) * math.copysign(1, y)
            else:
                r = x / y
            return round_w(r, w)
        if not isz(y) and y == 1:
            return x
        x, y = toreal(x), toreal(y)
        if self.mode == 'real':
            if nonzero or (isinstance(y, z3.RatNumRef) and y.numerator_as_long() != 0):
                return self.guard('div', w, x / y, x, y)
            q = self.mark(z3.If(y == 0, z3.If(x == 0, NAN, z3.If(x > 0, PINF, NINF)), x / y),
                          (z3.And(y == 0, x == 0), z3.And(y == 0, x > 0), z3.And(y == 0, x < 0)))
            if self.marked(x) or self.marked(y):
                return self.guard('div', w, q, x, y)
            return q
        if self.mode == 'rnd':
            return self.rnd(x / y, w)
        return self.f('fdiv%d' % w, 2)(x, y)

    def un(self, name, x, w=64):
        if not isz(x):
            x = float(x)
            try:
                r = {'exp': math.exp, 'log': math.log, 'log2': math.log2, 'sqrt': math.sqrt, 'floor': math.floor,
                     'ceil': math.ceil, 'round': lambda v: math.copysign(math.floor(abs(v) + 0.5), v), 'log1p': math.log1p,
                     'exp2': lambda v: 2.0 ** v, 'log10': math.log10, 'trunc': math.trunc}[name](x)
                return round_w(float(r), w)
            except (ValueError, OverflowError):
                if name == 'exp':
                    return math.inf
                if name in ('floor', 'ceil', 'round'):
                    return x
                if name in ('log', 'log2') and x == 0:
                    return -math.inf
                return math.nan
        if name in ('floor', 'ceil') and self.mode in ('real', 'rnd'):
            fl = z3.ToReal(z3.ToInt(x))
            return fl if name == 'floor' else z3.If(fl == x, fl, fl + 1)
        return self.f('%s%d' % (name, w), 1)(x)

    def bi(self, name, x, y, w=64):
        if not isz(x, y):
            x, y = float(x), float(y)
            if name == 'pow':
                try:
                    return round_w(math.pow(x, y), w)
                except (OverflowError, ValueError):
                    return math.inf if x != 0 else math.inf
            return round_w(math.fmod(x, y), w)
        return self.f('%s%d' % (name, w), 2)(toreal(x), toreal(y))

    def fromint(self, i, w=64):
        """(float) of an integer known to be < 2^53"""
        if not isz(i):
            return round_w(float(i), w)
        r = z3.ToReal(i)
        return r if w == 64 else self.to32(r)

    def to32(self, x):
        if not isz(x):
            return round32(float(x))
        if self.mode == 'real':
            return x
        if self.mode == 'rnd':
            return self.rnd(x, 32)
        return self.f('to32', 1)(x)

    # comparisons: C semantics (false on NaN)
    def _nn(self, *a):
        if self.mode != 'uf':
            return [z3.Not(self.cond(x)[0]) for x in a if self.marked(x)]
        return [x != NAN for x in a if isz(x)]

    def cmpinf(self, op, x, y):
        """comparison with an infinite constant"""
        v, up, left = (y, y > 0, True) if isinf(y) else (x, x > 0, False)
        o = x if left else y
        n, p, m = self.cond(o) if self.marked(o) else (z3.BoolVal(False),) * 3
        hit = p if up else m
        if op == 'eq':
            return hit
        if op == 'lt':
            return And(Not(n), Not(hit)) if left == up else False
        return Not(n) if left == up else hit

    def lt(self, x, y):
        if not isz(x, y):
            return float(x) < float(y)
        if (not isz(x) and x != x) or (not isz(y) and y != y):
            return False
        if self.mode != 'uf' and (isinf(x) or isinf(y)):
            return self.cmpinf('lt', x, y)
        return And(*self._nn(x, y), toreal(x) < toreal(y))

    def le(self, x, y):
        if not isz(x, y):
            return float(x) <= float(y)
        if (not isz(x) and x != x) or (not isz(y) and y != y):
            return False
        if self.mode != 'uf' and (isinf(x) or isinf(y)):
            return self.cmpinf('le', x, y)
        return And(*self._nn(x, y), toreal(x) <= toreal(y))

    def gt(self, x, y):
        return self.lt(y, x)

    def ge(self, x, y):
        return self.le(y, x)

    def eq(self, x, y):
        if not isz(x, y):
            return float(x) == float(y)
        if (not isz(x) and x != x) or (not isz(y) and y != y):
            return False
        if self.mode != 'uf' and (isinf(x) or isinf(y)):
            return self.cmpinf('eq', x, y)
        return And(*self._nn(x, y), toreal(x) == toreal(y))

    def isnan(self, x):
        if not isz(x):
            return math.isnan(x)
        if self.mode != 'uf' and not self.marked(x):
            return False
        return self.cond(x)[0]

    def isinf(self, x):
        if not isz(x):
            return math.isinf(x)
        if self.mode != 'uf' and not self.marked(x):
            return False
        return z3.Or(*self.cond(x)[1:])

    def isfinite(self, x):
        return Not(Or(self.isnan(x), self.isinf(x)))

    def divz(self, x, y, w=64):
        """x / y, or zero where the quotient is undefined"""
        if not isz(x, y):
            r = self.div(x, y, w)
            return r if math.isfinite(r) else 0.0
        if self.mode == 'real':
            x, y = toreal(x), toreal(y)
            return z3.If(y == 0, z3.RealVal(0), x / y)
        q = self.div(x, y, w)
        return If(self.isfinite(q), q, 0.0)

    def same(self, x, y):
        """identical value (NaN equals NaN)"""
        if not isz(x, y):
            x, y = float(x), float(y)
            return x == y or (x != x and y != y)
        return toreal(x) == toreal(y)


def isinf(x):
    return isinstance(x, float) and x in (math.inf, -math.inf)


def _isneg(x):
    return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.num_args() == 3 and x.arg(1).eq(NAN)


def round32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def round_w(x, w):
    return x if w == 64 else round32(x)


def s32(x):
    """signed view of a canonical unsigned 32-bit value"""
    if isz(x):
        return z3.If(x >= 2 ** 31, x - 2 ** 32, x)
    return x - 2 ** 32 if x >= 2 ** 31 else x


def exp_split(fp, t, w=64):
    """exp(t) by the laws exp(a + b) = exp(a) * exp(b), exp(-a) = 1 / exp(a), exp(0) = 1, exp(log(a)) = a for a > 0 (exact arithmetic);
    returns the product and the facts about its factors"""
    facts = []
    t = toreal(t)

    def go(x, neg):
        if isinstance(x, z3.RatNumRef) and x.numerator_as_long() == 0:
            return []
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_ADD:
                return [f for a in x.children() for f in go(a, neg)]
            if k == z3.Z3_OP_SUB:
                c = x.children()
                return go(c[0], neg) + [f for a in c[1:] for f in go(a, not neg)]
            if k == z3.Z3_OP_UMINUS:
                return go(x.arg(0), not neg)
            if k == z3.Z3_OP_MUL and x.num_args() == 2 and isinstance(x.arg(0), z3.RatNumRef) and x.arg(0).as_fraction() == -1:
                return go(x.arg(1), not neg)
        e = fp.f('exp%d' % w, 1)(x)
        if z3.is_app(x) and x.decl().name() == 'log%d' % w:
            facts.append(z3.Implies(x.arg(0) > 0, e == x.arg(0)))
        facts.append(e > 0)
        if not neg:
            return [e]
        i = fp.f('iexp%d' % w, 1)(x)
        facts.append(i > 0)
        facts.append(i * e == 1)
        return [i]
    fs = go(t, False)
    if not fs:
        return z3.RealVal(1), facts
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r, facts
