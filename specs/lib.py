"""Shared specification helpers."""
from contract import *

BIG = 2 ** 28


def cur(L, name, field=None):
    """current contents of a parameter array inside a loop"""
    for m in L.mods:
        if m.name == name and (field is None or m.field == field):
            return m.cur
    return View(L.st.mem[L.ex.params[name].id].fields[field or 0][1], None)


def member(e, idx, n, f):
    return e.exists(0, n, lambda j: idx[j] == f)


def ascending(e, idx, n, hi=None):
    """strictly ascending indices, all below hi"""
    if not e.sym:
        return all(idx[j] < idx[j + 1] for j in range(n - 1)) and (hi is None or all(idx[j] < hi for j in range(n)))
    a, b = z3.Ints(fresh_name('a') + ' ' + fresh_name('b'))
    f = [z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), idx[a] < idx[b]))]
    if hi is not None:
        f.append(e.forall(0, n, lambda j: And(0 <= idx[j], idx[j] < hi)))
    return f


def cursors(*names, heap=False):
    """invariant: a cursor moving over ascending indices has passed exactly the indices below the current position.
    names: (array parameter, length parameter)"""
    def inv(L):
        e = L.e
        out = []
        poss = [('k', L.k)] + [(p.name, p.val) for p in L.phis_of('u32') if isz(p.val) or isinstance(p.val, int)]
        for arr, ln in names:
            a, n = getattr(e, arr), getattr(e, ln) if isinstance(ln, str) else ln(e)
            rid = L.ex.params[arr].id
            for p in L.phis_of('ptr'):
                if not isinstance(p.val, Ptr) or p.val.r is None or (p.val.r.id != rid and not (heap and p.val.r.name == 'heap')):
                    continue
                o = lin_div(p.val.off, 4)
                o = o[0] if o else zi(p.val.off) / 4
                out.append(('%s: cursor %s within the array' % (arr, p.name), And(0 <= o, o <= n)))
                if not (isz(p.val.off) and lin_div(p.val.off, 4)):
                    out.append(('%s: cursor %s aligned' % (arr, p.name), zi(p.val.off) == 4 * o))
                for nm, w in poss:
                    out.append(('%s: %s: passed indices lie below %s' % (arr, p.name, nm), e.forall(0, o, lambda j: a[j] < w)))
                    out.append(('%s: %s: next index is not below %s' % (arr, p.name, nm), Implies(o < n, a[o] >= w)))
                    if nm != 'k':
                        out.append(('%s: %s: cached index %s' % (arr, p.name, nm), Implies(o < n, a[o] == w)))
        return out
    return inv


def walks(arr, ln):
    """invariant: indices seen so far do not exceed the indices still to come"""
    def inv(L):
        e = L.e
        a, n = getattr(e, arr), getattr(e, ln)
        out = []
        for p in L.phis_of('u32'):
            out.append(('%s does not exceed the coming index' % p.name, Implies(L.k < n, p.val <= a[L.k])))
            out.append(('%s is the previous index' % p.name, If(L.k > 0, p.val == a[L.k - 1], p.val == 0)))
        if L.parent is not None:
            # advancing to the index of the surrounding loop
            K = L.parent.k
            for p in L.phis_of('u32'):
                out.append(('%s does not exceed the index to be reached' % p.name, Implies(K < n, p.val <= a[K])))
                for q in L.phis_of('u32', 'u64', 'i64'):
                    if q is not p and (isz(q.val) or isinstance(q.val, int)):
                        out.append(('%s plus remaining steps %s' % (p.name, q.name), Implies(K < n, p.val + q.val == a[K])))
                out.append(('%s plus steps' % p.name, Implies(K < n, p.val == a[K] - (a[K] - p.entry) + L.k)))
        return out
    return inv


def asc_gen(rng, hi, p=0.5):
    return [i for i in range(hi) if rng.random() < p]


def pick(rng, *xs):
    return rng.choice(xs)


def lower_bound(ex, st, args, ins):
    """contract of std::lower_bound on an ascending range of 32-bit indices (library function)"""
    first, last, vp = args
    v = ex.load(st, vp, llir.IntTy(32))
    if first.r is not last.r:
        raise Unsupported('lower_bound over two regions')
    ql, qh = lin_div(first.off, 4), lin_div(last.off, 4)
    if not ql or not qh:
        raise Unsupported('lower_bound on unaligned range')
    lo, hi = zi(ql[0]), zi(qh[0])
    m = st.mem[first.r.id]
    if m.mode == 'cells':
        m = ex.promote(st, first.r, 4)
    a = ex.field(st, first.r, m, 0, llir.IntTy(32))
    i, j = z3.Ints(fresh_name('i') + ' ' + fresh_name('j'))
    ex.oblige(st, 'lower_bound: range within the array', 'precondition', z3.And(0 <= lo, lo <= hi))
    ex.oblige(st, 'lower_bound: range is ascending', 'precondition',
              z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), a[i] <= a[j])))
    r = ex.fresh('lb', z3.IntSort())
    ex.assume(st, z3.And(lo <= r, r <= hi))
    ex.assume(st, z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < r), a[j] < v), patterns=[a[j]]))
    ex.assume(st, z3.ForAll([j], z3.Implies(z3.And(r <= j, j < hi), a[j] >= v), patterns=[a[j]]))
    return Ptr(first.r, iadd(0, imul(r, 4)), 4)


LOWER_BOUND = r'^unsigned int( const)?\* std::lower_bound<'


# ------------------------------------------------------------------ contracted callees (used in place of their bodies)
U8 = llir.IntTy(8)
U32 = llir.IntTy(32)


def ghost_array(ex, st, key, name, size, default='undef'):
    """ghost state of an object: one byte per element, visible to loop invariants under the given name"""
    r = st.ghost.get(key)
    if r is None:
        r = ex.new_region(st, size, name, 'ghost', default=default, site=('ghost',) + key)
        ex.promote(st, r, 1)
        m = st.mem[r.id].copy()
        ex.field(st, r, m, 0, U8)
        st.mem[r.id] = m
        st.ghost[key] = r
    return r


def ghost_get(st, r):
    return st.mem[r.id].fields[0][1]


def ghost_put(ex, st, r, arr):
    m = st.mem[r.id].copy()
    m.fields[0] = (m.fields[0][0], arr)
    st.mem[r.id] = m
    ex.note_write(st, r, 'f', 0, (1, U8))


def random_int(ex, st, args, ins):
    """contract of RNG::randomInt (proved by P09): a value in [min, max), given min < max"""
    this, lo, hi = args
    ex.oblige(st, 'RNG::randomInt: min < max', 'precondition', zi(lo) < zi(hi))
    r = ex.fresh('rnd', z3.IntSort())
    ex.assume(st, z3.And(zi(lo) <= r, r < zi(hi)))
    return r


def uset_key(p):
    return ('uset', p.r.id, str(p.off))


def uset_ctor(ex, st, args, ins):
    st.ghost.pop(uset_key(args[0]), None)
    ghost_array(ex, st, uset_key(args[0]), 'selected', 2 ** 32, 'zero')


def uset_dtor(ex, st, args, ins):
    return None


def uset_insert(ex, st, args, ins):
    """contract of std::unordered_set::insert: adds the element and tells whether it was absent"""
    r = ghost_array(ex, st, uset_key(args[0]), 'selected', 2 ** 32, 'zero')
    v = zi(ex.load(st, args[1], llir.IntTy(32)))
    a = ghost_get(st, r)
    old = z3.Select(a, v)
    ghost_put(ex, st, r, z3.Store(a, v, z3.IntVal(1)))
    return (UNDEF, z3.If(old == 0, z3.IntVal(1), z3.IntVal(0)))


def bits_of(ex, st, p):
    return ghost_array(ex, st, ('bits', p.r.id, str(p.off)), 'weights', 2 ** 32)


def bits_in(ex, st, p, pos):
    n = ex.c.bits_len(ex.env) if getattr(ex.c, 'bits_len', None) else None
    if n is not None:
        ex.oblige(st, 'BitWeightVector: position within the vector', 'precondition', z3.And(0 <= zi(pos), zi(pos) < n))


def bits_set(ex, st, args, ins):
    """contract of BitWeightVector::set (proved by P24)"""
    this, pos, v = args
    bits_in(ex, st, this, pos)
    r = bits_of(ex, st, this)
    v = v if isinstance(v, bool) else z3.If(v, 1, 0) if isz(v) and z3.is_bool(v) else v
    ghost_put(ex, st, r, z3.Store(ghost_get(st, r), zi(pos), zi(int(v) if isinstance(v, bool) else v)))


def bits_get(ex, st, args, ins):
    """contract of BitWeightVector::operator[] (proved by P24)"""
    this, pos = args
    bits_in(ex, st, this, pos)
    return z3.Select(ghost_get(st, bits_of(ex, st, this)), zi(pos)) != 0


def bits_clear(ex, st, args, ins):
    """contract of BitWeightVector::clear (proved by P24)"""
    ghost_put(ex, st, bits_of(ex, st, args[0]), z3.K(z3.IntSort(), z3.IntVal(0)))


RANDOM = r'^RNG::randomInt\('
USET = r'^std::unordered_set<unsigned int, '
BITS = r'^BitWeightVector::(set|clear|operator\[\])\('
SAMPLING_OPAQUE = [RANDOM, USET, BITS]
SAMPLING_STUBS = {'re:' + RANDOM: random_int, r're:^std::unordered_set<unsigned int, .*::unordered_set\(\)': uset_ctor,
                  r're:^std::unordered_set<unsigned int, .*::~unordered_set\(\)': uset_dtor, r're:^std::unordered_set<unsigned int, .*::insert\(': uset_insert,
                  r're:^BitWeightVector::set\(': bits_set, r're:^BitWeightVector::operator\[\]': bits_get, r're:^BitWeightVector::clear\(': bits_clear}


def ghost_view(L, name):
    """current contents of a ghost array inside a loop"""
    for m in L.mods:
        if m.name == name:
            return m.cur
    for r in L.st.ghost.values():
        if isinstance(r, Region) and r.name == name:
            return View(L.st.mem[r.id].fields[0][1], None)
    return None


def bf(e, n, f, mn, mx):
    """number of samples: contract of util::calculateBoundedFraction (proved by P08)"""
    if e.sym:
        return e.fun('bounded_fraction', zi(n), toreal(f), zi(mn), zi(mx), sort='int')
    import numpy as np
    r = int(np.ceil(np.float32(f) * np.float32(n)))
    r = min(r, n)
    lo = min(mn, n)
    return lo if r < lo else min(r, mx) if mx >= mn else r


def bf_stub(ex, st, args, ins):
    n, f, mn, mx = args
    r = bf(ex.env, n, f, mn, mx)
    ex.assume(st, z3.And(0 <= r, r <= zi(n)))
    return r


BF = r'^util::calculateBoundedFraction\('
