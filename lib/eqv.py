"""Decide whether two gated normal forms denote the same value.

Value numbers by random interpretation (Gulwani & Necula, POPL'04): every normalised value is mapped to an element of
the field C (N independent copies).  Inputs get fixed pseudo-random elements; polynomial operators are the field's;
sqrt/pow are the complex functions and sin/cos/tan those of a hashed angle, so that their identities hold; a gated join ite(c,a,b) is the
affine combination h(c)*a + (1-h(c))*b with a evaluated in the context where c holds and b where it does not (so the
number is that of the multilinear normal form over the conditions); every other operator is a hash function of its
operands' numbers.  Equal numbers are taken as equal values (different values collide with negligible probability).
Where the joins are nested differently on the two sides, the conditions are split (Shannon expansion) with infeasible
combinations left out by interval reasoning on equal linear forms.  Nothing of the analysed program is executed.
"""
import cmath, hashlib, math, random, time
import numpy as np
import gvn
from gvn import T, Poly, Cond, P, A, TRUE, FALSE, cnot
from ir import AnalysisBroken

np.seterr(all='ignore')
B = 2                 # lanes with all magnitudes near one, compared strictly
K = 6                 # lanes with inputs of widely varying magnitude; each has a companion with perturbed constants
N = B + 2 * K
TOL = np.longdouble(1e-11)
ZTOL = np.longdouble(1e-12)
CT = np.clongdouble


class S:
    pass


def reset():
    S.cls, S.rep, S.h, S.env0memo, S.alias, S.free = {}, [], {}, {}, {}, {}
    S.memo, S.envs, S.hm, S.mucol, S.muconst = {}, {}, {}, {}, {}
    S.ints, S.eqs, S.picked = {}, {}, {}


ONE = np.ones(N, dtype=CT)
ZERO = np.zeros(N, dtype=CT)


TOLS = np.array([1e-11] * B + [1e-7] * (2 * K), dtype=np.longdouble)
PERT = {}


def coef(c):
    """a coefficient in every lane"""
    r = PERT.get(c)
    if r is None:
        r = ONE * CT(c)
        if c not in (0, 1, -1):
            for k in range(K):
                d = hashlib.sha256(repr((k, c)).encode()).digest()
                r[B + 2 * k + 1] *= CT(1 + (d[0] / 256. - .5) * 2e-14)
        PERT[c] = r
    return r


def scale(key):
    """magnitudes of an input in the lanes"""
    r = [np.longdouble(1)] * B
    for k in range(K):
        d = hashlib.sha256(repr(('scale', k, key)).encode()).digest()
        f = int.from_bytes(d[:8], 'big') / 2. ** 64
        e = ((4, 4), (0, 9), (-3, 6), (4, 10), (-2, 2), (6, 6))[k % 6]
        r += [np.longdouble(10) ** np.longdouble(e[0] + f * (e[1] - e[0]))] * 2
    return np.array(r, dtype=np.longdouble)


def noise(v):
    w = np.zeros(N, dtype=np.longdouble)
    d = abs(v[B::2] - v[B + 1::2])
    w[B::2] = d
    w[B + 1::2] = d
    return w


def rnd(key):
    r = S.h.get(key)
    if r is None:
        out = []
        for i in range(N):
            if i >= B and (i - B) % 2:
                out.append(out[-1])
                continue
            d = hashlib.sha256(repr((i, key)).encode()).digest()
            x = np.longdouble(int.from_bytes(d[:8], 'big')) / np.longdouble(2 ** 64)
            y = np.longdouble(int.from_bytes(d[8:16], 'big')) / np.longdouble(2 ** 64)
            out.append(CT(np.longdouble(0.2) + x * np.longdouble(0.7)) + CT(1j) * CT((y - np.longdouble(0.5)) * np.longdouble(0.7)))
        r = S.h[key] = np.array(out, dtype=CT)
    return r


def near(u, v):
    d = abs(u - v)
    m = np.maximum(abs(u), abs(v))
    if not np.all(d[:B] <= TOL * m[:B]):
        return False
    x = d <= TOLS * m
    if x.all():
        return True
    x |= d <= 1e4 * (noise(u) + noise(v))
    x |= ~np.isfinite(d)
    return bool(x.all())


def cls(v):
    """class number of a value"""
    z = complex(v[0])
    if z == 0 or z != z or cmath.isinf(z):
        l = S.cls.setdefault('zero' if z == 0 else 'nan', [])
        if l:
            return l[0]
        S.rep.append(v)
        l.append(len(S.rep) - 1)
        return l[0]
    a, b = math.floor(math.log(abs(z)) * 1e9), math.floor(cmath.phase(z) * 1e9)
    for x in (a, a - 1, a + 1):
        for y in (b, b - 1, b + 1):
            for j in S.cls.get((x, y), ()):
                if near(S.rep[j], v):
                    return j
    S.rep.append(v)
    S.cls.setdefault((a, b), []).append(len(S.rep) - 1)
    return len(S.rep) - 1


def scls(v):
    """(class, sign), a value and its negative having the same class"""
    if v[0].real < 0:
        return cls(-v), -1
    return cls(v), 1


# ---------------------------------------------------------------- contexts
class Env:
    """known truths of canonical conditions (op, class, threshold) and the intervals they imply"""
    __slots__ = ('iv', 'tr', 'ne', 'id', 'facts', 'by')

    def __init__(self, facts=frozenset()):
        self.facts = facts
        self.iv, self.ne, self.tr, self.by = {}, {}, {}, {}
        self.id = S.envs.setdefault(facts, len(S.envs))

    def decide(self, k):
        d = self.tr.get(k)
        if d is not None or k[0] == 'o':
            return d
        op, c, v = k
        lo, lop, hi, hop = self.iv.get(c, (-math.inf, False, math.inf, False))
        if op == 'lt':
            if hi < v or (hi == v and hop):
                return True
            if lo >= v:
                return False
        elif op == 'le':
            if hi <= v:
                return True
            if lo > v or (lo == v and lop):
                return False
        else:
            if v < lo or v > hi or (v == lo and lop) or (v == hi and hop) or v in self.ne.get(c, ()):
                return False
            if lo == hi == v:
                return True
        return None

    def assume(self, k, truth):
        f = (k, truth)
        if f in self.facts:
            return self
        e = CHILD.get((self.id, f))
        if e is not None:
            return e
        e = Env(self.facts | {f})
        e.iv, e.tr = dict(self.iv), dict(self.tr)
        e.ne = {a: set(b) for a, b in self.ne.items()}
        e.tr[k] = truth
        e.by = dict(self.by)
        b = base(k)
        e.by[b] = e.by.get(b, frozenset()) | {f}
        if k[0] != 'o':
            op, c, v = k
            if not truth:
                op = {'lt': 'ge', 'le': 'gt', 'eq': 'ne'}[op]
            lo, lop, hi, hop = e.iv.get(c, (-math.inf, False, math.inf, False))
            if op == 'lt' and (v < hi or v == hi and not hop):
                hi, hop = v, True
            elif op == 'le' and v < hi:
                hi, hop = v, False
            elif op == 'gt' and (v > lo or v == lo and not lop):
                lo, lop = v, True
            elif op == 'ge' and v > lo:
                lo, lop = v, False
            elif op == 'eq':
                lo = hi = v
                lop = hop = False
            elif op == 'ne':
                e.ne.setdefault(c, set()).add(v)
            if c in S.ints:
                lo, lop, hi, hop = whole(S.ints[c], lo, lop, hi, hop, e.ne.get(c, ()))
            e.iv[c] = (lo, lop, hi, hop)
        CHILD[(self.id, f)] = e
        return e


def rounded(x):
    return float('%.10e' % x) + 0.0


def whole(s, lo, lop, hi, hop, ne):
    """tightest bounds of a quantity that is a whole number after multiplication by s"""
    if lo > -math.inf:
        n = math.ceil(lo * s - 1e-6)
        if lop and abs(n - lo * s) < 1e-6:
            n += 1
        while rounded(n / s) in ne:
            n += 1
        lo, lop = rounded(n / s), False
    if hi < math.inf:
        n = math.floor(hi * s + 1e-6)
        if hop and abs(n - hi * s) < 1e-6:
            n -= 1
        while rounded(n / s) in ne:
            n -= 1
        hi, hop = rounded(n / s), False
    return lo, lop, hi, hop


INTFN = {'atoi', 'strlen', 'strcmp', 'strncmp', 'memcmp', 'tle_checksum', 'parse_elements', 'select_ephemeris', 'strcspn',
         'strspn', 'atol', 'strtol', 'sscanf'}
INTEG = {}


def integral(p):
    """a whole number by construction"""
    r = INTEG.get(p)
    if r is None:
        r = all(c == int(c) and all(intatom(a) for a, e in m) for m, c in p.t.items())
        INTEG[p] = r
    return r


def intatom(a):
    k = T.akey[a]
    if k[0] == 'mem':
        return k[3] in (1, 2, 4)
    if k[0] == 'app':
        return k[2] == 'ret' and k[1] in INTFN
    if k[0] == 'ite':
        return integral(k[2]) and integral(k[3])
    return k[0] == 'b2i'


def base(k):
    return k if k[0] == 'o' else k[1]


CHILD = {}
DEPS = [set()]
NOFACT = frozenset()


def lookup(x, env):
    for dep, r in S.memo.get(x, ()):
        for b, fs in dep:
            if env.by.get(b, NOFACT) != fs:
                break
        else:
            if dep:
                DEPS[-1].update(b for b, fs in dep)
            return r
    return None


def store(x, env, r):
    d = DEPS.pop()
    DEPS[-1] |= d
    S.memo.setdefault(x, []).append((tuple((b, env.by.get(b, NOFACT)) for b in d), r))
    return r


reset()
EMPTY = Env()


def restart():
    global EMPTY
    reset()
    CHILD.clear()
    EMPTY = Env()


# ---------------------------------------------------------------- evaluation
def free(x):
    """no condition anywhere below"""
    if isinstance(x, Poly):
        r = S.free.get(x)
        if r is None:
            r = all(afree(a) for m in x.t for a, e in m)
            S.free[x] = r
        return r
    if isinstance(x, Cond):
        return False
    if isinstance(x, (tuple, frozenset)):
        return all(free(y) for y in x)
    return True


def afree(a):
    r = S.free.get(a)
    if r is None:
        k = T.akey[a]
        r = k[0] not in ('ite', 'b2i') and all(free(x) for x in k[1:]) and not (MM[0] and minmax(a))
        S.free[a] = r
    return r


def pv(p, env):
    """(vector, constant part) of a Poly in a context"""
    r = lookup(p, env)
    if r is not None:
        return r
    if LIMIT[0] is not None and time.time() > LIMIT[0]:
        raise Late
    DEPS.append(set())
    s = ZERO
    mag = np.zeros(N, dtype=np.longdouble)
    const = 0.0
    for m, c in p.t.items():
        t = coef(c)
        kc = c
        if len(m) == 1 and m[0][1] == 1:
            v, k = av(m[0][0], env)
            t = t * v
            kc = c * k
        else:
            for a, e in m:
                v, k = av(a, env)
                if e == 1:
                    t = t * v
                elif e == 2:
                    t = t * v * v
                elif v[0] == 0:
                    t = ZERO
                else:
                    t = t * v ** e
            kc = c if not m else 0.0
        if kc and len(m) and not near(t, ONE * CT(kc)) and len(m) > 1:
            kc = 0.0
        const += kc
        s = s + t
        mag = np.maximum(mag, abs(t))
    s = np.where(abs(s) <= ZTOL * mag, CT(0), s)
    if const and len(p.t) > 1 and abs(const) < 1e-13 * float(mag[0]):
        const = 0.0
    return store(p, env, (s, const))


def select(c, env, ft, ff):
    """value of (c ? ft : ff) in a context, the arms being evaluated in the contexts where c is decided"""
    k = c.key
    op = k[0]
    if op == 'T':
        return ft(env)
    if op == 'F':
        return ff(env)
    if op == 'not':
        return select(k[1], env, ff, ft)
    if op == 'and':
        cs = order(k[1], env)

        def chain(i, e):
            if i == len(cs):
                return ft(e)
            return select(cs[i], e, lambda e2: chain(i + 1, e2), ff)
        return chain(0, env)
    if op == 'or':
        cs = order(k[1], env)

        def chain(i, e):
            if i == len(cs):
                return ff(e)
            return select(cs[i], e, ft, lambda e2: chain(i + 1, e2))
        return chain(0, env)
    if op == 'itec':
        return select(k[1], env, lambda e: select(k[2], e, ft, ff), lambda e: select(k[3], e, ft, ff))
    if op in ('gt', 'ge'):
        return select(Cond(({'gt': 'le', 'ge': 'lt'}[op], k[1])), env, ff, ft)
    h = hoist(c)
    if h is not None:
        return select(h, env, ft, ff)
    kk, fl = prim(c, env)
    if kk in (True, False):
        return (ft if kk else ff)(env)
    if fl:
        ft, ff = ff, ft
    h = hvec(kk)
    a, b = ft(env.assume(kk, True))[0], ff(env.assume(kk, False))[0]
    if near(a, b):
        return a, 0.0
    return h * a + (1 - h) * b, 0.0


HOIST = {}


def finite(p, depth=0):
    """a value chosen among constants by conditions"""
    if depth > 40:
        return False
    for m in p.t:
        if m == ():
            continue
        if len(m) != 1 or m[0][1] != 1:
            return False
        k = T.akey[m[0][0]]
        if k[0] == 'b2i' or m[0][0] in S.muconst:
            continue
        if k[0] != 'ite' or not (finite(k[2], depth + 1) and finite(k[3], depth + 1)):
            return False
    return True


def mixed(p):
    """one join of few values, some of them constants and none with joins inside"""
    st, leaves, const = [p], 0, 0
    while st:
        q = st.pop()
        j = gvn.joint(q)
        if j is not None:
            st += j[1:]
        else:
            leaves += 1
            const += q.const() is not None
            if leaves > 8 or not free(q):
                return False
    return leaves > 1 and const > 0


def hoist(c):
    """a comparison of a finite-valued quantity as a condition on what selects the value"""
    if c in HOIST:
        return HOIST[c]
    r = None
    k = c.key
    if k[0] in ('lt', 'le', 'eq') and k[1].const() is None and (finite(k[1]) or integral(k[1]) and mixed(k[1])):
        ms = [m for m in k[1].t if m != ()]
        if len(ms) <= 4:
            m = ms[0]
            ka = T.akey[m[0][0]]
            co = k[1].t[m]
            rest = Poly({x: v for x, v in k[1].t.items() if x != m})
            if m[0][0] in S.muconst:
                r = HOIST[c] = gvn.cmp0(k[0], rest + S.muconst[m[0][0]] * co)
                return r
            u, w = (P(1), P(0)) if ka[0] == 'b2i' else (ka[2], ka[3])
            r = gvn.itec(ka[1], gvn.cmp0(k[0], rest + u * co), gvn.cmp0(k[0], rest + w * co))
    HOIST[c] = r
    return r


ORD = {}


def order(cs, env):
    """conjuncts: deterministic order, simplest first"""
    r = ORD.get(cs)
    if r is None:
        r = ORD[cs] = sorted(cs, key=lambda c: (size(c), gvn._skey(c)))
    return r


def size(c):
    n = 0
    st = list(c.key[1:])
    while st and n < 50:
        x = st.pop()
        n += 1
        if isinstance(x, Poly):
            n += len(x.t)
        elif isinstance(x, Cond):
            st.extend(x.key[1:])
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return n


def hvec(k):
    """weight of a condition: it and its complement have modulus near one, so that deep nesting does not fade"""
    r = S.h.get(('hv',) + k)
    if r is None:
        x = rnd(('h',) + k)
        r = S.h[('hv',) + k] = CT(0.5) + (x.real - np.longdouble(.55)) * np.longdouble(.1) + \
            CT(1j) * (np.longdouble(.866) + x.imag * np.longdouble(.25))
    return r


def unit(v, const):
    """(class of the direction, scale, threshold): v = scale*u, and v OP 0 <=> u OP' threshold"""
    b = v - CT(const) if const else v
    n = abs(b[0])
    if n == 0 or n <= 1e-13 * abs(const):
        return None
    s = n if b[0].real > 0 else -n
    u = b / s
    # up to scale, keep both the phase and the ratio
    return cls(u), float(s)


def prim(c, env):
    """(canonical key, flipped) of a primitive condition in a context, or (True/False, None) when decided"""
    k = c.key
    op = k[0]
    if op in ('lt', 'le', 'eq'):
        v, const = pv(k[1], env)
        x = unit(v, const)
        if x is None:
            z = const if const else float(v[0].real)
            return {'lt': z < 0, 'le': z <= 0, 'eq': z == 0}[op], None
        cl, s = x
        t = -const / s
        if cl not in S.ints and integral(k[1]) and min(abs(c) for m, c in k[1].t.items() if m) == 1:
            S.ints[cl] = abs(s)
        if op == 'eq' and t not in S.eqs.setdefault(cl, []):
            S.eqs[cl].append(t)
        t = float('%.10e' % t) + 0.0
        fl = False
        if s < 0 and op != 'eq':            # u > t  is not (u <= t)
            op, fl = {'lt': 'le', 'le': 'lt'}[op], True
        kk = (op, cl, t)
    else:
        kk = ('o', op) + tuple(tok(x, env) for x in k[1:])
        fl = False
    DEPS[-1].add(base(kk))
    d = env.decide(kk)
    if d is None and WORLD[0] is not None:
        d = pick(kk)
    if d is not None:
        return (d != fl), None
    return kk, fl


TRIG = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan}
ODD = ('asin', 'atan', 'trunc', 'round', 'cbrt', 'f32')


def angle(n, v, const=0.0):
    """sin/cos of a value: the direction of the value is hashed to a random angle, its scale multiplies it, so that the
    multiple-angle identities hold"""
    if const and abs(const) < 1000:
        k = round(const / (math.pi / 2))
        if k and abs(const - k * math.pi / 2) < 1e-12 * max(1, abs(const)):
            v = v - CT(np.longdouble(const))
            v = np.where(abs(v) <= ZTOL * abs(const), CT(0), v)
            if n == 'tan':
                return angle(n, v) if k % 2 == 0 else -angle('cos', v) / angle('sin', v)
            s, c = angle('sin', v), angle('cos', v)
            return ((s, c, -s, -c) if n == 'sin' else (c, -s, -c, s))[k % 4]
    m = abs(v[0])
    if m == 0:
        return ZERO if n != 'cos' else ONE
    s = m if v[0].real > 0 else -m
    r = rnd(('angle', cls(v / s))).real
    return TRIG[n]((r * s).astype(CT))


def tok(x, env):
    """hashable token of a key part"""
    if isinstance(x, Poly):
        return ('c', cls(pv(x, env)[0]))
    if isinstance(x, Cond):
        return ('h', cls(select(x, env, lambda e: (ONE, 1.0), lambda e: (ZERO, 0.0))[0]))
    if isinstance(x, (tuple, list)):
        return tuple(tok(y, env) for y in x)
    if isinstance(x, frozenset):
        return tuple(sorted((tok(y, env) for y in x), key=repr))
    return x


def av(a, env):
    al = S.alias.get(a)
    if al is not None:
        a = al
    r = lookup(a, env)
    if r is None:
        DEPS.append(set())
        r = _av(a, env)
        r = store(a, env, r if isinstance(r, tuple) else (r, 0.0))
    return r


def powc(v, c):
    for d in (1, 2, 3, 4, 6):
        n = c * d
        if abs(n - round(n)) < 1e-12:
            return v ** (CT(np.longdouble(round(n))) / CT(np.longdouble(d)))
    return v ** CT(c)


def _av(a, env):
    k = T.akey[a]
    op = k[0]
    if op == 'poly':
        return pv(k[1], env)
    if op == 'inv':
        v = pv(k[1], env)[0]
        return rnd(('inv0',)) if (v == 0).any() else 1 / v
    if op == 'ite':
        return select(k[1], env, lambda e: pv(k[2], e), lambda e: pv(k[3], e))
    if op == 'b2i':
        return select(k[1], env, lambda e: (ONE, 1.0), lambda e: (ZERO, 0.0))
    if op == 'fn':
        n = k[1]
        if MM[0] and minmax(a):
            return pv(minmax(a), env)
        args = [pv(x, env)[0] if isinstance(x, Poly) else x for x in k[2:]]
        if n == 'sqrt':
            return np.sqrt(args[0])
        if n in TRIG:
            return angle(n, *pv(k[2], env))
        if n == 'pow' and len(args) == 2:
            c = k[3].const()
            if c is not None and not (args[0] == 0).any():
                return powc(args[0], c)
        if n in ODD and len(args) == 1:
            c, s = scls(args[0])
            return s * rnd((n, c))
        if n == 'fabs':
            z, const = pv(k[2], env)
            if const and abs(z[0] - CT(const)) <= 1e-13 * abs(const):
                return ONE * CT(abs(const)), abs(const)
            c, s = scls(args[0])
            return rnd((n, c))
        if n in ('fmin', 'fmax'):
            return rnd((n,) + tuple(sorted(cls(x) for x in args)))
        return rnd(('fn', n) + tuple(('c', cls(x)) if isinstance(x, np.ndarray) else x for x in args))
    if op == 'mu' and a in S.muconst:
        return pv(S.muconst[a], env)
    if op == 'mu' and a in S.mucol:
        ad = additive(a)
        r = rnd(('mu', S.mucol[a]))
        if ad is not None and ad[0].const() != 0:
            v, const = pv(ad[0], env)
            r = (r + v, const)
        return r
    if op in ('sym', 'mu', 'undef', 'str'):
        return rnd(('atom', repr(k))) * scale(repr(k))
    key = (op,) + tuple(tok(x, env) for x in k[1:])
    return rnd(key) * scale(repr(key)) if op in ('mem', 'app', 'elem') else rnd(key)


def value(p, env=None):
    return pv(p, env or EMPTY)[0]


def number(p, env=None):
    return cls(value(p, env))


def num_equal(x, y, period=None, env=None):
    u, v = value(x, env), value(y, env)
    if near(u, v):
        return True
    if period is not None:
        d = (u - v) / CT(period)
        n = round(float(d[0].real))
        k = np.array([np.round(x.real) for x in d])
        z = abs(d - k) <= TOLS * 100 * np.maximum(1, abs(u) / abs(period))
        z |= abs(d - k) <= 1e4 * (noise(u) + noise(v)) / abs(period)
        z |= ~np.isfinite(abs(d))
        return bool(z.all()) and bool(np.all(k[:B] == n))
    return False


# ---------------------------------------------------------------- undecided conditions, innermost first
def conds(p, env):
    out, seen = [], set()

    def wp(p):
        if p in seen or free(p):
            return
        seen.add(p)
        for m in p.t:
            for a, e in m:
                wa(a)

    def wa(a):
        a = S.alias.get(a, a)
        if a in seen or afree(a):
            return
        seen.add(a)
        k = T.akey[a]
        if k[0] == 'ite':
            d = wc(k[1])
            if d is not False:
                wp(k[2])
            if d is not True:
                wp(k[3])
        elif k[0] == 'b2i':
            wc(k[1])
        elif MM[0] and minmax(a):
            wp(minmax(a))
        else:
            wx(k[1:])

    def wx(t):
        for x in t:
            if isinstance(x, Poly):
                wp(x)
            elif isinstance(x, Cond):
                wc(x)
            elif isinstance(x, (tuple, frozenset)):
                wx(x)

    def wc(c):
        k = c.key
        op = k[0]
        if op in 'TF':
            return op == 'T'
        if op == 'not':
            d = wc(k[1])
            return None if d is None else not d
        if op in ('gt', 'ge'):
            d = wc(Cond(({'gt': 'le', 'ge': 'lt'}[op], k[1])))
            return None if d is None else not d
        if op == 'and':
            ds = [wc(x) for x in order(k[1], env)]
            return False if False in ds else True if all(d is True for d in ds) else None
        if op == 'or':
            ds = [wc(x) for x in order(k[1], env)]
            return True if True in ds else False if all(d is False for d in ds) else None
        if op == 'itec':
            d = wc(k[1])
            x = wc(k[2]) if d is not False else None
            y = wc(k[3]) if d is not True else None
            return x if d is True else y if d is False else None
        h = hoist(c)
        if h is not None:
            return wc(h)
        for x in k[1:]:
            if isinstance(x, (Poly, Cond, tuple, frozenset)):
                wx((x,))
        kk, fl = prim(c, env)
        if kk in (True, False):
            return kk
        if kk not in out:
            out.append(kk)
            COND.setdefault(kk, c)
        return None
    wp(p)
    return out


COND = {}


# ---------------------------------------------------------------- equality
def atoms_of(x, out=None):
    """all atom ids reachable from a Poly"""
    if out is None:
        out = set()
    st = [x]
    seen = set()
    while st:
        y = st.pop()
        if isinstance(y, Poly):
            for m, _ in y.key:
                for a, e in m:
                    if a not in out:
                        out.add(a)
                        st.extend(T.akey[a][1:])
        elif isinstance(y, Cond):
            if y not in seen:
                seen.add(y)
                st.extend(y.key[1:])
        elif isinstance(y, (tuple, frozenset)):
            st.extend(y)
    return out


def topo(x):
    """atom ids reachable from x, parts before wholes"""
    out, state = [], {}

    def kids(k):
        st, r = list(k[1:]), []
        while st:
            y = st.pop()
            if isinstance(y, Poly):
                for m, _ in y.key:
                    for a, e in m:
                        r.append(a)
            elif isinstance(y, Cond):
                st.extend(y.key[1:])
            elif isinstance(y, (tuple, frozenset)):
                st.extend(y)
        return r
    for m, _ in x.key:
        for a, e in m:
            work = [(a, iter(kids(T.akey[a])))] if a not in state else []
            if work:
                state[a] = 1
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in state:
                        state[w] = 1
                        work.append((w, iter(kids(T.akey[w]))))
                        break
                else:
                    work.pop()
                    out.append(v)
    return out


def kind(k):
    if k[0] == 'fn':
        return ('fn', k[1], len(k))
    if k[0] == 'app':
        return ('app', k[1], k[2], len(k))
    if k[0] == 'elem':
        return ('elem', k[2])
    if k[0] in ('ite', 'b2i', 'poly', 'inv'):
        return 'join'
    return (k[0],)


SWEPT = ('ite', 'b2i', 'fn', 'app', 'poly', 'inv')


def sweep(x, y, env=None, budget=40, seconds=40):
    """alias the atoms of x that are provably equal to atoms of y (inside out, each with a small local case split)"""
    e = env or EMPTY
    num = {}
    by = {}
    for b in topo(y):
        num.setdefault(cls(av(b, e)[0]), b)
        if not afree(b):
            by.setdefault(kind(T.akey[b]), []).append(b)
    n = 0
    t0 = time.time()
    for a in topo(x):
        if time.time() - t0 > seconds:
            break
        if a in S.alias or afree(a) or T.akey[a][0] not in SWEPT:
            continue
        if cls(av(a, e)[0]) in num:
            continue
        pa = Poly({((a, 1),): 1.0})
        for b in by.get(kind(T.akey[a]), []):
            pb = Poly({((b, 1),): 1.0})
            if split(pa, pb, None, e, budget, None):
                S.alias[a] = b
                S.memo.clear()
                n += 1
                break
    return n


# ---------------------------------------------------------------- loops
LOOPS = {}
COL = {}
ROUNDS = 7


def loopparts(m):
    """(value on entry, value carried back while the loop goes on, condition of going on) as expressions"""
    r = LOOPS.get(m)
    if r is None:
        ev = T.muinfo[m][0]
        init, step, cont = ev.loopparts(m)
        cont = gvn.resolve_mu(gvn.b2i(cont))
        step = gvn.resolve_mu(step)
        r = LOOPS[m] = (gvn.resolve_mu(init), gvn.ite(gvn.cmp0('eq', cont), gvn.A('sym', '!left'), step), cont)
    return r


ADD = {}


def additive(m):
    """(entry value, amount added each time round) of a loop-carried value to which something is added"""
    if m in ADD:
        return ADD[m]
    r = None
    if m in T.muinfo:
        ev = T.muinfo[m][0]
        init, step, cont = ev.loopparts(m)
        step = gvn.resolve_mu(step)
        me = Poly({((m, 1),): 1.0})
        if step.t.get(((m, 1),)) == 1:
            go = loopparts(m)[2]
            r = gvn.resolve_mu(init), gvn.ite(gvn.cmp0('eq', go), gvn.A('sym', '!left'), step - me)
    ADD[m] = r
    return r


def constmus(ms):
    """loop-carried values that keep their (constant) entry value as long as the loop goes on; records them"""
    n = 0
    for m in ms:
        init, step, cont = loopparts(m)
        if m in S.muconst or init.const() is None:
            continue
        S.muconst[m] = init
        S.memo.clear()
        HOIST.clear()
        go = gvn.cnot(gvn.cmp0('eq', cont))
        if split(gvn.ite(go, step, init), init, None, EMPTY, 20, None):
            n += 1
        else:
            del S.muconst[m]
    S.memo.clear()
    HOIST.clear()
    return n


def mus(x):
    """loop-carried values reachable from x, through their own definitions too"""
    out, st = [], [x]
    seen = set()
    while st:
        y = st.pop()
        for a in atoms_of(y):
            if a in seen or T.akey[a][0] != 'mu':
                continue
            seen.add(a)
            if a in T.muinfo:
                out.append(a)
                st.extend(loopparts(a))
    return out


def colour(*ps):
    """congruence classes of the loop-carried values: the coarsest partition in which members of a class have
    congruent entry values, congruent back-edge values and congruent conditions of going round"""
    ms = []
    for p in ps:
        for m in mus(p):
            if m not in ms:
                ms.append(m)
    if not ms or all(m in S.mucol for m in ms):
        return ps
    constmus([m for m in ms if m not in S.mucol])
    ms = [m for m in ms if m not in S.muconst]
    # a colour depends on nothing but the value's own definition, so that colours given at different times agree
    for m in ms:
        S.mucol[m] = 0
    n = 1
    for k in range(60):
        S.memo.clear()
        sig = {}
        for m in ms:
            init, step, cont = loopparts(m)
            ad = additive(m)
            sig[m] = (k, S.mucol[m], number(init), number(step), number(cont)) if ad is None else \
                (k, S.mucol[m], 'add', number(ad[1]), number(cont))
        for m in ms:
            S.mucol[m] = COL.setdefault(sig[m], len(COL) + 1)
        c = len(set(sig.values()))
        if c == n and k >= ROUNDS - 1:
            break
        n = c
    if k >= ROUNDS:
        for m in ms:                     # beyond the usual number of rounds: of this set alone
            S.mucol[m] = COL.setdefault((S.mucol[m], tuple(sorted(ms))), len(COL) + 1)
    S.memo.clear()
    return ps


class Late(Exception):
    pass


LIMIT = [None]


def same(p, q, period=None, env=None, limit=3000, why=None, seconds=90):
    """p == q (modulo period) in every feasible case"""
    old = LIMIT[0]
    LIMIT[0] = min(old or math.inf, time.time() + seconds)
    OPEN[0] = True
    try:
        r = same_(p, q, period, env, limit, why)
    except Late:
        S.alias.clear()
        del DEPS[1:]
        if why is not None:
            if not why:
                why.append((env or EMPTY, p, q, 'time limit reached'))
        r = False
    finally:
        LIMIT[0] = old
    if not r and OPEN[0] and sampled(p, q, period, env or EMPTY, old):
        SAMPLED.append(1)
        return True
    return r


OPEN = [True]          # no case was found in which the values differ
SAMPLED = []


def sampled(p, q, period, e, old, worlds=300):
    """too many cases to go through them all: no difference in a random sample of them"""
    LIMIT[0] = min(old or math.inf, time.time() + 40)
    try:
        p, q = colour(p, q)
        if refute(p, q, period, e, worlds) is not None:
            return False
    except Late:
        return False
    finally:
        LIMIT[0] = old
    LIMIT[0] = min(old or math.inf, time.time() + 30)
    r = random.Random(1)
    try:
        for _ in range(worlds):
            if not descent(p, q, period, e, r):
                return False
    except Late:
        pass
    finally:
        LIMIT[0] = old
    return True


def descent(p, q, period, e, r):
    """decide conditions one after the other, at random, those on which the values depend differently first"""
    for _ in range(400):
        if num_equal(p, q, period, e):
            return True
        c1, c2 = conds(p, e), conds(q, e)
        if not c1 and not c2:
            return False
        s1, s2 = set(c1), set(c2)
        one = [k for k in c1 if k not in s2] + [k for k in c2 if k not in s1]
        c = one[0] if one and r.random() < .7 else r.choice(one or c1 + c2)
        e = e.assume(c, r.random() < .5)
    return True


def same_(p, q, period, env, limit, why):
    e = env or EMPTY
    p, q = colour(p, q)
    if p == q or num_equal(p, q, period, e):
        return True
    w = []
    t = refute(p, q, period, e)
    if t is not None:
        with split_minmax():
            t = refute(p, q, period, e)
    OPEN[0] = t is None
    if t is not None:                    # probably different: do not search for long
        LIMIT[0] = min(LIMIT[0], time.time() + 8)
        if why is not None:
            why.append((e, p, q, 'world %d' % t))
    if split(p, q, period, e, 60, w):
        return True
    if w[-1][3] and split(p, q, period, e, 300, w2 := [], True):
        return True
    if w[-1][3]:                         # undecided, not refuted
        S.alias.clear()
        for _ in range(2):
            n = sweep(p, q, e)
            if num_equal(p, q, period, e):
                return True
            if not n:
                break
        w = []
        if split(p, q, period, e, min(limit, 600 if t is not None else 4000), w):
            return True
    if w and not w[-1][3]:
        OPEN[0] = False
    if any(minmax(a) for x in (p, q) for a in atoms_of(x)):
        w = []
        with split_minmax():
            if num_equal(p, q, period, e) or split(p, q, period, e, min(limit, 600), w):
                return True
        OPEN[0] = OPEN[0] or t is None and bool(w[-1][3])
    if why is not None and w:
        why += w
    return False


WORLD = [None]


def pick(kk):
    """truth of a condition in a world: every quantity has one random value there"""
    d = hashlib.sha256(repr((WORLD[0], base(kk))).encode()).digest()
    if kk[0] == 'o':
        return d[0] % 2 == 0
    s = S.ints.get(kk[1])
    if s is not None:
        x = S.picked.get((WORLD[0], kk[1]))
        if x is None:
            e = S.eqs.get(kk[1], ())
            x = e[d[7] % len(e)] if e and d[6] % 2 else rounded(somechar(d, WORLD[0]) / s)
            S.picked[(WORLD[0], kk[1])] = x
        return x < kk[2] if kk[0] == 'lt' else x <= kk[2] if kk[0] == 'le' else x == kk[2]
    x = 10.0 ** (-8 + 14 * int.from_bytes(d[:4], 'big') / 2. ** 32) * (1 if d[5] % 2 else -1)
    op, c, v = kk
    return x < v if op == 'lt' else x <= v if op == 'le' else d[6] % 4 == 0


def somechar(d, world):
    """a whole number, often the code of a digit, letter or sign, or near zero"""
    n, j = d[0], int.from_bytes(d[1:4], 'big')
    if world % 3 == 1:
        n = n * 3 // 5
    if world % 3 == 2:
        n = n * 2 // 3
    if n < 90:
        return 48 + j % 10
    if n < 150:
        return 65 + j % 26
    if n < 175:
        return (32, 43, 45, 46, 49, 50, 72, 32)[j % 8]
    if n < 205:
        return j % 7 - 3
    if n < 245:
        return 32 + j % 95
    return j % 2000000 - 1000000


def refute(p, q, period, env, worlds=40):
    """a world (random consistent choice of all conditions) in which the values differ"""
    memo, ho = S.memo, WORLD[0]
    try:
        for t in range(worlds):
            S.memo = {}
            WORLD[0] = t
            if not num_equal(p, q, period, env):
                return t
    finally:
        S.memo, WORLD[0] = memo, ho
    return None


def isswitch(k):
    """condition on a command-line switch alone"""
    c = COND.get(k)
    x = c.key[1] if c is not None and c.key[0] in ('eq', 'ne', 'lt', 'le') else None
    a = x.single_atom() if isinstance(x, Poly) else None
    return a is not None and T.akey[a][0] == 'sym' and str(T.akey[a][1]).startswith('?')


def split(p, q, period, env, limit, why, root=False):
    st = [env]
    n = 0
    t0 = time.time()
    while st:
        e = st.pop()
        if num_equal(p, q, period, e):
            continue
        n += 1
        c1 = conds(p, e)
        c2 = conds(q, e)
        if n > limit or not (c1 or c2) or time.time() - t0 > 60:
            if why is not None:
                why.append((e, p, q, 'case limit reached' if c1 or c2 else ''))
            return False
        c = (c1 + c2)[0] if root else next((k for k in c1 + c2 if isswitch(k)), None)
        for k in c1 if c is None else ():
            if k not in c2:
                c = k
                break
        else:
            for k in c2 if c is None else ():
                if k not in c1:
                    c = k
                    break
        if c is None:
            c = c1[0]
        for t in (True, False):
            st.append(e.assume(c, t))
    return True


MM = [False]
MMC = {}


def minmax(a):
    """fmin/fmax/fabs as a conditional (in the mode where they are split), else None"""
    k = T.akey[a]
    if k[0] != 'fn' or k[1] not in ('fabs', 'fmin', 'fmax'):
        return None
    r = MMC.get(a)
    if r is None:
        if k[1] == 'fabs':
            r = gvn.ite(gvn.cmp0('lt', k[2]), -k[2], k[2])
        elif k[1] == 'fmin':
            r = gvn.ite(gvn.cmp0('lt', k[2] - k[3]), k[2], k[3])
        else:
            r = gvn.ite(gvn.cmp0('lt', k[2] - k[3]), k[3], k[2])
        MMC[a] = r
    return r


class split_minmax:
    def __enter__(self):
        self.old = MM[0], S.memo, S.free
        MM[0], S.memo, S.free = True, {}, {}

    def __exit__(self, *x):
        MM[0], S.memo, S.free = self.old


def assume(env, c, truth=True):
    """context in which a condition (Cond) is known"""
    k = c.key
    if k[0] == 'T' or k[0] == 'F':
        return env
    if k[0] == 'not':
        return assume(env, k[1], not truth)
    if k[0] in ('gt', 'ge'):
        return assume(env, cnot(c), not truth)
    if k[0] == 'and' and truth or k[0] == 'or' and not truth:
        for x in order(k[1], env):
            env = assume(env, x, truth)
        return env
    if k[0] in ('and', 'or', 'itec'):
        return env
    if hoist(c) is not None:
        return assume(env, hoist(c), truth)
    kk, fl = prim(c, env)
    if kk in (True, False):
        return env
    e = env.assume(kk, truth != fl)
    if k[0] in ('lt', 'le', 'eq') and len(k[1].t) <= 2:
        m = [m for m in k[1].t if m != ()]
        ka = T.akey[m[0][0][0]] if len(m) == 1 and len(m[0]) == 1 and m[0][0][1] == 1 else ('',)
        if ka[0] == 'ite':
            rest, co = P(k[1].t.get((), 0)), k[1].t[m[0]]
            arms = [gvn.cmp0(k[0], rest + x * co) for x in ka[2:]]
            for n in (0, 1):
                if arms[n] == (gvn.FALSE if truth else gvn.TRUE):        # this arm would contradict the fact
                    return assume(assume(e, ka[1], n == 1), arms[1 - n], truth)
    return e


def same_cond(c, d, env=None, limit=3000, why=None):
    return same(gvn.b2i(c), gvn.b2i(d), None, env, limit, why)


# ---------------------------------------------------------------- explanations
def resolve(p, env):
    """p with the joins decided in a context replaced by their arms"""
    def f(key):
        if key[0] == 'ite':
            d = truth(key[1], env)
            if d is not None:
                return resolve(key[2] if d else key[3], env)
        if key[0] == 'b2i':
            d = truth(key[1], env)
            if d is not None:
                return P(1 if d else 0)
        return None
    return gvn.subst(p, f)


def truth(c, env):
    v = select(c, env, lambda e: (ONE, 1.0), lambda e: (ZERO, 0.0))[0]
    return True if near(v, ONE) else False if abs(v).max() == 0 else None


def explain(why, seconds=20):
    if not why:
        return ''
    old, LIMIT[0] = LIMIT[0], time.time() + seconds
    memo, wo = S.memo, WORLD[0]
    try:
        if why[-1][3].startswith('world'):
            WORLD[0] = int(why[-1][3][6:])
            with split_minmax():
                return explain_(why)
        return explain_(why)
    except Late:
        del DEPS[1:]
        return 'values differ'
    finally:
        LIMIT[0] = old
        S.memo, WORLD[0] = memo, wo


def explain_(why):
    e, x, y, msg = why[-1]
    cs = []
    for k, t in list(e.tr.items())[-6:]:
        cs.append('%s is %s' % (gvn.brief(COND[k], 9)[:160] if k in COND else k, t))
    dx = first_diff(x, y, e)
    return '%swhen %s:\ncode: %s\nspec: %s' % (msg and msg + '; ', '; '.join(cs) or 'always', gvn.brief(dx[0], 7)[:500], gvn.brief(dx[1], 7)[:500])


def arm(p, env):
    """follow decided joins at the top of a value"""
    for _ in range(50):
        a = p.single_atom()
        if a is None:
            return p
        k = T.akey[S.alias.get(a, a)]
        if k[0] == 'poly':
            p = k[1]
            continue
        if k[0] != 'ite':
            return p
        d = truth(k[1], env)
        if d is None:
            return p
        p = k[2] if d else k[3]
    return p


def first_diff(x, y, env, depth=0):
    """descend to the innermost differing sub-terms when both sides have the same outer shape"""
    x, y = arm(x, env), arm(y, env)
    if depth > 60:
        return x, y

    def terms(p):
        return {cls(pv(Poly({m: c}), env)[0]): (m, c) for m, c in p.t.items()}
    tx, ty = terms(x), terms(y)
    d1 = [tx[k] for k in tx if k not in ty]
    d2 = [ty[k] for k in ty if k not in tx]
    if len(d1) == 1 and len(d2) == 1:
        m1, m2 = dict(d1[0][0]), dict(d2[0][0])
        n1 = {(cls(av(a, env)[0]), e): a for a, e in m1.items()}
        n2 = {(cls(av(a, env)[0]), e): a for a, e in m2.items()}
        u1 = [n1[k] for k in n1 if k not in n2]
        u2 = [n2[k] for k in n2 if k not in n1]
        if len(u1) == 1 and len(u2) == 1:
            k1, k2 = T.akey[u1[0]], T.akey[u2[0]]
            if k1[0] in ('ite', 'poly') or k2[0] in ('ite', 'poly'):
                p1, p2 = arm(Poly({((u1[0], 1),): 1.0}), env), arm(Poly({((u2[0], 1),): 1.0}), env)
                if (p1.single_atom(), p2.single_atom()) != (u1[0], u2[0]):
                    return first_diff(p1, p2, env, depth + 1)
            if len(k1) == len(k2) and k1[0] == k2[0]:
                diff = [(a, b) for a, b in zip(k1[1:], k2[1:]) if a != b and not (
                    isinstance(a, Poly) and isinstance(b, Poly) and num_equal(a, b, None, env))]
                if diff and all(isinstance(a, Poly) and isinstance(b, Poly) for a, b in diff):
                    return first_diff(diff[0][0], diff[0][1], env, depth + 1)
    if (d1 or d2) and max(len(d1), len(d2)) < max(len(x.t), len(y.t)):
        return Poly(dict(d1[:6])), Poly(dict(d2[:6]))
    return x, y


# ---------------------------------------------------------------- residues and ranges
WHOLE = ('trunc', 'floor', 'ceil', 'round', 'rint', 'nearbyint')


def multiple(x, M):
    n = x / M
    return abs(n - round(n)) < 1e-9 * max(1, abs(n))


def residue(p, M, depth=0):
    """a value congruent to p modulo M, with whole multiples of M removed"""
    if depth > 60:
        return p
    out = P(0)
    for m, c in p.t.items():
        t = Poly({m: c})
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            k = T.akey[a]
            if k[0] == 'poly':
                t = residue(k[1] * c, M, depth + 1)
            elif k[0] == 'fn' and k[1] in WHOLE and multiple(c, M):
                continue
            elif k[0] == 'fn' and k[1] in ('fmod', 'remainder') and k[3].const() is not None and multiple(c * k[3].const(), M):
                t = residue(k[2] * c, M, depth + 1)
            elif k[0] == 'ite':
                x, y = residue(k[2] * c, M, depth + 1), residue(k[3] * c, M, depth + 1)
                d = (x - y).const()
                t = y if d is not None and multiple(d, M) else gvn.ite(k[1], x, y)
            elif k[0] == 'mu' and a in T.muinfo and a not in S.muconst:
                init, step, cont = loopparts(a)
                go = gvn.cnot(gvn.cmp0('eq', cont))
                ev = T.muinfo[a][0]
                raw = gvn.resolve_mu(ev.loopparts(a)[1])
                d = residue(raw - Poly({((a, 1),): 1.0}), M / c, depth + 1).const()
                if d is not None and multiple(d * c, M):
                    t = residue(init * c, M, depth + 1)
        out = out + t
    return out


INF = math.inf
FNRANGE = {'atan2': (-math.pi, math.pi), 'asin': (-math.pi / 2, math.pi / 2), 'atan': (-math.pi / 2, math.pi / 2),
           'acos': (0, math.pi), 'fabs': (0, INF), 'sqrt': (0, INF), 'sin': (-1, 1), 'cos': (-1, 1), 'exp': (0, INF)}


def mulr(a, b):
    v = [x * y if x and y else 0.0 for x in a for y in b]
    return min(v), max(v)


def known(p, env):
    """interval recorded for a value in a context"""
    v, const = pv(p, env)
    x = unit(v, const)
    if x is None:
        z = const if const else float(v[0].real)
        return z, z
    cl, s = x
    lo, _, hi, _ = env.iv.get(cl, (-INF, 0, INF, 0))
    lo, hi = lo * s, hi * s
    return min(lo, hi) + const, max(lo, hi) + const


def assume_bound(env, p, lo, hi):
    for c in (gvn.cmp0('le', p - P(hi)) if hi < INF else None, gvn.cmp0('le', P(lo) - p) if lo > -INF else None):
        if c is not None:
            env = assume(env, c)
    return env


def bounds(p, env, depth=0):
    lo, hi = known(p, env)
    if lo == hi or depth > 12:
        return lo, hi
    l2 = h2 = 0.0
    for m, c in p.t.items():
        r = (c, c)
        for a, e in m:
            x = abounds(a, env, depth + 1)
            if e == 1:
                r = mulr(r, x)
            elif isinstance(e, int) and e > 0 and e % 2 == 0:
                y = mulr(x, x)
                r = mulr(r, (max(0.0, y[0]) if x[0] <= 0 <= x[1] else min(x[0] ** 2, x[1] ** 2), max(x[0] ** 2, x[1] ** 2)))
            else:
                r = (-INF, INF)
        l2, h2 = l2 + r[0], h2 + r[1]
    return max(lo, l2), min(hi, h2)


def abounds(a, env, depth):
    k = T.akey[a]
    lo, hi = known(Poly({((a, 1),): 1.0}), env)
    if k[0] == 'poly':
        r = bounds(k[1], env, depth)
    elif k[0] == 'ite':
        d = truth(k[1], env)
        if d is None:
            x, y = (bounds(k[2], env, depth), bounds(k[3], env, depth)) if depth < 8 else ((-INF, INF),) * 2
            r = min(x[0], y[0]), max(x[1], y[1])
        else:
            r = bounds(k[2] if d else k[3], env, depth)
    elif k[0] == 'b2i':
        r = (0.0, 1.0)
    elif k[0] == 'fn' and k[1] in FNRANGE:
        r = FNRANGE[k[1]]
        f = {'asin': (math.asin, -1, 1), 'atan': (math.atan, -INF, INF), 'sqrt': (math.sqrt, 0, INF)}.get(k[1])
        if f:
            x = bounds(k[2], env, depth)
            x = [min(max(z, f[1]), f[2]) for z in x]
            r = tuple(f[0](z) for z in x) if x[0] <= x[1] else r
    elif k[0] == 'fn' and k[1] in ('fmod', 'remainder') and k[3].const():
        q = abs(k[3].const()) * (1 if k[1] == 'fmod' else .5)
        x = bounds(k[2], env, depth)
        r = (0.0 if x[0] >= 0 and k[1] == 'fmod' else -q, 0.0 if x[1] <= 0 and k[1] == 'fmod' else q)
    elif k[0] == 'fn' and k[1] in ('fmin', 'fmax'):
        x, y = bounds(k[2], env, depth), bounds(k[3], env, depth)
        f = min if k[1] == 'fmin' else max
        r = f(x[0], y[0]), f(x[1], y[1])
    elif k[0] == 'fn' and k[1] in WHOLE:
        f = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'f32': lambda z: z}.get(k[1], round)
        r = tuple(float(f(x)) if abs(x) < INF else x for x in bounds(k[2], env, depth))
    elif k[0] == 'mu' and a in S.muconst:
        r = bounds(S.muconst[a], env, depth)
    else:
        r = (-INF, INF)
    return max(lo, r[0]), min(hi, r[1])


def loopfacts(p, env):
    """what holds of the loop-carried values a result uses, after their loops"""
    ms = []
    for m, c in p.t.items():
        for a, e in m:
            st = [a]
            while st:
                x = st.pop()
                if T.akey[x][0] == 'mu' and x in T.muinfo and x not in S.muconst and x not in ms:
                    ms.append(x)
                    st.extend(y for q in (loopparts(x)[0],) for mm in arm(q, env).t for y, _ in mm)
    for a in reversed(ms):
        init, step, cont = loopparts(a)
        go = gvn.cnot(gvn.cmp0('eq', cont))
        raw = gvn.resolve_mu(T.muinfo[a][0].loopparts(a)[1])
        x = Poly({((a, 1),): 1.0})
        b1 = bounds(raw, assume(EMPTY, go))
        b0 = bounds(arm(init, env), env)
        env = assume_bound(env, x, min(b0[0], b1[0]), max(b0[1], b1[1]))
        env = assume(env, gvn.cnot(go))
    return env


def fracfacts(p, env):
    """x - trunc(x) lies strictly between -1 and 1 and has the sign of x"""
    for a in atoms_of(p):
        k = T.akey[a]
        if k[0] == 'fn' and k[1] in ('trunc', 'floor'):
            x = arm(k[2], env)
            f = x - Poly({((a, 1),): 1.0})
            lo, hi = bounds(x, env)
            env = assume_bound(env, f, 0.0 if lo >= 0 or k[1] == 'floor' else -1.0, 0.0 if hi <= 0 and k[1] == 'trunc' else 1.0)
    return env


def within(p, lo, hi, env=None, limit=400, why=None, eps=1e-9):
    """lo <= p <= hi in every feasible case"""
    st = [env or EMPTY]
    n = 0
    eps *= max(1, abs(lo), abs(hi))
    while st:
        e = st.pop()
        q = arm(p, e)
        e2 = loopfacts(q, fracfacts(q, e))
        b = bounds(q, e2)
        if b[0] >= lo - eps and b[1] <= hi + eps:
            continue
        n += 1
        cs = conds(p, e)
        if not cs or n > limit:
            if why is not None:
                why.append('value %s lies in [%.12g, %.12g]' % (gvn.brief(q, 6)[:300], b[0], b[1]))
            return False
        for t in (True, False):
            st.append(e.assume(cs[-1] if False else cs[0], t))
    return True
