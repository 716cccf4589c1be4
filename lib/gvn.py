"""Global value numbering over the normalised IR with a lazily built memory SSA.

Every value is a polynomial (float coefficients) over interned atoms; atoms are inputs, opaque function
applications, reciprocals, gated joins (ite) and loop-carried values (mu).  Two expressions that are equal as
polynomials over the same atoms get the same key, whatever the statement order, temporaries, helpers or loop
spelling in the source.
"""
import struct
import math
from ir import AnalysisBroken

SIG = 11         # significant digits kept in a key
MAXTERMS = 4


def _r(c):
    if c == 0 or c != c or c in (math.inf, -math.inf):
        return c
    return float('%.*e' % (SIG - 1, c))


class T:
    """intern tables (module-global)"""
    atoms = {}      # key -> id
    akey = []       # id -> key
    polys = {}      # key -> Poly
    conds = {}
    mudefs = {}     # mu atom id -> list of Poly alternatives
    musub = {}      # mu atom id -> Poly (loop invariant after all)
    muinfo = {}     # mu atom id -> (Ev, header, {predecessor: value})
    adesc = {}


def reset():
    T.atoms, T.akey, T.polys, T.conds, T.mudefs, T.musub, T.muinfo = {}, [], {}, {}, {}, {}, {}


def atom_id(key):
    i = T.atoms.get(key)
    if i is None:
        i = len(T.akey)
        T.atoms[key] = i
        T.akey.append(key)
    return i


class Poly:
    __slots__ = ('t', 'key', '_h')

    def __init__(self, t):
        self.t = t
        self.key = tuple(sorted((m, _r(c)) for m, c in t.items()))
        self._h = hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __hash__(self):
        return self._h

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            if m in t:
                s = t[m] + c
                if abs(s) <= 1e-12 * max(abs(t[m]), abs(c)):
                    del t[m]
                else:
                    t[m] = s
            else:
                t[m] = c
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        a, b = self, o
        if len(a.t) * len(b.t) > MAXTERMS:
            if len(a.t) > 1 and len(b.t) > 1:
                a, b = wrap(a), wrap(b)
        t = {}
        mags = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mmul(m1, m2)
                c = c1 * c2
                mags[m] = max(mags.get(m, 0), abs(c))
                t[m] = t.get(m, 0) + c
        t = {m: c for m, c in t.items() if not (abs(c) <= 1e-12 * mags[m])}
        return Poly(t)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def const(self):
        if not self.t:
            return 0.0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self):
        return {a for m in self.t for a, e in m}

    def __repr__(self):
        return show(self)


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly({(): float(x)} if x != 0 else {})


def A(*key):
    return Poly({((atom_id(key), 1),): 1.0})


def wrap(p):
    """treat a (large) polynomial as one atom, up to a scale"""
    if len(p.t) <= 1:
        return p
    m0, c0 = p.key[0]
    s = p.t[m0]
    q = Poly({m: c / s for m, c in p.t.items()})
    return A('poly', q) * s


def inv(p):
    if not p.t:
        return A('inv', p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((a, -e) for a, e in m): 1.0 / c})
    m0, _ = p.key[0]
    s = p.t[m0]
    q = Poly({m: c / s for m, c in p.t.items()})
    return A('inv', q) * (1.0 / s)


FOLD1 = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'sqrt': math.sqrt, 'fabs': abs, 'floor': math.floor,
         'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'exp': math.exp, 'log': math.log, 'trunc': math.trunc, 'ceil': math.ceil}


def neg_leading(p):
    return bool(p.key) and p.key[0][1] < 0


def F(name, *args):
    args = tuple(P(a) for a in args)
    cs = [a.const() for a in args]
    if len(args) == 1 and cs[0] is not None and name in FOLD1:
        try:
            return P(FOLD1[name](cs[0]))
        except ValueError:
            pass
    if name == 'fmod' and cs[1] == 1:
        return args[0] - F('trunc', args[0])
    if name in ROUND:
        j = common(args[0])
        if j:
            return ite(j[0], F(name, j[1]), F(name, j[2]))
        n = counts(args[0])
        if n == args[0]:
            return n
        if name != 'trunc' and n.t:
            return n + F(name, args[0] - n)
    if name in ('sin', 'tan', 'atan', 'asin') and neg_leading(args[0]):
        return -F(name, -args[0])
    if name in ('cos', 'fabs') and neg_leading(args[0]):
        return F(name, -args[0])
    if name == 'sqrt' and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if c > 0 and c != 1:
            return F('sqrt', Poly({m: 1.0})) * math.sqrt(c)
    if name == 'pow' and cs[1] is not None and cs[1] == int(cs[1]) and abs(cs[1]) <= 8:
        n = int(cs[1])
        r = P(1)
        for _ in range(abs(n)):
            r = r * args[0]
        return r if n >= 0 else inv(r)
    if name in ('fmin', 'fmax', 'and', 'or', 'xor'):
        args = tuple(sorted(args, key=lambda p: p.key))
    return A('fn', name) if not args else A('fn', name, *args)


ROUND = ('floor', 'trunc', 'ceil')


def counts(p):
    """the part of a sum that is certainly a whole number"""
    r = {}
    for m, c in p.t.items():
        if m == ():
            c = float(math.floor(c)) if abs(c) < 1e15 else 0
        elif c != int(c) or not all(e == int(e) and e > 0 and T.akey[a][0] == 'fn' and T.akey[a][1] in ROUND for a, e in m):
            continue
        if c:
            r[m] = c
    return Poly(r)


def common(p):
    """(condition, value when true, value when false) of a sum whose joins all have one condition"""
    c = None
    for m in p.t:
        if len(m) == 1 and m[0][1] == 1 and T.akey[m[0][0]][0] == 'ite':
            z = T.akey[m[0][0]]
            if c is not None and c != z[1]:
                return None
            c = z[1]
    return (c, given(p, c, True), given(p, c, False)) if c is not None else None


def given(p, c, t):
    """a sum, its joins on C decided"""
    r, k0 = P(0), []
    for m, k in p.t.items():
        z = T.akey[m[0][0]] if len(m) == 1 and m[0][1] == 1 else ('',)
        q = (z[2 if t else 3] if z[0] == 'ite' and z[1] == c else Poly({m: 1.0})) * k
        if () in q.t:
            k0.append(q.t[()])
            q = Poly({n: x for n, x in q.t.items() if n != ()})
        r = r + q
    k0 = math.fsum(k0)
    return r + k0 if k0 else r


def smallrange(p, known=None, depth=0):
    """interval of a whole number made of remainders, constants and choices between them"""
    c = p.const()
    if c is not None:
        return c, c
    for q, r in (known or {}).items():
        d = (p - q).const()
        if d is not None:
            return r[0] + d, r[1] + d
    inf = math.inf
    ms = [m for m in p.t if m != ()]
    if depth > 6 or len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return -inf, inf
    k, s, c = T.akey[ms[0][0][0]], p.t[ms[0]], p.t.get((), 0)
    if k[0] == 'b2i':
        r = (0, 1)
    elif k[0] == 'fn' and k[1] in ('srem', 'urem') and k[3].const():
        n = abs(k[3].const()) - 1
        r = (-n if k[1] == 'srem' else 0, n)
    elif k[0] == 'ite':
        cs = []
        for arm, yes in ((k[2], True), (k[3], False)):
            kn = dict(known or {})
            ck = k[1].key
            if ck[0] in ('lt', 'ge') and ck[1].const() is None:
                lo, hi = smallrange(ck[1], known, depth + 1)
                kn[ck[1]] = (lo, min(hi, -1)) if (ck[0] == 'lt') == yes else (max(lo, 0), hi)
            cs.append(smallrange(arm, kn, depth + 1))
        r = min(x[0] for x in cs), max(x[1] for x in cs)
    else:
        return -inf, inf
    r = r[0] * s + c, r[1] * s + c
    return min(r), max(r)


def remainder(x, n, depth=0):
    """signed remainder, where it is the value itself or that of its choices"""
    lo, hi = smallrange(x)
    if -n < lo and hi < n:
        return x
    c = x.const()
    if c is not None:
        return P(math.fmod(c, n))
    j = joint(x)
    if j is not None and depth < 4 and any(y.const() is not None for y in j[1:]):
        return ite(j[0], remainder(j[1], n, depth + 1), remainder(j[2], n, depth + 1))
    return F('srem', x, P(n))


BITS = {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}


def joint(x):
    """(condition, value when true, value when false) of a value that is one join"""
    m = [m for m in x.t if m != ()]
    if len(m) != 1 or len(m[0]) != 1 or m[0][0][1] != 1:
        return None
    k, s, c = T.akey[m[0][0][0]], x.t[m[0]], x.t.get((), 0)
    if k[0] == 'ite':
        return k[1], k[2] * s + c, k[3] * s + c
    if k[0] == 'b2i':
        return k[1], P(s + c), P(c)
    return None


def bitfold(o, x, y, depth=0):
    """bit operation on values chosen among constants"""
    a, b = x.const(), y.const()
    if a is not None and b is not None:
        return P(float(BITS[o](int(a), int(b))))
    if depth > 8:
        return None
    j = joint(x) if a is None else None
    if j is not None:
        u, v = bitfold(o, j[1], y, depth + 1), bitfold(o, j[2], y, depth + 1)
    elif b is None:
        j = joint(y)
        if j is None:
            return None
        u, v = bitfold(o, x, j[1], depth + 1), bitfold(o, x, j[2], depth + 1)
    else:
        return None
    return None if u is None or v is None else ite(j[0], u, v)


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('key', '_h')

    def __init__(self, key):
        self.key = key
        self._h = hash(key)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.key == o.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        return showc(self)


TRUE, FALSE = Cond(('T',)), Cond(('F',))


def cmp0(op, p):
    """op in lt le eq ne against 0"""
    c = p.const()
    if c is not None:
        return TRUE if {'lt': c < 0, 'le': c <= 0, 'eq': c == 0, 'ne': c != 0}[op] else FALSE
    if op in ('eq', 'ne') and sum(1 for m in p.t if m != ()) == 1:
        m = next(m for m in p.t if m != ())
        if p.t[m] == 1 and len(m) == 1 and m[0][1] == 1 and T.akey[m[0][0]][0] == 'addr' and p.t.get((), 0) >= 0:
            return FALSE if op == 'eq' else TRUE       # address of a named object is not null
    # scale
    m0, _ = p.key[-1] if p.key[-1][0] != () or len(p.key) == 1 else p.key[-1]
    lead = next((m for m, _ in p.key if m != ()), ())
    s = p.t[lead]
    q = Poly({m: c / abs(s) for m, c in p.t.items()})
    if op == 'ne':
        return cnot(cmp0('eq', p))
    if op == 'eq':
        if s < 0:
            q = -q
        a = q.single_atom()
        if a is not None and T.akey[a][0] == 'b2i':
            return cnot(T.akey[a][1])
        if len(q.t) == 2 and () in q.t and q.t[()] == -1:
            a = Poly({m: c for m, c in q.t.items() if m != ()}).single_atom()
            if a is not None and T.akey[a][0] == 'b2i':
                return T.akey[a][1]
        return Cond(('eq', q))
    # q has leading coef +1 or -1 ; q<0 with lead -1 means -q > 0 = not(-q <= 0)
    if s > 0:
        return Cond((op, q))
    return Cond(('gt' if op == 'lt' else 'ge', -q))


def intcmp(c):
    """integers: x <= a is x < a+1, so that only < and >= are used"""
    k = c.key
    if k[0] not in ('le', 'gt') or any(abs(v) != 1 for m, v in k[1].t.items() if m != ()):
        return c
    return Cond(('lt' if k[0] == 'le' else 'ge', k[1] - 1))


NEG = {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le'}


def cnot(c):
    k = c.key
    if k[0] == 'T':
        return FALSE
    if k[0] == 'F':
        return TRUE
    if k[0] == 'not':
        return k[1]
    if k[0] in NEG:
        return Cond((NEG[k[0]], k[1]))
    if k[0] == 'and':
        return cor(*[cnot(x) for x in k[1]])
    if k[0] == 'or':
        return cand(*[cnot(x) for x in k[1]])
    if k[0] == 'itec':
        return itec(k[1], cnot(k[2]), cnot(k[3]))
    return Cond(('not', c))


SK = {}


def _skey(c):
    """a cheap deterministic sort key"""
    r = SK.get(c)
    if r is None:
        k = c.key
        parts = []
        for x in k[1:]:
            if isinstance(x, Poly):
                parts.append(('p', len(x.key), x._h))
            elif isinstance(x, Cond):
                parts.append(('c', 0, _skey(x)))
            elif isinstance(x, frozenset):
                parts.append(('s', len(x), repr(sorted(_skey(y) for y in x))))
            else:
                parts.append(('o', 0, str(x)))
        r = SK[c] = repr((k[0], parts))
    return r


def cand(*cs):
    s = set()
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c.key[0] == 'and':
            s |= set(c.key[1])
        else:
            s.add(c)
    for c in s:
        if cnot(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return Cond(('and', frozenset(s)))


def cor(*cs):
    s = set()
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        if c.key[0] == 'or':
            s |= set(c.key[1])
        else:
            s.add(c)
    for c in s:
        if cnot(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return Cond(('or', frozenset(s)))


def itec(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    if a == TRUE:
        return cor(c, b)
    if a == FALSE:
        return cand(cnot(c), b)
    if b == TRUE:
        return cor(cnot(c), a)
    if b == FALSE:
        return cand(c, a)
    return Cond(('itec', c, a, b))


def canon_pol(c):
    """choose a polarity: return (cond, flipped)"""
    if c.key[0] in ('not', 'ge', 'gt', 'or'):
        return cnot(c), True
    return c, False


def ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    c2, fl = canon_pol(c)
    if fl:
        a, b = b, a
    if a == P(1) and b == P(0):
        return b2i(c2)
    if a == P(0) and b == P(1):
        return b2i(cnot(c2))
    if c2.key[0] in NEG:
        c2, a, b = tied(c2, a, b)
    if (a - b).const() in (1, -1):
        r = upward(c2, a, b)
        if r is not None:
            return r
    return A('ite', c2, a, b)


def upward(c, a, b):
    """x - trunc(x), plus one if negative: x - floor(x)"""
    if c in (TRUE, FALSE):
        return a if c == TRUE else b
    k, q = c.key[0], c.key[1]
    if k in ('le', 'ge'):
        c, a, b, q = cnot(c), b, a, q
        k, q = c.key[0], c.key[1]
    if k not in ('lt', 'gt') or not isinstance(q, Poly):
        return None
    if k == 'gt':
        q = -q
    if (a - b).const() != 1:
        return None
    j = common(q)
    if j:
        r = [upward(cmp0('lt', q), given(a, j[0], t), given(b, j[0], t)) for q, t in ((j[1], True), (j[2], False))]
        return None if None in r else ite(j[0], *r)
    if q.const() is not None:
        return a if q.const() < 0 else b
    for m, z in q.t.items():
        if len(m) == 1 and m[0][1] == 1 and z == -1 and T.akey[m[0][0]][0] == 'fn' and T.akey[m[0][0]][1] == 'trunc':
            x = T.akey[m[0][0]][2]
            if q == x - F('trunc', x):
                return b - q + x - F('floor', x)
    return None


JOINLESS = {}


def joinless(a):
    """an atom without choices or loop values inside"""
    r = JOINLESS.get(a)
    if r is None:
        def ok(x):
            if isinstance(x, Poly):
                return all(joinless(b) for m in x.t for b, e in m)
            if isinstance(x, Cond):
                return False
            return not isinstance(x, (tuple, frozenset)) or all(ok(y) for y in x)
        k = T.akey[a]
        r = JOINLESS[a] = k[0] not in ('ite', 'b2i', 'mu') and all(ok(x) for x in k[1:])
    return r


def tied(c, a, b):
    """one form for a choice whose two values are the same when both sides of the comparison are"""
    p = c.key[1]
    if len(p.t) > 6 or len(a.t) + len(b.t) > 12 or not all(joinless(x) for m in p.t for x, e in m):
        return c, a, b
    d = a - b
    if set(d.t) != set(p.t):
        return c, a, b
    r = None
    for m, x in p.t.items():
        if r is None:
            r = d.t[m] / x
        elif abs(d.t[m] - r * x) > 1e-9 * abs(d.t[m]):
            return c, a, b
    if c.key[0] in ('gt', 'ge'):
        p, a, b = p, b, a
    if neg_leading(p):
        p, a, b = -p, b, a
    return Cond(('lt', p)), a, b


def b2i(c):
    if c == TRUE:
        return P(1)
    if c == FALSE:
        return P(0)
    return A('b2i', c)


# ---------------------------------------------------------------- printing
BUD = [None]


def brief(p, d=0, n=300):
    """text of a value or condition, at most n parts"""
    BUD[0] = n
    try:
        return show(p, d) if isinstance(p, Poly) else showc(p, d)
    finally:
        BUD[0] = None


def showa(i, d=0):
    k = T.akey[i]
    if BUD[0] is not None:
        BUD[0] -= 1
        if BUD[0] < 0:
            return '...'
    if d > 14:
        return '...'
    if k[0] == 'sym':
        return str(k[1])
    if k[0] == 'fn':
        return '%s(%s)' % (k[1], ', '.join(show(a, d + 1) if isinstance(a, Poly) else str(a) for a in k[2:]))
    if k[0] == 'ite':
        return 'ite(%s, %s, %s)' % (showc(k[1], d + 1), show(k[2], d + 1), show(k[3], d + 1))
    if k[0] == 'b2i':
        return '[%s]' % showc(k[1], d + 1)
    if k[0] == 'poly':
        return '(%s)' % show(k[1], d + 1)
    if k[0] == 'inv':
        return '1/(%s)' % show(k[1], d + 1)
    if k[0] == 'app':
        return '%s.%s(%s)' % (k[1], k[2], ', '.join(show(a, d + 1) if isinstance(a, Poly) else str(a) for a in k[3:]))
    if k[0] == 'field':
        return '%s@%s' % (show(k[1], d + 1), k[2])
    return '{%s}' % ' '.join(show(x, d + 1) if isinstance(x, Poly) else str(x) for x in k)


def show(p, d=0):
    if d > 14 or BUD[0] is not None and BUD[0] < 0:
        return '...'
    if not p.t:
        return '0'
    out = []
    for m, c in p.key:
        f = ['%s%s' % (showa(a, d), '' if e == 1 else '^%d' % e) for a, e in m]
        if not f:
            out.append('%.10g' % c)
        elif c == 1:
            out.append('*'.join(f))
        else:
            out.append('%.10g*%s' % (c, '*'.join(f)))
    return ' + '.join(out)


def showc(c, d=0):
    k = c.key
    if k[0] in ('lt', 'le', 'gt', 'ge', 'eq'):
        return '%s %s 0' % (show(k[1], d + 1), {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '=='}[k[0]])
    if k[0] in ('and', 'or'):
        return '(' + (' && ' if k[0] == 'and' else ' || ').join(sorted(showc(x, d + 1) for x in k[1])) + ')'
    if k[0] == 'not':
        return '!(%s)' % showc(k[1], d + 1)
    if k[0] == 'itec':
        return '(%s ? %s : %s)' % tuple(showc(x, d + 1) for x in k[1:])
    return str(k[0]) + ''.join(' ' + (show(x, d + 1) if isinstance(x, Poly) else str(x)) for x in k[1:])


# ---------------------------------------------------------------- substitution
def subst(p, f, memo=None, fc=None):
    """rebuild p (Poly or Cond) bottom-up; f(key)->Poly or None is applied to every atom key before and after its
    parts are rebuilt, fc(cond)->Cond or None likewise to every condition"""
    if memo is None:
        memo = {}

    def sp(p):
        r = memo.get(p)
        if r is not None:
            return r
        r = P(0)
        for m, c in p.t.items():
            q = P(c)
            for a, e in m:
                b = sa(a)
                if e < 0:
                    b = inv(b)
                for _ in range(abs(e)):
                    q = q * b
            r = r + q
        memo[p] = r
        return r

    def sc(c):
        k = ('c', c)
        if k in memo:
            return memo[k]
        kk = c.key
        r = fc(c) if fc is not None else None
        if r is not None:
            memo[k] = r
            return r
        if kk[0] in ('lt', 'le', 'eq'):
            r = cmp0(kk[0], sp(kk[1]))
        elif kk[0] in ('gt', 'ge'):
            r = cmp0('lt' if kk[0] == 'gt' else 'le', -sp(kk[1]))
        elif kk[0] == 'and':
            r = cand(*[sc(x) for x in kk[1]])
        elif kk[0] == 'or':
            r = cor(*[sc(x) for x in kk[1]])
        elif kk[0] == 'not':
            r = cnot(sc(kk[1]))
        elif kk[0] == 'itec':
            r = itec(sc(kk[1]), sc(kk[2]), sc(kk[3]))
        else:
            r = Cond(tuple(sp(x) if isinstance(x, Poly) else x for x in kk))
        if fc is not None:
            r = fc(r) or r
        memo[k] = r
        return r

    def sa(a):
        k = ('a', a)
        if k in memo:
            return memo[k]
        key = T.akey[a]
        r = f(key)
        if r is None:
            if key[0] == 'ite':
                r = ite(sc(key[1]), sp(key[2]), sp(key[3]))
            elif key[0] == 'b2i':
                r = b2i(sc(key[1]))
            elif key[0] == 'inv':
                r = inv(sp(key[1]))
            elif key[0] == 'poly':
                r = sp(key[1])
                if len(r.t) > MAXTERMS:
                    r = wrap(r)
            elif key[0] == 'fn':
                r = F(key[1], *[sp(x) if isinstance(x, Poly) else x for x in key[2:]]) \
                    if all(isinstance(x, Poly) for x in key[2:]) else A(*key)
            elif key[0] == 'mu':
                r = A(*key)
            else:
                nk = tuple(sp(x) if isinstance(x, Poly) else sc(x) if isinstance(x, Cond) else
                           tuple(sp(y) if isinstance(y, Poly) else y for y in x) if isinstance(x, tuple) else x
                           for x in key)
                r = f(nk) or A(*nk)
        memo[k] = r
        return r
    return sc(p) if isinstance(p, Cond) else sp(p)


def resolve_mu(p):
    def f(key):
        if key[0] == 'mu':
            i = atom_id(key)
            if i in T.musub:
                return resolve_mu(T.musub[i])
        return None
    if not any(T.akey[i][0] == 'mu' for i in T.musub) and not T.musub:
        return p
    return subst(p, f)


def simplify_mus():
    """redundant loop-carried values: a set of mutually referring mus with one single value from outside is that value
    (Braun et al.); returns the number of substitutions made"""
    total = 0
    while True:
        nodes = [m for m in T.mudefs if m not in T.musub]
        defs = {}
        for m in nodes:
            me = Poly({((m, 1),): 1.0})
            out = []
            for x in T.mudefs[m]:
                x = resolve_mu(x)
                if x != me and x not in out:
                    out.append(x)
            T.mudefs[m] = out if out else T.mudefs[m]
            defs[m] = out
        nset = set(nodes)

        def mus(m):
            r = []
            for x in defs[m]:
                a = x.single_atom()
                if a is not None and a in nset:
                    r.append(a)
            return r
        made = 0
        for scc in _sccs(nodes, mus):
            ext = []
            for m in scc:
                for x in defs[m]:
                    if x.single_atom() in scc:
                        continue
                    if x not in ext:
                        ext.append(x)
            if len(ext) != 1:
                continue
            keys = {T.akey[m] for m in scc}
            if contains(ext[0], lambda k: k in keys):
                continue
            for m in scc:
                T.musub[m] = ext[0]
                made += 1
        total += made
        if not made:
            return total


def _sccs(nodes, succ):
    idx, low, on, st, out, n = {}, {}, set(), [], [], 0
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n
        n += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def contains(p, pred, seen=None):
    """does any atom in p (deep) satisfy pred(key)?"""
    if seen is None:
        seen = set()
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for a in x.atoms():
                if a in seen:
                    continue
                seen.add(a)
                k = T.akey[a]
                if pred(k):
                    return True
                st.extend(k[1:])
        elif isinstance(x, Cond):
            st.extend(x.key[1:])
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return False


def collect(p, pred):
    out, seen, st = [], set(), [p]
    while st:
        x = st.pop()
        if isinstance(x, Poly):
            for a in x.atoms():
                if a in seen:
                    continue
                seen.add(a)
                k = T.akey[a]
                if pred(k):
                    out.append(k)
                st.extend(k[1:])
        elif isinstance(x, Cond):
            st.extend(x.key[1:])
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return out


# ---------------------------------------------------------------- evaluation of a function
class BOT:      # value along a path that never arrives
    pass


BOT = BOT()

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'fabs', 'floor', 'ceil', 'exp', 'log', 'log10', 'cbrt',
         'round', 'trunc', 'tolower', 'toupper'}
LIBM2 = {'atan2', 'fmod', 'pow', 'fmin', 'fmax', 'hypot', 'remainder'}

# name -> per-parameter kind; see module docstring of model().  'd' scalar in; '<dN' array of N doubles in; '>d' scalar
# double out; '>dN' array out; '<>d' in/out scalar; '<o' opaque object in, '>o' out, '<>o' in/out; 's' C string in;
# '>s' string buffer out; '_' ignored; '>l' long out
SIG_API = {
    'ut2gmst': ['d', '>d'], 'ut2gast': ['d', '>d'], 'earthtilt': ['d', '>d', '>d', '>d', '>d', '>d'],
    'lmst_hr': ['d', 'd', '>d'],
    'dechalat2alt': ['d', 'd', 'd', '>d', '>d', '>d'],
    'lpsun_radec': ['d', '>d', '>d'],
    'skysep_h': ['d', 'd', 'd', 'd'],
    'get_satellite_ra_dec_delta': ['<d3', '<d3', '>d', '>d', '>d'],
    'epoch_of_date_to_j2000': ['d', '<>d', '<>d'],
    'earth_lat_alt_to_parallax': ['d', 'd', '>d', '>d'],
    'observer_cartesian_coords': ['d', 'd', 'd', 'd', '>d3'],
    'ang2pix_nest': ['d', 'd', 'd', '>l'],
    'SGP4_init': ['>o', '<o'], 'SDP4_init': ['>o', '<o'], 'SGP_init': ['>o', '<o'], 'SGP8_init': ['>o', '<o'],
    'SDP8_init': ['>o', '<o'],
    'SGP4': ['d', '<o', '<o', '>d3', '>d3?'], 'SDP4': ['d', '<o', '<o', '>d3', '>d3?'],
    'SGP': ['d', '<o', '<o', '>d3', '>d3?'], 'SGP8': ['d', '<o', '<o', '>d3', '>d3?'],
    'SDP8': ['d', '<o', '<o', '>d3', '>d3?'],
    'parse_elements': ['s', 's', '>o'],
    'select_ephemeris': ['<o'],
    'tle_checksum': ['s'],
    'mjd2date': ['d'],
    'date2mjd_nf': ['s', '>d'],
    'FMod2p': ['d'],
    'strlen': ['s'], 'atoi': ['s'], 'atof': ['s'], 'strcmp': ['s', 's'], 'strchr': ['s', 'd'], 'strrchr': ['s', 'd'],
    'strstr': ['s', 's'], 'memcmp': ['s', 's', 'd'], 'strncmp': ['s', 's', 'd'], 'strtol': ['s', '>p?', 'd'],
    'strtod': ['s', '>p?'],
    'strcpy': ['>s', 's'], 'strncpy': ['>s', 's', 'd'], 'strcat': ['<>s', 's'], 'strncat': ['<>s', 's', 'd'], 'fgets': ['>s', 'd', 'd'],
    'isspace': ['d'], 'isdigit': ['d'], 'isalpha': ['d'], 'isxdigit': ['d'],
    'fopen': ['s', 's'], 'fclose': ['d'], 'malloc': ['d'], 'realloc': ['d', 'd'], 'free': ['d'], 'calloc': ['d', 'd'],
    'puts': ['s'], 'putchar': ['d'], 'exit': ['d'], 'time': ['>t?'], 'abort': [], 'atol': ['s'],
    'fputs': ['s', 'd'], 'fputc': ['d', 'd'], 'putc': ['d', 'd'], 'fwrite': ['s', 'd', 'd', 'd'],
    'llvm.stacksave': [], 'llvm.stackrestore': ['_'], 'llvm.stacksave.p0': [], 'llvm.stackrestore.p0': ['_'],
    '__ctype_b_loc': [], 'ferror': ['d'], 'feof': ['d'], 'fflush': ['d'], 'rewind': ['d'], 'memchr': ['s', 'd', 'd'],
    'strnlen': ['s', 'd'], 'strcspn': ['s', 's'], 'strspn': ['s', 's'], 'strpbrk': ['s', 's'],
    'trimend': ['<>s'],
    'modf': ['d', '>d'], 'frexp': ['d', '>i'],
}
# calls whose result depends on hidden state: every call site is a distinct value
IMPURE = {'fgets', 'fopen', 'malloc', 'realloc', 'calloc', 'time', 'fclose', 'getchar', 'sscanf', 'fscanf', 'strtok'}


def iscopy(n):
    return n in ('memcpy', 'memmove') or n.startswith(('llvm.memcpy', 'llvm.memmove'))


def isfill(n):
    return n == 'memset' or n.startswith('llvm.memset')


class Ev:
    def __init__(self, fn, argnames=None, main=False):
        self.fn = fn
        self.mod = fn.mod
        self.main = main
        self.memo = {}
        self.pmemo = {}
        self.cellmemo = {}
        self.callmemo = {}
        self.rpoidx = {b: i for i, b in enumerate(fn.rpo())}
        self.loopheads = fn.loops()
        self.argnames = argnames or {}
        self._reach = {}
        self.objwriters = None
        self.extmemo = {}
        self.blockcond = {}
        self.scanned = None       # (object, blocks of the loop that fills it, value it has after that loop)

    # ---- operands
    def val(self, op):
        k = op[0]
        if k == 'v':
            return self.vid(op[1])
        if k == 'i':
            return P(op[1])
        if k == 'f':
            x = op[1]
            return P(float(x)) if x not in ('nan', 'inf', '-inf') else A('sym', x)
        if k == 'null':
            return P(0)
        if k in ('undef', 'poison'):
            return A('undef', 'ssa')
        if k == 'g':
            return A('addr', ('global', op[1])) + op[2]
        if k == 'fn':
            return A('addr', ('fn', op[1]))
        return A('unk', str(op))

    def vid(self, v):
        r = self.memo.get(v)
        if r is not None:
            return r
        if v < len(self.fn.args):
            r = A('sym', self.argnames.get(v) or 'arg%d' % v)
            self.memo[v] = r
            return r
        i = self.fn.inst[v]
        r = self.ev(i)
        self.memo[v] = r
        return r

    def cond(self, op):
        if op[0] == 'i':
            return FALSE if op[1] == 0 else TRUE
        if op[0] == 'v' and op[1] >= len(self.fn.args):
            i = self.fn.inst[op[1]]
            if i.op == 'icmp' or i.op == 'fcmp':
                return self.cmpc(i)
            p = self.vid(op[1])
            a = p.single_atom()
            if a is not None and T.akey[a][0] == 'b2i':
                return T.akey[a][1]
            c = p.const()
            if c is not None:
                return FALSE if c == 0 else TRUE
            if p.t.get((), 0) == 1 and len(p.t) == 2:      # 1 - b
                q = P(1) - p
                a = q.single_atom()
                if a is not None and T.akey[a][0] == 'b2i':
                    return cnot(T.akey[a][1])
            return cmp0('ne', p)
        p = self.val(op)
        return cmp0('ne', p)

    def cmpc(self, i):
        p = i.d['p']
        a, b = self.val(i.args[0]), self.val(i.args[1])
        d = a - b
        m = {'eq': 'eq', 'ne': 'ne', 'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}
        if p in m:
            return cmp0(m[p], d)
        if p == 'ord':
            return cnot(Cond(('isnan', a)) if a == b or b.const() is not None else Cond(('isnan', a + b)))
        if p == 'uno':
            return Cond(('isnan', a)) if a == b or b.const() is not None else Cond(('isnan', a + b))
        if p in ('true',):
            return TRUE
        if p in ('false',):
            return FALSE
        q = p[-2:]
        if p in ('slt', 'sle', 'sgt', 'sge'):
            c = cmp0({'slt': 'lt', 'sgt': 'lt', 'sle': 'le', 'sge': 'le'}[p], d if p[1] == 'l' else -d)
            return intcmp(c)
        if p[0] == 'u' and i.op == 'icmp' and b.const() is not None and a.const() is None:
            # unsigned: keep opaque unless comparing small range checks
            return Cond(('u' + q, a, b))
        if q == 'lt':
            return cmp0('lt', d)
        if q == 'le':
            return cmp0('le', d)
        if q == 'gt':
            return cmp0('lt', -d)
        if q == 'ge':
            return cmp0('le', -d)
        return Cond(('cmp' + p, a, b))

    def ev(self, i):
        o = i.op
        a = i.args
        if o in ('fadd', 'add'):
            return self.val(a[0]) + self.val(a[1])
        if o in ('fsub', 'sub'):
            return self.val(a[0]) - self.val(a[1])
        if o in ('fmul', 'mul'):
            return self.val(a[0]) * self.val(a[1])
        if o == 'fdiv':
            return self.val(a[0]) / self.val(a[1])
        if o == 'fneg':
            return -self.val(a[0])
        if o == 'frem':
            return F('fmod', self.val(a[0]), self.val(a[1]))
        if o in ('icmp', 'fcmp'):
            return b2i(self.cmpc(i))
        if o in ('zext', 'sext', 'sitofp', 'uitofp', 'fpext', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = self.val(a[0])
            if o == 'sext' and i.d.get('ft') == 'i1':
                return -v
            return v
        if o == 'fptrunc':
            v = self.val(a[0])
            k = v.const()
            return P(struct.unpack('f', struct.pack('f', k))[0]) if k is not None and abs(k) < 3e38 else F('f32', v)
        if o == 'trunc':
            v = self.val(a[0])
            if i.ty == 'i1':
                at = v.single_atom()
                if at is not None and T.akey[at][0] == 'b2i':
                    return v
                if v.const() is not None:
                    return P(int(v.const()) & 1)
                return b2i(cmp0('ne', v))
            return v
        if o in ('fptosi', 'fptoui'):
            return F('trunc', self.val(a[0]))
        if o == 'select':
            return ite(self.cond(a[0]), self.val(a[1]), self.val(a[2]))
        if o == 'shl':
            c = self.val(a[1]).const()
            if c is not None:
                return self.val(a[0]) * (2.0 ** c)
            return F('shl', self.val(a[0]), self.val(a[1]))
        if o in ('sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            x, y = self.val(a[0]), self.val(a[1])
            if i.ty == 'i1':
                if o == 'and':
                    return b2i(cand(self.cond(a[0]), self.cond(a[1])))
                if o == 'or':
                    return b2i(cor(self.cond(a[0]), self.cond(a[1])))
                if o == 'xor' and y.const() == 1:
                    return b2i(cnot(self.cond(a[0])))
                if o == 'xor' and y.const() == -1:
                    return b2i(cnot(self.cond(a[0])))
            if x.const() is not None and y.const() is not None:
                xi, yi = int(x.const()), int(y.const())
                if o == 'and':
                    return P(xi & yi)
                if o == 'or':
                    return P(xi | yi)
                if o == 'xor':
                    return P(xi ^ yi)
            if o == 'xor' and y.const() in (1, -1) and x.single_atom() is not None and \
                    T.akey[x.single_atom()][0] == 'b2i':
                return b2i(cnot(T.akey[x.single_atom()][1]))
            if o == 'lshr' and y.const() is not None:
                return F('udiv', x, P(2.0 ** y.const()))
            if o == 'srem' and y.const():
                return remainder(x, abs(y.const()))
            if o in BITS:
                r = bitfold(o, x, y)
                if r is not None:
                    return r
            return F(o, x, y)
        if o == 'getelementptr':
            p = self.val(a[0])
            if 'off' not in i.d:
                return A('unk', ('gep', i.id))
            p = p + i.d['off']
            for v, s in i.d['var']:
                p = p + self.val(tuple(v)) * s
            return p
        if o == 'alloca':
            return A('addr', ('alloca', i.id))
        if o == 'phi':
            return self.phi(('phi', i.id), i.bb, {b: tuple(v) for v, b in i.d['inc']})
        if o == 'load':
            return self.load(i)
        if o in ('call', 'invoke'):
            return self.callret(i)
        return A('unk', (o, self.fn.name, i.id))

    # ---- joins
    def reach_to(self, J):
        r = self._reach.get(J)
        if r is None:
            r = set()
            st = [J]
            while st:
                b = st.pop()
                for p in self.fn.pred[b]:
                    if p not in r:
                        r.add(p)
                        if p != J:
                            st.append(p)
            self._reach[J] = r
        return r

    def phi(self, key, J, inc):
        """inc: pred block -> operand tuple or callable()"""
        def g(b):
            x = inc[b]
            return x() if callable(x) else self.val(x)
        preds = [p for p in dict.fromkeys(self.fn.pred[J]) if p in self.rpoidx]
        if J in self.loopheads:
            mu = A('mu', self.fn.name, key)
            mid = mu.single_atom()
            if key[0] == 'phi':
                self.memo[key[1]] = mu
            else:
                self.cellmemo[key] = mu
            alts, byp = [], {}
            for p in preds:
                v = byp[p] = g(p)
                if v != mu and v not in alts:
                    alts.append(v)
            T.muinfo[mid] = (self, J, byp)
            alts = [resolve_mu(x) for x in alts]
            alts = [x for n, x in enumerate(alts) if x != mu and x not in alts[:n]]
            if len(alts) == 1 and not contains(alts[0], lambda k: k == ('mu', self.fn.name, key)):
                T.musub[mid] = alts[0]
                return alts[0]
            T.mudefs[mid] = alts
            return mu
        vals = {}
        first = None
        same = True
        for p in preds:
            vals[p] = g(p)
            if first is None:
                first = vals[p]
            elif vals[p] != first:
                same = False
        if same and first is not None:
            return first
        D = self.fn.idom()[J]
        return self.gamma(D, J, vals)

    # ---- loops
    def loopparts(self, mid):
        """(value on entry, value at the back edge, condition of going round again) of a loop-carried value"""
        ev, J, byp = T.muinfo[mid]
        body = self.loopheads[J]
        entry = {p: v for p, v in byp.items() if p not in body}
        back = {p: v for p, v in byp.items() if p in body}
        ini = list(entry.values())
        if any(x != ini[0] for x in ini):
            init = self.gamma(self.fn.idom()[J], J, entry)
        else:
            init = ini[0]
        st = list(back.values())
        if any(x != st[0] for x in st):
            step = self.gamma(J, J, back, body)
        else:
            step = st[0]
        return init, step, self.loopcont(J)

    def loopcont(self, J):
        r = self.blockcond.get(('cont', J))
        if r is None:
            body = self.loopheads[J]
            vals = {p: P(1) for p in self.fn.pred[J] if p in body}
            v = self.gamma(J, J, vals, body, P(0))
            r = self.blockcond[('cont', J)] = cmp0('ne', v)
        return r

    def gamma(self, D, J, vals, body=None, out=None, stops=None):
        reach = self.reach_to(J) if body is None else body
        if out is None:
            out = BOT
        memo = {}
        onpath = set()

        def edge(b, s):
            if s == J:
                return vals.get(b, out)
            if stops and (b, s) in stops:
                return stops[b, s]
            if s not in reach:
                return out
            return blk(s)

        def blk(b):
            if b in memo:
                return memo[b]
            if b in onpath:
                return BOT
            onpath.add(b)
            t = self.fn.blocks[b][-1]
            ss = self.fn.succ[b]
            if not ss:
                r = BOT
            elif t.op == 'br' and len(ss) == 2:
                x, y = edge(b, ss[0]), edge(b, ss[1])
                if x is BOT:
                    r = y
                elif y is BOT:
                    r = x
                elif x == y:
                    r = x
                else:
                    r = ite(self.cond(t.args[0]), x, y)
            elif t.op == 'switch':
                r = edge(b, t.d['def'])
                v = None
                for c, s in reversed(t.d['cases']):
                    x = edge(b, s)
                    if x is BOT:
                        continue
                    if r is BOT or r == x:
                        r = x
                        continue
                    if v is None:
                        v = self.val(t.args[0])
                    r = ite(cmp0('eq', v - c), x, r)
            else:
                r = edge(b, ss[0])
            onpath.discard(b)
            memo[b] = r
            return r
        r = blk(D)
        if r is BOT:
            raise AnalysisBroken('gamma: join %d of %s unreachable' % (J, self.fn.name))
        return r

    # ---- memory
    def ptr(self, p):
        """Poly -> (base key, const offset or None, poly)"""
        if isinstance(p, tuple):
            p = self.val(p)
        base, off, var = None, 0, False
        for m, c in p.t.items():
            if m == ():
                off = c
                continue
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                k = T.akey[m[0][0]]
                if k[0] == 'addr':
                    base = k[1]
                    continue
                if k[0] == 'sym' and base is None and not var and len([1 for mm in p.t if mm != ()]) == 1:
                    base = ('arg', k[1])
                    continue
            var = True
        if base is None:
            return (None, None, p)
        return (base, None if var else int(off), p)

    def cellread(self, base, off, size, bb, pos):
        """value of [base+off, size) just before instruction pos of block bb; off None = whole object version"""
        fn = self.fn
        while True:
            for k in range(pos - 1, -1, -1):
                r = self.writes(fn.blocks[bb][k], base, off, size)
                if r is not None:
                    return r
            preds = [p for p in dict.fromkeys(fn.pred[bb]) if p in self.rpoidx]
            if bb == 0 or not preds:
                return self.initial(base, off, size)
            if len(preds) == 1 and bb not in self.loopheads:
                if self.leaves(base, bb, preds[0]):
                    return self.kept(off, size)
                bb = preds[0]
                pos = len(fn.blocks[bb])
                continue
            key = ('cell', bb, base, off, size)
            if key in self.cellmemo:
                return self.cellmemo[key]
            # quick exit: no writer of this object anywhere in the region -> skip to idom
            if not self.any_writer(base, bb):
                D = fn.idom()[bb]
                if self.leaves(base, bb, D):
                    return self.kept(off, size)
                bb, pos = D, len(fn.blocks[D])
                continue
            inc = {p: (lambda p=p: self.kept(off, size) if self.leaves(base, bb, p) else
                       self.cellread(base, off, size, p, len(fn.blocks[p]))) for p in preds}
            r = self.phi(key, bb, inc)
            self.cellmemo[key] = r
            return r

    def any_writer(self, base, bb):
        """may any block strictly between idom(bb) and bb write base?"""
        D = self.fn.idom()[bb]
        if self.objwriters is None:
            self.objwriters = {}
        w = self.objwriters.get(base)
        if w is None:
            w = set()
            for i in self.fn.insts():
                if i.op == 'store' or i.op in ('call', 'invoke'):
                    if self.maywrite(i, base):
                        w.add(i.bb)
            self.objwriters[base] = w
        if not w:
            return False
        # blocks on paths D -> bb
        back = self.reach_to_avoiding(bb, D)
        return bool(w & back)

    def reach_to_avoiding(self, J, D):
        key = ('av', J, D)
        r = self._reach.get(key)
        if r is None:
            r = set()
            st = [J]
            while st:
                b = st.pop()
                for p in self.fn.pred[b]:
                    if p != D and p not in r:
                        r.add(p)
                        st.append(p)
            if J in self.loopheads:
                r.add(J)
            self._reach[key] = r
        return r

    def baseof(self, op, depth=0):
        """cheap syntactic base object of a pointer operand"""
        while depth < 50:
            depth += 1
            if op[0] == 'g':
                return ('global', op[1])
            if op[0] != 'v':
                return None
            if op[1] < len(self.fn.args):
                return ('arg', self.argnames.get(op[1]) or 'arg%d' % op[1])
            i = self.fn.inst[op[1]]
            if i.op == 'alloca':
                return ('alloca', i.id)
            if i.op in ('getelementptr', 'bitcast', 'freeze'):
                op = i.args[0]
                continue
            return ('dyn', i.id)
        return None

    def maywrite(self, i, base):
        if i.op == 'store':
            b = self.baseof(i.args[1])
            return b == base or (b and b[0] == 'dyn' and self.dynmay(b, base))
        n = i.callee or ''
        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'):
            return False
        for k, x in enumerate(i.args):
            b = self.baseof(x)
            if b == base or (b and b[0] == 'dyn' and self.dynmay(b, base)):
                if iscopy(n) or isfill(n):
                    if k == 0:
                        return True
                    continue
                if i.d['bv'][k]:
                    continue
                kd = self.kind(n, k, i)
                if kd is None or '>' in kd:
                    return True
        return False

    def whole(self, i):
        """the text copied by a block copy of its length and the terminator"""
        text = self.string(i.args[1], i)
        a = (self.val(i.args[2]) - 1).single_atom()
        if text is None or a is None or T.akey[a][:2] != ('app', 'strlen'):
            return None
        return text if T.akey[a][-1] == text else None

    def dynmay(self, b, base):
        """can the dynamic pointer b (phi/select/load/call result) point into base?"""
        i = self.fn.inst[b[1]]
        if i.op in ('phi', 'select'):
            seen = set()
            st = [i]
            while st:
                x = st.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                ops = [tuple(v) for v, _ in x.d['inc']] if x.op == 'phi' else x.args[1:]
                for o in ops:
                    bb = self.baseof(o)
                    if bb == base:
                        return True
                    if bb and bb[0] == 'dyn':
                        y = self.fn.inst[bb[1]]
                        if y.op in ('phi', 'select'):
                            st.append(y)
                        elif y.op in ('call',) and y.callee in ('strchr', 'strstr', 'strrchr', 'memchr', 'strpbrk'):
                            if self.baseof(y.args[0]) == base:
                                return True
            return False
        if i.op == 'call' and i.callee in ('strchr', 'strstr', 'strrchr', 'memchr', 'strpbrk', 'strcpy', 'strcat', 'fgets'):
            bb = self.baseof(i.args[0])
            return bb == base
        return False        # loaded / heap pointers do not alias named locals (assumption A-alias)

    def kind(self, n, k, i):
        if n in LIBM1 or n in LIBM2:
            return 'd'
        if n.startswith('llvm.'):
            return 'd'
        s = SIG_API.get(n)
        if s is not None:
            return s[k] if k < len(s) else 'd'
        if n in ('printf', 'fprintf'):
            return 's'
        if n in ('sprintf', 'snprintf'):
            return '>s' if k == 0 else 's'
        if n in ('sscanf', 'fscanf'):
            if k < 2:
                return 's' if k == 1 or n == 'sscanf' else 'd'
            return '>s' if self.scansize(i, k) == 's' else '<>d'
        f = self.mod.functions.get(n)
        return None

    def members(self, base):
        """leaf member extents [(lo, hi)] of a named object, from debug info"""
        r = self.extmemo.get(base)
        if r is None:
            dt, total = None, None
            if base[0] == 'alloca':
                dt = self.fn.d.get('locals', {}).get(str(base[1]))
                total = self.fn.inst[base[1]].d.get('size')
                if dt is None:
                    at = self.fn.inst[base[1]].d.get('at', '')
                    if at.startswith('%struct.'):
                        dt = self.mod.structs().get(at[8:])
            elif base[0] == 'global':
                g = self.mod.globals.get(base[1], {})
                dt, total = g.get('ditype'), g.get('size')
            r = []
            if isinstance(dt, dict) and 'members' in dt:
                def go(d, o):
                    for m in d['members']:
                        if isinstance(m['type'], dict) and 'members' in m['type']:
                            go(m['type'], o + m['off'])
                        elif isinstance(m['type'], dict) and len(m['type'].get('dims', ())) == 2 and m['type']['dims'][0]:
                            n = m['type']['dims'][0]
                            w = m['size'] // n
                            for k in range(n):
                                r.append((o + m['off'] + k * w, o + m['off'] + (k + 1) * w, '%s[%d]' % (m['name'], k),
                                          {'arr': m['type']['arr'], 'dims': m['type']['dims'][1:]}))
                        else:
                            r.append((o + m['off'], o + m['off'] + m['size'], m['name'], m['type']))
                go(dt, 0)
            elif total:
                r.append((0, total, '', dt))
            self.extmemo[base] = r
        return r

    def extent(self, base, off):
        """end of the named member of base that contains offset off (assumes member-bounded string writes, which the
        bounded-writes check decides separately)"""
        for m in self.members(base):
            if m[0] <= off < m[1]:
                return m[1]
        return None

    def leaves(self, base, bb, p):
        """is p in the loop that fills the object, and bb past it?"""
        f = self.scanned
        return f is not None and f[0] == base and p in f[1] and bb not in f[1]

    def kept(self, off, size):
        t = self.scanned[2]
        return t if off is None else A('field', t, off, size)

    def writes(self, i, base, off, size):
        """None if i does not define the cell, else its new value"""
        if size == 'str':
            return self.writes_str(i, base, off)
        o = i.op
        if o == 'store':
            b = self.baseof(i.args[1])
            if b != base:
                if b and b[0] == 'dyn' and self.dynmay(b, base):
                    return A('clobber', self.fn.name, i.id, off, size)
                return None
            bb, so, _ = self.ptr(i.args[1])
            if so is None:
                return A('clobber', self.fn.name, i.id, off, size)
            if off is None:
                return A('partial', self.fn.name, i.id)
            ss = i.d['size']
            if so == off and ss == size:
                return self.val(i.args[0])
            if so + ss <= off or off + size <= so:
                return None
            return A('clobber', self.fn.name, i.id, off, size)
        if o not in ('call', 'invoke'):
            return None
        n = i.callee or ''
        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'):
            return None
        if iscopy(n):
            b = self.baseof(i.args[0])
            if b != base:
                return None
            _, do, _ = self.ptr(i.args[0])
            ln = self.val(i.args[2]).const()
            if do is None or ln is None:
                return A('clobber', self.fn.name, i.id, off, size)
            sb, so, sp = self.ptr(i.args[1])
            if off is None:
                if sb is not None and so is not None:
                    return self.cellread(sb, None, None, i.bb, i.pos)
                return A('partial', self.fn.name, i.id)
            if off + size <= do or do + ln <= off:
                return None
            if off >= do and off + size <= do + ln and sb is not None and so is not None:
                return self.cellread(sb, int(so + off - do), size, i.bb, i.pos)
            return A('clobber', self.fn.name, i.id, off, size)
        if isfill(n):
            b = self.baseof(i.args[0])
            if b != base:
                return None
            _, do, _ = self.ptr(i.args[0])
            ln = self.val(i.args[2]).const()
            v = self.val(i.args[1]).const()
            if do is None or ln is None or off is None or v != 0:
                return A('clobber', self.fn.name, i.id, off, size)
            if off + size <= do or do + ln <= off:
                return None
            return P(0)
        if n.startswith('llvm.') or n in LIBM1 or n in LIBM2:
            return None
        for k, x in enumerate(i.args):
            if i.d['bv'][k]:
                continue
            b = self.baseof(x)
            if b is None:
                continue
            if b != base:
                if not (b[0] == 'dyn' and self.dynmay(b, base)):
                    continue
            kd = self.kind(n, k, i)
            if kd is not None and '>' not in kd:
                continue
            if kd is None:
                return A('clobber', self.fn.name, i.id, off, size)
            out = self.callout(i, k)
            if kd.endswith('o') or kd.endswith('s'):
                if off is None:
                    return out
                _, po, _ = self.ptr(x)
                if kd.endswith('s') and po is not None:
                    hi = self.extent(base, po)
                    if hi is not None and (off >= hi or off + size <= po):
                        continue
                return A('field', out, (off - po) if po is not None else ('?', off), size)
            _, po, _ = self.ptr(x)
            if po is None:
                return A('clobber', self.fn.name, i.id, off, size)
            kk = kd.rstrip('?').lstrip('<>')
            esz = {'d': 8, 'l': 8, 'i': 4, 'p': 8, 't': 8}.get(kk[0], 8)
            if n in ('sscanf', 'fscanf'):
                esz = self.scansize(i, k)
                if esz is None:
                    return A('clobber', self.fn.name, i.id, off, size)
            cnt = int(kk[1:] or 1)
            if off is None:
                return out
            if off + size <= po or po + esz * cnt <= off:
                continue
            if (off - po) % esz == 0 and size == esz:
                if cnt == 1:
                    return out
                return A('elem', out, (off - po) // esz)
            return A('clobber', self.fn.name, i.id, off, size)
        return None

    def writes_str(self, i, base, off):
        """definition of the C string starting at base+off"""
        o = i.op
        hi = self.extent(base, off)
        if hi is None:
            hi = 1 << 40
        if o == 'store':
            b = self.baseof(i.args[1])
            if b != base:
                if b and b[0] == 'dyn' and self.dynmay(b, base):
                    return A('clobber', self.fn.name, i.id, off, 'str')
                return None
            _, so, _ = self.ptr(i.args[1])
            if so is None:
                # a store through a computed pointer based in the object: may be in any member; assume it stays in the
                # member its constant part lies in
                c = int(self.ptr(i.args[1])[2].t.get((), 0))
                h2 = self.extent(base, c)
                if h2 is not None and h2 != hi and len(self.members(base)) > 1:
                    return None
                return A('strset', self.cellread(base, off, 'str', i.bb, i.pos), self.val(i.args[1]), self.val(i.args[0]))
            if so >= hi or so + i.d['size'] <= off:
                return None
            v = self.val(i.args[0])
            if so == off and i.d['size'] == 1 and v.const() == 0:
                return A('str', '')
            return A('strset', self.cellread(base, off, 'str', i.bb, i.pos), P(so - off), v)
        if o not in ('call', 'invoke'):
            return None
        n = i.callee or ''
        if n.startswith('llvm.dbg') or n.startswith('llvm.lifetime'):
            return None
        if iscopy(n):
            if self.baseof(i.args[0]) != base:
                return None
            _, do, _ = self.ptr(i.args[0])
            ln = self.val(i.args[2]).const()
            if ln is None and do is not None and do == off:
                text = self.whole(i)
                if text is not None:
                    return text
            if do is None or ln is None:
                return A('clobber', self.fn.name, i.id, off, 'str')
            if do >= hi or do + ln <= off:
                return None
            sb, so, sp = self.ptr(i.args[1])
            if do <= off and sb is not None and so is not None:
                if sb[0] == 'global':
                    c = self.mod.cstring(sb[1], so + off - do)
                    if c is not None:
                        return A('str', c)
                return self.cellread(sb, int(so + off - do), 'str', i.bb, i.pos)
            return A('clobber', self.fn.name, i.id, off, 'str')
        if isfill(n):
            if self.baseof(i.args[0]) != base:
                return None
            _, do, _ = self.ptr(i.args[0])
            ln = self.val(i.args[2]).const()
            if do is None or ln is None:
                return A('clobber', self.fn.name, i.id, off, 'str')
            if do >= hi or do + ln <= off:
                return None
            if do <= off < do + ln and self.val(i.args[1]).const() == 0:
                return A('str', '')
            return A('strset', self.cellread(base, off, 'str', i.bb, i.pos), P(do - off), P(0))
        if n.startswith('llvm.') or n in LIBM1 or n in LIBM2:
            return None
        for k, x in enumerate(i.args):
            if i.d['bv'][k]:
                continue
            b = self.baseof(x)
            if b is None or (b != base and not (b[0] == 'dyn' and self.dynmay(b, base))):
                continue
            kd = self.kind(n, k, i)
            if kd is not None and '>' not in kd:
                continue
            if kd is None:
                return A('clobber', self.fn.name, i.id, off, 'str')
            _, po, _ = self.ptr(x)
            if po is None:
                return A('clobber', self.fn.name, i.id, off, 'str')
            if kd.endswith('s'):
                h2 = self.extent(base, po)
                if po >= hi or (h2 is not None and h2 <= off):
                    continue
                if po == off:
                    if n == 'strcpy':
                        return self.string(i.args[1], i)
                    return self.callout(i, k)
                return A('strset', self.cellread(base, off, 'str', i.bb, i.pos), P(po - off), self.callout(i, k))
            if kd.endswith('o'):
                return A('field', self.callout(i, k), off - po, 'str')
            kk = kd.rstrip('?').lstrip('<>')
            esz = {'d': 8, 'l': 8, 'i': 4, 'p': 8, 't': 8}.get(kk[0], 8)
            if n in ('sscanf', 'fscanf'):
                esz = self.scansize(i, k) or 8
            cnt = int(kk[1:] or 1)
            if po >= hi or po + esz * cnt <= off:
                continue
            return A('clobber', self.fn.name, i.id, off, 'str')
        return None

    def scansize(self, i, k):
        fmt = self.strconst(i.args[1])
        if fmt is None:
            return None
        import re
        cv = [c for c in re.findall(r'%(\*?)(\d*)(l{0,2}|h{0,2})([a-zA-Z\[])', fmt) if not c[0]]
        j = k - 2
        if j >= len(cv):
            return None
        _, w, l, c = cv[j]
        if c in 'feg':
            return 8 if l == 'l' else 4
        if c in 'diux':
            return 8 if l.startswith('l') else (2 if l == 'h' else 4)
        if c in 's[c':
            return 's'
        return None

    def strconst(self, op):
        if isinstance(op, tuple) and op[0] == 'g':
            return self.mod.cstring(op[1], op[2])
        b, off, _ = self.ptr(op)
        if b and b[0] == 'global' and off is not None:
            return self.mod.cstring(b[1], off)
        return None

    def initial(self, base, off, size):
        if size == 'str' and base[0] != 'global':
            return A('strinit' if base[0] == 'arg' else 'undef', base, off)
        if base[0] == 'alloca':
            return A('undef', self.fn.name, base[1], off, size)
        if base[0] == 'global':
            g = self.mod.globals.get(base[1], {})
            if off is None:
                return A('gobj', base[1])
            if size == 'str':
                c = self.mod.cstring(base[1], off) if (g.get('const') or self.main) else None
                return A('str', c) if c is not None else A('strinit', base, off)
            if (g.get('const') or self.main) and 'init' in g:
                v = self.ginit(g, off, size)
                if v is not None:
                    return v
            return A('sym', '%s+%d' % (base[1], off))
        if base[0] == 'arg':
            if off is None:
                return A('obj', base[1])
            return A('mem', base[1], off, size)
        return A('unkmem', base, off, size)

    def ginit(self, g, off, size):
        i = g['init']
        if isinstance(i, list):
            i = tuple(i)
            if off == 0:
                return self.val(i)
            return None
        if isinstance(i, dict):
            if 'zero' in i:
                return P(0)
            if 'agg' in i and i['agg'] and all(isinstance(x, list) and x[0] in 'fi' for x in i['agg']):
                es = g['size'] // len(i['agg'])
                if off % es == 0 and size == es:
                    return self.val(tuple(i['agg'][off // es]))
            if 'bytes' in i and size == 1 and off < len(i['bytes']):
                return P(i['bytes'][off])
        return None

    def load(self, i):
        return self.loadat(i.args[0], i.d['size'], i)

    def pointee(self, p, read, depth=0):
        """read(pointer) through a pointer chosen by conditions among known objects (a null choice cannot be read)"""
        j = joint(p) if depth < 6 else None
        if j is None:
            return None
        arms = [x for x in j[1:] if x.const() is None]
        if not arms:
            return None
        if len(arms) == 1 and any(x.const() == 0 or x.const() and 0 < x.const() < 4096 for x in j[1:]):
            return read(arms[0])
        out = []
        for x in arms:
            if self.ptr(x)[0] is None:
                r = self.pointee(x, read, depth + 1)
                if r is None:
                    return None
            else:
                r = read(x)
            out.append(r)
        return out[0] if len(out) == 1 else ite(j[0], out[0], out[1])

    def loadat(self, x, size, i):
        bb, off, p = self.ptr(x)
        if bb is None:
            r = self.pointee(p, lambda q: self.loadat(q, size, i))
            return r if r is not None else A('deref', p, size)
        if off is None:
            ver = self.cellread(bb, None, None, i.bb, i.pos)
            return A('idx', ver, p, size)
        return self.cellread(bb, off, size, i.bb, i.pos)

    # ---- calls
    def callkey(self, i):
        r = self.callmemo.get(i.id)
        if r is not None:
            return r
        n = i.callee or 'indirect'
        args = []
        s = SIG_API.get(n)
        for k, x in enumerate(i.args):
            kd = s[k] if s and k < len(s) else self.kind(n, k, i)
            if kd in ('_',):
                continue
            if kd is None:
                kd = 'd'
            if kd.startswith('>'):
                continue
            b = self.baseof(x)
            if kd in ('<o', '<>o'):
                bb, off, p = self.ptr(x)
                r = None
                if bb is None:
                    r = self.pointee(p, lambda q: self.cellread(self.ptr(q)[0], None, None, i.bb, i.pos))
                args.append(self.cellread(bb, None, None, i.bb, i.pos) if bb else A('obj', p) if r is None else r)
            elif kd.startswith('<d') or kd.startswith('<>d'):
                if n in ('sscanf', 'fscanf'):
                    continue
                cnt = int(kd.lstrip('<>')[1:] or 1)
                bb, off, p = self.ptr(x)
                for e in range(cnt):
                    if bb is None:
                        args.append(self.loadat(p + 8 * e, 8, i))
                    elif off is None:
                        args.append(A('deref', p + 8 * e, 8))
                    else:
                        args.append(self.cellread(bb, off + 8 * e, 8, i.bb, i.pos))
            elif kd in ('s', '<>s'):
                args.append(self.string(x, i))
            else:
                args.append(self.val(x))
        if n in IMPURE or n not in SIG_API and n not in LIBM1 | LIBM2:
            a = args[0].single_atom() if n == 'sscanf' and not self.main and isinstance(args[0], Poly) else None
            if a is None or T.akey[a][0] != 'strinit':      # same text, same format: same result
                args.append(P(0) + A('site', self.fn.name, i.id))
        r = (n, tuple(args))
        self.callmemo[i.id] = r
        return r

    def string(self, x, i):
        """value of a C string argument: content version for named objects, literal for constants"""
        c = self.strconst(x)
        if c is not None and (isinstance(x, Poly) or x[0] != 'g' or self.mod.globals.get(x[1], {}).get('const', True)):
            return A('str', c)
        bb, off, p = self.ptr(x)
        if bb is not None and bb[0] in ('alloca', 'arg', 'global'):
            if off is None:
                return A('strat', self.cellread(bb, None, None, i.bb, i.pos), p)
            if bb[0] == 'arg' and self.main:
                return A('strp', p)
            r = self.spelled(bb, off, i)
            if r is not None:
                return r
            return self.cellread(bb, off, 'str', i.bb, i.pos)
        if bb is None:
            r = self.pointee(p, lambda q: self.string(q, i))
            if r is not None:
                return r
        return A('strp', p)

    def spelled(self, base, off, i):
        """a short string in a local buffer whose bytes are all known up to a constant terminator"""
        n = self.fn.inst[base[1]].d.get('size') if base[0] == 'alloca' else None
        if not n or n > 32:
            return None
        out = []
        for k in range(int(off), int(n)):
            v = self.cellread(base, k, 1, i.bb, i.pos)
            c = v.const()
            if c == 0:
                if all(x.const() is not None for x in out):
                    return A('str', ''.join(chr(int(x.const())) for x in out))
                return A('spelled', *out)
            a = v.single_atom()
            if c is None and a is not None and T.akey[a][0] in ('clobber', 'undef'):
                return None
            out.append(v)
        return None

    def callret(self, i):
        n = i.callee or 'indirect'
        if n in LIBM1:
            return F(n, *[self.val(x) for x in i.args])
        if n in LIBM2:
            return F(n, *[self.val(x) for x in i.args])
        if n == 'abs' or n.startswith('llvm.abs'):
            return F('fabs', self.val(i.args[0]))
        if n.startswith('llvm.fabs'):
            return F('fabs', self.val(i.args[0]))
        m = n.split('.')
        if m[0] == 'llvm' and m[1] in ('sqrt', 'sin', 'cos', 'floor', 'ceil', 'pow', 'exp', 'log'):
            return F(m[1], *[self.val(x) for x in i.args])
        if m[0] == 'llvm' and m[1] in ('smax', 'umax', 'maxnum', 'smin', 'umin', 'minnum'):
            return F('fmax' if 'max' in m[1] else 'fmin', *[self.val(x) for x in i.args])
        r = self.foldstr(n, i)
        if r is not None:
            return r
        k, args = self.callkey(i)
        return A('app', k, 'ret', *args)

    def foldstr(self, n, i):
        """string functions of literal strings"""
        if n not in ('strlen', 'strcmp', 'strncmp', 'memcmp', 'strstr', 'strchr', 'strrchr'):
            return None

        def lit(x):
            a = self.string(x, i).single_atom()
            return T.akey[a][1] if a is not None and T.akey[a][0] == 'str' else None
        a = lit(i.args[0])
        if a is None:
            return None
        if n == 'strlen':
            return P(len(a))
        if n in ('strchr', 'strrchr'):
            c = self.val(i.args[1]).const()
            if c is None:
                return None
            k = (a + '\0').find(chr(int(c) & 255)) if n == 'strchr' else (a + '\0').rfind(chr(int(c) & 255))
            return P(0) if k < 0 else self.val(i.args[0]) + k
        b = lit(i.args[1])
        if b is None:
            return None
        if n == 'strstr':
            k = a.find(b)
            return P(0) if k < 0 else self.val(i.args[0]) + k
        if n in ('strncmp', 'memcmp'):
            c = self.val(i.args[2]).const()
            if c is None:
                return None
            a, b = (a + '\0')[:int(c)], (b + '\0')[:int(c)]
        return P((a > b) - (a < b))

    def callout(self, i, k):
        n, args = self.callkey(i)
        return A('app', n, 'out%d' % k, *args)


def final(p):
    return resolve_mu(p)


# ---------------------------------------------------------------- congruence
def alternatives(p, limit=64):
    """expand top-level ite atoms into all combinations"""
    out = [p]
    while True:
        nxt, ch = [], False
        for q in out:
            a = next((a for m in q.t for a, e in m if T.akey[a][0] == 'ite'), None)
            if a is None:
                nxt.append(q)
                continue
            ch = True
            k = T.akey[a]
            for arm in (k[2], k[3]):
                nxt.append(replace_atom(q, a, arm))
        out = list(dict.fromkeys(nxt))
        if not ch or len(out) > limit:
            return out


def replace_atom(p, a, q):
    r = P(0)
    for m, c in p.t.items():
        t = P(c)
        for b, e in m:
            x = q if b == a else Poly({((b, 1),): 1.0})
            if e < 0:
                x = inv(x)
            for _ in range(abs(e)):
                t = t * x
        r = r + t
    return r


def strip_mod(p, period):
    """drop fmod(x, P) with P a multiple of period, top level"""
    for a in list(p.atoms()):
        k = T.akey[a]
        if k[0] == 'fn' and k[1] in ('fmod', 'remainder', 'FMod2p'):
            c = k[3].const() if len(k) > 3 else None
            # coefficient scaling: only if the atom occurs linearly with integer-compatible coefficient
            if c:
                coef = p.t.get(((a, 1),))
                if coef is not None:
                    q = c * coef / period
                    if abs(q - round(q)) < 1e-9 and round(q) != 0:
                        return strip_mod(replace_atom(p, a, k[2]), period)
    return p


def congruent(p, spec, period, limit=64):
    """every alternative of p equals spec modulo period"""
    for x in alternatives(p, limit):
        x = strip_mod(x, period)
        for y in alternatives(x, limit):
            d = y - strip_mod(spec, period)
            c = d.const()
            if c is None or abs(c / period - round(c / period)) > 1e-9:
                return False
    return True
