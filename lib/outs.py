"""What a program prints, as expressions over the command-line settings and the element set, compared with the
specification functions of spec/*.c (reported value by reported value)."""
import os
import gvn, eqv, ir, spec
from gvn import T, P, A, Poly
from ir import AnalysisBroken

TLE = A('sym', 'TLE')

# role -> (option letter, kind, letters that must not occur, index among the values read or None)
ROLES = {
    'mjd': ('j', 'num', '', None), 'lat': ('l', 'num', '', 1), 'lon': ('l', 'num', '', 2), 'ht': ('l', 'num', '', 3),
    'ra': ('p', 'num', '', 1), 'dec': ('p', 'num', '', 2), 'radius': ('r', 'num', '', None), 'dt': ('t', 'num', '', None),
    'nmax': ('n', 'num', '', None), 'norad': ('s', 'num', '', None),
    'mjd0': ('j', 'num', '', 1), 'mjd1': ('j', 'num', '', 2),
    'E': ('E', 'flag', 'G', None), 'G': ('G', 'flag', '', None), 'H': ('H', 'flag', '', None),
    'I': ('I', 'flag', '', None), 'V': ('V', 'flag', '', None), 'S': ('S', 'flag', '', None),
    's': ('s', 'flag', 'ap', None), 'i': ('i', 'flag', 'ap', None), 'a': ('a', 'flag', 'G', None),
    'p': ('p', 'flag', '', None), 'T': ('T', 'flag', '', None), 'N': ('N', 'flag', '', None),
    'date': ('d', 'str', '', None), 'date0': ('d', 'str', '', 1), 'date1': ('d', 'str', '', 2),
}


class Outs:
    def __init__(self, c, program, keep=None):
        self.c = c
        self.name = program
        self.pr = c.program(program, keep)
        self.flow = c.flow(program, keep)
        self.fn = self.pr.main
        for r in self.flow.convs.values():
            if r['conv'] != 's':
                self.pr.val(r['op'])
            else:
                self.pr.canon(self.pr.ev.string(r['op'], r['inst']))
        self.roles = {}
        self.bad = []
        self._map = {}
        for r in ROLES:
            self._role(r)
        self._sets = {}
        for n, (at, init, forms, aid) in self.pr.named.items():
            self._flagsets(n, init, forms)
        for n in self._sets:
            d, v = self._sets[n][:2]
            self._map[('sym', n)] = P(d) + self.truth(n) * (v - d)
        self.dm = {}
        self.dp = {}

    # ---- settings
    def _role(self, r):
        L, kind, non, idx = ROLES[r]
        cand = []
        for n, (at, init, forms, aid) in sorted(self.pr.named.items()):
            _, letters, k = n.split(':')
            if L not in letters or any(x in letters for x in non) or not k.startswith(kind):
                continue
            k = k.split('~')[0]
            if k.startswith('strset'):
                continue
            if idx is not None and k != kind + str(idx):
                continue
            cand.append(n)
        if kind == 'str':                  # not the buffers that every option may fill (messages)
            least = min([len(n.split(':')[1]) for n in cand] or [0])
            cand = [n for n in cand if len(n.split(':')[1]) == least]
        if len(cand) == 1:
            self.roles[r] = cand[0]
        elif cand:
            self.roles[r] = None

    def _flagsets(self, n, init, forms):
        """a two-valued switch: (default, other value, letters that turn it on, letters that turn it off)"""
        if ':flag' not in n or len(init) != 1 or init[0].const() is None:
            return
        d = init[0].const()
        vs = {f.const() for fs in forms.values() for f in fs} - {d}
        if len(vs) != 1 or None in vs:
            return
        on = {L for L, fs in forms.items() if any(f.const() != d for f in fs)}
        off = {L for L, fs in forms.items() if any(f.const() == d for f in fs)}
        self._sets[n] = (d, vs.pop(), on, off)

    def truth(self, n):
        """truth value of a switch; a switch never turned off again is on whenever one of the switches that its own
        options always accompany is on"""
        on, off = self._sets[n][2:]
        cs = [gvn.cmp0('ne', A('sym', '?' + n))]
        if not off:
            for m, (d, v, on2, off2) in sorted(self._sets.items()):
                if m != n and on2 < on:
                    cs.append(gvn.cmp0('ne', A('sym', '?' + m)))
        return gvn.b2i(gvn.cor(*cs))

    def sym(self, r):
        """the setting that plays a role, as it occurs in canonical values"""
        if r in ('altmin', 'altmax'):
            c = [n for n, (at, init, forms, aid) in self.pr.named.items()
                 if n.startswith('opt:') and 'a' in n.split(':')[1] and n.split(':')[2].startswith('num') and
                 init and init[0].const() is not None and (init[0].const() < 1e9) == (r == 'altmin')]
            return A('sym', c[0]) if len(c) == 1 else A('sym', 'missing:' + r)
        n = self.roles.get(r)
        if n is None:
            return A('sym', 'missing:' + r)
        if n in self._sets:
            return self.truth(n)
        return A('sym', n)

    # ---- canonical values, also inside loops
    def _f(self, key):
        if key[0] == 'app':
            if key[1] == 'parse_elements' and key[2] == 'out2':
                return TLE
        elif key[0] == 'sym':
            return self._map.get(key)
        elif key[0] == 'mu':
            i = T.atoms.get(key)
            if i in T.muinfo and not (len(key) > 2 and key[2] and key[2][0] == 'deep'):
                if self.pr.mu_at_head(i):
                    return None
                return self._mu(i)
        return None

    def _mu(self, i):
        n = self.dm.get(i)
        if n is None:
            k = T.akey[i]
            n = A('mu', k[1], ('deep', self.name, k[2]))
            self.dm[i] = n
            j = n.single_atom()
            T.muinfo[j] = (Deep(self, i), None, {})
        return n

    def deep(self, p):
        p = self.pr.canon(p)
        r = self.dp.get(p)
        if r is None:
            r = self.dp[p] = gvn.subst(p, self._f)
        return r

    def deepc(self, c):
        a = self.deep(gvn.b2i(c))
        return gvn.cmp0('ne', a)

    def value(self, rec):
        op = rec['op']
        p = self.pr.ev.string(op, rec['inst']) if rec['conv'] == 's' else self.pr.ev.val(op)
        return self.deep(p)

    # ---- where values are printed
    def slots(self, *path, **kw):
        """conversions printed at a member path of the document (the last components are compared)"""
        out = []
        for r in self.flow.convs.values():
            if any(p[-len(path):] == path for p in r['paths']) and (kw.get('instring') in (None, *r['instring'])):
                out.append(r)
        return sorted(out, key=lambda r: r['inst'].id)

    def guard(self, bb, env=None):
        """facts that hold whenever a block is reached, from the branches that dominate it: (context, other conditions)"""
        env = env or eqv.EMPTY
        rest = gvn.TRUE
        for c, t in self.dominating(bb):
            e = eqv.assume(env, c, t)
            if e is env:
                rest = gvn.cand(rest, c if t else gvn.cnot(c))
            env = e
        return env, rest

    def dominating(self, bb):
        fn, out = self.fn, []
        idom = fn.idom()
        b = bb
        while True:
            d = idom.get(b)
            if d is None or d == b:
                break
            t = fn.blocks[d][-1]
            ss = fn.succ[d]
            if t.op == 'br' and len(ss) == 2 and ss[0] != ss[1]:
                for k in (0, 1):
                    # the edge d->ss[k] is on every path to bb
                    if fn.dominates(ss[k], bb) and self._only(d, ss[k]):
                        c = self.deepc(self.pr.ev.cond(t.args[0]))
                        out.append((c, k == 0))
            elif t.op == 'switch':
                pass
            b = d
        return out[::-1]

    def _only(self, d, s):
        return all(p == d or self.fn.dominates(s, p) for p in self.fn.pred[s])

    def reach(self, head, bb):
        """condition for one pass of the loop at head to get to block bb"""
        return gvn.cmp0('ne', self.reach_val(head, bb))

    def twins(self, head):
        """headers into which one source loop was split (one for each of its "continue"s), outermost first"""
        fn, out = self.fn, [head]
        while True:
            b = out[-1]
            s = fn.succ[b]
            if len(s) != 1 or s[0] not in self.pr.ev.loopheads or \
                    any(i.op != 'phi' for i in fn.blocks[b][:-1]):
                return out
            out.append(s[0])

    def _stops(self, head, v):
        tw = self.twins(head)
        body = self.pr.ev.loopheads[head]
        return {(p, t): v for k, t in enumerate(tw) for p in self.fn.pred[t] if p in body and (k == 0 or p != tw[k - 1])}

    def reach_val(self, head, bb):
        if bb == head:
            return P(1)
        body = self.pr.ev.loopheads[head]
        vals = {p: P(1) for p in self.fn.pred[bb] if p in body}
        v = self.pr.ev.gamma(head, bb, vals, body - {head}, P(0), self._stops(head, P(0)))
        return self.deep(v)

    def again(self, head):
        """value 1 when a pass of the loop at head is followed by another one, or by one of the loop around it"""
        loops = self.pr.ev.loopheads
        body = loops[head]
        st = self._stops(head, P(1))
        outer = sorted((h for h in loops if h != head and head in loops[h]), key=lambda h: len(loops[h]))
        outer = [h for h in outer if head not in self.twins(h)][:1]
        for h in outer:
            body = loops[h]
            st.update(self._stops(h, P(1)))
        return self.deep(self.pr.ev.gamma(head, -1, {}, body - {head}, P(0), st))

    def carried(self, head, a):
        """of a variable carried by the loop at head (split into twins or not): value on entry, value after one pass
        (0 where no pass follows)"""
        fn, ev = self.fn, self.pr.ev
        k = T.akey[a][2]
        k = k[2] if k[0] == 'deep' else k
        if k[0] != 'phi' or fn.inst[k[1]].bb not in self.twins(head):
            return None
        tw, body = self.twins(head), ev.loopheads[head]
        n = tw.index(fn.inst[k[1]].bb)
        st, first = {}, None
        op = None
        for j in range(len(tw) - 1, -1, -1):
            outer = [p for p in fn.pred[tw[j]] if (p not in body if j == 0 else p == tw[j - 1])]
            back = [p for p in fn.pred[tw[j]] if p in body and p not in outer]
            if j > n:
                for p in back:
                    st[(p, tw[j])] = Poly({((a, 1),): 1.0})
                continue
            phi = fn.inst[k[1]] if j == n else (fn.inst.get(op[1]) if op[0] == 'v' else None)
            if phi is None or phi.op != 'phi' or phi.bb != tw[j]:      # the entry value does not depend on this level
                v = ev.val(op)
                for p in back:
                    st[(p, tw[j])] = v
                first = v
                continue
            inc = {pb: v for v, pb in phi.d['inc']}
            for p in back:
                st[(p, tw[j])] = ev.val(inc[p])
            op = tuple(inc[outer[0]])
            first = ev.val(op)
        step = ev.gamma(tw[-1], -1, {}, body - set(tw), P(0), st)
        return self.deep(first), self.deep(step)

    def events(self, p):
        """outcomes of parsing and of the text comparisons in the element file scan, as symbols"""
        S = {}

        def f(key):
            if key[0] != 'app':
                return None
            n, w, a = key[1], key[2], key[3:]
            if n == 'parse_elements' and w == 'ret':
                return A('sym', 'missing:parse')
            if n == 'realloc' and w == 'ret':
                return P(1)                       # memory does not run out
            if n.startswith('llvm.is.fpclass'):
                return P(0)                       # not a NaN
            if w == 'ret' and n in ('strcmp', 'strstr'):
                k = [self.isopt(x) for x in a]
                if n == 'strcmp' and 'i' in k:
                    return A('sym', 'missing:des')
                if n == 'strstr' and len(a) > 1 and k[1] == 'S':
                    return A('sym', 'missing:nam')
                if n == 'strstr' and not any(k):
                    return A('sym', 'missing:dup')
            return None
        return gvn.subst(p, f)

    def isopt(self, x):
        a = x.single_atom()
        k = T.akey[a] if a is not None else ('',)
        return k[1].split(':')[1] if k[0] == 'sym' and str(k[1]).startswith('opt:') else None

    # ---- specification values
    def specval(self, specfile, name, given=None):
        """value of a specification function f(const set_t *s, const tle_t *tle)"""
        m = self.c.build.spec(specfile, 'flat', ir.API)
        fn = m.fn('spec_' + name)
        v, ev = spec.value(fn)
        roles = setfields(specfile)
        tag = tuple(sorted((r, x.key) for r, x in given.items())) if given else ()

        def f(key):
            if key[0] == 'obj' and key[1] == 'a1':
                return TLE
            if key[0] == 'mem' and key[1] == 'a1':
                return A('field', TLE, key[2], key[3])
            if key[0] == 'mem' and key[1] == 'a0' and key[2] % 8 == 0 and key[2] // 8 < len(roles):
                r = roles[key[2] // 8]
                return given[r] if given and r in given else self.sym(r)
            if key[0] == 'mu':
                i = T.atoms.get(key)
                if i in T.muinfo and key[2][0] != 'deep':
                    n = sm.get(i)
                    if n is None:
                        n = sm[i] = A('mu', key[1], ('deep', specfile, key[2]) + tag)
                        T.muinfo[n.single_atom()] = (SpecLoop(T.muinfo[i][0], i, f), None, {})
                    return n
            return None
        sm = {}
        return gvn.subst(v, f)

    def compare(self, specfile, items, rule, env=None, period=None, guard=True, limit=3000):
        """items: (spec name, slot records): what is printed there equals the specification"""
        sec = 60
        for name, recs in items:
            if not recs:
                self.c.ob(rule, name, False, self.name, 'nothing is printed there any more', key='%s|%s|none' % (specfile, name))
                continue
            vs = self.specval(specfile, name)
            for n, r in enumerate(recs):
                vc = self.value(r)
                e, rest = self.guard(r['inst'].bb, env) if guard else (env or eqv.EMPTY, gvn.TRUE)
                if rest != gvn.TRUE:
                    vc = gvn.ite(rest, vc, vs)
                why = []
                M = (period or {}).get(name)
                if M:
                    ok = eqv.same(eqv.residue(vc, M), eqv.residue(vs, M), M, e, limit, why, sec)
                else:
                    ok = eqv.same(vc, vs, None, e, limit, why, sec)
                if not ok:
                    sec = 15
                self.c.count('printed values compared with their specification')
                self.c.ob(rule, '%s: %s' % (self.name, name), ok, r['inst'].where(), '' if ok else eqv.explain(why),
                          key='%s|%s|%s' % (self.name, specfile, name))


def setfields(specfile):
    import re
    t = open(os.path.join(ir.VERIF, 'spec', specfile + '.c')).read()
    m = re.search(r'typedef struct \{([^}]*)\} set_t;', t)
    return re.findall(r'\w+', re.sub(r'\bdouble\b', '', m.group(1)))


def loopof(a):
    """(function, header block) of the loop a loop-carried value belongs to"""
    k = T.akey[a]
    x = k[2][2] if k[2][0] == 'deep' else k[2]
    return k[1], T.muinfo[a][0].fn.inst[x[1]].bb if x[0] == 'phi' else x[1]


class Narrow:
    """values where the facts of a context hold: joins that the facts decide are replaced by the arm taken.  In what a
    loop carries only facts are used that do not depend on that loop."""

    def __init__(self, env):
        self.env, self.memo, self.made, self.ok = env, {}, {}, {}

    def decide(self, c, loop):
        if c not in self.memo:
            self.memo[c] = eqv.truth(c, self.env)
        d = self.memo[c]
        if d is not None and loop is not None:
            if (c, loop) not in self.ok:
                self.ok[(c, loop)] = all(loopof(m) != loop for m in eqv.mus(gvn.b2i(c)))
            if not self.ok[(c, loop)]:
                return None
        return d

    def __call__(self, p, loop=None):
        def f(key):
            if key[0] == 'ite':
                d = self.decide(key[1], loop)
                if d is not None:
                    return self(key[2] if d else key[3], loop)
            elif key[0] == 'mu':
                i = T.atoms.get(key)
                if i in T.muinfo:
                    return self.mu(i)
            return None
        return gvn.subst(p, f)

    def mu(self, i):
        if i not in self.made:
            k = T.akey[i]
            self.made[i] = Poly({((i, 1),): 1.0})
            first = T.muinfo[i][0].loopparts(i)[0]
            if self(first, loopof(i)) == first:
                return self.made[i]
            NARROWED[0] += 1
            n = self.made[i] = A('mu', k[1], ('deep', 'facts%d' % NARROWED[0], k[2][2] if k[2][0] == 'deep' else k[2]))
            j = n.single_atom()
            T.muinfo[j] = (NarrowLoop(self, i), None, {})
            self.made[j] = n
        return self.made[i]


NARROWED = [0]


class NarrowLoop:
    def __init__(self, w, i):
        self.w, self.i = w, i
        self.fn = T.muinfo[i][0].fn

    def loopparts(self, j):
        init, step, cont = T.muinfo[self.i][0].loopparts(self.i)
        h = loopof(self.i)
        return self.w(init, h), self.w(step, h), gvn.cmp0('ne', self.w(gvn.b2i(cont), h))


class SpecLoop:
    def __init__(self, ev, i, f):
        self.ev, self.i, self.f, self.fn = ev, i, f, ev.fn

    def loopparts(self, j):
        init, step, cont = self.ev.loopparts(self.i)
        return gvn.subst(init, self.f), gvn.subst(step, self.f), gvn.cmp0('ne', gvn.subst(gvn.b2i(cont), self.f))


class Deep:
    """loop-carried value with its parts canonicalised on demand"""

    def __init__(self, o, i):
        self.o, self.i = o, i
        self.fn = o.fn

    def loopparts(self, j):
        init, step, cont = T.muinfo[self.i][0].loopparts(self.i)
        o = self.o
        return o.deep(init), o.deep(step), o.deepc(cont)


def dataslots(o, names, rule, specfile='sky'):
    """members of the "data" array of each satellite"""
    o.compare(specfile, [(n, o.slots('data', '[%d]' % k)) for n, k in names.items()], rule)


def assumptions(c):
    c.assume('real arithmetic: floating-point rounding is not modelled; constants are compared to 11 digits')
    c.assume('library functions (propagators, coordinate conversions) are compared as calls; they have their own properties')
    c.assume('results of library calls and of arithmetic on them are not NaN')
