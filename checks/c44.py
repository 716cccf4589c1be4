"""C44: name, international designator and catalogue number reported are those of the element set used.

The texts printed are gated expressions over the element set and the lines of the scan; the name buffer is followed
through the scan loop by induction (entry value, one pass).
"""
import outs, gvn, eqv, prog, scan, ir, texts
from gvn import T, P, A, ite, cmp0, cor, cand, cnot, b2i

NONE = A('str', 'none')


def run(c):
    for name, member in (('sat_skymap', 'satellites'), ('sat_visibility', 'satellite')):
        o = outs.Outs(c, name, ['trimend'])
        i = Ident(c, o, name)
        i.number()
        i.designator()
        i.names()
    c.need(6, 'texts compared with their definition')
    outs.assumptions(c)


class Ident:
    def __init__(self, c, o, name):
        self.c, self.o, self.name = c, o, name
        self.calls = [i for i in o.fn.insts() if i.op in ('call', 'invoke') and i.callee == 'parse_elements']
        if not self.calls:
            raise ir.AnalysisBroken('parse_elements is not called any more')
        self.call = self.calls[0]
        self.inner = set(o.twins(scan.passhead(o, self.call.bb)))
        self.seen = {}

    def ob(self, rule, what, ok, where, detail=''):
        self.c.count('texts compared with their definition')
        self.c.ob(rule, '%s: %s' % (self.name, what), ok, where, '' if ok else detail, key='%s|%s' % (self.name, what))

    def slots(self, *path):
        return [r for r in self.o.slots(*path) if any(len(p) > 1 and p[0].startswith('satellite') for p in r['paths'])]

    def number(self):
        recs = [r for r in self.slots('norad_n') if r['conv'] != 's']
        if not recs:
            self.ob('the catalogue number is that of the element set', 'norad_n', False, self.name, 'no number is printed there')
        for r in recs:
            v = self.o.value(r)
            self.ob('the catalogue number is that of the element set', 'norad_n', eqv.same(v, A('field', outs.TLE, 80, 4)),
                    r['inst'].where(), 'prints ' + gvn.brief(v, 0, 200)[:200])

    # ---- canonical texts
    def norm(self, p):
        """without call sites; pointers to constant strings by their text"""
        mod = self.o.pr.mod

        def f(key):
            if key[0] == 'app':
                if any(prog.is_site(x) for x in key[3:]):
                    return gvn.subst(A(*[x for x in key if not prog.is_site(x)]), f)
                if key[1:3] == ('trimend', 'out0') and len(key) == 4:
                    return self.trim(gvn.subst(key[3], f))
                return None
            if key[0] == 'strp' and isinstance(key[1], gvn.Poly):
                return self.strp(key[1], mod)
            return None
        return gvn.subst(texts.canon(gvn.subst(p, f)), f)

    def trim(self, x):
        """trimend of a text: of constants, of choices, and of texts trimmed already"""
        a = x.single_atom()
        k = T.akey[a] if a is not None else ('',)
        if k[0] == 'ite':
            return ite(k[1], self.trim(k[2]), self.trim(k[3]))
        if k[0] == 'str':
            return A('str', k[1].rstrip())
        if k[:3] == ('app', 'trimend', 'out0'):
            return x
        return A('app', 'trimend', 'out0', x)

    def strp(self, q, mod):
        a = q.single_atom()
        if a is None:
            return None
        k = T.akey[a]
        if k[0] == 'addr' and k[1][0] == 'global':
            s = mod.cstring(k[1][1])
            return A('str', s) if s is not None else None
        if k[0] == 'ite':
            x, y = self.strp(k[2], mod), self.strp(k[3], mod)
            if x is not None and y is not None:
                return ite(k[1], x, y)
        return None

    def designator(self):
        rule = 'the designator is that of the element set, in full'
        recs = self.slots('intl_desig')
        if not recs:
            self.ob(rule, 'intl_desig', False, self.name, 'no designator is printed')
        for r in recs:
            v = self.norm(self.o.value(r))
            want = self.want()
            if want is None:
                self.ob(rule, 'intl_desig', False, r['inst'].where(), 'prints ' + gvn.brief(v, 0, 300)[:300])
                continue
            byi = self.byi()
            held = {}
            ok, why = True, ''
            for a in sorted(eqv.atoms_of(v)):
                if T.akey[a][0] != 'mu' or a not in T.muinfo:
                    continue
                ok, why = self.keeps(a, want, byi)
                if not ok:
                    break
                held[T.akey[a]] = ite(byi, want, NONE)
            if ok:
                w = self.norm(gvn.subst(v, lambda k: held.get(k)))
                ws = []
                ok = eqv.same(w, want, None, eqv.EMPTY, 1000, ws, 60)
                why = eqv.explain(ws) if not ok else ''
            self.ob(rule, 'intl_desig', ok, r['inst'].where(), why)

    def byi(self):
        """the designator option alone selects"""
        return cand(cmp0('ne', self.o.sym('i')), cmp0('eq', self.o.sym('s')))

    def want(self):
        ds = lambda off: A('field', outs.TLE, off, 'str')
        full = A('app', 'snprintf', 'out0', A('strp', P(12)), A('str', '%s%.2s-%s'),
                 ite(cmp0('lt', A('app', 'atoi', 'ret', ds(94)) - 57001), A('str', '20'), A('str', '19')), ds(94), ds(96))
        return self.norm(A('app', 'trimend', 'out0', ite(cmp0('eq', A('field', outs.TLE, 94, 1) - 32), NONE, full)))

    def keeps(self, a, want, byi, depth=0):
        """what the loop carries is "none" until a designator is compared, and then that of the element set"""
        if a in self.seen:
            return self.seen[a]
        self.seen[a] = True, ''
        init, step, cont = T.muinfo[a][0].loopparts(a)
        init, step = self.norm(init), self.norm(step)
        me = gvn.Poly({((a, 1),): 1.0})
        h = outs.loopof(a)[1]
        ok, why = True, ''
        for l in leaves(init) + ([] if h in self.inner else leaves(step)):
            m = l.single_atom()
            if l == NONE or m == a:
                continue
            if m is not None and T.akey[m][0] == 'mu' and m in T.muinfo:
                ok, why = self.keeps(m, want, byi)
            elif h in self.inner or not self.isdes(l):
                ok, why = False, 'starts as ' + gvn.brief(l, 0, 200)[:200]
            if not ok:
                break
        if ok and h in self.inner:
            step = self.o.events(step)
            parse = A('sym', 'missing:parse')
            s = self.norm(gvn.subst(step, lambda k: NONE if k == T.akey[a] else None))
            e = eqv.assume(eqv.EMPTY, cmp0('eq', parse), True)
            ws = []
            if not eqv.same(ite(byi, s, NONE), ite(byi, want, NONE), None, e, 1000, ws, 60):
                ok, why = False, 'when -i compares designators: ' + eqv.explain(ws)
            if ok and not eqv.same(ite(byi, me, step), me, None, eqv.EMPTY, 1000, ws, 60):
                ok, why = False, 'changed without -i: ' + eqv.explain(ws)
        self.seen[a] = ok, why
        return ok, why

    def isdes(self, l):
        m = l.single_atom()
        return m is not None and T.akey[m][:2] == ('app', 'trimend')

    # ---- names
    def names(self):
        rule = 'the name is the last line before the element set that is not part of one'
        pr, ev = self.o.pr, self.o.pr.ev
        recs = self.slots('name')
        if not recs:
            self.ob(rule, 'name', False, self.name, 'no name is printed')
        cl = self.call
        l1, l2 = [self.norm(self.o.deep(pr.canon(ev.string(cl.args[k], cl)))) for k in (0, 1)]
        b, off, _ = ev.ptr(ev.val(cl.args[1]))
        ch = []
        pos = cl.pos
        for k in (0, 1):
            ch.append(self.norm(self.o.deep(ev.cellread(b, off + k, 1, cl.bb, pos))))
        self.l2, self.ch = l2, ch
        self.name23 = lambda s: self.norm(A('app', 'trimend', 'out0', A('app', 'strncpy', 'out0', s, P(23))))
        isname = cor(cand(cmp0('ne', ch[0] - 49), cmp0('ne', ch[0] - 50)), cmp0('ne', ch[1] - 32))
        self.first = self.entry(l1)
        self.iname = isname
        for r in recs:
            v = self.norm(self.o.value(r))
            self.good = {}
            bad = [x for x in (self.text(l) for l in leaves(v)) if x]
            self.ob(rule, 'name', not bad, r['inst'].where(), '; '.join(bad)[:400])

    def entry(self, l1):
        """the line with which the scan of a file begins"""
        out, todo, seen = [], [l1], set()
        while todo:
            for l in leaves(todo.pop()):
                m = l.single_atom()
                if m is not None and T.akey[m][0] == 'mu' and m in T.muinfo:
                    if m not in seen:
                        seen.add(m)
                        init, step, _ = T.muinfo[m][0].loopparts(m)
                        if outs.loopof(m)[1] in self.inner:
                            todo.append(self.norm(init))
                else:
                    out.append(l)
        return out

    def text(self, l):
        m = l.single_atom()
        if any(l == self.name23(x) for x in self.first + [self.l2]):
            return ''
        if l.const() == 0 or l == A('str', ''):
            return ''
        if m is None or T.akey[m][0] != 'mu' or m not in T.muinfo:
            return 'prints ' + gvn.brief(l, 0, 200)[:200]
        if m in self.good:
            return self.good[m]
        self.good[m] = ''
        init, step, _ = T.muinfo[m][0].loopparts(m)
        init, step = self.norm(init), self.norm(step)
        bad = [x for x in (self.text(y) for y in leaves(init)) if x]
        h = outs.loopof(m)[1]
        if bad:
            r = 'starts with: ' + bad[0]
        elif h in self.inner:
            me = gvn.Poly({((m, 1),): 1.0})
            ws = []
            step = self.o.events(step)
            # after an element set was read the second line is no name line
            parse = A('sym', 'missing:parse')
            e = eqv.assume(eqv.EMPTY, cmp0('ne', parse), True)
            r = ''
            want = ite(self.iname, self.name23(self.l2), me)
            if not eqv.same(step, want, None, e, 1000, ws, 60):
                r = 'after a line that ends no element set: ' + eqv.explain(ws)
            else:
                e = eqv.assume(eqv.EMPTY, cmp0('eq', parse), True)
                for k, x in enumerate((50, 32)):
                    e = eqv.assume(e, cmp0('eq', self.ch[k] - x), True)
                if not eqv.same(step, me, None, e, 1000, ws, 60):
                    r = 'after an element set: ' + eqv.explain(ws)
        else:
            bad = [x for x in (self.text(y) for y in leaves(step)) if x]
            r = bad[0] if bad else ''
        self.good[m] = r
        return r


def leaves(p):
    a = p.single_atom()
    k = T.akey[a] if a is not None else ('',)
    if k[0] == 'ite':
        return leaves(k[2]) + leaves(k[3])
    return [p]
