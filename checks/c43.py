"""C43: the scan of an element file gives every line with the one before it to parse_elements, and sat_visibility goes on
with the first element set that is asked for.

The texts given to parse_elements are followed by induction over a pass of the line loop; reads and their outcomes are
symbols.  The end of the scan and what follows it are compared as conditions in the contexts that matter.
"""
import outs, gvn, eqv, scan
from gvn import T, P, A, ite, cmp0, cor, cand, cnot, b2i
from checks import c40

FIRST, READ = A('sym', 'text of the first line'), A('sym', 'text of the line read')
L1, L2 = A('sym', 'earlier line'), A('sym', 'later line')
PARSE, NEXT, SECOND = A('sym', 'missing:parse'), A('sym', 'next line'), A('sym', 'second line')
LEAST = 72          # a line of 69 columns, CR, LF and the terminator


def run(c):
    for name in ('sat_skymap', 'sat_visibility'):
        o = outs.Outs(c, name, ['trimend'])
        Lines(c, o, name).all()
    c.need(12, 'reads, texts and conditions compared with their definition')
    outs.assumptions(c)
    c.assume('no line of an element file is longer than the buffers for lines; parse_elements accepts no set whose first line is a second line (C18)')


def has(k):
    return cmp0('eq', k), False


def no(k):
    return cmp0('eq', k), True


class Lines(c40.Files):
    def ob(self, rule, what, ok, where, detail=''):
        self.c.count('reads, texts and conditions compared with their definition')
        self.c.ob(rule, '%s: %s' % (self.name, what), ok, where, '' if ok else detail, key='%s|%s' % (self.name, what))

    def all(self):
        o, fn = self.o, self.o.fn
        calls = [x for x in fn.insts() if x.op in ('call', 'invoke') and x.callee == 'parse_elements']
        rule = 'every line of an element file is tried with the line before it'
        self.ob(rule, 'lines are given to parse_elements', bool(calls) and bool(self.elem), self.name, 'parse_elements is not called, or no element file opened')
        if not calls or not self.elem:
            return
        self.prepare()
        x = calls[0]
        hi = self.hi = scan.passhead(o, x.bb)
        self.ob(rule, 'one place where lines are tried', len(calls) == 1 and hi != self.h, x.where(), 'parse_elements is called from %d places' % len(calls))
        self.same(rule, 'each pass tries its lines', self.ev_(o.reach_val(hi, x.bb)), P(1), x.where())
        heads = set(o.twins(hi))
        v1, v2 = [self.norm(self.o.deep(self.ev.string(x.args[k], x))) for k in (0, 1)]
        m1, m2 = self.carried(v1, heads), self.carried(v2, heads)
        rotated = m2 is not None
        if m1 is None or not (rotated or v2 == READ):
            self.ob(rule, 'texts tried', False, x.where(), 'the lines tried are %s and %s' % (gvn.brief(v1, 0, 200), gvn.brief(v2, 0, 200)))
            return
        table = self.names = dict([(k, L1) for k in self.versions(m1, heads)] + [(k, L2) for k in self.versions(m2, heads)])
        tr = lambda v: gvn.subst(self.ev_(v), lambda k: table.get(k))
        for m, first, what in ((m1, FIRST, 'line before'), (m2, READ, 'line')):
            for k in self.versions(m, heads):
                a = T.atoms[k]
                i, s = T.muinfo[a][0].loopparts(a)[:2]
                h = outs.loopof(a)[1]
                e = eqv.EMPTY
                if h == hi:
                    self.same(rule, 'the %s, first pass' % what, tr(i), first, x.where())
                else:
                    self.same(rule, 'the %s, kept from pass to pass' % what, tr(i), L1 if m == m1 else L2, x.where())
                e = eqv.assume(e, *has(NEXT))
                if m == m1:
                    e = eqv.assume(e, *has(PARSE))
                    g = tr(s)
                    g = ite(cmp0('ne', tr(self.o.again(h))), g, L2 if rotated else READ)
                    self.same(rule, 'the line before, next pass', self.cut(g, e), L2 if rotated else READ, x.where(), e)
                else:
                    self.same(rule, 'the line, next pass', tr(s), READ, x.where())
        inner = [g for g in self.mine if g.id not in self.outer]
        n = P(0)
        for g in inner:
            n = n + b2i(cmp0('ne', tr(o.reach_val(hi, g.bb))))
        again = tr(self.reread(hi, heads))
        nx = eqv.assume(eqv.assume(eqv.EMPTY, *has(NEXT)), *has(PARSE))
        again_ = self.settle(self.cut(again, nx), hi, True)
        self.same('one line is read per pass', 'reads in a pass', ite(cmp0('ne', again), n, P(1)), P(1), x.where())
        pre = len(self.outer) - 1
        self.ob('one line is read per pass', 'reads before the first pass', pre == (1 if rotated else 0), x.where(), '%d lines are read between the first line and the first pass' % pre)
        for g in self.mine:
            if g.callee == 'fgets':
                z = self.ev.val(g.args[1]).const()
                self.ob('lines are read whole', 'size of a read', z is not None and z >= LEAST, g.where(), 'at most %s characters are read' % z)
        self.same(rule, 'another line follows lines that are no element set', self.cut(again_, nx), P(1), x.where(), nx)
        if self.name == 'sat_visibility':
            self.choice(x, hi)

    def ev_(self, v):
        return self.norm(self.o.events(v))

    def reread(self, hi, heads):
        """value 1 when a pass is followed by another one of the same file"""
        o = self.o
        body = self.ev.loopheads[hi]
        return o.deep(self.ev.gamma(hi, -1, {}, body - {hi}, P(0), o._stops(hi, P(1))))

    def carried(self, v, heads):
        """the carried text a value is"""
        a = v.single_atom()
        if a is None or T.akey[a][0] != 'mu' or a not in T.muinfo or outs.loopof(a)[1] not in heads:
            return None
        return T.akey[a]

    def versions(self, k, heads):
        """the same text at the heads into which the loop was split, and in the values carried by it"""
        if k is None:
            return []
        cell = lambda q: q[2][2] if q[2] and q[2][0] == 'deep' else q[2]
        out, todo = [], [k]
        base = cell(k)
        while todo:
            q = todo.pop(0)
            if q in out:
                continue
            out.append(q)
            a = T.atoms[q]
            for v in T.muinfo[a][0].loopparts(a)[:2]:
                for b in eqv.atoms_of(v):
                    r = T.akey[b]
                    if r[0] == 'mu' and b in T.muinfo and outs.loopof(b)[1] in heads and r[1] == q[1] and \
                            base[0] == 'cell' and cell(r)[0] == 'cell' and cell(r)[2:] == base[2:]:
                        todo.append(r)
        return out

    # ---- the element set sat_visibility goes on with
    def choice(self, x, hi):
        o, fn = self.o, self.o.fn
        rule = 'the scan ends at the first element set asked for'
        s, i = A('sym', '?opt:s:flag'), A('sym', '?opt:i:flag')
        des = A('sym', 'missing:des')
        num = A('sym', 'opt:s:num') - A('field', outs.TLE, 80, 4)
        cases = []
        for what, cs in (('number', [has(s)]), ('designator', [no(s), has(i)])):
            key = num if what == 'number' else des
            for t in (True, False):
                cases.append((what, t, [no(PARSE)] + cs + [no(key) if t else has(key)]))
            cases.append((what + ', lines that are no element set', False, [has(PARSE)] + cs))
        again = self.ev_(self.reread(hi, set(o.twins(hi))))
        lost = self.notfound()
        self.ob(rule, 'not found', lost is not None, x.where(), 'the program does not end with code 1 after the scan')
        for what, t, cs in cases:
            for many in (True, False):
                e = eqv.assume(eqv.EMPTY, self.islist, many)
                w = '%s%s, %s' % (what, '' if 'no element' in what else ' equal' if t else ' different', 'list' if many else 'single file')
                self.under(rule, 'next line read: ' + w, again, 0 if t else 1, e, cs + [has(NEXT), has(SECOND)], hi, x.where())
                if lost is None:
                    continue
                opened, first, got = [A('sym', q) for q in ('element file', 'first line', 'list line read')]
                fs = [has(opened), has(first), has(SECOND)] + ([has(got), has(c40.C0 - 35), has(c40.LEN)] if many else [])
                if t:
                    self.under(rule, 'program goes on: ' + w, lost, 0, e, cs + fs, hi, x.where())
                elif not many:
                    self.under(rule, 'not found: ' + w, lost, 1, e, cs + fs + [no(NEXT)], hi, x.where())
        if lost is not None:
            self.under(rule, 'not found: end of the list', lost, 1, eqv.assume(eqv.EMPTY, self.islist, True), [no(c40.GOT)], hi, x.where())

    def notfound(self):
        """condition on which the program ends with code 1 after the scan"""
        o, fn = self.o, self.o.fn
        loop = self.ev.loopheads[self.h]
        for b in range(len(fn.blocks)):
            if b in loop or not fn.dominates(self.h, b) or self.code(b) != 1:
                continue
            ps = [p for p in fn.pred[b]]
            if any(self.code(p) == 1 for p in ps):
                continue
            out = gvn.FALSE
            for p in ps:
                t = fn.blocks[p][-1]
                if t.op != 'br' or len(fn.succ[p]) != 2:
                    return None
                k = o.deepc(self.ev.cond(t.args[0]))
                out = cor(out, k if fn.succ[p][0] == b else cnot(k))
            return self.ev_(b2i(out))
        return None
