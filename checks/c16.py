"""C16: the pass sat_visibility reports is the first run of samples in which the satellite is above the radius limit and lit.

One pass of the sampling loop is compared with the predicates of spec/vis.c (inside the radius, lit by the Sun, in the
height range) at the sample date; state carried from pass to pass is compared with what those conditions make of it.
"""
import outs, scan, gvn, eqv
from gvn import T, P, A, cand, cor, cnot, cmp0, b2i, ite
JDOFF = 2400000.5


def run(c):
    o = outs.Outs(c, 'sat_visibility')
    s = Pass(c, o)
    if not s.ok:
        return
    s.times()
    s.start()
    s.leave()
    s.end()
    s.closest()
    s.middle()
    s.count()
    c.need(14, 'conditions and carried values compared with their specification')
    outs.assumptions(c)


class Pass:
    def __init__(self, c, o):
        self.c, self.o, self.ok = c, o, False
        self.memo = {}
        recs = o.slots('sat_start', 'MJD')
        if len(recs) != 1:
            c.ob('the start is reported', 'sat_start', False, 'sat_visibility', '%d places print it' % len(recs))
            return
        self.rec = recs[0]
        self.h = scan.passhead(o, self.rec['inst'].bb)
        self.body = o.pr.ev.loopheads[self.h]
        when = o.value(self.rec) + JDOFF
        a = when.single_atom()
        if a is None or T.akey[a][0] != 'mu' or a not in T.muinfo or self.loop(a) not in o.twins(self.h):
            self.say('start and end are sample dates', 'sat_start.MJD', False, 'not the date of the sample: ' + gvn.brief(when, 0, 200)[:200])
            return
        self.t, self.ta = when, a
        sv = lambda n: o.specval('vis', n, {'jd': self.t})
        self.vis, self.inr, self.sep = cmp0('ne', sv('vis')), cmp0('ne', sv('height')), sv('sampsep')
        self.dt = o.sym('dt') * (1 / 86400.)
        self.reach = o.reach(self.h, self.rec['inst'].bb)
        self.ok = True

    def loop(self, a):
        return outs.loopof(a)[1] if T.akey[a][1] == self.o.fn.name else None

    def parts(self, a):
        """value on entry and after one pass"""
        if a not in self.memo:
            r = self.o.carried(self.h, a)
            self.memo[a] = r or T.muinfo[a][0].loopparts(a)[:2]
        return self.memo[a]

    def mine(self, p):
        """values carried by the sampling loop that p mentions directly (not through their definitions)"""
        tw = self.o.twins(self.h)
        return [a for a in sorted(eqv.atoms_of(p)) if T.akey[a][0] == 'mu' and a in T.muinfo and self.loop(a) in tw]

    def say(self, rule, what, ok, why='', where=None):
        self.c.ob(rule, what, ok, where or self.rec['inst'].where(), '' if ok else why, key=rule + '|' + what)

    def same(self, rule, what, p, q, env=None, where=None, all=False):
        why = []
        if not all:                      # of passes that do not end in an error
            p, q = ite(self.inr, p, P(0)), ite(self.inr, q, P(0))
        e = env or eqv.EMPTY
        if env is not None:
            w = outs.Narrow(e)
            p, q = w(p), w(q)
        ok = eqv.same(p, q, None, e, 3000, why, 60)
        self.c.count('conditions and carried values compared with their specification')
        self.say(rule, what, ok, eqv.explain(why) if not ok else '', where)
        return ok

    def samec(self, rule, what, p, q, env=None, where=None, all=False):
        """conditions: each implies the other"""
        both = cand(p, q)
        return self.same(rule, what + ' (if)', b2i(both), b2i(p), env, where, all) and \
            self.same(rule, what + ' (only if)', b2i(both), b2i(q), env, where, all)

    # ---- sample dates
    def times(self):
        o, rule = self.o, 'samples run from the start of the range in steps of delta_time'
        init, step = self.parts(self.ta)
        cont = self.cont()
        jd0, jd1 = o.sym('mjd0') + JDOFF, o.sym('mjd1') + JDOFF
        self.same(rule, 'step', ite(cont, step, P(0)), ite(cont, self.t + self.dt, P(0)))
        on = eqv.assume(eqv.EMPTY, cmp0('ne', o.sym('N')))
        off = eqv.assume(eqv.EMPTY, cmp0('eq', o.sym('N')))
        self.same(rule, 'first sample', init, jd0, off)
        # with -N: in steps of 0.0007 days until the Sun is down or the range ends
        w = outs.Narrow(on)(init)
        a = w.single_atom()
        if a is None or a not in T.muinfo:
            self.say(rule, 'first sample with -N', False, 'not found by stepping from the start of the range: ' + gvn.brief(w, 0, 200)[:200])
            return
        i2, s2, c2 = T.muinfo[a][0].loopparts(a)
        self.same(rule, 'start of the search with -N', i2, jd0, on)
        self.same(rule, 'step of the search with -N', ite(c2, s2, P(0)), ite(c2, w + 0.0007, P(0)))
        alt = o.specval('vis', 'salt', {'mjd': w - JDOFF})
        self.samec(rule, 'end of the search with -N', c2, cand(cmp0('le', -alt), cmp0('le', w - jd1)))

    # ---- start
    def start(self):
        rule = 'the pass starts at the first sample inside the radius and lit'
        fl = [a for a in self.mine(b2i(self.reach)) if a != self.ta and self.parts(a)[0].const() == 0]
        fl = [a for a in fl if self.flag(a)]
        if len(fl) != 1:
            self.say(rule, 'first time only', False, 'no state tells whether the start was reported')
            self.found = gvn.FALSE
            return
        self.fa = fl[0]
        f = self.found = cmp0('ne', Pa(self.fa))
        want = cand(cnot(f), self.vis)
        self.samec(rule, 'reported', self.reach, want)
        init, step = self.parts(self.fa)
        cn = self.cont()
        self.samec(rule, 'remembered', cand(cn, cmp0('ne', step)), cand(cn, cor(f, self.vis)))

    def flag(self, a):
        """carried value that the start report sets"""
        step = self.parts(a)[1]
        e = eqv.assume(eqv.EMPTY, self.reach)
        return eqv.same(ite(cand(self.reach, self.cont()), step, P(1)), P(1), None, eqv.EMPTY, 500, None, 20)

    def cont(self):
        return cmp0('ne', self.o.again(self.h))

    # ---- end of the loop
    def leave(self):
        rule = 'the pass ends at the first sample outside the radius or unlit, or with the range'
        jd1 = self.o.sym('mjd1') + JDOFF
        over = cor(cand(self.found, cnot(self.vis)), cnot(cmp0('le', self.t + self.dt - jd1)))
        err, fine = self.exits()
        self.samec(rule, 'another sample', self.cont(), cnot(over))
        self.samec('a sample outside the height range of -a is an error', 'condition', err, cnot(self.inr), all=True)

    def exits(self):
        """conditions on which a pass leads out of the loop: for good (process end), and to the events after it"""
        o, fn = self.o, self.o.fn
        body = self.body
        back = self.canreach(o.slots('sat_mid', 'MJD')[0]['inst'].bb)
        err, fine = [], []
        for p in sorted(body):
            for s in fn.succ[p]:
                if s in body:
                    continue
                ev = o.pr.ev
                r = gvn.P(1) if p == self.h else o.reach_val(self.h, p)
                t = fn.blocks[p][-1]
                e = P(1)
                if t.op == 'br' and len(fn.succ[p]) == 2 and fn.succ[p][0] != fn.succ[p][1]:
                    k = o.deepc(ev.cond(t.args[0]))
                    e = b2i(k if fn.succ[p][0] == s else cnot(k))
                (fine if s in back else err).append(cand(cmp0('ne', r), cmp0('ne', e)))
        return cor(*err), cor(*fine)

    def canreach(self, b):
        fn, seen, st = self.o.fn, {b}, [b]
        while st:
            x = st.pop()
            for p in fn.pred[x]:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def end(self):
        o, rule = self.o, 'the end is the sample that ended the pass'
        for r in o.slots('sat_end', 'MJD'):
            e, rest = o.guard(r['inst'].bb)
            self.same(rule, 'sat_end.MJD at ' + ('the sample' if r['inst'].bb in self.body or not self.after(r) else 'the end'),
                      ite(rest, o.value(r), self.t - JDOFF), self.t - JDOFF, e, r['inst'].where())
        self.c.ob(rule, 'reported', bool(o.slots('sat_end', 'MJD')), 'sat_visibility', 'sat_end is not reported', key='noend')

    def after(self, r):
        return any(r['inst'].bb in self.canreach(m['inst'].bb) for m in self.o.slots('sat_mid', 'MJD'))

    def post(self, field):
        """value printed after the loop, in the context in which it is printed"""
        r = self.o.slots(*field)[0]
        e, rest = self.o.guard(r['inst'].bb)
        return r, outs.Narrow(e)(self.o.value(r)), e, rest

    # ---- closest sample
    def closest(self):
        o, rule = self.o, 'sat_max is the first lit sample nearest to zenith'
        r, v, e, rest = self.post(('sat_max', 'MJD'))
        ms = [a for a in self.mine(v) if a != self.ta]
        tm = [a for a in ms if self.follows(a)]
        sm = [a for a in ms if self.smallest(a)]
        if len(tm) != 1 or len(sm) != 1:
            self.say(rule, 'kept', False, 'the date of the nearest lit sample is not kept', r['inst'].where())
            return
        near = cand(self.vis, cmp0('lt', self.sep - Pa(sm[0])))
        self.same(rule, 'sat_max.MJD', ite(rest, v + JDOFF, P(0)), ite(rest, ite(near, self.t, Pa(tm[0])), P(0)), e, r['inst'].where())
        i, st = self.parts(tm[0])
        cn = self.cont()
        self.same(rule, 'date kept', ite(cn, st, P(0)), ite(cn, ite(near, self.t, Pa(tm[0])), P(0)))
        i, st = self.parts(sm[0])
        self.same(rule, 'distance kept', ite(cn, st, P(0)), ite(cn, ite(near, self.sep, Pa(sm[0])), P(0)))
        self.say(rule, 'first sample', i.const() is not None and i.const() >= 180, 'compared with %s at first' % gvn.brief(i, 0, 60))

    def follows(self, a):
        """is a the date of some sample?"""
        return not self.smallest(a) and gvn.contains(self.parts(a)[1], lambda k: k == T.akey[self.ta])

    def smallest(self, a):
        """does a keep a separation?"""
        i = self.parts(a)[0].const()
        return i is not None and i > 1

    # ---- middle and duration
    def middle(self):
        o = self.o
        rule = 'sat_mid is half way from start to end'
        r, v, e, rest = self.post(('sat_mid', 'MJD'))
        first = outs.Narrow(e)(v * 2 - (self.t - JDOFF))
        ms = [a for a in self.mine(v) if a != self.ta and self.keepsstart(a)]
        if len(ms) != 1:
            self.say(rule, 'kept', False, 'the date of the start is not kept', r['inst'].where())
            return
        s = Pa(ms[0])
        now = ite(self.reach, self.t - JDOFF, s)
        cn = self.cont()
        self.same(rule, 'start kept', ite(cn, self.parts(ms[0])[1], P(0)), ite(cn, now, P(0)))
        self.same(rule, 'sat_mid.MJD', ite(rest, v, P(0)), ite(rest, 0.5 * (now + self.t - JDOFF), P(0)), e, r['inst'].where())
        self.now = now

    def keepsstart(self, a):
        return eqv.same(ite(cand(self.reach, self.cont()), self.parts(a)[1], P(0)),
                        ite(cand(self.reach, self.cont()), self.t - JDOFF, P(0)), None, eqv.EMPTY, 500, None, 20)

    # ---- count and duration
    def count(self):
        """the count is carried along with the fact that the start was found, as 0 or 1"""
        o, rule = self.o, 'n_sats_found is 1 exactly when a start was found'
        var = [r for r in o.slots('n_sats_found') if r['op'][0] == 'v']
        if not var or self.found == gvn.FALSE:
            self.say(rule, 'printed', False, 'the count is not printed')
            return
        k = scan.Counter(o, var[-1]['op'])
        self.say(rule, 'starts from zero', k.leaves <= {('i', 0), ('i', 1)}, 'values other than an incremented zero')
        for r in var:
            self.say(rule, 'latest count at ' + r['inst'].where(), k.latest(r['inst'], r['op']), 'prints a stale count', r['inst'].where())
        tw = o.twins(self.h)
        f = b2i(self.found)
        ns = {}
        for b in tw:
            for i in o.fn.blocks[b]:
                if i.op == 'phi' and i.id in k.web:
                    a = o.deep(o.pr.ev.val(('v', i.id))).single_atom()
                    if a is not None and T.akey[a][0] == 'mu' and a in T.muinfo:
                        ns[a] = f
        if any(a == self.fa for a in ns):            # the count itself is the memory
            ns = {self.fa: f}
        def as01(p):
            return gvn.subst(p, lambda key: ns.get(T.atoms.get(key)) if key[0] == 'mu' else None)
        cn = self.cont()
        for n, a in enumerate(sorted(ns)):
            st = as01(self.parts(a)[1])
            w = ite(cor(self.found, self.vis), P(1), P(0))
            self.same(rule, 'counted %d' % n, ite(cn, st, P(0)), ite(cn, w, P(0)))
        self.events(as01, ns)
        rule = 'sunlit_duration_minutes is the time from start to end, given when a start was found'
        for r in o.slots('sunlit_duration_minutes'):
            v = gvn.subst(o.value(r), lambda key: key[2] if key[:2] == ('fn', 'f32') else None)
            c = self.given(as01, ns, r['inst'].bb)
            self.same(rule, 'value', ite(c, as01(v), P(0)), ite(c, 1440 * (self.t - JDOFF - as01(self.now)), P(0)), None, r['inst'].where())
            zero = self.zerotrip()
            self.samec(rule, 'when', cand(zero, c), cand(zero, cor(self.found, self.vis)), None, r['inst'].where())
        for r in o.slots('sun', 'ra'):
            c = self.given(as01, ns, r['inst'].bb)
            zero = self.zerotrip()
            self.samec('the Sun at the start of the range is given when no start was found', 'when',
                       cand(zero, c), cand(zero, cnot(cor(self.found, self.vis))), None, r['inst'].where())

    def given(self, as01, ns, bb):
        """condition, from the state after the loop, on which a block after it is reached"""
        c = cand(*[x if t else cnot(x) for x, t in self.o.dominating(bb)
                   if not self.later(x) and gvn.contains(b2i(x), lambda key: key[0] == 'mu' and T.atoms.get(key) in ns or key == T.akey[self.fa])])
        f = gvn.subst(b2i(c), lambda key: b2i(self.found) if key == T.akey[self.fa] else None)
        return cmp0('ne', as01(f))

    def later(self, x):
        """is x about a loop that follows the sampling?"""
        for a in eqv.atoms_of(b2i(x)):
            if T.akey[a][0] == 'mu' and a in T.muinfo:
                h = self.loop(a)
                if h is None or h not in self.body and self.h in self.canreach(h):
                    return True
        return False

    def inloop(self, bb):
        """condition on which a pass gets to a block reached only from inside the loop"""
        fn = self.o.fn
        idom = fn.idom()
        while bb not in self.body and idom[bb] not in self.body and idom[bb] not in (None, bb):
            bb = idom[bb]
        return cmp0('ne', self.o.reach_val(self.h, bb))

    def events(self, as01, ns):
        """sat_mid, sat_max and one sat_end come exactly with a start"""
        o, rule = self.o, 'the events of a pass are reported exactly when a start was found'
        any_ = cor(self.found, self.vis)
        some = eqv.assume(eqv.assume(eqv.EMPTY, self.zerotrip()), self.inr)
        for ev in ('sat_mid', 'sat_max'):
            for r in o.slots(ev, 'MJD'):
                self.samec(rule, ev, self.given(as01, ns, r['inst'].bb), any_, some, r['inst'].where())
        into, post = gvn.FALSE, gvn.FALSE
        for r in o.slots('sat_end', 'MJD'):
            bb = r['inst'].bb
            if all(not o.fn.dominates(bb, m['inst'].bb) for m in o.slots('sat_mid', 'MJD')) and self.fromloop(bb):
                into = cor(into, self.inloop(bb))
            else:
                post = cor(post, self.given(as01, ns, bb))
        into = cmp0('ne', as01(b2i(into)))
        last = cnot(self.cont())
        self.samec(rule, 'sat_end', cand(last, cor(into, post)), cand(last, any_), some)
        self.samec(rule, 'sat_end twice', cand(last, into, post), gvn.FALSE, some)

    def fromloop(self, bb):
        fn = self.o.fn
        idom = fn.idom()
        while bb not in self.body:
            if idom[bb] in (None, bb):
                return False
            if any(p not in self.body and not fn.dominates(idom[bb], p) for p in fn.pred[bb]):
                return False
            if idom[bb] in self.body:
                return all(p in self.body for p in fn.pred[bb])
            bb = idom[bb]
        return True

    def zerotrip(self):
        """the range is not empty"""
        init = self.parts(self.ta)[0]
        return cmp0('le', init - (self.o.sym('mjd1') + JDOFF))


def Pa(a):
    return gvn.Poly({((a, 1),): 1.0})
