"""The scan over element sets of a program: what one pass of the loop does (conditions, counters, texts kept)."""
import gvn, eqv
from gvn import T, P, A
from ir import AnalysisBroken


def innermost(o, bb):
    """heads of the loops around a block, innermost first"""
    loops = o.pr.ev.loopheads
    return sorted((h for h in loops if bb in loops[h]), key=lambda h: len(loops[h]))


def passhead(o, bb):
    hs = innermost(o, bb)
    if not hs:
        raise AnalysisBroken('the records are not printed from a loop any more')
    h = hs[0]
    for g in hs[1:]:
        if h in o.twins(g):
            h = g
    return h


def cond(o, head, bb):
    """value 1 when one pass of the loop at head gets to bb, in terms of the scan's events"""
    return o.events(gvn.b2i(o.reach(head, bb)))


def agree(o, rule, name, vc, vs, where, limit=3000, sec=100, env=None):
    why = []
    ok = eqv.same(vc, vs, None, env or eqv.EMPTY, limit, why, sec)
    o.c.count('conditions and counters compared with their specification')
    o.c.ob(rule, '%s: %s' % (o.name, name), ok, where, '' if ok else eqv.explain(why), key='%s|%s' % (o.name, name))
    return ok


class Counter:
    """all SSA versions of a counter that is printed: start values, increments, and whether each use sees the latest"""

    def __init__(self, o, op):
        self.o = o
        self.fn = o.fn
        self.web, self.leaves, self.inc = set(), set(), {}
        self._collect(op)
        self._current()

    def _kind(self, i):
        """phi/select/add that carries the counter"""
        return i.op in ('phi', 'select', 'add')

    def _collect(self, op):
        st = [op]
        fn = self.fn
        while st:
            x = st.pop()
            if x[0] != 'v' or x[1] < len(fn.args):
                self.leaves.add(tuple(x[:2]))
                continue
            if x[1] in self.web:
                continue
            i = fn.inst[x[1]]
            if i.op == 'phi':
                self.web.add(i.id)
                st += [tuple(v) for v, _ in i.d['inc']]
            elif i.op == 'select':
                self.web.add(i.id)
                st += [tuple(a) for a in i.args[1:]]
            elif i.op == 'add':
                self.web.add(i.id)
                a, b = tuple(i.args[0]), tuple(i.args[1])
                if a[0] == 'i' or (b[0] == 'v' and not self._cyclic(a, i.id) and self._cyclic(b, i.id)):
                    a, b = b, a
                self.inc[i.id] = (a, b)
                st.append(a)
            elif i.op in ('zext', 'sext', 'trunc', 'freeze'):
                self.web.add(i.id)
                st.append(tuple(i.args[0]))
            else:
                self.leaves.add(('v', i.id))

    def _cyclic(self, x, target):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y[0] != 'v' or y[1] in seen or y[1] < len(self.fn.args):
                continue
            if y[1] == target:
                return True
            seen.add(y[1])
            i = self.fn.inst[y[1]]
            if i.op == 'phi':
                st += [tuple(v) for v, _ in i.d['inc']]
            elif i.op in ('select', 'add', 'zext', 'sext', 'trunc', 'freeze'):
                st += [tuple(a) for a in i.args]
        return False

    def _current(self):
        fn = self.fn
        # x+1 used only to choose between x and x+1: the choice is the increment
        self.sel = {}
        uses = {}
        for i in fn.insts():
            for a in (i.args if i.op != 'phi' else [v for v, _ in i.d['inc']]):
                if a and a[0] == 'v':
                    uses.setdefault(a[1], []).append(i)
        for n, (x, y) in list(self.inc.items()):
            us = uses.get(n, [])
            if us and all(u.op == 'select' and u.id in self.web and
                          x in (tuple(u.args[1]), tuple(u.args[2])) for u in us):
                for u in us:
                    self.sel[u.id] = (x, y, u.args[0], tuple(u.args[1]) == ('v', n))
                del self.inc[n]
        ins = {b: None for b in fn.blocks_ids()} if hasattr(fn, 'blocks_ids') else {b: None for b in range(len(fn.blocks))}
        order = fn.rpo()
        ins[0] = frozenset(l for l in self.leaves if l == ('i', 0))
        outs = {}
        changed = True
        self.before = {}
        while changed:
            changed = False
            for b in order:
                ps = [p for p in fn.pred[b] if outs.get(p) is not None]
                if b == 0:
                    s = ins[0]
                elif not ps:
                    continue
                else:
                    s = None
                    for p in ps:
                        s = outs[p] if s is None else s & outs[p]
                new = []
                for i in fn.blocks[b]:
                    if i.op != 'phi':
                        break
                    if i.id in self.web:
                        src = {pb: tuple(v) for v, pb in i.d['inc']}
                        if all((src[p] if src[p][0] == 'v' else src[p][:2]) in outs[p] for p in ps if p in src):
                            new.append(('v', i.id))
                cur = set(s) | set(new)
                for i in fn.blocks[b]:
                    if i.op == 'phi':
                        continue
                    self.before[i.id] = frozenset(cur)
                    if i.id in self.inc:
                        x = self.inc[i.id][0]
                        ok = (x if x[0] == 'v' else x[:2]) in cur
                        cur = {('v', i.id)} if ok else set()
                    elif i.id in self.sel:
                        x = self.sel[i.id][0]
                        ok = (x if x[0] == 'v' else x[:2]) in cur
                        cur = {('v', i.id)} if ok else set()
                    elif i.id in self.web and i.op == 'select':
                        if all((tuple(a) if a[0] == 'v' else tuple(a[:2])) in cur for a in i.args[1:]):
                            cur.add(('v', i.id))
                    elif i.id in self.web and i.op in ('zext', 'sext', 'trunc', 'freeze'):
                        if tuple(i.args[0]) in cur:
                            cur.add(('v', i.id))
                f = frozenset(cur)
                if outs.get(b) != f:
                    outs[b] = f
                    changed = True

    def latest(self, inst, op):
        """does op hold the latest count at an instruction?"""
        op = tuple(op)
        return (op if op[0] == 'v' else op[:2]) in self.before.get(inst.id, ())

    def sites(self):
        return [self.fn.inst[n] for n in list(self.inc) + list(self.sel)]

    def total(self, head):
        """what one pass of the loop at head adds; None when something is added elsewhere"""
        o, tot = self.o, P(0)
        for n in list(self.inc) + list(self.sel):
            i = self.fn.inst[n]
            hs = innermost(o, i.bb)
            if not hs or hs[0] != head:
                return None
            if n in self.inc:
                y = o.deep(o.pr.ev.val(self.inc[n][1]))
            else:
                x, inc, c, pos = self.sel[n]
                c = gvn.b2i(o.deepc(o.pr.ev.cond(c)))
                y = o.deep(o.pr.ev.val(inc)) * (c if pos else P(1) - c)
            r = gvn.cmp0('ne', o.reach_val(head, i.bb))
            tot = tot + gvn.ite(r, y, P(0))
        return o.events(tot)
