"""Program model on top of the value numbering: command-line settings as canonical atoms.

The argument loop is recognised by what it does (it branches on the second character of argv[i]); every value that
flows out of it is described by its default and by what each option letter assigns to it, so a setting is identified
by the options that set it and not by the name of a variable.
"""
import gvn, ir
from gvn import T, P, A, Poly
from ir import AnalysisBroken


def is_deref(k, size=None):
    return k[0] == 'deref' and (size is None or k[2] == size)


def is_site(x):
    a = x.single_atom() if isinstance(x, Poly) else None
    return a is not None and T.akey[a][0] == 'site'


def drop_sites(key):
    if key[0] == 'app' and any(is_site(x) for x in key[3:]):
        return A(*[x for x in key if not is_site(x)])
    return None


class Program:
    def __init__(self, build, name, form='flat', keep=None):
        self.name = name
        self.mod = build.module(name, form, ir.API + list(keep) if keep else None)
        self.main = self.mod.fn('main')
        self.main.name = name + ':main'          # atoms name their function: keep the programs apart
        self.ev = gvn.Ev(self.main, {0: 'argc', 1: 'argv'}, main=True)
        self.build = build
        self._find_scan()
        self._find_argloop()
        self.optcache = {}
        self.optname = {}
        self.named = {}
        self._letters = None
        self.canoncache = {}
        self._nmu = -1

    def _find_scan(self):
        """the element set as it is after the loop that reads element sets"""
        loops = self.ev.loopheads
        for i in self.main.insts():
            if i.op in ('call', 'invoke') and i.callee == 'parse_elements':
                b = self.ev.baseof(i.args[2])
                hs = [h for h in loops if i.bb in loops[h]]
                if b is None or not hs:
                    continue
                body = set().union(*(loops[h] for h in hs))
                if self.ev.scanned is None:
                    self.ev.scanned = (b, body, A('sym', 'TLE'))
                elif self.ev.scanned[0] == b:
                    self.ev.scanned = (b, self.ev.scanned[1] | body, A('sym', 'TLE'))

    def _find_argloop(self):
        fn, ev = self.main, self.ev
        cand = {}
        for b in fn.rpo():
            t = fn.blocks[b][-1]
            ops = []
            if t.op == 'switch':
                ops = [t.args[0]]
            elif t.op == 'br' and len(fn.succ[b]) == 2 and t.args[0][0] == 'v':
                i = fn.inst.get(t.args[0][1])
                if i is not None and i.op == 'icmp':
                    ops = i.args
            for o in ops:
                if o[0] != 'v':
                    continue
                p = ev.val(o)
                a = p.single_atom()
                if a is None or T.akey[a][0] != 'deref' or T.akey[a][2] != 1:
                    continue
                q = T.akey[a][1]
                # q = 1 + deref(argv + 8*i)
                if q.t.get((), 0) != 1 or len(q.t) != 2:
                    continue
                r = (q - 1).single_atom()
                if r is None or T.akey[r][0] != 'deref' or T.akey[r][2] != 8:
                    continue
                base = T.akey[r][1]
                mus = [x for x in base.atoms() if T.akey[x][0] == 'mu']
                if not gvn.contains(base, lambda k: k == ('sym', 'argv')) or len(mus) != 1:
                    continue
                cand.setdefault((a, r, mus[0]), []).append(b)
        if not cand:
            raise AnalysisBroken('anchor vanished: no option-dispatch loop over argv found in %s' % self.name)
        (self.charatom, self.argatom, self.iatom), blocks = max(cand.items(), key=lambda kv: len(kv[1]))
        self.dispatch = blocks
        key = T.akey[self.iatom][2]
        self.head = fn.inst[key[1]].bb if key[0] == 'phi' else key[1]
        self.body = ev.loopheads[self.head]
        self.char0 = A('deref', Poly({((self.argatom, 1),): 1.0}), 1).single_atom()
        self.char2 = A('deref', Poly({((self.argatom, 1),): 1.0}) + 2, 1).single_atom()

    # ---- settings
    def mu_at_head(self, aid):
        k = T.akey[aid]
        if k[0] != 'mu' or k[1] != self.main.name:
            return False
        key = k[2]
        return (self.main.inst[key[1]].bb if key[0] == 'phi' else key[1]) == self.head

    def mu_alts(self, aid):
        alts = [gvn.resolve_mu(x) for x in T.mudefs.get(aid, [])]
        me = T.akey[aid]
        back = [x for x in alts if gvn.contains(x, lambda k: k == me)]
        init = [x for x in alts if x not in back]
        return init, back

    def at_letter(self, p, L, space=None):
        """value p (a back-edge expression) specialised to option letter L"""
        def f(key):
            if key == T.akey[self.charatom]:
                return P(ord(L))
            if key == T.akey[self.char0]:
                return P(45)
            if space is not None and key == T.akey[self.char2]:
                return P(0) if space else P(120)
            return None
        return gvn.subst(p, f)

    def walk_letter(self, L):
        """blocks of one argument-loop iteration for option letter L -> (blocks, reaches the back edge)"""
        fn = self.main
        seen, st, back = set(), [self.head], False
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            t = fn.blocks[b][-1]
            ss = list(dict.fromkeys(fn.succ[b]))
            if t.op == 'br' and len(ss) == 2:
                c = self.at_letter(gvn.b2i(self.ev.cond(t.args[0])), L).const()
                if c is not None:
                    ss = [fn.succ[b][0] if c else fn.succ[b][1]]
            elif t.op == 'switch':
                c = self.at_letter(self.ev.val(t.args[0]), L).const()
                if c is not None:
                    ss = [next((s for v, s in t.d['cases'] if v == c), t.d['def'])]
            for s in ss:
                if s == self.head:
                    back = True
                elif s in self.body or b in self.body or s in seen or b != self.head:
                    if b == self.head and s not in self.body:
                        continue
                    st.append(s)
        return seen, back

    def letters(self):
        """option letters whose handling goes on with the next argument (the others end the program)"""
        if self._letters is None:
            self._letters = [L for L in map(chr, range(33, 127)) if self.walk_letter(L)[1]]
        return self._letters

    def setting(self, aid):
        """-> (defaults list, {letter: Poly}) for a header mu of the argument loop"""
        if aid in self.optcache:
            return self.optcache[aid]
        init, back = self.mu_alts(aid)
        me = Poly({((aid, 1),): 1.0})
        tab = {}
        letters = self.letters()
        for L in letters:
            forms = []
            for e in back:
                r = self.at_letter(e, L)
                if r != me and r not in forms:
                    forms.append(r)
            if forms:
                tab[L] = forms
        r = (init, tab)
        self.optcache[aid] = r
        return r

    def arg_canon(self, p):
        """replace pointers to the option's argument text by ARG and drop call-site markers"""
        i = Poly({((self.iatom, 1),): 1.0})
        argv = A('sym', 'argv')
        here = A('deref', argv + i * 8, 8)
        nxt = A('deref', argv + i * 8 + 8, 8)
        c2 = gvn.cmp0('eq', A('deref', here + 2, 1))
        forms = {gvn.ite(c2, nxt, here + 2)}
        j = i + gvn.ite(c2, P(1), P(0))
        forms.add(A('deref', argv + j * 8, 8) + gvn.ite(c2, P(0), P(2)))
        j = gvn.ite(c2, i + 1, i)
        forms.add(A('deref', argv + j * 8, 8) + gvn.ite(c2, P(0), P(2)))
        ARG = A('sym', 'ARG')

        def f(key):
            if key[0] == 'strp' and key[1] in forms:
                return ARG
            return None

        def unsite(key):
            return drop_sites(key)
        return gvn.subst(gvn.subst(p, f), unsite)

    def optatom(self, aid):
        init, tab = self.setting(aid)
        d = tuple(sorted((self.arg_canon(x) for x in init), key=lambda p: repr(p.key)))
        items = []
        me = Poly({((aid, 1),): 1.0})
        SELF = A('sym', 'SELF')
        for L, forms in sorted(tab.items()):
            fs = tuple(sorted((self._replace_mu(self.arg_canon(x), aid, SELF) for x in forms),
                              key=lambda p: repr(p.key)))
            items.append((L, fs))
        return A('opt', ''.join(L for L, _ in items), d, tuple(items), ) if items else A('optconst', d)

    def namedopt(self, aid):
        """a setting as a symbol named by the options that set it: opt:<letters>:<kind>"""
        if aid in self.optname:
            return self.optname[aid]
        at = self.optatom(aid)
        k = T.akey[at.single_atom()]
        if k[0] == 'optconst':
            r = k[1][0] if len(k[1]) == 1 else at
            self.optname[aid] = r
            return r
        letters, init, items = k[1], k[2], k[3]
        forms = [f for _, fs in items for f in fs]
        cell = T.akey[aid][2]
        outs = set()
        for f in forms:
            for c in gvn.collect(f, lambda x: x[0] == 'app' and x[1] == 'sscanf' and str(x[2]).startswith('out')):
                outs.add(int(c[2][3:]) - 1)
        if cell[0] == 'cell' and cell[4] == 'str':
            kind = 'str'
            if outs:
                kind += ''.join(map(str, sorted(outs)))
        elif all(f.const() is not None for f in forms):
            kind = 'flag'
        elif any(gvn.contains(f, lambda x: x[0] == 'app' and x[1] == 'strlen') for f in forms):
            kind = 'len'
        else:
            kind = 'num' + ''.join(map(str, sorted(outs)))
        name = 'opt:%s:%s' % (letters, kind)
        n = name
        j = 1
        while n in self.named and self.named[n][0] != at:
            j += 1
            n = '%s~%d' % (name, j)
        self.named[n] = (at, init, dict(items), aid)
        r = A('sym', n)
        self.optname[aid] = r
        return r

    def _replace_mu(self, p, aid, by):
        me = T.akey[aid]
        return gvn.subst(p, lambda k: by if k == me else None)

    def canon(self, p):
        """final form of a value used after the argument loop"""
        if len(T.mudefs) != self._nmu:
            if gvn.simplify_mus():
                self.canoncache.clear()
            self._nmu = len(T.mudefs)
        p = gvn.resolve_mu(p)
        r = self.canoncache.get(p)
        if r is not None:
            return r
        # E(mu) -> mu
        backmap = self._backmap(p)

        def f(key):
            i = T.atoms.get(key)
            if i is None:
                return None
            if key[0] == 'mu' and self.mu_at_head(i):
                return None
            m = backmap.get(i)
            if m is not None:
                return Poly({((m, 1),): 1.0})
            if key[0] == 'ite':
                for x, y in ((key[2], key[3]), (key[3], key[2])):
                    a = x.single_atom()
                    if a is not None and T.akey[a][0] == 'mu' and self.mu_at_head(a):
                        init, _ = self.mu_alts(a)
                        if y in init:
                            return x
            return None
        q = gvn.subst(p, f)

        def g(key):
            if key[0] == 'mu':
                i = T.atoms.get(key)
                if i is not None and self.mu_at_head(i) and i != self.iatom:
                    return self.namedopt(i)
            return None
        q = gvn.subst(q, g)
        self.canoncache[p] = q
        return q

    def _backmap(self, p):
        out = {}
        todo = list(gvn.collect(p, lambda k: k[0] == 'mu'))
        for k in todo:
            i = T.atoms[k]
            if not self.mu_at_head(i):
                continue
            _, back = self.mu_alts(i)
            for e in back:
                a = e.single_atom()
                if a is not None:
                    out[a] = i
        return out

    def val(self, op):
        return self.canon(self.ev.val(op))
