"""C40: the element files read are those the arguments name.

The text handed to every fopen is a gated expression; as a sequence of pieces it is compared with that of the
documentation.  The pass of the file loop (which lines of a list are used, when another pass follows) is compared as
condition, with the outcome of reading the list as symbols.
"""
import outs, gvn, eqv, prog, scan, ir
from gvn import T, P, A, ite, cmp0, cor, cand, cnot, b2i

GOT, LINE, C0, LEN = A('sym', 'list line read'), A('sym', 'list line'), A('sym', 'first character'), A('sym', 'length of the line')
ENDS = '\r\n'
DEFDIR = '/usr/local/TLErepo'


def run(c):
    for name in ('sat_skymap', 'sat_visibility'):
        o = outs.Outs(c, name, ['trimend'])
        Files(c, o, name).all()
    c.need(8, 'file names and conditions compared with their definition')
    outs.assumptions(c)
    c.assume('no file name or list line is longer than the buffers for them')


class Files:
    def __init__(self, c, o, name):
        self.c, self.o, self.name = c, o, name
        self.pr, self.ev = o.pr, o.pr.ev
        self.mod = o.pr.mod
        op = [i for i in o.fn.insts() if i.op in ('call', 'invoke') and i.callee in ('fopen', 'fopen64')]
        self.elem = [i for i in op if scan.innermost(o, i.bb)]
        self.list = [i for i in op if i not in self.elem]
        self.listname, self.elemnames, self.first = None, [], None
        self.memo, self.kept, self.outer = {}, {}, set()
        argv, argc = A('sym', 'argv'), A('sym', 'argc')
        first = A('deref', argv + 8, 8)
        first = A('mem', 'argv', 8, 8)
        dash = cmp0('eq', A('deref', first, 1) - 45)
        self.arg = A('deref', argv + ite(dash, argc - 1, P(1)) * 8, 8)
        self.islist = cmp0('eq', A('deref', self.arg, 1) - 64)

    def ob(self, rule, what, ok, where, detail=''):
        self.c.count('file names and conditions compared with their definition')
        self.c.ob(rule, '%s: %s' % (self.name, what), ok, where, '' if ok else detail, key='%s|%s' % (self.name, what))

    def same(self, rule, what, v, w, where, env=None):
        ws = []
        ok = eqv.same(v, w, None, env or eqv.EMPTY, 1000, ws, 60)
        self.ob(rule, what, ok, where, '' if ok else eqv.explain(ws) + '; found ' + gvn.brief(v, 0, 300)[:300])
        return ok

    # ---- texts as sequences of pieces
    def norm(self, p):
        return gvn.subst(p, self.f, self.memo)

    def f(self, key):
        if key[0] == 'app':
            b = [x for x in key if not prog.is_site(x)]
            r = self.text(key, b)
            if r is None and len(b) < len(key):
                r = self.norm(A(*b))
            return r
        if key[0] == 'strp' and isinstance(key[1], gvn.Poly):
            return self.strp(key[1])
        if key[0] == 'strset' and len(key) == 4:
            k, at = kind(key[1]), key[2].const() if isinstance(key[2], gvn.Poly) else None
            if k[:3] == ('app', 'strncpy', 'out0') and zero(key[3]) and at is not None and at >= 90 and k[-1].const() == at:
                return self.norm(k[-2])         # terminated at the end of its array
            q = self.norm(key[1])
            s = self.cutset(self.norm(key[2])) if zero(key[3]) else None
            if s and (q == LINE or kind(q)[0] == 'cut'):
                return A('cut', ''.join(sorted(set(s) | set(kind(q)[1] if q != LINE else ''))))
        if key[0] == 'field' and key[2] == 0 and key[3] == 1:
            q = self.norm(key[1])
            if q == LINE:
                return C0
            if kind(q)[0] == 'cut' and set(kind(q)[1]) >= set(ENDS):
                return ite(cmp0('eq', LEN), P(0), ite(cmp0('eq', C0), P(1), C0))
        if key[0] == 'clobber' and key[3:] == (0, 1):
            i = self.o.fn.inst.get(key[2])
            if i is not None and i.op == 'store' and self.ev.val(i.args[0]).const() == 0:
                s = self.cutset(self.norm(self.o.deep(self.ev.val(i.args[1]))))
                if s and set(s) >= set(ENDS):
                    return ite(cmp0('eq', LEN), P(0), ite(cmp0('eq', C0), P(1), C0))
        if key[0] == 'clobber' and key[3:] == (0, 'str'):
            i = self.o.fn.inst.get(key[2])
            if i is not None and i.op == 'store' and self.ev.val(i.args[0]).const() == 0:
                q = self.norm(self.o.deep(self.ev.val(i.args[1])))
                s = self.cutset(q)
                was = [k for k in (T.akey[a] for a in eqv.atoms_of(q)) if k == T.akey[LINE.single_atom()] or k[0] == 'cut']
                if s and was:
                    return A('cut', ''.join(sorted(set(s) | {c for k in was if k[0] == 'cut' for c in k[1]})))
        if key[0] == 'ite':
            x, y = self.norm(key[2]), self.norm(key[3])
            for u, v in ((x, y), (y, x)):       # a terminator put only where the line has an end character
                if kind(u)[0] == 'cut' and (v == LINE or kind(v)[0] == 'cut') and len(kind(v)[1] if v != LINE else '') <= len(kind(u)[1]):
                    return u
        return None

    def text(self, key, b):
        n, w, a = key[1], key[2], b[3:]
        if n in ('snprintf', '__snprintf_chk', 'sprintf') and w == 'out0':
            i = next((k for k, x in enumerate(a) if self.const(x) is not None), None)
            if i is None:
                return None
            return self.fmt(self.const(a[i]), [self.norm(x) for x in a[i + 1:]])
        if n in ('strcpy', 'stpcpy') and w == 'out0':
            return self.norm(a[-1])
        if n == 'strncpy' and w == 'out0' and (a[-1].const() or 0) >= 100:
            return self.norm(a[-2])
        if n == 'strcat' and w == 'out0' and len(a) == 2:
            return cat(self.norm(a[0]), self.norm(a[1]))
        if n == 'fopen':
            q = self.norm(a[0])
            if self.listname is not None and q == self.listname:
                return A('sym', 'list file')
            return A('sym', 'element file') if any(x == q for x in self.elemnames) else None
        if n in ('fgets', 'getline') and len(a) > 1:
            s = self.norm(a[1])
            s = kind(s)[2] if kind(s)[0] == 'ite' and cond_same(kind(s)[1], self.islist) else s
            if s == A('sym', 'list file'):
                return GOT if w == 'ret' else LINE
            if s == A('sym', 'element file') and w == 'ret':
                at = [T.akey[x.single_atom()] for x in key[3:] if prog.is_site(x)]
                if self.first and any(k[2] == self.first.id for k in at):
                    return A('sym', 'first line')
                return A('sym', 'second line' if any(k[2] in self.outer for k in at) else 'next line')
            if s == A('sym', 'element file') and self.first:
                at = [T.akey[x.single_atom()] for x in key[3:] if prog.is_site(x)]
                return A('sym', 'text of the first line' if any(k[2] == self.first.id for k in at) else 'text of the line read')
        if n == 'strlen' and w == 'ret':
            q = self.norm(a[0])
            if kind(q)[0] == 'cut' and set(kind(q)[1]) >= set(ENDS):
                return LEN
        return None

    def cutset(self, q):
        """characters at the first of which the text is cut"""
        for a in eqv.atoms_of(q):
            k = T.akey[a]
            if k[0] == 'app' and k[1] in ('strcspn', 'strpbrk', 'strchr', 'strrchr'):
                c = self.const(k[4]) if k[1] in ('strcspn', 'strpbrk') else k[4].const()
                return c if isinstance(c, str) else chr(int(c)) if c is not None else None
        return None

    def const(self, x):
        a = x.single_atom() if isinstance(x, gvn.Poly) else None
        return T.akey[a][1] if a is not None and T.akey[a][0] == 'str' else None

    def fmt(self, s, args):
        out, lit, k = [], '', 0
        i = 0
        while i < len(s):
            if s[i] == '%':
                if s[i:i + 2] != '%s' or k >= len(args):
                    return None
                if lit:
                    out.append(A('str', lit))
                out.append(args[k])
                lit, k, i = '', k + 1, i + 2
            else:
                lit += s[i]
                i += 1
        if lit:
            out.append(A('str', lit))
        r = out[0] if out else A('str', '')
        for x in out[1:]:
            r = cat(r, x)
        return r

    def strp(self, q):
        a = q.single_atom()
        if a is None:
            return None
        k = T.akey[a]
        if k[0] == 'addr' and k[1][0] == 'global':
            s = self.mod.cstring(k[1][1])
            return A('str', s) if s is not None else None
        return None

    def filename(self, i):
        return self.norm(self.o.deep(self.pr.canon(self.ev.string(i.args[0], i))))

    def prepare(self):
        """names for the streams, and which read reads what"""
        for i in self.list[:1]:
            self.listname = self.filename(i)
            self.memo = {}
        self.elemnames = [self.filename(i) for i in self.elem]
        fn, o = self.o.fn, self.o
        i = self.elem[0]
        h = self.h = scan.passhead(o, i.bb)
        gets = [x for x in fn.insts() if x.op in ('call', 'invoke') and x.callee in ('fgets', 'getline') and x.bb in self.ev.loopheads[h]]
        self.mine = [x for x in gets if fn.dominates(i.bb, x.bb)]
        self.first = next((x for x in self.mine if all(x is y or fn.dominates(x.bb, y.bb) for y in self.mine)), None)
        self.lst = [x for x in gets if x not in self.mine]
        self.twin = set(o.twins(h))
        self.outer = {x.id for x in self.mine if scan.innermost(o, x.bb)[0] in self.twin}
        self.memo = {}

    def all(self):
        o = self.o
        rule = 'the file opened is the one the arguments name'
        self.ob(rule, 'list file', bool(self.list), self.name, 'no file is opened before the scan')
        self.ob(rule, 'element file', bool(self.elem), self.name, 'no element file is opened in the scan')
        if not self.elem:
            return
        deft, dird = A('sym', '?opt:T:flag'), A('sym', '?opt:D:flag')
        d = ite(cand(cmp0('ne', deft), cmp0('eq', dird)), A('str', DEFDIR), A('sym', 'opt:D:str'))
        sl = A('str', '/')
        want = cat(cat(d, sl), A('strp', self.arg + 1))
        for i in self.list:
            self.same(rule, 'list file', self.filename(i), want, i.where())
            e = eqv.assume(eqv.EMPTY, self.islist, False)
            self.same('a list is read only for an argument that begins with "@"', 'condition', b2i(self.entered(i)), P(0), i.where(), e)
        arg = A('strp', self.arg)
        single = ite(cmp0('eq', A('app', 'strchr', 'ret', arg, P(47))), cat(cat(d, sl), arg), arg)
        line = cat(cat(d, sl), A('cut', ''.join(sorted(ENDS))))
        got = {True: line, False: single}
        self.prepare()
        for i, v in zip(self.elem, self.elemnames):
            for t in (True, False):
                e = eqv.assume(eqv.EMPTY, self.islist, t)
                for c in (cmp0('ne', GOT), cmp0('ne', C0 - 35), cmp0('ne', LEN)) if t else ():
                    e = eqv.assume(e, c, True)
                w = self.cut(v, e)
                self.same(rule, 'element file, ' + ('list' if t else 'single file'), w, got[t], i.where(), e)
        self.passes()

    def entered(self, i):
        """conditions on which a file is opened"""
        c = gvn.TRUE
        for k, t in self.o.dominating(i.bb):
            c = cand(c, k if t else cnot(k))
        return c

    def passes(self):
        o, fn = self.o, self.o.fn
        i = self.elem[0]
        h, lst = self.h, self.lst
        body = self.ev.loopheads[h]
        many, one = [eqv.assume(eqv.EMPTY, self.islist, t) for t in (True, False)]
        skip = cor(cmp0('eq', C0 - 35), cmp0('eq', LEN))
        opened, first, second, nxt = [A('sym', x) for x in ('element file', 'first line', 'second line', 'next line')]
        yes = lambda x: (cmp0('ne', x), True)
        no = lambda x: (cmp0('eq', x), True)
        com = (cmp0('eq', C0 - 35), True)
        plain = (cmp0('eq', C0 - 35), False)
        rule = 'every line of a list that is not empty or a comment names a file'
        go = [self.norm(b2i(o.reach(h, x.bb))) for x in self.elem]
        go = go[0] if len(go) == 1 else b2i(cor(*[cmp0('ne', g) for g in go]))
        more = self.norm(o.again(h))
        lines = go
        if lst:
            hf = scan.passhead(o, lst[0].bb)
            if i.bb not in self.ev.loopheads[hf]:
                lines = self.norm(self.leaving(hf, h, i.bb))
        g = self.settle(self.cut(lines, many), h, True)
        self.same(rule, 'lines used', g, b2i(cand(cmp0('ne', GOT), cnot(skip))), i.where(), many)
        self.ob(rule, 'list read', bool(lst), i.where(), 'the list is not read in the scan')
        for x in lst[:1]:
            hf = scan.passhead(o, x.bb)
            v = self.norm(o.again(hf))
            for what, want, cs in (('a comment is followed by the next line', 1, [yes(GOT), com]),
                                   ('an empty line is followed by the next one', 1, [yes(GOT), plain, no(LEN)]),
                                   ('the end of the list ends the scan', 0, [no(GOT)])):
                self.under(rule, what, v, want, many, cs, h, x.where())
        rule = 'after the end of an element file the next one of the list is read, or the scan ends'
        self.under(rule, 'file of one line, list', more, 1, many, [yes(GOT), plain, yes(LEN), yes(opened), yes(first), no(second), no(nxt)],
                   h, i.where())
        calls = [x for x in fn.insts() if x.op in ('call', 'invoke') and x.callee == 'parse_elements']
        if calls:
            v = self.norm(o.events(o.again(scan.passhead(o, calls[0].bb))))
            self.under(rule, 'last line, list', v, 1, many, [yes(second), no(nxt), yes(A('sym', 'missing:parse'))], h, calls[0].where())
        rule = 'a single file is read once'
        s0 = self.entryvals(self.cut(go, one), h)
        self.same(rule, 'it is opened', gvn.subst(self.cut(go, one), lambda k: s0.get(k)), P(1), i.where(), one)
        nx = {}
        for k in s0:
            st = self.cut(self.norm(T.muinfo[T.atoms[k]][0].loopparts(T.atoms[k])[1]), one)
            nx[k] = gvn.subst(st, lambda q: s0.get(q))
        again = self.cut(gvn.subst(self.cut(go, one), lambda k: nx.get(k)), one)
        if again.const() != 0:
            m = self.cut(more, one)
            s0.update(self.entryvals(m, h))
            again = b2i(cand(cmp0('ne', gvn.subst(m, lambda k: s0.get(k))), cmp0('ne', again)))
        self.same(rule, 'and not again', again, P(0), i.where(), one)
        out = self.errors(h, body)
        rule = 'a file that cannot be opened or read ends the program'
        for what, cs, code in (('cannot be opened', [no(opened)], 2), ('first line cannot be read', [yes(opened), no(first)], 254)):
            for t, e, fs in (('list', many, [yes(GOT), plain, yes(LEN)]), ('single file', one, [])):
                c = self.norm(b2i(out.get(code, gvn.FALSE)))
                self.under(rule, '%s, %s' % (what, t), c, 1, e, fs + cs, h, i.where(), t == 'list')

    def leaving(self, hf, h, bb):
        """condition on which a pass of the loop at hf leads out of it towards a block of the loop around it"""
        o, fn = self.o, self.o.fn
        seen, st = {bb}, [bb]
        while st:
            x = st.pop()
            if x in self.twin:
                continue
            for p in fn.pred[x]:
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        body, out = self.ev.loopheads[hf], gvn.FALSE
        for p in sorted(body):
            for s in fn.succ[p]:
                if s in body or s not in seen or s in self.twin:
                    continue
                out = cor(out, self.edge(hf, p, s))
        return b2i(out)

    def edge(self, h, p, s):
        """condition on which a pass of the loop at h takes an edge"""
        o, fn = self.o, self.o.fn
        r = P(1) if p == h else o.reach_val(h, p)
        t = fn.blocks[p][-1]
        e = P(1)
        if t.op == 'br' and len(fn.succ[p]) == 2 and fn.succ[p][0] != fn.succ[p][1]:
            k = o.deepc(self.ev.cond(t.args[0]))
            e = b2i(k if fn.succ[p][0] == s else cnot(k))
        return cand(cmp0('ne', r), cmp0('ne', e))

    def under(self, rule, what, v, want, env, cs, h, where, many=True):
        """v has the value wanted where the conditions hold"""
        for c, t in cs:
            env = eqv.assume(env, c, t)
        v = self.cut(v, env)
        if many:
            v = self.settle(v, h, many)
        else:
            s0 = self.entryvals(v, h)
            v = gvn.subst(v, lambda k: s0.get(k))
        self.same(rule, what, self.cut(v, env), P(want), where, env)

    def cut(self, v, env):
        """without the joins the facts decide"""
        def f(key):
            if key[0] == 'ite':
                d = eqv.truth(key[1], env)
                if d is not None:
                    return self.cut_(key[2] if d else key[3], f, fc, memo)
            return None

        def fc(c):
            d = eqv.truth(c, env)
            return None if d is None else gvn.TRUE if d else gvn.FALSE
        memo = {}
        return gvn.subst(v, f, memo, fc)

    def cut_(self, v, f, fc, memo):
        return gvn.subst(v, f, memo, fc)

    def entryvals(self, v, h):
        """loop-carried values of the file loop with their values on entry"""
        out = {}
        tw = self.heads(h)
        todo, seen = [v], set()
        while todo:
            for a in eqv.atoms_of(todo.pop()) - seen:
                seen.add(a)
                if T.akey[a][0] == 'mu' and a in T.muinfo and outs.loopof(a)[1] in tw:
                    x = self.start(a, tw)
                    if x is not None:
                        out[T.akey[a]] = x
                        todo.append(self.norm(self.o.events(T.muinfo[a][0].loopparts(a)[1])))
        return out

    def heads(self, h):
        loops = self.ev.loopheads
        top = max((g for g in loops if h in loops[g]), key=lambda g: len(loops[g]), default=h)
        return {g for g in loops if g in loops[top]}

    def start(self, a, tw, depth=0):
        x = self.norm(T.muinfo[a][0].loopparts(a)[0])
        b = x.single_atom()
        if b is not None and T.akey[b][0] == 'mu' and b in T.muinfo and outs.loopof(b)[1] in tw and depth < 4:
            return self.start(b, tw, depth + 1)
        return x if x.const() is not None else None

    def settle(self, v, h, many):
        """replace what keeps its entry value in every pass"""
        e = eqv.assume(eqv.EMPTY, self.islist, many)
        s0 = self.entryvals(v, h)
        ok = {}
        for k, x in s0.items():
            if (k, many) not in self.kept:
                a = T.atoms[k]
                ei = e if outs.loopof(a)[1] in self.twin else eqv.assume(e, cmp0('ne', A('sym', 'second line')), True)
                old = lambda q: s0.get(q)
                st = self.cut(gvn.subst(self.norm(self.o.events(T.muinfo[a][0].loopparts(a)[1])), old), ei)
                if st != x:
                    g = self.cut(gvn.subst(self.norm(self.o.events(self.o.again(outs.loopof(a)[1]))), old), ei)
                    st = ite(cmp0('ne', g), st, x)
                self.kept[(k, many)] = st == x or eqv.same(st, x, None, ei, 200, [], 5)
            if self.kept[(k, many)]:
                ok[k] = x
        return gvn.subst(v, lambda q: ok.get(q))

    def errors(self, h, body):
        """exit codes on the ways out of the file loop to the end of the program"""
        o, fn = self.o, self.o.fn
        out = {}
        for p in sorted(body):
            for s in fn.succ[p]:
                code = self.code(s) if s not in body else None
                if code is None:
                    continue
                out[code] = cor(out.get(code, gvn.FALSE), self.edge(h, p, s))
        return out

    def code(self, b):
        """exit code when everything from a block on leads to one and the same end"""
        fn, seen, st, codes = self.o.fn, {b}, [b], set()
        while st:
            x = st.pop()
            for i in fn.blocks[x]:
                if i.op in ('call', 'invoke') and i.callee == 'exit':
                    v = self.ev.val(i.args[0]).const()
                    codes.add(None if v is None else int(v) % 256)
                    break
                if i.op == 'ret':
                    codes.add(None)
            else:
                for s in fn.succ[x]:
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
        return codes.pop() if len(codes) == 1 else None


def zero(v):
    return isinstance(v, gvn.Poly) and v.const() == 0


def kind(x):
    a = x.single_atom() if isinstance(x, gvn.Poly) else None
    return T.akey[a] if a is not None else ('',)


def cond_same(c, d):
    return eqv.same_cond(c, d)


def pieces(x):
    k = kind(x)
    return list(k[1:]) if k[0] == 'cat' else [x]


def cat(x, y):
    return A('cat', *(pieces(x) + pieces(y)))

