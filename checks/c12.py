"""C12: what each command-line option does, in both programs.

The option loop of main is specialised to each letter, with the value attached to the option or in the next argument;
what it does to every setting, to the argument position and to the program's life is compared with the table below,
and the table with the help text and the README.
"""
import os, re
import outs, gvn, eqv, ir, prog, texts
from gvn import T, P, A, ite, cmp0, cand, cor, cnot, b2i

ARG = A('sym', 'ARG')


def st(s):
    return A('str', s)


def scan(fmt, k):
    return A('app', 'sscanf', 'out%d' % (k + 1), ARG, st(fmt))


def num(k, n):
    return scan(','.join(['%lf'] * n), k)


ATOF = A('app', 'atof', 'ret', ARG)
LON = ite(cmp0('lt', num(2, 3)), num(2, 3) + 360, num(2, 3))
DAYS = '%23[^,],%23s'


def swap(least):
    a, b = num(1, 2), num(2, 2)
    c = cmp0('lt', b - a)
    return ite(c, b, a) if least else ite(c, a, b)


def text(p, size):
    return A('app', 'snprintf', 'out0', A('strp', P(size)), st('%s'), p)


def datetext(p):
    return A('strp', A('app', 'mjd2date', 'ret', p))


def jd(v):
    """set by -j unless a date was given"""
    return lambda given: ite(given, A('sym', 'SELF'), v)


def mjdof(x):
    return A('app', 'date2mjd_nf', 'out1', x)


# role: default, {letter: value}
COMMON = {
    'lat': (0, {'l': num(1, 3)}),
    'lon': (0, {'l': LON}),
    'ht': (None, {'l': num(3, 3)}),
    'altmin': (0, {'a': swap(True)}),
    'altmax': (1e32, {'a': swap(False)}),
    'radius': (None, {'r': ATOF}),
    'dt': (None, {'t': A('fn', 'trunc', ATOF)}),
    'norad': (0, {'s': A('app', 'strtol', 'ret', ARG, P(10))}),
    'des': (None, {'i': text(ARG, 12)}),
    'dir': (None, {'D': text(ARG, 128)}),
}
SETTINGS = {
    'sat_skymap': dict(COMMON, **{
        'ht': (2400, {'l': num(3, 3)}), 'radius': (20, COMMON['radius'][1]), 'dt': (1, COMMON['dt'][1]),
        'ra': (0, {'p': num(1, 2)}), 'dec': (0, {'p': num(2, 2)}),
        'nmax': (1000, {'n': scan('%d', 1)}),
        'mjd': (58861.5, {'d': mjdof(ARG), 'j': jd(ATOF)}),
        'date': ('2020-01-13T12:00:00', {'d': text(ARG, 24), 'j': jd(text(datetext(ATOF), 24))}),
        'name': (None, {'S': text(ARG, 24)}),
    }),
    'sat_visibility': dict(COMMON, **{
        'ht': (0, {'l': num(3, 3)}), 'radius': (90, COMMON['radius'][1]), 'dt': (3, COMMON['dt'][1]),
        'mjd0': (0, {'d': mjdof(scan(DAYS, 1)), 'j': jd(num(1, 2))}),
        'mjd1': (0, {'d': mjdof(scan(DAYS, 2)), 'j': jd(num(2, 2))}),
        'date0': (None, {'d': scan(DAYS, 1), 'j': jd(text(datetext(num(1, 2)), 24))}),
        'date1': (None, {'d': scan(DAYS, 2), 'j': jd(text(datetext(num(2, 2)), 24))}),
    }),
}
# switches: name: (letters that turn it on, letters that turn it off)
SWITCHES = {
    'sat_skymap': {'E': ('E', ''), 'G': ('EGa', ''), 'H': ('H', ''), 'I': ('I', ''), 'T': ('T', ''), 'V': ('V', ''), 'D': ('D', ''),
                   'S': ('S', ''), 's': ('s', ''), 'i': ('i', ''), 'a': ('a', 'is'), 'p': ('p', 'is'), 'd': ('d', ''), 'l': ('l', '')},
    'sat_visibility': {'N': ('N', ''), 'T': ('T', ''), 'D': ('D', ''), 's': ('s', ''), 'i': ('i', ''), 'a': ('a', ''), 'd': ('d', ''),
                       'l': ('l', '')},
}
PLAIN = {'sat_skymap': 'EGHITV', 'sat_visibility': 'NT'}        # without a value
VALUE = {'sat_skymap': 'adDijlnprsSt', 'sat_visibility': 'adDijlrst'}


def between(v, a, b):
    return cand(cmp0('le', P(a) - v), cmp0('le', v - b))


def good(name, given):
    """values that do not end the program"""
    ok = {'l': between(num(1, 3), -90, 90), 't': cmp0('le', P(1) - A('fn', 'trunc', ATOF))}
    fail = lambda x: cmp0('ne', A('app', 'date2mjd_nf', 'ret', x))
    none = lambda x: cmp0('eq', A('app', 'mjd2date', 'ret', x))
    if name == 'sat_skymap':
        ok['p'] = cand(between(num(1, 2), 0, 360), between(num(2, 2), -90, 90))
        ok['d'] = cnot(fail(ARG))
        ok['j'] = cor(given, cnot(none(ATOF)))
    else:
        dash = cmp0('ne', A('app', 'strchr', 'ret', ARG, P(45)))
        ok['d'] = cand(dash, cnot(fail(scan(DAYS, 1))), cnot(fail(scan(DAYS, 2))))
        ok['j'] = cand(cnot(dash), cor(given, cnot(cor(none(num(1, 2)), none(num(2, 2))))))
    return ok


def run(c):
    for name in ('sat_skymap', 'sat_visibility'):
        o = outs.Outs(c, name)
        t = Table(c, o, name)
        t.settings()
        t.switches()
        t.life()
        t.docs()
    c.need(150, 'option effects compared with the table')
    c.assume('sscanf assigns all the values its format asks for; atof, strtol and sscanf do what the C library says')


class Table:
    def __init__(self, c, o, name):
        self.c, self.o, self.pr, self.prog = c, o, o.pr, name
        pr = self.pr
        for aid in list(T.mudefs):
            if T.akey[aid][1] == pr.main.name and pr.mu_at_head(aid) and aid != pr.iatom:
                pr.namedopt(aid)
        for n, (at, init, forms, aid) in pr.named.items():
            o._flagsets(n, init, forms)
        self.given = self.flagcond('d', '')
        self.where = pr.main.blocks[pr.head][0].where() if hasattr(pr.main.blocks[pr.head][0], 'where') else name

    def flagcond(self, on, off):
        for n, (d, v, a, b) in sorted(self.o._sets.items()):
            if a == set(on) and b == set(off):
                s = A('sym', n)
                return cmp0('ne', s) if d == 0 else cmp0('ne', s - d)
        return cmp0('ne', A('sym', 'missing:' + on))

    def syms(self, p):
        """settings read inside the loop by name, and text buffers by what they hold"""
        pr = self.pr

        def f(key):
            if key[0] == 'mu':
                i = T.atoms.get(key)
                if i is not None and i != pr.iatom and pr.mu_at_head(i):
                    return pr.namedopt(i)
            return None
        return gvn.subst(p, f)

    def same(self, rule, what, p, q):
        why = []
        p, q = texts.canon(p), texts.canon(q)
        ok = eqv.same(p, q, None, eqv.EMPTY, 500, why, 20)
        self.c.count('option effects compared with the table')
        self.c.ob(rule, '%s: %s' % (self.prog, what), ok, self.where, '' if ok else 'found %s' % gvn.brief(p, 0, 300)[:300],
                  key='%s|%s|%s' % (rule, self.prog, what))
        return ok

    def effect(self, aid, L):
        me = T.akey[aid]
        init, tab = self.pr.setting(aid)
        out = []
        for f in tab.get(L, []):
            f = gvn.subst(self.pr.arg_canon(f), self.nosite)
            f = gvn.subst(f, lambda k: A('sym', 'SELF') if k == me else None)
            out.append(texts.canon(self.syms(f)))
        return out

    def want(self, w):
        return texts.canon(w(self.given) if callable(w) else w)

    def settings(self):
        rule = 'the option sets its value'
        pr = self.pr
        for role, (dflt, eff) in sorted(SETTINGS[self.prog].items()):
            best, score = None, 0
            for n, (at, init, forms, aid) in sorted(pr.named.items()):
                s = 0
                for L, want in eff.items():
                    want = self.want(want)
                    if any(eqv.same(f, want, None, eqv.EMPTY, 200, None, 5) for f in self.effect(aid, L)):
                        s += 1
                if s > score or (s == score and s and abs(len(forms) - len(eff)) < abs(len(pr.named[best][2]) - len(eff))):
                    best, score = n, s
            if best is None:
                self.c.ob(rule, '%s: %s' % (self.prog, role), False, self.where,
                          'no setting gets its value from -%s as documented' % '/-'.join(sorted(eff)), key='%s|%s|%s' % (rule, self.prog, role))
                continue
            at, init, forms, aid = pr.named[best]
            for L in sorted(set(eff) | set(forms)):
                what = '%s by -%s' % (role, L)
                if L not in eff:
                    self.c.ob(rule, '%s: %s' % (self.prog, what), False, self.where, 'is also changed by -%s' % L,
                              key='%s|%s|%s' % (rule, self.prog, what))
                    continue
                want = self.want(eff[L])
                got = self.effect(aid, L)
                if len(got) != 1:
                    self.c.ob(rule, '%s: %s' % (self.prog, what), False, self.where, 'set to %d different values' % len(got),
                              key='%s|%s|%s' % (rule, self.prog, what))
                    continue
                self.same(rule, what, got[0], want)
            if dflt is not None:
                d = st(dflt) if isinstance(dflt, str) else P(dflt)
                if len(init) == 1:
                    if role == 'altmax' and init[0].const() is not None and init[0].const() >= 1e9:
                        d = init[0]
                    self.same('the default is the documented one', role, init[0], d)
                else:
                    self.c.ob('the default is the documented one', '%s: %s' % (self.prog, role), False, self.where, 'no single default',
                              key='default|%s|%s' % (self.prog, role))
        rule = 'an argument that is no option changes nothing'
        for aid in [pr.named[n][3] for n in sorted(pr.named)] + [pr.iatom]:
            me = gvn.Poly({((aid, 1),): 1.0})
            for e in pr.mu_alts(aid)[1]:
                r = gvn.subst(e, lambda key: P(120) if key == T.akey[pr.char0] else None)
                self.same(rule, pr.optname[aid].key and gvn.brief(pr.optname[aid], 0, 60) if aid != pr.iatom else 'position', r,
                          me + 1 if aid == pr.iatom else me)

    def switches(self):
        rule = 'the option sets its switch'
        for n, (on, off) in sorted(SWITCHES[self.prog].items()):
            hit = [x for x in self.o._sets.values() if x[2] == set(on) and x[3] == set(off)]
            near = [x for x in self.o._sets.values() if n in x[2]]
            self.c.count('option effects compared with the table')
            self.c.ob(rule, '%s: -%s' % (self.prog, n), bool(hit), self.where, '' if hit else 'turned on by %s, off by %s' % (
                [''.join(sorted(x[2])) for x in near], [''.join(sorted(x[3])) for x in near]), key='%s|%s|%s' % (rule, self.prog, n))

    def life(self):
        """for each letter: which arguments are used up, and which values end the program"""
        pr, ev = self.pr, self.pr.ev
        letters = set(PLAIN[self.prog] + VALUE[self.prog])
        for L in sorted(letters | set(pr.letters())):
            self.c.ob('exactly the documented options are accepted', '%s: -%s' % (self.prog, L), L in letters and L in pr.letters(), self.where,
                      '-%s %s' % (L, 'is not documented' if L not in letters else 'ends the program'), key='letter|%s|%s' % (self.prog, L))
        back = pr.mu_alts(pr.iatom)[1]
        i = gvn.Poly({((pr.iatom, 1),): 1.0})
        head, fn, body = pr.head, self.o.fn, ev.loopheads[pr.head]
        after = self.canreach([x.bb for x in fn.insts() if x.op in ('call', 'invoke') and x.callee == 'parse_elements'])
        stops = {(p, s): P(1) for p in body for s in fn.succ[p] if s == head or s not in body and s in after}
        go = ev.gamma(head, -1, {}, body - {head}, P(0), stops)
        ok = good(self.prog, self.given)
        argc = A('sym', 'argc')
        for L in sorted(letters & set(pr.letters())):
            for space in (False, True):
                sp = 'value in the next argument' if space else 'value attached'
                takes = 1 if space and L in VALUE[self.prog] else 0
                for b in {pr.at_letter(x, L, space) for x in back}:
                    self.same('a switch uses one argument, an option with its value apart two', '-%s, %s' % (L, sp), b, i + 1 + takes)
                g = self.syms(self.pr.arg_canon(pr.at_letter(go, L, space)))
                here = A('deref', A('sym', 'argv') + i * 8, 8)
                nxt = A('deref', A('sym', 'argv') + i * 8 + 8, 8)
                val = nxt if space else here + 2

                def toarg(key):
                    if key[0] == 'strp' and len(key) == 2 and key[1] == val:
                        return ARG
                    return None
                g = gvn.subst(g, toarg)
                g = gvn.subst(g, lambda key: self.unptr(key, val))
                want = cmp0('ne', P(1))
                if takes:
                    want = cand(want, cmp0('ne', i + 1 - argc))
                want = cand(want, ok.get(L, gvn.TRUE))
                self.same('an option with a missing or invalid value ends the program, any other does not', '-%s, %s' % (L, sp), g, b2i(want))

    def nosite(self, key):
        if key[0] == 'strp' and isinstance(key[1], gvn.Poly):
            q = gvn.subst(key[1], prog.drop_sites)
            return A(*((key[0], q) + key[2:])) if q != key[1] else None
        return prog.drop_sites(key)

    def canreach(self, bs):
        seen, todo = set(bs), list(bs)
        while todo:
            for p in self.o.fn.pred[todo.pop()]:
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
        return seen

    def unptr(self, key, val):
        if key[:3] == ('app', 'strchr', 'ret') and len(key) == 5 and key[4].const() is not None:
            a = key[3].single_atom()
            if a is not None and T.akey[a][0] == 'str':
                return P(1 if chr(int(key[4].const())) in T.akey[a][1] else 0)
        if key[0] == 'app' and any(x == val for x in key[3:] if isinstance(x, gvn.Poly)):
            return A(*[ARG if isinstance(x, gvn.Poly) and x == val else x for x in key])
        return None

    # ---- documentation
    def docs(self):
        use = [s for s in strings(self.pr.mod) if 'Usage' in s and 'OPTIONS' in s]
        self.c.ob('the help text lists the options and defaults', '%s: present' % self.prog, len(use) == 1, self.where, '%d help texts' % len(use))
        t = open(os.path.join(ir.REPO, 'README.md'), errors='replace').read()
        for where, s in [('help text', u) for u in use] + [('README', readme(t, self.prog))]:
            rule = 'the %s lists the options and defaults' % where
            rows = dict(re.findall(r'^ +-([A-Za-z])\b(.*)$', s, re.M))
            letters = set(PLAIN[self.prog] + VALUE[self.prog]) | {'h'}
            self.c.count('option effects compared with the table')
            self.c.ob(rule, '%s: letters' % self.prog, set(rows) == letters, where, 'documented: %s' % ''.join(sorted(rows)))
            for L, role in (('n', 'nmax'), ('r', 'radius'), ('t', 'dt')):
                m = re.search(r'def\. ([\d.]+)', rows.get(L, ''))
                if m and role in SETTINGS[self.prog]:
                    d = SETTINGS[self.prog][role][0]
                    self.c.ob(rule, '%s: default of -%s' % (self.prog, L), float(m.group(1)) == d, where, 'says ' + m.group(1))


def strings(mod):
    return [s for s in map(mod.cstring, mod.globals) if s]


def readme(t, prog):
    """the option list of a program in the README"""
    for m in re.finditer(r'```.*?```', t, re.S):
        b = m.group(0)
        if 'OPTIONS are' in b and re.search(r'Usage:\s+%s\b' % prog, b):
            return b
    return ''
