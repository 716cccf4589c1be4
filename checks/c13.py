"""C13: the field descriptions of the documents describe the data printed.

All texts, array sizes and member names that a program can print, by abstract interpretation of its JSON output
(lib/jsonflow.py), compared with the table below and with the conversions that print the data.
"""
import outs, eqv

NAMES = ['RA_start', 'Dec_start', 'RA_end', 'Dec_end', 'Distance', 'Separation', 'PA', 'Speed', 'sunlit', 'HPXID_8']
UNITS = ['deg', 'deg', 'deg', 'deg', 'km', 'deg', 'deg', 'arcmin/s', '', '']
TYPES = ['double'] * 5 + ['float'] * 3 + ['int'] * 2
DECIMALS = [4, 4, 4, 4, 2, 4, 0, 3, None, None]
EVENT = ['Date', 'MJD', 'ra', 'dec', 'az', 'alt', 'Distance', 'Separation', 'PA', 'Speed']
EVUNITS = ['', 'MJD', 'deg', 'deg', 'deg', 'deg', 'km', 'deg', 'deg', 'arcmin/s']
EVTYPES = ['datetime'] + ['double'] * 6 + ['float'] * 3
GEO = {'lat': 'deg', 'lon': 'deg', 'alt': 'km', 'theta': 'deg'}
EVDEC = {'MJD': 5, 'ra': 4, 'dec': 4, 'Distance': 2, 'Separation': 4, 'Speed': 3}


def run(c):
    Meta(c, 'sat_skymap').skymap()
    Meta(c, 'sat_visibility').vis()
    c.need(100, 'descriptions compared with the data')


class Meta:
    def __init__(self, c, name):
        self.c, self.name = c, name
        self.o = outs.Outs(c, name)
        self.f = self.o.flow

    def ob(self, rule, what, ok, detail=''):
        self.c.count('descriptions compared with the data')
        self.c.ob(rule, '%s: %s' % (self.name, what), ok, self.name, '' if ok else detail, key='%s|%s' % (self.name, what))

    def row(self, group, kind, want):
        rule = 'the field descriptions are the documented ones'
        n = self.f.lens.get((group, kind))
        self.ob('one description per value', '%s %s' % (group, kind), n == {len(want)}, 'sizes %s, values %d' % (sorted(map(str, n or [])), len(want)))
        for k, w in enumerate(want):
            t = self.f.lits.get((group, kind, '[%d]' % k))
            if w is None:
                ok = bool(t) and None not in t and '' not in t
            else:
                ok = t == {w}
            self.ob(rule, '%s %s %d' % (group, kind, k), ok, 'is %s, documented %r' % (sorted(map(str, t or [])), w))

    def skymap(self):
        for kind, want in (('name', NAMES), ('desc', [None] * len(NAMES)), ('type', TYPES), ('unit', UNITS)):
            self.row('data_fields', kind, want)
        n = self.f.lens.get(('satellites', '[*]', 'data'))
        self.ob('one description per value', 'data', n == {len(NAMES)}, 'sizes %s' % sorted(map(str, n or [])))
        for k, nm in enumerate(NAMES):
            rs = self.o.slots('data', '[%d]' % k)
            self.number(nm, rs, TYPES[k], DECIMALS[k])
        self.geo('geoloc')
        self.before('data_fields', 'data')

    def vis(self):
        for kind, want in (('desc', [None] * len(EVENT)), ('type', EVTYPES), ('unit', EVUNITS)):
            self.row('sat_fields', kind, want)
        for e in ('start', 'mid', 'max', 'end'):
            s = self.f.objs.get(('satellite', 'sat_' + e))
            self.ob('one description per value', 'sat_' + e, s == set(EVENT), 'members %s' % sorted(s or []))
            for k, nm in enumerate(EVENT):
                self.number('%s %s' % (e, nm), self.o.slots('sat_' + e, nm), EVTYPES[k], EVDEC.get(nm))
            self.geo('geoloc_' + e)
        self.before('sat_fields', 'satellite', 'name')

    def number(self, what, rs, typ, dec):
        rule = 'values are printed as described'
        self.ob(rule, what, bool(rs), 'nothing is printed there')
        for r in rs:
            if typ == 'int':
                self.ob(rule, what, r['conv'] in 'diu', 'described as int, printed with %%%s' % r['conv'])
            elif typ == 'datetime':
                self.ob(rule, what, r['conv'] == 's', 'described as datetime, printed with %%%s' % r['conv'])
            else:
                p = int(r['prec']) if r['conv'] in 'feEgG' and r['prec'] is not None else 6 if r['conv'] in 'feE' else 0
                self.ob(rule, what, r['conv'] in 'diufeEgG' and p >= (dec or 0), 'printed with %d decimals, expected at least %d' % (p, dec or 0))

    def geo(self, member):
        rule = 'the field descriptions are the documented ones'
        have = set()
        for p, s in self.f.objs.items():
            if p[-1:] == (member,):
                have |= s
        self.ob('one description per value', member, have == set(GEO), 'members %s' % sorted(have))
        for g, u in GEO.items():
            self.ob(rule, 'geoloc_fields %s unit' % g, self.f.lits.get(('geoloc_fields', g, 'unit')) == {u}, 'is %s, documented %s' % (
                self.f.lits.get(('geoloc_fields', g, 'unit')), u))
        self.before('geoloc_fields', member)

    def before(self, desc, *data):
        """whenever the data are printed their description has been printed, or is on the path to them"""
        rule = 'described whenever printed'
        at = [i for p, s in self.f.at.items() if p[-1:] == (desc,) for i in s]
        rs = {r['inst'].id: r['inst'] for r in self.f.convs.values() if any(p[:1] != ('geoloc_fields',) and all(d in p for d in data) for p in r['paths'])}
        self.ob(rule, desc, bool(at) and bool(rs), 'not printed')
        fn = self.o.fn
        for i in rs.values():
            env, rest = self.o.guard(i.bb)
            have = self.o.dominating(i.bb)
            ok, why = False, ''
            for d in at:
                w = [gvnshow(x, t) for x, t in self.o.dominating(d.bb)
                     if (x, t) not in have and eqv.truth(x, env) is not t]
                if not w or fn.dominates(d.bb, i.bb) or self.first(d, i):
                    ok = True
                    break
                why = 'only printed if ' + ' and '.join(w)[:200]
            self.ob(rule, '%s before %s' % (desc, data[0]), ok, why)

    def first(self, d, i):
        """printed with the first record: both in the same pass of a loop, d when nothing was reported yet"""
        loops = self.o.pr.ev.loopheads
        hs = [h for h in loops if d.bb in loops[h]]
        return any(i.bb in loops[h] for h in hs) and self.precedes(d, i)

    def precedes(self, d, i):
        loops = self.o.pr.ev.loopheads
        fn = self.o.fn
        back = {(p, h) for h in loops for p in fn.pred[h] if p in loops[h]}
        seen, todo = {d.bb}, [d.bb]
        while todo:
            b = todo.pop()
            if b == i.bb:
                return True
            for s in fn.succ[b]:
                if (b, s) not in back and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False


def gvnshow(c, t):
    import gvn
    return ('' if t else 'not ') + gvn.showc(c)[:80]
