"""C17: everything sat_visibility reports for an event is the satellite, the Sun and the observer at the date printed for it.

For each printed MJD the other values printed with it, as expressions over settings and element set, are compared with
the functions of spec/vis.c at that very date.
"""
import outs, gvn, eqv
from gvn import T
RULE = 'reported value belongs to the printed date'
SAT = {'ra': 'ra', 'dec': 'dec', 'az': 'az', 'alt': 'alt', 'Distance': 'dist', 'Separation': 'sep', 'PA': 'pa', 'Speed': 'speed'}
SUN = {'ra': 'sra', 'dec': 'sdec', 'az': 'saz', 'alt': 'salt', 'lon': 'slon', 'parang': 'spar', 'separation_deg': 'ssep'}
GEO = {'lat': 'glat', 'lon': 'glon', 'alt': 'galt', 'theta': 'gtheta'}
REG = {'ra': 'rra', 'dec': 'rdec', 'radius': 'rrad', 'alt': 'ralt', 'az': 'raz', 'parang': 'rpar', 'lmst': 'lmst'}


def run(c):
    o = outs.Outs(c, 'sat_visibility')
    for ev in ('start', 'end', 'mid', 'max'):
        dates = o.slots('sat_' + ev, 'MJD')
        c.ob('the event is reported', ev, bool(dates), 'sat_visibility', 'no MJD is printed', key='none|' + ev)
        for m in dates:
            when = o.value(m)
            for group, names in (('sat_' + ev, SAT), ('sun_' + ev, SUN), ('geoloc_' + ev, GEO)):
                for f, n in names.items():
                    one(c, o, '%s.%s' % (group, f), with_(o, o.slots(group, f), m), n, when)
            for r in with_(o, o.slots('sat_' + ev, 'Date'), m):
                datestr(c, o, ev, r, when)
    mjd0 = o.sym('mjd0')
    for f, n in SUN.items():
        one(c, o, 'sun.' + f, o.slots('sun', f), n, mjd0)
    for f, n in REG.items():
        one(c, o, 'region.' + f, o.slots('input_params', 'region', f), n, mjd0)
    one(c, o, 'gmst', o.slots('input_params', 'gmst'), 'gmst', mjd0)
    c.need(95, 'printed values compared with their specification')
    outs.assumptions(c)


def with_(o, recs, m):
    """the records printed for the same occurrence of the event as m"""
    a = m['inst'].bb
    return [r for r in recs if o.fn.dominates(r['inst'].bb, a) or o.fn.dominates(a, r['inst'].bb)]


def one(c, o, what, recs, name, when):
    if not recs:
        c.ob(RULE, what, False, 'sat_visibility', 'nothing is printed', key=what + '|none')
        return
    vs = o.specval('vis', name, {'mjd': when})
    for r in recs:
        equal(c, o, what, r, o.value(r), vs)


def equal(c, o, what, r, vc, vs):
    e, rest = o.guard(r['inst'].bb)
    if rest != gvn.TRUE:
        vc = gvn.ite(rest, vc, vs)
    why = []
    w = outs.Narrow(e)
    ok = eqv.same(w(vc), w(vs), None, e, 3000, why, 60)
    c.count('printed values compared with their specification')
    c.ob(RULE, what, ok, r['inst'].where(), '' if ok else eqv.explain(why), key=what)


def datestr(c, o, ev, r, when):
    v = o.value(r)
    a = v.single_atom()
    k = T.akey[a] if a is not None else ('',)
    src = v
    if k[:3] == ('app', 'snprintf', 'out0') and len(k) > 5 and T.akey[k[4].single_atom()] == ('str', '%s'):
        src = k[5]
    a = src.single_atom()
    k = T.akey[a] if a is not None else ('',)
    if k[0] == 'strp' and len(k) == 2:
        a = k[1].single_atom()
        k = T.akey[a] if a is not None else ('',)
    if k[:3] != ('app', 'mjd2date', 'ret'):
        c.ob(RULE, 'sat_%s.Date' % ev, False, r['inst'].where(), 'not the text of mjd2date: ' + gvn.brief(v, 0, 200)[:200],
             key='sat_%s.Date' % ev)
        return
    equal(c, o, 'sat_%s.Date' % ev, r, k[3], when)
