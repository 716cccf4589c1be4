"""C01: every run writes one complete, well-formed JSON document (or the plain help text).

A JSON push-down automaton is run over every path of each program's flattened main(); literal text is consumed
character by character, %-conversions as typed holes, and the branches that decide what is printed are tracked with the
facts known on the path (property simulation).  A violation is an output call (or program end) the automaton rejects.
"""
RULE = __doc__


def run(c):
    for p in ('sat_skymap', 'sat_visibility'):
        f = c.flow(p)
        c.count('%s output states' % p, f.nstates)
        c.count('%s output calls' % p, sum(len(v) for v in f.pblocks.values()))
        c.count('%s program ends reached' % p, len(f.ends))
        if len(f.ends) < 3 or not f.convs:
            raise __import__('ir').AnalysisBroken('output analysis reached no program end in ' + p)
        bad = {}
        for i, msg in f.errors.values():
            bad.setdefault(i.id, []).append((i, msg))
        seen = set()
        for b, calls in f.pblocks.items():
            for i in calls:
                es = bad.pop(i.id, [])
                site = '%s/%s' % (p, i.where())
                c.ob('output call keeps the document well-formed', site, not es, i.where(),
                     '; '.join(m for _, m in es), key='%s|%s' % (p, '; '.join(sorted(m for _, m in es))))
        for es in bad.values():
            for i, msg in es:
                c.ob('program ends after a complete document', '%s/%s' % (p, i.where()), False, i.where(), msg,
                     key='%s|%s' % (p, msg))
        ends = {}
        for i, kind, js, env in f.ends:
            ends.setdefault(i.id, i)
        for i in ends.values():
            if not any(k[0] == i.id for k in f.errors):
                c.ob('program ends after a complete document', '%s/%s' % (p, i.where()), True, i.where())
    c.assume('text substituted by %s conversions contains no character that needs escaping (decided separately, C02)')
    c.assume('numeric conversions print finite numbers (a NaN/inf would print a bare word)')
