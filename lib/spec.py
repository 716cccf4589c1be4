"""Comparison of library entry points with specification formulas (spec/*.c)."""
import os, pickle, select
import gvn, eqv
from ir import AnalysisBroken


def value(fn):
    """(value returned, Ev) of a function as one gated expression"""
    if fn.mod.d.get('x_simpl') is None:
        fn.mod.d['x_simpl'] = 1
    names = {}
    for i in range(len(fn.args)):
        names[i] = 'a%d' % i
    ev = gvn.Ev(fn, names)
    rets = [b for b in fn.rpo() if fn.blocks[b][-1].op == 'ret']
    if len(rets) != 1:
        raise AnalysisBroken('%s has %d return points after normalisation' % (fn.name, len(rets)))
    r = ev.val(fn.blocks[rets[0]][-1].args[0])
    gvn.simplify_mus()
    return gvn.resolve_mu(r), ev


def left(env, *vs):
    """what is known after the loops that VS come from have ended"""
    eqv.colour(*vs)
    for v in vs:
        for a in sorted(eqv.atoms_of(v)):
            if gvn.T.akey[a][0] == 'mu' and a in gvn.T.muinfo and a not in eqv.S.muconst:
                env = eqv.assume(env or eqv.EMPTY, gvn.cmp0('eq', eqv.loopparts(a)[2]))
    return env


def compare(c, specfile, names, rule, period=None, keep=None, env=None, form='flat', limit=3000, rng=None):
    """every named value equals its specification (modulo period[name]) and lies within rng[name]"""
    m = c.build.spec(specfile, form, keep)
    period, rng = period or {}, rng or {}

    def one(n):
        fc, fs = m.fn('code_' + n), m.fn('spec_' + n)
        vc, ec = value(fc)
        vs, es = value(fs)
        why = []
        en = left(env, vc, vs)
        M = period.get(n)
        if M:
            ok = eqv.same(eqv.residue(vc, M), eqv.residue(vs, M), M, en, limit, why, 90)
        else:
            ok = eqv.same(vc, vs, None, en, limit, why, 90)
        r = [(rule, ok, '' if ok else eqv.explain(why), '')]
        if n in rng:
            why = []
            ok = eqv.within(vc, rng[n][0], rng[n][1], env, why=why)
            r.append(('result within its documented range', ok, '\n'.join(why[:1]), '|range'))
        return r, anchor(fc), sum(len(b) for b in fc.blocks), len(eqv.SAMPLED)

    for n in names:
        m.fn('code_' + n), m.fn('spec_' + n)
    for n, (r, where, k, s) in zip(names, parallel(one, names)):
        c.count('values compared with their specification')
        c.count('instructions normalised', k)
        if s:
            c.count('values decided by a sample of their cases')
        for rl, ok, text, suffix in r:
            c.ob(rl, n, ok, where, text, key='%s|%s%s' % (specfile, n, suffix))


def parallel(f, items):
    """[f(x) for x in items], in child processes"""
    n = min(len(items), len(os.sched_getaffinity(0)), 8)
    if n < 2:
        return [f(x) for x in items]
    out, todo, run = {}, list(enumerate(items))[::-1], {}
    while todo or run:
        while todo and len(run) < n:
            i, x = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    try:
                        d = pickle.dumps((True, f(x)))
                    except BaseException as e:
                        d = pickle.dumps((False, '%s: %s' % (type(e).__name__, e)))
                    with os.fdopen(w, 'wb') as h:
                        h.write(d)
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (i, pid)
        for r in select.select(list(run), [], [])[0]:
            with os.fdopen(r, 'rb') as h:
                d = h.read()
            i, pid = run.pop(r)
            os.waitpid(pid, 0)
            if not d:
                raise AnalysisBroken('the comparison of %s ended without a result' % (items[i],))
            good, v = pickle.loads(d)
            if not good:
                raise AnalysisBroken('%s: %s' % (items[i], v))
            out[i] = v
    return [out[i] for i in range(len(items))]


def anchor(fc):
    """source functions whose code was analysed"""
    out = []
    for i in fc.insts():
        l = i.d.get('l')
        if l and not l.get('file', '').startswith('/verif') and '/spec/' not in l.get('file', ''):
            s = '%s (%s)' % (os.path.basename(l.get('file', '?')), l.get('fn', ''))
            if s not in out:
                out.append(s)
    return ', '.join(out[:6])
