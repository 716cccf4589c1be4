"""C45: input_params and run_command repeat the settings used and the command line.

Printed values as expressions over settings and arguments (LLVM IR, value numbering), compared with the settings that
the options set (see C12).
"""
import outs, gvn, eqv
from gvn import T, P, A, ite, cmp0

WHAT = {
    'sat_skymap': [('lat', ('location', 'lat'), 4), ('lon', ('location', 'lon'), 4), ('ht', ('location', 'alt'), 1), ('mjd', ('input_params', 'mjd'), 5),
                   ('date', ('input_params', 'epoch_UTC'), None), ('dt', ('input_params', 'delta_time_s'), 0), ('nmax', ('input_params', 'max_sats'), 0)],
    'sat_visibility': [('lat', ('location', 'lat'), 4), ('lon', ('location', 'lon'), 4), ('ht', ('location', 'alt'), 1), ('dt', ('input_params', 'delta_time_s'), 0),
                       ('mjd0', ('mjd_range', '[0]'), 5), ('mjd1', ('mjd_range', '[1]'), 5), ('date0', ('date_utc_range', '[0]'), None),
                       ('date1', ('date_utc_range', '[1]'), None)],
}


def run(c):
    for name in WHAT:
        o = outs.Outs(c, name)
        for role, path, dec in WHAT[name]:
            echo(c, o, role, path, dec)
        tlefile(c, o)
        command(c, o)
    c.need(70, 'repeated settings and arguments compared')
    outs.assumptions(c)


def ob(c, o, rule, what, ok, where, detail=''):
    c.count('repeated settings and arguments compared')
    c.ob(rule, '%s: %s' % (o.name, what), ok, where, '' if ok else detail, key='%s|%s' % (o.name, what))


def echo(c, o, role, path, dec):
    rule = 'the setting used is repeated in input_params'
    rs = o.slots(*path)
    what = '.'.join(path)
    if not rs:
        ob(c, o, rule, what, False, o.name, 'nothing is printed there')
    for r in rs:
        v = o.value(r)
        ok = eqv.same(v, o.sym(role), None, eqv.EMPTY, 200, None, 20)
        ob(c, o, rule, what, ok, r['inst'].where(), 'prints ' + gvn.brief(v, 0, 200)[:200])
        if dec is not None:
            p = 0 if r['conv'] in 'di' else int(r['prec']) if r['prec'] not in (None, '*') else 6
            ob(c, o, 'with the documented decimals', what, r['conv'] in 'dif' and p >= dec, r['inst'].where(), '%d decimals' % p)


def inputarg():
    """the argument that names the input, and whether it is a list"""
    argv = A('sym', 'argv')
    dash = cmp0('eq', A('deref', A('deref', argv + 8, 8), 1) - 45)
    arg = A('deref', argv + 8 * ite(dash, A('sym', 'argc') - 1, P(1)), 8)
    return arg, cmp0('eq', A('deref', arg, 1) - 64)


def tlefile(c, o):
    rule = 'the input file is repeated in input_params'
    rs = o.slots('input_params', 'tle_file')
    if not rs:
        ob(c, o, rule, 'tle_file', False, o.name, 'nothing is printed there')
    for r in rs:
        v = canon(o.value(r))
        arg, lst = inputarg()
        w = canon(A('strp', ite(lst, arg + 1, arg)))
        why = []
        ob(c, o, rule, 'tle_file', eqv.same(v, w, None, eqv.EMPTY, 200, why, 20), r['inst'].where(), 'prints ' + gvn.brief(v, 0, 300)[:300])


def canon(p):
    """the first character of argv[1] however it was addressed"""
    def f(key):
        if key[0] == 'mem' and key[1] == 'argv':
            return A('deref', A('sym', 'argv') + key[2], key[3])
        return None
    return gvn.subst(p, f)


def command(c, o):
    rule = 'run_command is the program name and all arguments in order'
    rs = o.slots('run_command')
    fn = o.fn
    names = [r for r in rs if o.value(r) == A('str', o.name)]
    loops = []
    for r in rs:
        if r in names:
            continue
        v = canon(o.value(r))
        bad = ''
        a = v.single_atom()
        k = T.akey[a] if a is not None else ('',)
        mu = [x for x in eqv.atoms_of(v) if T.akey[x][0] == 'mu' and x in T.muinfo]
        if k[0] != 'strp' or len(mu) != 1:
            bad = 'prints ' + gvn.brief(v, 0, 200)[:200]
        else:
            m = gvn.Poly({((mu[0], 1),): 1.0})
            init, step, cont = T.muinfo[mu[0]][0].loopparts(mu[0])
            d = step - m
            if v != A('strp', A('deref', A('sym', 'argv') + m * 8, 8)):
                # pointer or shifted counter: the argument at the first pass and the distance between passes
                at = lambda x: gvn.subst(v, lambda key: x if key == T.akey[mu[0]] else None)
                if at(init) != A('strp', A('deref', A('sym', 'argv') + 8, 8)) or \
                        at(step) != gvn.subst(v, lambda key: key[0] == 'deref' and A('deref', key[1] + 8, key[2]) or None):
                    bad = 'prints ' + gvn.brief(v, 0, 200)[:200]
            elif init != P(1) or d != P(1):
                bad = 'arguments from %s in steps of %s' % (gvn.brief(init, 0, 60), gvn.brief(d, 0, 60))
            if not bad and d == P(1):
                n = m - init + 1 + 1        # arguments printed after this pass, and the program name
                argc = A('sym', 'argc')
                for env, want in ((n - argc, False), (n - argc + 1, True)):
                    x = eqv.truth(cont, eqv.assume(eqv.EMPTY, cmp0('eq', env), True))
                    if x is not want:
                        bad = 'does not end with the last argument'
        loops.append(r)
        ob(c, o, rule, 'arguments', not bad, r['inst'].where(), bad)
    for r in names:
        env, rest = o.guard(r['inst'].bb)
        ok = any(fn.dominates(r['inst'].bb, q['inst'].bb) for q in loops) or \
            eqv.truth(cmp0('lt', A('sym', 'argc') - 2), env) is True
        ob(c, o, rule, 'name and arguments', ok, r['inst'].where(), 'the arguments are not printed after the name')
    if not names or not loops:
        ob(c, o, rule, 'run_command', False, o.name, 'not printed')
