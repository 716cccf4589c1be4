"""C34: MJD to calendar date: the printed year, month, day, hour, minute and second are those of the Fliegel & Van Flandern
conversion, rounded to the second (mjd2date) or cut to the millisecond (mjd2datef).

The values handed to the formatting call of either function, normalised from the LLVM IR, are compared by random
interpretation with an independent formula (spec/date.c) for all dates; the format and the buffer are read from the call.
"""
RULE = __doc__
import re
import spec, eqv, gvn
from ir import AnalysisBroken

FORM = {'mjd2date': ['%d-%02d-%02dT%02d:%02d:%02d', 6], 'mjd2datef': ['%d-%02d-%02dT%02d:%02d:%02d.%03d', 7]}

FIELD = ['year', 'month', 'day', 'hour', 'minute', 'second', 'millisecond']


def norm(f):
    """conversions of whole numbers spelled one way: minimal number of digits"""
    def one(m):
        w = m.group(2) or m.group(1).lstrip('0')
        return '%' + ('0' + w if w and (m.group(2) or m.group(1).startswith('0')) else w) + 'd'
    return re.sub(r'%(\d*)(?:\.(\d+))?l?[di]', one, f)


def run(c):
    m = c.build.spec('date', 'flat', list(FORM))
    todo = []
    for name, (form, n) in FORM.items():
        fn = m.fn(name)
        value, ev = spec.value(fn)
        calls = [(b, i) for b in fn.rpo() for i in fn.blocks[b] if i.op == 'call' and i.callee in ('snprintf', 'sprintf')]
        if len(calls) != 1:
            raise AnalysisBroken('%s formats its result in %d calls' % (name, len(calls)))
        b, i = calls[0]
        k = 2 if i.callee == 'snprintf' else 1
        text = ev.strconst(i.args[k])
        f = norm(text).replace('%4d', '%d', 1)
        c.ob('the text has the documented layout', name, f == form, i.where(),
             '' if f == form else 'format "%s"' % text, key=name)
        if len(i.args) - k - 1 < n:
            raise AnalysisBroken('%s prints %d values' % (name, len(i.args) - k - 1))
        none = gvn.common(value)
        if none is None or not (none[1].const() == 0 or none[2].const() == 0):
            raise AnalysisBroken('%s: returned pointer not understood' % name)
        bad = none[0] if none[1].const() == 0 else gvn.cnot(none[0])
        same(c, m, name, 'no date', gvn.b2i(bad), 'none', name, 'a date is given exactly for the days the conversion covers')
        arm = none[2] if none[1].const() == 0 else none[1]
        base = ev.ptr(i.args[0])[0]
        a = arm.single_atom()
        ok = a is not None and gvn.T.akey[a][0] == 'addr' and gvn.T.akey[a][1] == base and base is not None and base[0] == 'global'
        c.ob('the text returned is the one formatted', name, ok, i.where(), '' if ok else 'returns %s, formats into %s' % (gvn.brief(arm), base), key=name + '|ret')
        for j in range(n):
            v = gvn.resolve_mu(ev.val(i.args[k + 1 + j]))
            same(c, m, name, FIELD[j], v, '%s_%d' % (name[4:] if n == 7 else 'date', j), i.where(), 'the field is that of the calendar conversion', eqv.assume(eqv.EMPTY, bad, False))
    c.need(15, 'values compared')
    c.assume('real arithmetic: a time within rounding error of a second boundary may be printed one second earlier')


def same(c, m, name, what, v, sname, where, rule, env=None):
    w, _ = spec.value(m.fn('spec_' + sname))
    why = []
    ok = eqv.same(v, w, None, env, 1000, why, 40)
    c.count('values compared')
    c.ob(rule, '%s: %s' % (name, what), ok, where, '' if ok else eqv.explain(why), key='%s|%s' % (name, what))
