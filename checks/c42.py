"""C42: mjdnow prints the current time as a Modified Julian Date.

Every formatting call of the program is taken from its LLVM IR: the one value printed must be 40587 days (1970 January 1)
plus the seconds since then over 86400, with at least six decimals, on a line of its own; the exit code is 0.
"""
RULE = __doc__
import re
import gvn, eqv
from gvn import P, A, T
from ir import AnalysisBroken

PRINT = {'printf': 0, 'fprintf': 1, 'puts': 0, 'putchar': 0, 'fputs': 0, 'vprintf': 0, 'write': 1, 'fwrite': 0}


def run(c):
    m = c.build.module('mjdnow', 'flat')
    fn = m.fn('main')
    ev = gvn.Ev(fn, {})
    prints = [(b, i) for b in fn.rpo() for i in fn.blocks[b] if i.op == 'call' and i.callee in PRINT]
    if not prints:
        raise AnalysisBroken('mjdnow prints nothing the analysis can see')
    rets = [b for b in fn.rpo() if fn.blocks[b][-1].op == 'ret']
    text, vals = '', []
    for b, i in prints:
        c.count('output calls')
        always = all(fn.dominates(b, r) for r in rets)
        c.ob('the date is printed on every run', i.where(), always, i.where(), '' if always else 'the call can be bypassed', key='always')
        if i.callee in ('printf', 'fprintf'):
            k = PRINT[i.callee]
            t = ev.strconst(i.args[k])
            if t is None:
                raise AnalysisBroken('format not constant at %s' % i.where())
            text += t
            vals += [ev.val(x) for x in i.args[k + 1:]]
        elif i.callee == 'puts':
            text += (ev.strconst(i.args[0]) or '?') + '\n'
        elif i.callee == 'putchar':
            v = ev.val(i.args[0]).const()
            text += chr(int(v)) if v is not None else '?'
        else:
            text += '?'
    f = re.fullmatch(r'%[-+ #0]*\d*(?:\.(\d+))?(?:l|L)?f\n', text)
    ok = f is not None and (f.group(1) is None or int(f.group(1)) >= 6)
    c.ob('one number on a line', 'format', ok, prints[0][1].where(), '' if ok else 'format "%s"' % text, key='format')
    if len(vals) != 1:
        c.ob('one number on a line', 'values', False, prints[0][1].where(), '%d values' % len(vals), key='values')
        return
    v = gvn.resolve_mu(vals[0])
    now = [a for a in eqv.atoms_of(v) if isclock(a)]
    ok = len(now) == 1 and eqv.same(v, P(40587) + Poly1(now[0]) * (1 / 86400.), None, None, 60, [], 20)
    c.count('values compared')
    c.ob('the value is the current MJD', 'value', ok, prints[0][1].where(), '' if ok else 'prints ' + gvn.brief(v, 0, 300)[:300], key='value')
    for b in rets:
        r = ev.val(fn.blocks[b][-1].args[0]).const()
        c.ob('exit code 0', 'exit', r == 0, fn.name, '' if r == 0 else 'returns %s' % r, key='exit')
    c.assume('time() gives the seconds since 1970 January 1, 0h UTC')


def Poly1(a):
    return gvn.Poly({((a, 1),): 1.0})


def isclock(a):
    k = T.akey[a]
    return any(isinstance(x, str) and x.split('.')[0] == 'time' for x in k[:3])
