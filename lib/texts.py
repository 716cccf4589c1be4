"""Several ways to write the same copy of a text or the same number read from one.

A('first', s, n) is the text of at most the first n characters of s, however it was made: strncpy and a terminator, snprintf
with "%s" into n + 1 bytes or with "%.ns", strncat to an empty text, or a block copy and a terminator.
"""
import re
import gvn, prog
from gvn import T, A, P


def key(v):
    a = v.single_atom() if isinstance(v, gvn.Poly) else None
    return T.akey[a] if a is not None else ('',)


def const(v):
    return v.const() if isinstance(v, gvn.Poly) else None


def first(s, n):
    k = key(s)
    if k[0] == 'first':
        return first(k[1], min(n, k[2]))
    if k[0] == 'str':
        return A('str', k[1][:n])
    return A('first', s, n)


def canon(v):
    """v with every such text or number in its one form"""
    def f(k):
        if k[0] == 'strset' and len(k) == 4:
            n = const(k[2])
            if n is not None and n > 0 and n == int(n) and const(k[3]) == 0:
                return first(gvn.subst(k[1], f), int(n))
            return None
        if k[0] != 'app':
            return None
        a = [x for x in k[3:] if not prog.is_site(x)]
        if k[1] == 'strncpy' and k[2] == 'out0' and const(a[-1]):
            return first(gvn.subst(a[-2], f), int(const(a[-1])))
        if k[1] == 'strncat' and k[2] == 'out0' and len(a) == 3 and const(a[2]) and (key(a[0]) == ('str', '') or const(a[0]) == 0):
            return first(gvn.subst(a[1], f), int(const(a[2])))
        if k[1] == 'snprintf' and k[2] == 'out0' and len(a) == 3 and key(a[0])[0] == 'strp' and key(a[1])[0] == 'str':
            n = const(key(a[0])[1])
            m = re.fullmatch(r'%(?:\.(\d+))?s', key(a[1])[1])
            if n and m:
                return first(gvn.subst(a[2], f), min(int(n) - 1, int(m.group(1)) if m.group(1) else 1 << 30))
        if k[1] in ('atoi', 'atol') and k[2] == 'ret':
            return A('app', 'strtol', 'ret', gvn.subst(a[0], f), P(10))
        if k[1] == 'strtod' and k[2] == 'ret':
            return A('app', 'atof', 'ret', gvn.subst(a[0], f))
        return None
    return gvn.subst(v, f)
