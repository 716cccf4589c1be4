"""C15: each satellite is reported once, the counters are right and the scan stops exactly when it is complete.

The counters are followed through all SSA versions (Counter): start 0, what one pass of the element-set loop adds, and
that every place that prints them prints the latest count.  The pass is compared with spec/sky.c (selection, Sun
light); the condition for another pass with the documented stop conditions; the duplicate test and the registration of
a catalogue number with each other and with the condition for it.
"""
import outs, scan, gvn, eqv
from gvn import T, P
NOTEMPTY = 'each counted satellite is counted once in the pass that selects it'


def run(c):
    o = outs.Outs(c, 'sat_skymap')
    recs = o.slots('data', '[0]')
    if not recs:
        c.ob(NOTEMPTY, 'records', False, 'sat_skymap', 'no record is printed', key='none')
        return
    h = scan.passhead(o, recs[0]['inst'].bb)
    sel, lit = o.specval('sky', 'sel'), o.specval('sky', 'sellit')
    cnt = None
    for name, want in (('n_sats_found', sel), ('n_sunlit_sats', lit)):
        slots = o.slots(name)
        var = [r for r in slots if r['op'][0] == 'v']
        if not var:
            c.ob(NOTEMPTY, name, False, 'sat_skymap', 'the counter is not printed', key=name)
            continue
        k = scan.Counter(o, var[-1]['op'])
        first = k.sites()[0] if k.sites() else var[-1]['inst']
        c.ob('counters start from zero', name, k.leaves == {('i', 0)}, var[-1]['inst'].where(),
             'values other than an incremented zero: %s' % (k.leaves - {('i', 0)}))
        t = k.total(h)
        if t is None:
            c.ob(NOTEMPTY, name, False, first.where(), 'the counter is changed outside the pass of one element set')
        else:
            scan.agree(o, NOTEMPTY, name, t, want, first.where())
        for r in slots:
            c.ob('the latest count is printed', '%s at %s' % (name, r['inst'].where()), k.latest(r['inst'], r['op']),
                 r['inst'].where(), 'prints a stale count', key='stale|' + name)
        if name == 'n_sats_found':
            ph = [i for i in o.fn.blocks[h] if i.op == 'phi' and i.id in k.web]
            cnt = o.deep(o.pr.ev.val(('v', ph[0].id))) if len(ph) == 1 else None
            last = (k, var[-1])
    stop(c, o, h, sel, cnt, recs[0]['inst'])
    total(c, o, *last)
    dups(c, o, h)
    outs.assumptions(c)
    c.assume('memory allocation succeeds and no position is NaN')


def stop(c, o, h, sel, cnt, where):
    rule = 'the scan ends early exactly when it is complete'
    if cnt is None:
        c.ob(rule, 'count', False, where.where(), 'the count is not carried from pass to pass')
        return
    single = gvn.cor(gvn.cmp0('ne', o.sym('s')), gvn.cmp0('ne', o.sym('i')))
    want = P(1) - gvn.b2i(gvn.cand(gvn.cmp0('ne', sel), gvn.cor(single, gvn.cmp0('eq', cnt + 1 - o.sym('nmax')))))
    more = gvn.subst(o.events(o.again(h)), lambda k: P(1) if k[0] == 'app' and k[1] in ('fgets', 'getline') and k[2] == 'ret' else None)
    scan.agree(o, rule, 'end of scan', more, want, where.where())


def total(c, o, k, found):
    """n_sats: the count itself, or the constant 1 where the requested single satellite was found"""
    rule = 'n_sats is the number of satellites found'
    for r in o.slots('n_sats'):
        if r['op'][0] != 'v':
            same = any(f['inst'].id == r['inst'].id and tuple(f['op']) == tuple(r['op']) for f in o.slots('n_sats_found'))
            c.ob(rule, 'at %s' % r['inst'].where(), r['op'][:2] == ('i', 0) or same, r['inst'].where(),
                 'a constant is printed', key='n_sats|const')
            continue
        m = scan.Counter(o, r['op'])
        bad = m.leaves - {('i', 0), ('i', 1)}
        own = {i.id for i in m.sites()} - {i.id for i in k.sites()}
        ok, why = not bad and not own, 'not derived from the count' if bad or own else ''
        if ok and ('i', 1) in m.leaves:
            ok, why = one(c, o, r, m, k)
        c.ob(rule, 'at %s' % r['inst'].where(), ok, r['inst'].where(), why, key='n_sats')


def one(c, o, r, m, k):
    """the constant 1 may replace the count only where a flag says that the one requested satellite was counted"""
    fn = o.fn
    for x in m.web:
        i = fn.inst[x]
        if i.op == 'select' and ('i', 1) in [tuple(a[:2]) for a in i.args[1:]]:
            return flag(o, i.args[0], tuple(i.args[1][:2]) == ('i', 1), k)
        if i.op == 'phi' and ('i', 1) in [tuple(v[:2]) for v, _ in i.d['inc']]:
            for v, b in i.d['inc']:
                if tuple(v[:2]) != ('i', 1):
                    continue
                p = b
                while len(fn.pred[p]) == 1 and len(fn.succ[fn.pred[p][0]]) == 1:
                    p = fn.pred[p][0]
                d = fn.pred[p][0] if len(fn.succ[p]) == 1 and len(fn.pred[p]) == 1 else p
                t = fn.blocks[d][-1]
                if t.op == 'br' and len(fn.succ[d]) == 2:
                    n = p if d != p else i.bb
                    return flag(o, t.args[0], fn.succ[d][0] == n, k)
    return True, ''


def flag(o, op, pos, k):
    body = o.pr.ev.loopheads[scan.passhead(o, k.sites()[0].bb)]
    fn, seen, st, leaves = o.fn, set(), [(tuple(op), pos)], set()
    while st:
        x, pos = st.pop()
        if (x, pos) in seen:
            continue
        seen.add((x, pos))
        i = fn.inst[x[1]] if x[0] == 'v' and x[1] >= len(fn.args) else None
        if i is None:
            leaves.add((x, pos))
        elif i.op in ('phi', 'select'):
            vs = [tuple(v) for v, _ in i.d['inc']] if i.op == 'phi' else [tuple(a) for a in i.args[1:]]
            if i.bb in body and not any(k._cyclic(v, x[1]) for v in vs):
                leaves.add((x, pos))
            else:
                st += [(v, pos) for v in vs]
        elif i.op in ('zext', 'sext', 'trunc', 'freeze'):
            st.append((tuple(i.args[0]), pos))
        elif i.op == 'icmp' and i.d.get('pred') in ('eq', 'ne') and tuple(i.args[1][:2]) == ('i', 0):
            st.append((tuple(i.args[0]), pos == (i.d['pred'] == 'ne')))
        else:
            leaves.add((x, pos))
    single = gvn.cor(gvn.cmp0('ne', o.sym('s')), gvn.cmp0('ne', o.sym('i')))
    sel = gvn.cmp0('ne', o.specval('sky', 'sel'))
    for x, pos in leaves:
        if x[0] != 'v':
            if (x[1] != 0) == pos:
                return False, 'prints 1 although no satellite may have been counted'
            continue
        v = o.events(o.deep(o.pr.ev.val(x)))
        v = v if pos else P(1) - v
        bad = gvn.b2i(gvn.cand(gvn.cmp0('ne', v), sel, gvn.cnot(single)))
        why = []
        if not eqv.same(bad, P(0), None, eqv.EMPTY, 3000, why, 60):
            return False, 'prints 1 for several satellites: ' + eqv.explain(why)
    return True, ''


def dups(c, o, h):
    rule = 'a catalogue number is registered exactly when it is met'
    fn, ev = o.fn, o.pr.ev
    body = ev.loopheads[h]
    pairs = []
    for s in fn.insts():
        if s.op == 'call' and s.callee == 'strstr' and s.bb in body and not o.isopt(o.pr.canon(ev.string(s.args[1], s))):
            for a in fn.insts():
                if a.op == 'call' and a.callee == 'strcat' and a.bb in body and fn.dominates(s.bb, a.bb) and \
                        roots(fn, a.args[0]) & roots(fn, s.args[0]):
                    pairs.append((s, a))
    if not pairs:
        c.note('duplicates are not recognised with strstr/strcat: registration not analysed')
        return
    for s, a in pairs:
        ks, ka = o.pr.canon(ev.string(s.args[1], s)), o.pr.canon(ev.string(a.args[1], a))
        c.ob('the registered text is the one searched for', 'key', ks == ka, a.where(), 'searched: %s; registered: %s' %
             (gvn.brief(ks), gvn.brief(ka)), key='key')
        kf = keyform(ka)
        c.ob('the key is the five-character catalogue number and a separator', 'key', kf is None or good(o, kf), a.where(),
             'key: %s' % (kf,), key='keyform')
        if kf is None:
            c.note('key not recognised: %s' % gvn.brief(ka))
        scan.agree(o, rule, 'registration', scan.cond(o, h, a.bb), o.specval('sky', 'met'), a.where())
        init = [st for st in fn.insts() if st.op == 'store' and st.d.get('size') == 1 and tuple(st.args[0][:2]) == ('i', 0) and
                roots(fn, st.args[1]) & roots(fn, s.args[0]) and fn.dominates(st.bb, s.bb)] + \
               [st for st in fn.insts() if st.op == 'call' and st.callee == 'calloc' and st.id in roots(fn, s.args[0])]
        c.ob('the register of catalogue numbers is empty at first', 'register', bool(init), s.where(), 'not emptied', key='empty')


def roots(fn, op):
    out, seen, st = set(), set(), [tuple(op)]
    while st:
        x = st.pop()
        if x[0] != 'v' or x in seen or x[1] < len(fn.args):
            continue
        seen.add(x)
        i = fn.inst[x[1]]
        if i.op == 'phi':
            st += [tuple(v) for v, _ in i.d['inc']]
        elif i.op == 'select':
            st += [tuple(v) for v in i.args[1:]]
        elif i.op in ('gep', 'getelementptr', 'bitcast'):
            st.append(tuple(i.args[0]))
        elif i.op == 'call' and i.callee == 'realloc':
            st.append(tuple(i.args[0]))
            out.add(i.id)
        else:
            out.add(i.id)
    return out


def keyform(p):
    """(source text, offset, length, suffix) of a key cut out of a text"""
    a = p.single_atom()
    k = T.akey[a] if a is not None else None
    if not k:
        return None
    if k[0] == 'spelled':              # byte by byte: consecutive characters of one text, then constant ones
        src, suf = None, ''
        for j, x in enumerate(k[1:]):
            if x.const() is not None:
                suf += chr(int(x.const()))
                continue
            b = x.single_atom()
            z = T.akey[b] if b is not None else ('',)
            if z[0] != 'field' or suf or z[2] != j or src is not None and src != z[1]:
                return None
            src = z[1]
        f = keyform(src) if src is not None else None
        n = len(k) - 1 - len(suf)
        if f is None or f[3] or f[2] is not None and f[2] < n:
            return None
        return f[0], f[1], n, suf
    if k[0] == 'strset' and k[3].const() == 0 and k[2].const() is not None:
        f = keyform(k[1])
        if f is None or f[3]:
            return None
        n = int(k[2].const())
        return f[0], f[1], n if f[2] is None else min(f[2], n), ''
    if k[0] == 'app' and k[1] in ('strncpy', 'strncat') and k[2] == 'out0':
        src, n = k[3:5] if k[1] == 'strncpy' else k[4:6]
        f = keyform(src)
        n = n.const()
        if f is None or n is None or f[3]:
            return None
        return f[0], f[1], int(n) if f[2] is None else min(f[2], int(n)), ''
    if k[0] == 'app' and k[1] == 'strcat' and k[2] == 'out0':
        f = keyform(k[3])
        b = k[4].single_atom()
        if f is None or b is None or T.akey[b][0] != 'str':
            return None
        return f[0], f[1], f[2], f[3] + T.akey[b][1]
    if k[0] == 'mu' and k[2][0] == 'cell':
        return k[2][2], k[2][3], None, ''
    return None


def good(o, kf):
    base, off, n, suf = kf
    ls = set()
    for i in o.fn.calls('parse_elements'):
        b, so, _ = o.pr.ev.ptr(i.args[0])
        ls.add((b, so))
    return any(b == base and so is not None and off - so == 2 for b, so in ls) and n == 5 and len(suf) == 1 and \
        not suf.isalnum() and suf != ' '
