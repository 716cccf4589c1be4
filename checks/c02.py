"""C02: the status member tells how the run ended: it equals the exit code and comes with a message.

Every place that prints the status member is followed along all control-flow paths to the process ends after it; the
exit code there (phi nodes resolved along the path) must be the printed status.  The printed message is followed to
the texts it may be (constants and formats), which must be empty or not as the status says and free of characters that
would end or break the JSON string.
"""
import outs, gvn, eqv
from gvn import T, P
EXIT = 'the exit code is the printed status'
MSG = 'a message is printed exactly when something failed'
TXT = 'fixed text of a message fits into a JSON string'


def run(c):
    for prog in ('sat_skymap', 'sat_visibility'):
        o = outs.Outs(c, prog)
        ms = {r['inst'].id: r for r in o.slots('errmsg')}
        st = o.slots('status')
        if len(st) < 3:
            raise outs.AnalysisBroken('only %d places print a status in %s' % (len(st), prog))
        single = [o.sym('s'), o.sym('i')]
        for r in st:
            i = r['inst']
            site = '%s at %s' % (prog, i.where())
            sv = o.value(r)
            ends = list(walk(o, i))
            c.count('program ends followed from a status report', len(ends))
            for e, code in ends:
                ok = eqv.same(wrap8(o.deep(code)), wrap8(sv)) if code is not None else False
                c.ob(EXIT, '%s, end at %s' % (site, e.where()), ok, e.where(), 'status %s, exit code %s' %
                     (gvn.brief(sv), gvn.brief(o.deep(code)) if code is not None else '?'), key='%s|exit|%s' % (prog, gvn.brief(sv)))
            c.ob(EXIT, site + ' has an end', bool(ends), i.where(), 'the program does not end after the report')
            m = ms.get(i.id)
            if m is None:
                c.ob(MSG, site, False, i.where(), 'status printed without a message member', key='%s|nomsg' % prog)
                continue
            leaves = list(texts(o.value(m)))
            for t in leaves:
                fixed = t if isinstance(t, str) else (t[0] if t[0] is not None else '')
                bad = [ch for ch in fixed if ch in '"\\' or ord(ch) < 32]
                c.ob(TXT, '%s: %s' % (site, fixed), not bad, i.where(), 'contains %r' % bad, key='%s|text|%s' % (prog, fixed))
            empty = [t for t in leaves if t == '']
            some = [t for t in leaves if t != '']
            z = sv.const()
            if z is None:
                c.note('status at %s is not constant: message not compared with it' % i.where())
            elif z != 0:
                c.ob(MSG, site, not empty, i.where(), 'status %s without message' % z, key='%s|empty|%s' % (prog, z))
            else:
                # only a single-satellite request that found nothing may leave a message with status 0
                f = o.value(m)
                none = {T.akey[x.single_atom()]: P(0) for x in single if x.single_atom() is not None}
                g = gvn.subst(f, lambda k: P(0) if k[0] == 'sym' and k[1] in (o.roles.get('s'), o.roles.get('i')) else
                              (P(0) if k[0] == 'sym' and k[1][:1] == '?' and k[1][1:] in (o.roles.get('s'), o.roles.get('i')) else None))
                ok = all(t == '' for t in texts(g)) if some else True
                c.ob(MSG, site, ok, i.where(), 'success is reported with a message', key='%s|message|0' % prog)
    c.need(10, 'program ends followed from a status report')
    outs.assumptions(c)


def wrap8(p):
    k = p.const()
    return P(int(k) & 255) if k is not None and k == int(k) else p


def walk(o, inst):
    """process ends after an instruction and their exit codes, without passing another status report"""
    fn, ev = o.fn, o.pr.ev
    others = {r['inst'].id for r in o.slots('status')} - {inst.id}
    seen = set()
    st = [(inst.bb, inst.pos + 1, ())]
    while st:
        b, pos, env = st.pop()
        if (b, pos, env) in seen:
            continue
        seen.add((b, pos, env))
        E = dict(env)
        done = False
        for i in fn.blocks[b][pos:]:
            if i.id in others:
                done = True
                break
            if i.op in ('call', 'invoke') and i.callee in ('exit', '_exit', '_Exit', 'quick_exit'):
                yield i, val(o, i.args[0], E)
                done = True
                break
            if i.op in ('call', 'invoke') and i.callee in ('abort', '__assert_fail'):
                yield i, None
                done = True
                break
            if i.op == 'ret':
                yield i, val(o, i.args[0], E) if i.args else P(0)
                done = True
        if done:
            continue
        for s in fn.succ[b]:
            e2 = dict(E)
            for i in fn.blocks[s]:
                if i.op != 'phi':
                    break
                for v, pb in i.d['inc']:
                    if pb == b:
                        v = tuple(v)
                        e2[i.id] = E.get(v[1], v) if v[0] == 'v' else v
            st.append((s, 0, tuple(sorted(e2.items()))))


def val(o, op, E):
    op = tuple(op)
    if op[0] == 'v' and op[1] in E:
        op = E[op[1]]
    return o.pr.ev.val(op)


def texts(p, depth=0):
    """texts a string value may be: constants as str, formatted ones as (format,)"""
    a = p.single_atom()
    k = T.akey[a] if a is not None else None
    if k is None or depth > 60:
        yield (None,)
    elif k[0] == 'str':
        yield k[1]
    elif k[0] == 'strp' and k[1].single_atom() is not None and T.akey[k[1].single_atom()][0] == 'str':
        yield T.akey[k[1].single_atom()][1]
    elif k[0] == 'ite':
        yield from texts(k[2], depth + 1)
        yield from texts(k[3], depth + 1)
    elif k[0] == 'app' and k[1] in ('sprintf', 'snprintf'):
        for x in k[3:]:
            b = x.single_atom()
            if b is not None and T.akey[b][0] == 'str':
                yield (T.akey[b][1],)
                break
        else:
            yield (None,)
    else:
        yield (None,)
