"""Path-sensitive output analysis (property simulation): a JSON push-down automaton is run over every literal
piece of text printed to stdout along every path of the flattened main(), together with a small valuation of the
flags that decide what is printed.

States are (json state, facts).  Facts are (a) truth of loop-invariant conditions, by value number, and (b) the
abstract value (0, 1, positive, other) of integer SSA joins that feed print decisions.
"""
import re
from ir import AnalysisBroken
import gvn
from gvn import T

FMT = re.compile(r'%(?:%|([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|z|j|t|q)?([diouxXeEfFgGaAcspn]))')


class Bad(Exception):
    pass


# JSON machine ---------------------------------------------------------------------------------------------
# state: (stack, mode)   stack: tuple of frames; frame = ['o', key, phase] / ['a', idx, phase] as tuples
# phases: object: 'k0' (key or }), 'k' (key required), 'c' (colon), 'v' (value), ',' (comma or })
#         array : 'v0' (value or ]), 'v' (value), ',' (comma or ])
# mode: None, ('s', iskey, text, esc) inside a string, ('n',) inside a number token, ('w', text) literal word
START = ((), None, 'top')       # top: 'top' nothing yet, 'done' after the document, 'text' plain (help) output


def value_done(st):
    stack, mode, top = st
    if not stack:
        return (stack, None, 'done')
    f = stack[-1]
    if f[0] == 'o':
        return (stack[:-1] + (('o', f[1], ','),), None, top)
    return (stack[:-1] + (('a', f[1], ','),), None, top)


def expects_value(st):
    stack, mode, top = st
    if mode is not None:
        return False
    if not stack:
        return top == 'top'
    return stack[-1][2] in ('v', 'v0')


def path(st):
    """key path of the value at the cursor"""
    out = []
    for f in st[0]:
        out.append(f[1] if f[0] == 'o' else '[%s]' % f[1])
    return tuple(str(x) for x in out)


def push(st, ch):
    """one literal character"""
    stack, mode, top = st
    if mode is not None and mode[0] == 's':
        _, iskey, text, esc = mode
        if esc:
            if ch not in '"\\/bfnrtu':
                raise Bad('invalid escape \\%s in a string' % ch)
            return (stack, ('s', iskey, text + ch if iskey else '', False), top)
        if ch == '\\':
            return (stack, ('s', iskey, text, True), top)
        if ch == '"':
            if iskey:
                f = stack[-1]
                return (stack[:-1] + (('o', text, 'c'),), None, top)
            return value_done((stack, None, top))
        if ord(ch) < 32:
            raise Bad('raw control character 0x%02x inside a string' % ord(ch))
        return (stack, ('s', iskey, (text + ch) if iskey else '', False), top)
    if mode is not None and mode[0] == 'n':
        if ch in '0123456789.eE+-':
            return (stack, mode, top)
        st = value_done((stack, None, top))
        return push(st, ch)
    if mode is not None and mode[0] == 'w':
        if ch.isalpha():
            t = mode[1] + ch
            if not any(w.startswith(t) for w in ('true', 'false', 'null')):
                raise Bad('bare word %r' % t)
            return (stack, ('w', t), top)
        if mode[1] not in ('true', 'false', 'null'):
            raise Bad('bare word %r' % mode[1])
        return push(value_done((stack, None, top)), ch)
    if ch in ' \t\r\n':
        return st
    if top == 'done' and not stack:
        raise Bad('text %r after the end of the document' % ch)
    if not stack:
        if ch == '{':
            return ((('o', None, 'k0'),), None, top)
        if ch == '[':
            return ((('a', 0, 'v0'),), None, top)
        raise Bad('document starts with %r' % ch)
    f = stack[-1]
    kind, key, ph = f
    if kind == 'o':
        if ph in ('k0', 'k'):
            if ch == '"':
                return (stack, ('s', True, '', False), top)
            if ch == '}' and ph == 'k0':
                return value_done((stack[:-1], None, top))
            raise Bad('%r where a member name is expected' % ch)
        if ph == 'c':
            if ch == ':':
                return (stack[:-1] + (('o', key, 'v'),), None, top)
            raise Bad('%r where ":" is expected' % ch)
        if ph == ',':
            if ch == ',':
                return (stack[:-1] + (('o', key, 'k'),), None, top)
            if ch == '}':
                return value_done((stack[:-1], None, top))
            raise Bad('%r where "," or "}" is expected (after member %r)' % (ch, key))
    else:
        if ph == ',':
            if ch == ',':
                return (stack[:-1] + (('a', key + 1 if isinstance(key, int) and key < 60 else key, 'v'),), None, top)
            if ch == ']':
                return value_done((stack[:-1], None, top))
            raise Bad('%r where "," or "]" is expected' % ch)
        if ch == ']' and ph == 'v0':
            return value_done((stack[:-1], None, top))
    # value position
    if ch == '"':
        return (stack, ('s', False, '', False), top)
    if ch == '{' or ch == '[':
        if kind == 'a':
            stack = stack[:-1] + (('a', '*', ph),)      # element index of structured elements is not tracked
        return (stack + ((('o', None, 'k0') if ch == '{' else ('a', 0, 'v0')),), None, top)
    if ch in '-0123456789':
        return (stack, ('n',), top)
    if ch in 'tfn':
        return (stack, ('w', ch), top)
    raise Bad('%r where a value is expected' % ch)


def push_number(st):
    stack, mode, top = st
    if mode is not None and mode[0] == 's':
        return st if not mode[1] else (stack, ('s', True, mode[2] + '%', False), top)
    if mode is not None:
        raise Bad('number conversion directly after a number')
    if not expects_value(st):
        raise Bad('number conversion where no value is allowed')
    if not stack:
        raise Bad('number at top level')
    return (stack, ('n',), top)


class Piece:
    """one conversion of one print call"""
    __slots__ = ('inst', 'conv', 'arg', 'argn', 'paths', 'instr', 'width', 'prec', 'length')


def parse_format(fmt):
    """-> list of ('t', text) / ('c', conv, width, prec, length, nextra)"""
    out, k = [], 0
    while k < len(fmt):
        m = FMT.search(fmt, k)
        if not m:
            out.append(('t', fmt[k:]))
            break
        if m.start() > k:
            out.append(('t', fmt[k:m.start()]))
        if m.group(0) == '%%':
            out.append(('t', '%'))
        else:
            ex = (m.group(2) == '*') + (m.group(3) == '*')
            out.append(('c', m.group(5), m.group(2), m.group(3), m.group(4), ex))
        k = m.end()
    return out


class Flow:
    def __init__(self, fn, ev, maxstates=4000, prog=None):
        self.fn, self.ev = fn, ev
        self.prog = prog          # program model: settings become loop-invariant
        self.errors = {}          # (inst id, message) -> (inst, message, path note)
        self.convs = {}           # (inst id, k) -> dict(inst, conv, op, paths:set, instring)
        self.ends = []            # (inst, kind, jsonstate)
        self.status = {}
        self.maxstates = maxstates
        self.nstates = 0
        self.ntrans = 0
        self.printset = set()
        self.lits = {}            # member path -> literal texts ('\0' stands for a conversion, None: not within one call)
        self.lens = {}            # member path of an array -> numbers of elements
        self.objs = {}            # member path of an object -> member names
        self.at = {}              # member path -> calls that print its name
        self.help = False
        self._prepare()

    PRINTS = {'printf', 'puts', 'putchar', 'fputs', 'fprintf', 'fputc', 'putc', 'fwrite', 'vprintf', 'write', 'dprintf'}

    def is_stdout(self, i):
        n = i.callee
        if n in ('printf', 'puts', 'putchar', 'vprintf'):
            return True
        k = {'fprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3}.get(n)
        if k is None:
            return n in ('write', 'dprintf')
        p = self.ev.val(i.args[k])
        return 'stdout' in repr(p.key) or gvn.contains(p, lambda key: 'stdout' in str(key[1:2]))

    def _prepare(self):
        fn = self.fn
        self.pblocks = {}
        for i in fn.insts():
            if i.op in ('call', 'invoke') and i.callee in self.PRINTS and self.is_stdout(i):
                self.pblocks.setdefault(i.bb, []).append(i)
        if not self.pblocks:
            raise AnalysisBroken('no output calls found in %s' % fn.name)
        # branches that decide whether some print happens: b such that a print block is reachable from one successor
        # but a path from the other avoids it (control dependence, via post-dominance on the reachable graph)
        self.ctrl = self._ctrl_blocks()
        self.track_phi = set()
        self.track_cond = set()
        for b in self.ctrl:
            t = fn.blocks[b][-1]
            if t.op == 'br' and len(fn.succ[b]) == 2 and t.args[0][0] == 'v':
                self._slice(t.args[0][1], set())
            elif t.op == 'switch' and t.args[0][0] == 'v':
                self._slice(t.args[0][1], set())
        # conditions (a): invariant
        self.condcache = {}

    def _ctrl_blocks(self):
        fn = self.fn
        order = fn.rpo()
        succ = {b: list(dict.fromkeys(fn.succ[b])) for b in order}
        EXIT = -1
        for b in order:
            if not succ[b]:
                succ[b] = [EXIT]
        pred = {}
        for b in succ:
            for s in succ[b]:
                pred.setdefault(s, []).append(b)
        # post order from EXIT on reverse graph
        seen, po = set(), []
        st = [(EXIT, iter(pred.get(EXIT, [])))]
        seen.add(EXIT)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(pred.get(s, []))))
                    break
            else:
                po.append(b)
                st.pop()
        ro = po[::-1]
        ipdom = fn._domtree(ro, lambda b: succ.get(b, []))
        self.ipdom = ipdom
        cd = {}
        for a in order:
            if len(succ[a]) < 2:
                continue
            for s in succ[a]:
                x = s
                while x != ipdom.get(a) and x != EXIT:
                    cd.setdefault(x, set()).add(a)
                    if x not in ipdom or ipdom[x] == x:
                        break
                    x = ipdom[x]
        self.cd = cd
        out, wl = set(), list(self.pblocks)
        seen = set()
        while wl:
            b = wl.pop()
            if b in seen:
                continue
            seen.add(b)
            for a in cd.get(b, ()):
                out.add(a)
        return out

    def _slice(self, v, seen):
        if v in seen or v < len(self.fn.args):
            return
        seen.add(v)
        i = self.fn.inst[v]
        if i.op == 'phi':
            if i.ty in ('i1', 'i8', 'i16', 'i32', 'i64'):
                self.track_phi.add(v)
                for x, _ in i.d['inc']:
                    if x[0] == 'v':
                        self._slice(x[1], seen)
        elif i.op in ('add', 'sub', 'icmp', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'select', 'freeze'):
            for x in i.args:
                if x[0] == 'v':
                    self._slice(x[1], seen)

    # abstract ints: int constant, 'pos' (>=1), 'nn' (>=0), None
    def aval(self, op, env, depth=0):
        if op[0] == 'i':
            return op[1]
        if op[0] != 'v' or op[1] < len(self.fn.args):
            return None
        if op[1] in env:
            return env[op[1]]
        i = self.fn.inst[op[1]]
        if depth > 20:
            return None
        if i.op == 'add':
            a, b = self.aval(i.args[0], env, depth + 1), self.aval(i.args[1], env, depth + 1)
            if isinstance(a, int) and isinstance(b, int):
                r = a + b
                return r if r in (0, 1) else ('pos' if r > 0 else None)
            if b == 1 and a in ('pos', 'nn'):
                return 'pos'
            if a == 1 and b in ('pos', 'nn'):
                return 'pos'
            return None
        if i.op in ('zext', 'trunc', 'freeze'):
            a = self.aval(i.args[0], env, depth + 1)
            if i.op == 'trunc' and i.ty == 'i1' and not isinstance(a, int):
                return None
            return a
        if i.op == 'sext':
            a = self.aval(i.args[0], env, depth + 1)
            return a if a == 0 else None
        if i.op == 'icmp':
            a, b = self.aval(i.args[0], env, depth + 1), self.aval(i.args[1], env, depth + 1)
            return self.acmp(i.d['p'], a, b)
        if i.op == 'xor':
            a, b = self.aval(i.args[0], env, depth + 1), self.aval(i.args[1], env, depth + 1)
            if i.ty == 'i1' and isinstance(a, int) and isinstance(b, int):
                return (a & 1) ^ (b & 1)
            return None
        if i.op in ('and', 'or'):
            a, b = self.aval(i.args[0], env, depth + 1), self.aval(i.args[1], env, depth + 1)
            if i.op == 'and' and (a == 0 or b == 0):
                return 0
            if i.ty == 'i1':
                if i.op == 'or' and (a in (1, -1) or b in (1, -1)):
                    return 1
                if a is not None and b is not None and isinstance(a, int) and isinstance(b, int):
                    return (a & b if i.op == 'and' else a | b) & 1
            return None
        if i.op == 'select':
            c = self.acond(i.args[0], env)
            if c is True:
                return self.aval(i.args[1], env, depth + 1)
            if c is False:
                return self.aval(i.args[2], env, depth + 1)
            a, b = self.aval(i.args[1], env, depth + 1), self.aval(i.args[2], env, depth + 1)
            return a if a == b else None
        return None

    @staticmethod
    def acmp(p, a, b):
        if a is None or b is None:
            return None
        if isinstance(a, int) and isinstance(b, int):
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                        'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[p])
        if isinstance(b, int):
            lo = 1 if a == 'pos' else 0
            if p in ('sgt', 'ugt') and lo > b:
                return 1
            if p in ('sge', 'uge') and lo >= b:
                return 1
            if p in ('slt', 'ult') and lo >= b:
                return 0
            if p in ('sle', 'ule') and lo > b:
                return 0
            if p == 'eq' and b < lo:
                return 0
            if p == 'ne' and b < lo:
                return 1
        return None

    def condkey(self, op):
        """invariant condition value number, or None"""
        k = op
        if k in self.condcache:
            return self.condcache[k]
        c = self.ev.cond(op)
        p = gvn.final(gvn.b2i(c))
        if self.prog is not None and self.fn.inst[op[1]].bb not in self.prog.body:
            p = self.prog.canon(p)
        r = None
        if p.const() is not None:
            r = ('const', bool(p.const()))
        else:
            a = p.single_atom()
            neg = False
            if a is None:
                q = gvn.P(1) - p
                a, neg = q.single_atom(), True
            if a is not None and T.akey[a][0] == 'b2i':
                cc = T.akey[a][1]
                if neg:
                    cc = gvn.cnot(cc)
                if not self.variant(p):
                    c2, fl = gvn.canon_pol(cc)
                    r = ('c', c2, fl)
        self.condcache[k] = r
        return r

    def variant(self, p):
        return gvn.contains(p, lambda key: key[0] in ('mu', 'site', 'clobber', 'partial', 'unk', 'idx', 'undef'))

    def acond(self, op, env):
        v = self.aval(op, env)
        if v is not None and isinstance(v, int):
            return bool(v & 1) if v in (0, 1, -1) else bool(v)
        k = self.condkey(op) if op[0] == 'v' else None
        if k:
            if k[0] == 'const':
                return k[1]
            x = env.get(k[1])
            if x is not None:
                return x != k[2]
            # conjunction / disjunction of known parts
            return self.evalc(k[1], env, k[2])
        return None

    def evalc(self, c, env, fl):
        def e(c):
            c2, f = gvn.canon_pol(c)
            if c2 in env:
                return env[c2] != f
            if c2.key[0] == 'and':
                r = [e(x) for x in c2.key[1]]
                if any(x is False for x in r):
                    return f
                if all(x is True for x in r):
                    return not f
            return None
        r = e(c)
        return None if r is None else (r != fl)

    def assume(self, op, truth, env):
        """refine env with branch outcome; returns env or None if infeasible"""
        cur = self.acond(op, env)
        if cur is not None:
            return env if cur == truth else None
        if op[0] != 'v':
            return env
        env = dict(env)
        k = self.condkey(op)
        if k and k[0] == 'c':
            val = truth != k[2]
            env[k[1]] = val
            if k[1].key[0] == 'and' and val:
                for x in k[1].key[1]:
                    x2, f = gvn.canon_pol(x)
                    env[x2] = True != f
        i = self.fn.inst.get(op[1])
        if i is not None:
            self.refine(i, truth, env)
        return env

    def refine(self, i, truth, env):
        if i.op == 'phi' and i.id in self.track_phi and i.ty == 'i1':
            env[i.id] = int(truth)
        if i.op in ('trunc', 'zext', 'freeze') and i.args[0][0] == 'v':
            x = self.fn.inst.get(i.args[0][1])
            if x is not None:
                self.refine(x, truth, env)
            if x is not None and x.id in self.track_phi and x.ty in ('i8',):
                env[x.id] = int(truth)
        if i.op == 'xor' and i.ty == 'i1' and i.args[1][0] == 'i' and i.args[0][0] == 'v':
            x = self.fn.inst.get(i.args[0][1])
            if x is not None:
                self.refine(x, not truth, env)
        if i.op == 'icmp' and i.args[1][0] == 'i' and i.args[0][0] == 'v':
            v, c, p = i.args[0][1], i.args[1][1], i.d['p']
            if v in self.track_phi:
                cur = env.get(v)
                if c == 0:
                    if (p == 'eq' and truth) or (p == 'ne' and not truth):
                        env[v] = 0
                    elif (p == 'sgt' and truth):
                        env[v] = 'pos'
                    elif (p == 'sgt' and not truth) and cur == 'nn':
                        env[v] = 0
                    elif (p == 'eq' and not truth or p == 'ne' and truth) and cur == 'nn':
                        env[v] = 'pos'

    def run(self, init=START):
        fn = self.fn
        seen = {}
        work = [(0, None, init, {})]
        self.trace = {}
        while work:
            b, frm, js, env = work.pop()
            # phis
            if frm is not None:
                new = {}
                for i in fn.blocks[b]:
                    if i.op != 'phi':
                        break
                    if i.id in self.track_phi:
                        for x, pb in i.d['inc']:
                            if pb == frm:
                                v = self.aval(tuple(x), env)
                                if v is None and i.ty == 'i1' and x[0] == 'v':
                                    c = self.acond(tuple(x), env)
                                    v = None if c is None else int(c)
                                new[i.id] = v
                env = dict(env)
                for k, v in new.items():
                    if v is None:
                        env.pop(k, None)
                    else:
                        env[k] = v
            key = (js, frozenset(env.items()))
            s = seen.setdefault(b, set())
            if key in s:
                continue
            s.add(key)
            self.nstates += 1
            if len(s) > self.maxstates:
                raise AnalysisBroken('state explosion in output analysis (%s)' % fn.blocks[b][0].where())
            dead = False
            for i in fn.blocks[b]:
                if i.op in ('call', 'invoke'):
                    if i.callee in self.PRINTS and i in self.pblocks.get(b, ()):
                        js = self.do_print(i, js)
                        if js is None:
                            dead = True
                            break
                    elif i.callee in ('exit', '_exit', 'abort', '__assert_fail', '_Exit'):
                        self.ends.append((i, 'exit', js, env))
                        self.check_end(i, js)
                        dead = True
                        break
                elif i.op == 'ret':
                    self.ends.append((i, 'ret', js, env))
                    self.check_end(i, js)
            if dead:
                continue
            t = fn.blocks[b][-1]
            ss = fn.succ[b]
            self.ntrans += len(ss)
            if t.op == 'br' and len(ss) == 2 and ss[0] != ss[1]:
                for s2, truth in ((ss[0], True), (ss[1], False)):
                    if b in self.ctrl or t.args[0][0] != 'v':
                        e2 = self.assume(t.args[0], truth, env)
                    else:
                        c = self.acond(t.args[0], env)
                        e2 = env if c is None or c == truth else None
                    if e2 is not None:
                        work.append((s2, b, js, e2))
            else:
                for s2 in dict.fromkeys(ss):
                    work.append((s2, b, js, env))

    def err(self, i, msg):
        self.errors.setdefault((i.id, msg), (i, msg))

    def check_end(self, i, js):
        stack, mode, top = js
        if top == 'text':
            return
        if top == 'top' and not stack:
            self.err(i, 'program ends without having written anything')
        elif stack or mode is not None:
            self.err(i, 'program ends inside an unfinished document (open: %s)' % '/'.join(path(js)))

    def do_print(self, i, js):
        n = i.callee
        pieces = self.pieces(i)
        if pieces is None:
            self.err(i, 'output call whose text is not a literal format')
            return None
        if js[2] == 'text':
            return js
        if js == START:
            first = next((p for p in pieces), None)
            lit = ''.join(p[1] for p in pieces if p[0] == 't').lstrip()
            if lit.startswith('Usage'):
                self.help = True
                return ((), None, 'text')
        buf = None
        try:
            for k, p in enumerate(pieces):
                if p[0] == 't':
                    for ch in p[1]:
                        old, js = js, push(js, ch)
                        buf = self.literal(old, js, ch, buf, i)
                else:
                    js = self.do_conv(i, k, p, js)
                    if buf is not None:
                        buf += '\0'
        except Bad as e:
            self.err(i, '%s [after %s]' % (e, '/'.join(path(js)) or 'document start'))
            return None
        return js

    def literal(self, old, new, ch, buf, inst):
        """texts of string members and sizes of arrays, as they are completed"""
        om, nm = old[1], new[1]
        if om is None and nm is not None and nm[0] == 's' and not nm[1]:
            return ''
        if om is not None and om[0] == 's' and not om[1]:
            if nm is None:
                self.lits.setdefault(path(old), set()).add(buf)
                return None
            return None if buf is None else buf + ch
        if len(new[0]) < len(old[0]):
            f = old[0][-1]
            if f[0] == 'a':
                q = path(((old[0][:-1]), None, old[2]))
                self.lens.setdefault(q, set()).add(0 if f[2] == 'v0' else f[1] + 1 if isinstance(f[1], int) else '*')
        if om is not None and om[0] == 's' and om[1] and (nm is None):
            q = path((old[0][:-1], None, old[2]))
            self.objs.setdefault(q, set()).add(om[2])
            self.at.setdefault(q + (om[2],), set()).add(inst)
        return buf

    def pieces(self, i):
        n = i.callee
        if n in ('puts', 'fputs'):
            s = self.ev.strconst(i.args[0])
            if s is None:
                return [('c', 's', None, None, None, i.args[0])] + ([('t', '\n')] if n == 'puts' else [])
            return [('t', s + ('\n' if n == 'puts' else ''))]
        if n in ('putchar', 'putc', 'fputc'):
            if i.args[0][0] == 'i':
                return [('t', chr(i.args[0][1] & 255))]
            return [('c', 'c', None, None, None, i.args[0])]
        if n == 'fwrite':
            s = self.ev.strconst(i.args[0])
            ln = self.ev.val(i.args[2]).const()
            sz = self.ev.val(i.args[1]).const()
            if s is None or ln is None:
                return None
            return [('t', s[:int(ln * sz)])]
        k = 0 if n == 'printf' else 1
        fmt = self.ev.strconst(i.args[k])
        if fmt is None:
            return None
        out, a = [], k + 1
        for p in parse_format(fmt):
            if p[0] == 't':
                out.append(p)
            else:
                a += p[5]
                if a >= len(i.args):
                    self.err(i, 'conversion without an argument')
                    return None
                out.append(('c', p[1], p[2], p[3], p[4], i.args[a]))
                a += 1
        if a < len(i.args):
            self.err(i, 'more arguments than conversions')
        return out

    def do_conv(self, i, k, p, js):
        conv, op = p[1], p[5]
        st, mode, top = js
        rec = self.convs.setdefault((i.id, k), {'inst': i, 'conv': conv, 'op': op, 'paths': set(), 'instring': set(),
                                                'width': p[2], 'prec': p[3], 'len': p[4]})
        inside = mode is not None and mode[0] == 's'
        rec['paths'].add(path(js))
        rec['instring'].add(inside)
        if conv in 'diouxXeEfFgG':
            return push_number(js)
        if conv in 'sc':
            lit = self.ev.strconst(op) if conv == 's' else None
            if lit is not None and (op[0] != 'g' or self.fn.mod.globals[op[1]].get('const', True) or True):
                for ch in lit:
                    js = push(js, ch)
                return js
            if not inside:
                raise Bad('%%%s conversion outside a string' % conv)
            if mode[1]:
                return (st, ('s', True, mode[2] + '*', False), top)
            return js
        raise Bad('unsupported conversion %%%s in the output' % conv)
