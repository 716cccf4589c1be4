"""C37: writes to arrays of fixed size stay inside them, texts end inside them, and conversions fit their arguments.

Every call that writes a text or a block of bytes into a variable, array or structure member, and every load and store at
a known place of one, is compared with the size of that object (LLVM IR and debug information of every function; the
programs also with their helpers inlined).  The length of a text that is copied without a limit is bounded by the object
it lies in or by the value it has on all paths.  Formats are compared with the types of the values and of the objects they
are given.
"""
import re
import gvn, eqv, prog, outs, scan
from gvn import T, P, A
from ir import AnalysisBroken

CONV = re.compile(r'%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?([diuoxXcsfFeEgGpn%])')
SCAN = re.compile(r'%(\*?)(\d*)(hh|h|ll|l|z|j|t|L)?(\[\^?\]?[^]]*\]|[diuoxXcsfFeEgGpn%])')
INT = {None: 4, 'hh': 4, 'h': 4, 'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8}
SINT = {None: 4, 'hh': 1, 'h': 2, 'l': 8, 'll': 8, 'z': 8, 'j': 8, 't': 8}
LIMIT = {'fgets': (0, 1), 'snprintf': (0, 1), 'strncpy': (0, 2), 'memcpy': (0, 2), 'memmove': (0, 2), 'memset': (0, 2), 'strftime': (0, 1),
         'vsnprintf': (0, 1)}
FORMAT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2}
SCANF = {'sscanf': 1, 'fscanf': 1, 'scanf': 0}
BIG = 10 ** 9


def run(c):
    for name in ('sat_skymap', 'sat_visibility', 'mjdnow'):
        m = c.build.module(name, 'flat')
        fn = m.fn('main')
        Objects(c, fn, name, gvn.Ev(fn, {0: 'argc', 1: 'argv'}, True)).all()
    m = c.build.module(None, 'ssa')
    for n, fn in sorted(m.functions.items()):
        if not fn.decl and fn.blocks:
            Objects(c, fn, n, gvn.Ev(fn, {i: 'a%d' % i for i in range(len(fn.args))})).all()
    c.need(100, 'writes compared with the size of the object')
    c.need(60, 'conversions compared with the type of the argument')
    c.assume('strings the programs are given (arguments, environment) end with a NUL; no integer overflow')


def plain(n):
    for p in ('llvm.memcpy', 'llvm.memmove', 'llvm.memset'):
        if (n or '').startswith(p):
            return p[5:]
    return {'__snprintf_chk': 'snprintf', '__isoc99_sscanf': 'sscanf', '__isoc23_sscanf': 'sscanf'}.get(n, n)


class Objects:
    def __init__(self, c, fn, name, ev):
        self.c, self.fn, self.name, self.ev = c, fn, name, ev
        self.params = {A('sym', 'a%d' % k).single_atom() for k in range(len(fn.args))}
        self.lens = {}

    def ob(self, rule, what, ok, i, detail='', n='writes compared with the size of the object'):
        self.c.count(n)
        self.c.ob(rule, '%s: %s' % (self.name, what), ok, i.where(), '' if ok else detail, key='%s|%s|%s' % (self.name, rule[:30], what))

    def all(self):
        for b in self.fn.rpo():
            for i in self.fn.blocks[b]:
                if i.op in ('call', 'invoke'):
                    self.call(i)
                elif i.op in ('load', 'store'):
                    self.access(i)

    # ---- objects
    def places(self, op, depth=0):
        """the objects a pointer may point into: [(base, name, bytes from there to the end of the member or None, offset)]"""
        p = self.ev.val(op) if isinstance(op, tuple) else op
        b, off, _ = self.ev.ptr(p)
        if b is None:
            a = p.single_atom()
            k = T.akey[a] if a is not None else ('',)
            if k[0] == 'ite' and depth < 8:
                return self.places(k[2], depth + 1) + self.places(k[3], depth + 1)
            return [(None, None, None, None)]
        if b[0] not in ('alloca', 'global'):
            return [(None, None, None, None)]
        nm = self.label(b)
        if off is None:
            lo = eqv.bounds(p - A('addr', b), eqv.EMPTY)
            return [(b, nm, None, lo)]
        for m in self.ev.members(b):
            if m[0] <= off < m[1]:
                return [(b, nm + ('.' + m[2] if m[2] else ''), m[1] - off, off)]
        ms = self.ev.members(b)
        if ms:
            return [(b, nm, 0, off)]
        return [(None, None, None, None)]

    def label(self, b):
        if b[0] == 'global':
            return self.ev.mod.globals.get(b[1], {}).get('name') or b[1]
        return (self.fn.names_of(b[1]) or ['local'])[0] if hasattr(self.fn, 'names_of') else 'local'

    def size(self, b):
        if b[0] == 'alloca':
            return self.fn.inst[b[1]].d.get('size')
        return self.ev.mod.globals.get(b[1], {}).get('size')

    # ---- loads and stores
    def access(self, i):
        op = i.args[1] if i.op == 'store' else i.args[0]
        b, off, _ = self.ev.ptr(self.ev.val(op))
        if b is None or b[0] not in ('alloca', 'global') or off is None or not self.size(b):
            return
        ok = 0 <= off and off + i.d['size'] <= self.size(b)
        self.c.count('loads and stores compared with the size of the object')
        if not ok:
            self.c.ob('every access lies inside its object', '%s: %s' % (self.name, self.label(b)), False, i.where(),
                      'byte %s of %s' % (off, self.size(b)), key='%s|access|%s' % (self.name, self.label(b)))

    # ---- calls
    def call(self, i):
        n = plain(i.callee)
        if n in LIMIT:
            self.limited(i, n)
        elif n in ('strcpy', 'strcat', 'sprintf', 'stpcpy'):
            self.unlimited(i, n)
        elif n in ('gets', 'scanf'):
            self.ob('no text of unknown length is written', n, False, i, 'it writes without a limit')
        if n in FORMAT:
            self.formats(i, FORMAT[n])
        if n in SCANF:
            self.scans(i, SCANF[n])

    def limited(self, i, n):
        d, k = LIMIT[n]
        v = self.ev.val(i.args[k])
        hi = self.upper(v)
        for b, nm, room, off in self.places(i.args[d]):
            if b is None:
                continue
            if hi > BIG and self.params & {a for m in v.t for a, _ in m}:
                self.c.note('%s: %s of a number of bytes given by the caller into %s not decided (%s)' % (self.name, n, nm, i.where()))
                continue
            if room is None:
                self.c.note('%s: %s to a variable place of %s not decided (%s)' % (self.name, n, nm, i.where()))
                continue
            whole = self.size(b) - off if n.startswith('mem') else room
            self.ob('a limit given for a write is not larger than the object', '%s into %s' % (n, nm), hi <= whole, i,
                    'up to %g bytes are written, there is room for %d' % (hi, whole))
            if n == 'strncpy' and hi <= whole:
                self.ends(i, b, off, int(hi), int(room), nm)
        if n in ('memcpy', 'memmove'):
            for b, nm, room, off in self.places(i.args[1]):
                if b is not None and room is not None and not (hi > BIG and self.params & {a for m in v.t for a, _ in m}):
                    whole = self.size(b) - off
                    self.ob('no bytes are read beyond an object', '%s from %s' % (n, nm), hi <= whole, i,
                            'up to %g bytes are read, there are %d' % (hi, whole))

    def upper(self, v):
        """the largest value; lengths of texts are bounded by what the texts can hold"""
        hi = eqv.bounds(v, eqv.EMPTY)[1]
        if hi <= BIG:
            return hi
        hi = 0
        for m, f in v.t.items():
            if not m:
                hi += f
                continue
            k = T.akey[m[0][0]] if len(m) == 1 and m[0][1] == 1 else ('',)
            x = [y for y in k[3:] if isinstance(y, gvn.Poly) and not prog.is_site(y)] if k[:2] == ('app', 'strlen') else []
            n = self.bound(x[0]) if x else BIG
            if f < 0 or n >= BIG:
                return float('inf')
            hi += f * n
        return hi

    def ends(self, i, b, off, n, room, nm):
        """a terminator follows what strncpy copied"""
        rule = 'a text copied with strncpy is terminated'
        pos = self.fn.blocks[i.bb].index(i)
        ok = False
        for j in self.fn.blocks[i.bb][pos + 1:]:
            if j.op == 'store':
                b2, o2, _ = self.ev.ptr(self.ev.val(j.args[1]))
                if b2 == b and o2 is not None and off <= o2 <= off + n and self.ev.val(j.args[0]).const() == 0:
                    ok = True
                    break
            elif j.op in ('call', 'invoke') and any(self.ev.ptr(self.ev.val(x))[0] == b for x in j.args if x[0] in 'vg') and \
                    not (j.callee or '').startswith('llvm.'):
                break
        if not ok and n < room:
            ok = self.zeroed(b, off + n, i)
        self.ob(rule, nm, ok, i, 'nothing puts a NUL behind the %d characters' % n)

    def zeroed(self, b, at, me):
        """a byte is zero from the start and nothing writes it"""
        start = False
        for bb in self.fn.rpo():
            for j in self.fn.blocks[bb]:
                n = plain(j.callee) if j.op in ('call', 'invoke') else None
                if j.op == 'store':
                    b2, o2, _ = self.ev.ptr(self.ev.val(j.args[1]))
                    if b2 != b:
                        continue
                    z = self.ev.val(j.args[0]).const() == 0
                    if o2 is None:
                        if not z:
                            return False
                    elif o2 <= at < o2 + j.d['size']:
                        if not z:
                            return False
                        start = start or self.fn.dominates(j.bb, me.bb)
                elif n and not n.startswith('llvm.lifetime'):
                    for k, x in enumerate(j.args):
                        if x[0] not in 'vg':
                            continue
                        b2, o2, _ = self.ev.ptr(self.ev.val(x))
                        if b2 != b:
                            continue
                        if n == 'memset' and k == 0 and self.ev.val(j.args[1]).const() == 0:
                            z = self.ev.val(j.args[2]).const() or 0
                            if o2 is not None and o2 <= at < o2 + z:
                                start = start or self.fn.dominates(j.bb, me.bb)
                        elif n == 'strncpy' and k == 0:
                            if o2 is None or o2 + eqv.bounds(self.ev.val(j.args[2]), eqv.EMPTY)[1] > at:
                                return False
                        elif n in LIMIT and k == 0 or n in ('strcpy', 'strcat', 'sprintf', 'stpcpy') and k == 0:
                            # these terminate what they write
                            continue
                        elif n in SCANF and k > SCANF[n]:
                            continue
        g = self.ev.mod.globals.get(b[1], {}) if b[0] == 'global' else {}
        return start or isinstance(g.get('init'), dict) and ('zero' in g['init'] or 'bytes' in g['init'] and at < len(g['init']['bytes']) and g['init']['bytes'][int(at)] == 0)

    # ---- lengths of texts
    def textlen(self, op, i):
        """largest length of the text a pointer leads to"""
        best = BIG
        c = self.ev.strconst(op)
        if c is not None:
            return len(c)
        ps = self.places(op)
        if all(b is not None and room is not None for b, nm, room, off in ps):
            best = max(room - 1 for b, nm, room, off in ps)
        return min(best, self.bound(self.ev.string(op, i)))

    def bound(self, v):
        seen = {}
        for _ in range(4):
            before = dict(seen)
            r = self.blen(v, seen, set())
            if seen == before:
                return r
        return BIG

    def blen(self, v, seen, path):
        a = v.single_atom() if isinstance(v, gvn.Poly) else None
        if a is None:
            return BIG
        k = T.akey[a]
        if k[0] == 'str':
            return len(k[1])
        if k[0] == 'spelled':
            return len(k) - 1
        if k[0] == 'ite':
            return max(self.blen(k[2], seen, path), self.blen(k[3], seen, path))
        if k[0] == 'mu' and a in T.muinfo:
            if a in path:
                return seen.get(a, 0)
            x, y = T.muinfo[a][0].loopparts(a)[:2]
            path = path | {a}
            r = max(self.blen(x, seen, path), self.blen(y, seen, path))
            seen[a] = r
            return r
        if k[0] == 'strset':
            return min(self.blen(k[1], seen, path), k[2].const() if k[2].const() is not None and k[3].const() == 0 else BIG) if k[3].const() == 0 else BIG
        if k[0] == 'app':
            x = [y for y in k[3:] if not prog.is_site(y)]
            if k[1] in ('strcpy', 'stpcpy'):
                return self.blen(x[-1], seen, path)
            if k[1] == 'strcat':
                return self.blen(x[0], seen, path) + self.blen(x[1], seen, path)
            if k[1] == 'strncpy':
                return x[-1].const() if x[-1].const() is not None else BIG
            if k[1] in ('trimend',):
                return self.blen(x[0], seen, path)
            if k[1] == 'fgets':
                s = T.akey[x[0].single_atom()] if x[0].single_atom() is not None else ('',)
                z = s[1] if s[0] == 'strp' else x[0]
                return z.const() - 1 if isinstance(z, gvn.Poly) and z.const() is not None else BIG
        return BIG

    def unlimited(self, i, n):
        src = None
        if n == 'sprintf':
            f = self.ev.strconst(i.args[1])
            ln = self.formatted(f, i, 2) if f is not None else BIG
        else:
            ln = self.textlen(i.args[1], i)
        grown = False
        for b, nm, room, off in self.places(i.args[0]):
            if b is None:
                if n == 'strcat' and not grown:
                    self.heap(i, ln)
                    grown = True
                continue
            was = self.bound(self.ev.string(i.args[0], i)) if n == 'strcat' else 0
            ok = room is not None and was + ln < room
            self.ob('a text copied without a limit fits', '%s into %s' % (n, nm), ok, i,
                    'up to %s characters and a NUL, there is room for %s' % (was + ln if was + ln < BIG else 'any number of', room))

    def formatted(self, f, i, k):
        """largest length of a formatted text"""
        n, pos = 0, 0
        for m in CONV.finditer(f):
            n += m.start() - pos
            pos = m.end()
            if m.group(5) == '%':
                n += 1
                continue
            w = int(m.group(2)) if m.group(2) and m.group(2) != '*' else 0
            if m.group(5) == 's':
                x = self.textlen(i.args[k], i)
                if m.group(3):
                    x = min(x, int(m.group(3)))
            elif m.group(5) in 'diuxXo':
                x = 21
            elif m.group(5) == 'c':
                x = 1
            else:
                x = 330
            n += max(w, x)
            k += 1
        return n + len(f) - pos

    # ---- formats
    def type(self, op):
        if op[0] == 'i':
            return 'i%d' % op[2]
        if op[0] == 'f':
            return 'double'
        if op[0] == 'v':
            if op[1] < len(self.fn.args):
                return self.fn.d['args'][op[1]]['type']
            return self.fn.inst[op[1]].d['t']
        return 'ptr'

    def formats(self, i, k):
        for f in self.choices(i.args[k]):
            a = k + 1
            rule = 'a value printed has the type of its conversion'
            n = 'conversions compared with the type of the argument'
            for m in CONV.finditer(f):
                if m.group(5) == '%':
                    continue
                for star in (m.group(2), m.group(3)):
                    if star == '*':
                        self.ob(rule, '* in "%s"' % f[:30], a < len(i.args) and self.type(i.args[a]) == 'i32', i, 'the width is no int', n)
                        a += 1
                c = m.group(5)
                want = {'s': 'ptr', 'p': 'ptr'}.get(c) or ('double' if c in 'fFeEgG' else 'i32' if c == 'c' else 'i%d' % (8 * INT[m.group(4)]))
                got = self.type(i.args[a]) if a < len(i.args) else 'nothing'
                self.ob(rule, '%s in "%s"' % (m.group(0), f[:30].strip()), got == want, i, 'the value is of type %s' % got, n)
                a += 1
            self.ob('a format uses all values it is given', '"%s"' % f[:30].strip(), a == len(i.args), i, '%d values for %d conversions' % (len(i.args) - k - 1, a - k - 1), n)
            left = CONV.sub('', f)
            self.ob('every conversion is understood', '"%s"' % f[:30].strip(), '%' not in left, i, 'the format contains %s' % left, n)

    def choices(self, op, depth=0):
        c = self.ev.strconst(op)
        if c is not None:
            return [c]
        if op[0] == 'v' and op[1] >= len(self.fn.args) and depth < 4:
            i = self.fn.inst[op[1]]
            if i.op == 'select':
                return self.choices(i.args[1], depth + 1) + self.choices(i.args[2], depth + 1)
            if i.op == 'phi':
                return [x for v, _ in i.d['inc'] for x in self.choices(tuple(v), depth + 1)]
        return []

    def scans(self, i, k):
        n = 'conversions compared with the type of the argument'
        rule = 'a value read has the type of its object'
        for f in self.choices(i.args[k]):
            a = k + 1
            for m in SCAN.finditer(f):
                c = m.group(4)
                if c == '%' or m.group(1):
                    continue
                if a >= len(i.args):
                    self.ob(rule, '%s in "%s"' % (m.group(0), f[:30]), False, i, 'there is no object for it', n)
                    continue
                if c[0] in 's[c':
                    w = int(m.group(2)) if m.group(2) else None
                    for b, nm, room, off in self.places(i.args[a]):
                        if b is not None and room is not None:
                            need = BIG if w is None and c != 'c' else (w or 1) + (c != 'c')
                            self.ob('a text read fits into its object', '%s into %s' % (m.group(0), nm), need <= room, i,
                                    'up to %s bytes, there is room for %s' % (need if need < BIG else 'any number of', room))
                else:
                    want = (8 if m.group(3) == 'l' else 16 if m.group(3) == 'L' else 4) if c in 'fFeEgG' else SINT[m.group(3)]
                    for b, nm, room, off in self.places(i.args[a]):
                        if b is None or room is None:
                            continue
                        kind, size = self.scalar(b, off)
                        ok = size == want and (kind is None or (kind == 'f') == (c in 'fFeEgG'))
                        self.ob(rule, '%s into %s' % (m.group(0), nm), ok, i, 'the object has %s bytes%s' % (size, ' (real)' if kind == 'f' else ' (integer)' if kind else ''), n)
                a += 1
            self.ob('a format uses all objects it is given', '"%s"' % f[:30], a == len(i.args), i, '%d objects for %d conversions' % (len(i.args) - k - 1, a - k - 1), n)

    def scalar(self, b, off):
        """(kind, size) of the number at a place"""
        for m in self.ev.members(b):
            if m[0] <= off < m[1]:
                t = m[3]
                while isinstance(t, dict) and 'arr' in t:
                    t = t['arr']
                s = t if isinstance(t, str) else (t or {}).get('name', '') if isinstance(t, dict) else ''
                kind = 'f' if s in ('double', 'float', 'long double') else 'i' if s else None
                size = m[1] - m[0]
                if isinstance(m[3], dict) and 'arr' in m[3]:
                    size = {'double': 8, 'float': 4, 'int': 4, 'long': 8, 'long int': 8, 'short': 2, 'char': 1}.get(s, size)
                if kind is None and b[0] == 'alloca':
                    at = self.fn.inst[b[1]].d.get('at', '')
                    kind = 'f' if at in ('double', 'float') else 'i' if re.match(r'i\d+$', at) else None
                return kind, size
        return None, None

    # ---- memory that grows
    def heap(self, i, ln):
        """strcat into memory from malloc and realloc: a carried number of characters used stays below a carried size"""
        rule = 'a text that grows stays inside the memory allocated for it'
        what = 'strcat into memory of variable size'
        o = outs.Outs(self.c, self.name)
        try:
            why = Grow(o, i, ln).wrong()
        except Unknown as e:
            return self.c.note('%s: text that grows at %s not decided: %s' % (self.name, i.where(), e))
        self.ob(rule, what, why is None, i, why)


class Unknown(Exception):
    pass


class Grow:
    def __init__(self, o, i, ln):
        self.o, self.ln = o, ln
        same = [x for x in o.fn.insts() if x.op in ('call', 'invoke') and x.callee == i.callee and x.where() == i.where()]
        self.cat = same[0] if same else None

    def wrong(self):
        o, fn = self.o, self.o.fn
        if self.cat is None:
            raise Unknown('the place is not found in the program')
        call = lambda n: [x for x in fn.insts() if x.op in ('call', 'invoke') and x.callee == n]
        h = scan.passhead(o, self.cat.bb)
        heads = set(scan.innermost(o, self.cat.bb))
        body = o.pr.ev.loopheads[h]
        first = [x for x in call('malloc') + call('calloc') if x.bb not in body and fn.dominates(x.bb, self.cat.bb)]
        more = [x for x in call('realloc') if x.bb in body]
        if not more and len(first) == 1:
            return 'the memory never grows'
        if len(first) != 1 or len(more) != 1:
            raise Unknown('%d allocations before the scan and %d in it' % (len(first), len(more)))
        first, more = first[0], more[0]
        size = o.deep(o.pr.ev.val(first.args[-1])).const()
        if size is None:
            raise Unknown('the first size is not a constant')
        new = o.deep(o.pr.ev.val(more.args[1]))
        cs = [a for a in direct(new) if outs.loopof(a)[1] in heads and (new - P1(a)).const() is not None]
        if not cs:
            raise Unknown('the new size %s is not the size before plus a constant' % gvn.brief(new, 0, 200)[:120])
        cap = cs[0]
        for a in self.candidates(more, heads, cap):
            r = self.holds(a, cap, size, (new - P1(cap)).const(), more, h, heads)
            if r is None:
                return None
        if 'r' not in locals():
            raise Unknown('no number of characters used decides whether memory grows')
        return r

    def candidates(self, more, heads, cap):
        out = []
        for c, t in self.o.dominating(more.bb):
            v = gvn.b2i(c)
            if self.web(cap, heads) & set(direct(v)):
                if any(T.akey[a][:2] == ('pure', 'strlen') or 'strlen' in T.akey[a][:3] for a in eqv.atoms_of(v)):
                    raise Unknown('the length of the text is taken')
                out += [a for a in direct(v) if outs.loopof(a)[1] in heads and a not in self.web(cap, heads) and a not in out]
        return out

    def web(self, a, heads):
        """versions of a carried number at the heads into which the loop was split"""
        out, todo = set(), [a]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            init = T.muinfo[x][0].loopparts(x)[0]
            todo += [b for b in direct(init) if b in T.muinfo and outs.loopof(b)[1] in heads]
            for b in direct(T.muinfo[x][0].loopparts(x)[1]):
                if b in T.muinfo and outs.loopof(b)[1] in heads and b not in out:
                    j = T.muinfo[b][0].loopparts(b)[0].single_atom()
                    if j in out:
                        todo.append(b)
        return set(out)

    def holds(self, used, cap, size, k, more, h, heads):
        o, ln = self.o, self.ln
        wu, wc = self.web(used, heads), self.web(cap, heads)
        U, C = A('sym', 'used'), A('sym', 'size')
        table = {T.akey[a]: U for a in wu}
        table.update({T.akey[a]: C for a in wc})
        keep = {U.single_atom(), C.single_atom()}
        memo, names = {}, {}

        def opaque(c):
            """a condition that does not depend on the two numbers is a symbol"""
            if c.key[0] not in ('lt', 'le', 'gt', 'ge', 'eq') or keep & eqv.atoms_of(c.key[1]) or simple(c.key[1]):
                return None
            if c not in names:
                names[c] = gvn.cmp0('ne', A('sym', 'condition', len(names)))
            return names[c]

        def tr(v):
            v = gvn.subst(o.events(v), lambda q: table.get(q))
            return gvn.subst(v, lambda q: None, memo, opaque)
        grows = tr(gvn.b2i(o.reach(h, more.bb)))
        adds = tr(gvn.b2i(o.reach(h, self.cat.bb)))
        inv = eqv.assume(eqv.EMPTY, gvn.cmp0('le', U + 1 - C), True)
        if k < ln:
            return 'memory grows by %d, a text by up to %d' % (k, ln)
        e = eqv.assume(eqv.assume(inv, gvn.cmp0('ne', adds), True), gvn.cmp0('eq', grows), True)
        room = gvn.b2i(gvn.cmp0('le', U + ln + 1 - C))
        if not self.always(room, gvn.cand(gvn.cmp0('ne', adds), gvn.cmp0('eq', grows)), inv):
            return 'a text of %d characters is added without growing although it may not fit' % ln
        body = o.pr.ev.loopheads[h]

        def back(t):
            st = {q: v if q[1] == t else P(0) for q, v in o._stops(h, P(1)).items()}
            return tr(o.deep(o.pr.ev.gamma(h, -1, {}, body - {h}, P(0), st)))
        for a in sorted(wu | wc):
            init, step = T.muinfo[a][0].loopparts(a)[:2]
            v0, v1 = tr(init), tr(step)
            if outs.loopof(a)[1] in o.twins(h):
                goes = gvn.cmp0('ne', back(outs.loopof(a)[1]))
            else:
                goes = gvn.cmp0('ne', tr(gvn.b2i(o.reach(outs.loopof(a)[1], h))))
            if a in wu:
                if v0 != U and v0.const() != 0:
                    return 'the number of characters used does not start at 0'
                if not self.most(-v1, U + ln, gvn.cand(goes, gvn.cmp0('ne', adds)), inv):
                    return 'a text is added without counting its %d characters' % ln
                if not self.most(-v1, U, goes, inv):
                    return 'the number of characters used is made smaller'
            else:
                if v0 != C and (v0.const() is None or v0.const() > size):
                    return 'the size kept, %s, is larger than the memory allocated, %d' % (gvn.brief(v0), size)
                if not self.most(v1, -C, gvn.cand(goes, gvn.cmp0('eq', grows)), inv):
                    return 'the size kept grows without the memory'
                if not self.most(v1, -C - k, goes, inv):
                    return 'the size kept grows by more than the memory'
        return None

    def most(self, v, w, c, env, depth=0):
        """v + w <= 0 where c holds: one case after the other of the joins in v"""
        if eqv.bounds(v + w, env)[1] <= 0:
            return True
        js = [a for a in sorted(eqv.atoms_of(v)) if T.akey[a][0] == 'ite' and v.t.get(((a, 1),))]
        if js and depth < 60:
            k, f = T.akey[js[0]], v.t[((js[0], 1),)]
            rest = v - P1(js[0]) * P(f)
            b = cut(gvn.b2i(k[1]), env)
            d = b.const()
            return all(self.most(rest + P(f) * x, w, c, eqv.assume(eqv.assume(env, k[1], t), gvn.cmp0('ne', b), t), depth + 1)
                       for x, t in ((k[2], True), (k[3], False)) if d is None or (d != 0) == t)
        g = cut(gvn.b2i(c), env)
        return g.const() == 0 or eqv.same(g, P(0), None, env, 1500, [], 20)

    def always(self, v, c, env):
        return eqv.same(gvn.ite(c, v, P(1)), P(1), None, env, 1500, [], 20)


def cut(v, env):
    """without the joins the facts decide"""
    memo = {}

    def fc(c):
        d = eqv.truth(c, env)
        return None if d is None else gvn.TRUE if d else gvn.FALSE

    def f(key):
        if key[0] == 'ite':
            d = eqv.truth(key[1], env)
            if d is not None:
                return gvn.subst(key[2] if d else key[3], f, memo, fc)
        return None
    return gvn.subst(v, f, memo, fc)


def simple(p):
    a = [T.akey[x] for m in p.t for x, _ in m]
    return all(k[0] == 'sym' for k in a) or any(k[0] in ('ite', 'b2i') for k in a)


def direct(v):
    return sorted(a for a in eqv.atoms_of(v) if T.akey[a][0] == 'mu' and a in T.muinfo)


def P1(a):
    return gvn.Poly({((a, 1),): 1.0})
