"""Build /repo's current sources to LLVM IR and load them for the analyses.

Nothing is executed: clang only compiles to bitcode, `opt` normalises it (forced inlining of every helper
that is not a named library entry point, SSA construction, full unrolling of constant-trip loops), and
irdump prints the result as JSON.
"""
import json, os, re, subprocess, sys, tempfile, shutil, glob, functools

sys.setrecursionlimit(200000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang'
LLVMBIN = '/usr/lib/llvm-18/bin'
IRDUMP = os.path.join(VERIF, 'build', 'irdump')

PROGRAMS = ('sat_skymap', 'sat_visibility', 'mjdnow')

# Library entry points: kept as functions (their callers see them as named operations, their bodies are
# analysed on their own).  Everything else is a helper and is inlined into its callers.
API = """parse_elements tle_checksum select_ephemeris FMod2p
SGP_init SGP SGP4_init SGP4 SGP8_init SGP8 SDP4_init SDP4 SDP8_init SDP8
Deep_dpinit Deep_dpsec Deep_dpper sxpx_common_init sxpall_common_init sxpx_posn_vel sxpx_set_implementation_param
sxpx_set_dpsec_integration_step sxpx_library_version
earth_lat_alt_to_parallax observer_cartesian_coords get_satellite_ra_dec_delta epoch_of_date_to_j2000
date2mjd_nf mjd2date skysep_h lmst_hr dechalat2alt lpsun_radec
lunar_solar_position earthtilt zenith_site_ra ra_zenith_site
ang2pix_nest ang2pix_ring pix2ang_nest pix2ang_ring nest2ring ring2nest nside2npix npix2nside vec2pix_nest
vec2pix_ring pix2vec_nest pix2vec_ring ang2pix_nest64 ang2pix_ring64 pix2ang_nest64 pix2ang_ring64 nest2ring64
ring2nest64 nside2npix64 npix2nside64 vec2pix_nest64 vec2pix_ring64 pix2vec_nest64 pix2vec_ring64 ang2vec vec2ang""".split()


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, build failure): error exit, never a violation."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise AnalysisBroken('command failed: %s\n%s' % (' '.join(cmd)[:300], r.stderr[-2000:]))
    return r.stdout


def ensure_tool():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    flags = run([LLVMBIN + '/llvm-config', '--cxxflags']).split()
    libs = run([LLVMBIN + '/llvm-config', '--ldflags', '--libs', 'core', 'irreader', 'bitwriter', 'support']).split()
    tmp = IRDUMP + '.%d' % os.getpid()
    run([CLANG + '++', '-O1'] + flags + ['-fexceptions', src, '-o', tmp] + libs)
    os.replace(tmp, IRDUMP)


def src_files():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))


def has_main(path):
    t = open(path, errors='replace').read()
    return re.search(r'^\s*(int|void)?\s*main\s*\(', t, re.M) is not None


CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fgnu89-inline', '-ffp-contract=off', '-fno-builtin',
          '-Wno-everything', '-emit-llvm', '-c']

SSA = 'function(sroa,instsimplify,simplifycfg,sroa,instsimplify)'
FLAT = ('always-inline,globaldce,function(sroa,instsimplify,simplifycfg,sroa,loop-simplify,lcssa,loop(loop-rotate),'
        'indvars,loop(loop-unroll-full),sroa,instsimplify,simplifycfg,early-cse)')
# same, without loop rewriting: source loop structure is kept (used where loops themselves are judged)
FLATLOOP = 'always-inline,globaldce,function(sroa,instsimplify,simplifycfg,sroa,instsimplify)'


def compile_tu(path, out):
    run([CLANG] + CFLAGS + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'HealpixC'), path, '-o', out])


class Build:
    """One scratch build of the current tree; modules are produced on demand."""

    def __init__(self):
        ensure_tool()
        self.dir = tempfile.mkdtemp(prefix='vfir.')
        self.bc = {}
        self._mods = {}
        srcs = src_files()
        if len(srcs) < 10:
            raise AnalysisBroken('source files missing under %s/src' % REPO)
        self.mains, self.libs = [], []
        for s in srcs:
            n = os.path.basename(s)
            if n == 'dynamic.c':       # Win32-only loader, not part of the build
                continue
            (self.mains if has_main(s) else self.libs).append(s)
        hp = os.path.join(REPO, 'HealpixC', 'chealpix.c')
        self.libs.append(hp)
        from concurrent.futures import ThreadPoolExecutor
        def one(s):
            o = os.path.join(self.dir, os.path.basename(s)[:-2] + '.bc')
            compile_tu(s, o)
            return s, o
        with ThreadPoolExecutor(8) as ex:
            for s, o in ex.map(one, self.mains + self.libs):
                self.bc[os.path.basename(s)[:-2]] = o

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _link(self, program):
        out = os.path.join(self.dir, 'L_%s.bc' % (program or 'lib'))
        if not os.path.exists(out):
            parts = [self.bc[os.path.basename(s)[:-2]] for s in self.libs]
            if program:
                if program not in self.bc:
                    raise AnalysisBroken('program %s not found' % program)
                parts = [self.bc[program]] + parts
            run([LLVMBIN + '/llvm-link'] + parts + ['-o', out])
        return out

    def spec(self, name, form='flat', keep=None, defs=()):
        """link /verif/spec/NAME.c (specification formulas and one-value wrappers around the library entry points)
        with the library; everything but the wrappers (and KEEP) is inlined"""
        key = ('spec', name, form, tuple(keep or ()), tuple(defs))
        if key in self._mods:
            return self._mods[key]
        src = os.path.join(VERIF, 'spec', name + '.c')
        o = os.path.join(self.dir, 'S_%s_%d.bc' % (name, len(self._mods)))
        run([CLANG] + CFLAGS + list(defs) + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'HealpixC'), src, '-o', o])
        t = open(src).read()
        wr = re.findall(r'^(?:C|N|F\w?)\((\w+)', t, re.M)
        wr = ['code_' + w for w in wr] + ['spec_' + w for w in re.findall(r'^(?:S|N|V\w?)\((\w+)', t, re.M)]
        out = o[:-3] + '_l.bc'
        run([LLVMBIN + '/llvm-link'] + [self.bc[os.path.basename(s)[:-2]] for s in self.libs] + [o, '-o', out])
        p1, p2 = o[:-3] + '_p.bc', o[:-3] + '_q.bc'
        run([IRDUMP, '--prep', ','.join(wr + list(keep or [])), out, p1])
        run([LLVMBIN + '/opt', '-unroll-max-upperbound=64', '-unroll-threshold=100000', '-passes=' + (FLAT if form == 'flat' else FLATLOOP).replace('globaldce', 'globaldce,globalopt', 1), p1, '-o', p2])
        m = Module(json.loads(run([IRDUMP, p2])))
        m.wrappers = wr
        self._mods[key] = m
        return m

    def module(self, program=None, form='flat', keep=None):
        """form: 'flat' | 'flatloop' | 'ssa' (no inlining)"""
        key = (program, form, tuple(keep) if keep is not None else None)
        if key in self._mods:
            return self._mods[key]
        base = self._link(program)
        tag = '%s_%s_%d' % (program or 'lib', form, len(self._mods))
        p1, p2 = os.path.join(self.dir, 'P_%s.bc' % tag), os.path.join(self.dir, 'Q_%s.bc' % tag)
        if form == 'ssa':
            run([LLVMBIN + '/opt', '-unroll-max-upperbound=64', '-unroll-threshold=100000', '-passes=' + SSA, base, '-o', p2])
        else:
            k = list(keep) if keep is not None else API
            run([IRDUMP, '--prep', ','.join(k) or '-', base, p1])
            run([LLVMBIN + '/opt', '-unroll-max-upperbound=64', '-unroll-threshold=100000', '-passes=' + (FLAT if form == 'flat' else FLATLOOP), p1, '-o', p2])
        js = run([IRDUMP, p2])
        m = Module(json.loads(js))
        self._mods[key] = m
        return m


class Inst:
    __slots__ = ('id', 'op', 'ty', 'args', 'd', 'fn', 'bb', 'pos')

    def __init__(self, d, fn, bb, pos):
        self.d = d
        self.id = d['i']
        self.op = d['o']
        self.ty = d['t']
        self.args = [tuple(x) if isinstance(x, list) else x for x in d.get('a', [])]
        self.fn, self.bb, self.pos = fn, bb, pos

    @property
    def callee(self):
        n = self.d.get('f')
        if n and n.startswith('__isoc'):
            n = n.split('_', 3)[3]
        return n

    def where(self):
        l = self.d.get('l')
        if not l:
            return '%s (no line)' % self.fn.name
        f = os.path.basename(l.get('file', '?'))
        s = '%s:%s (%s)' % (f, l['line'], l.get('fn', self.fn.name))
        for c in l.get('at', []):
            s += ' <- %s:%s (%s)' % (os.path.basename(c[1]), c[2], c[0])
        return s

    def srcfn(self):
        l = self.d.get('l')
        return (l or {}).get('fn', self.fn.name)

    def line(self):
        return (self.d.get('l') or {}).get('line', 0)

    def __repr__(self):
        return '<%s %%%d %s>' % (self.op, self.id, self.where())


class Function:
    def __init__(self, name, d, mod):
        self.name, self.d, self.mod = name, d, mod
        self.decl = d.get('decl', False)
        self.args = d['args']
        self.ret = d['ret']
        self.blocks = []
        self.inst = {}
        if self.decl:
            return
        for b, insts in enumerate(d['blocks']):
            bl = []
            for k, x in enumerate(insts):
                i = Inst(x, self, b, k)
                bl.append(i)
                self.inst[i.id] = i
            self.blocks.append(bl)
        self.succ = []
        for bl in self.blocks:
            t = bl[-1]
            if t.op == 'br':
                s = t.d['succ']
            elif t.op == 'switch':
                s = [c[1] for c in t.d['cases']] + [t.d['def']]
            else:
                s = []
            self.succ.append(list(s))
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in dict.fromkeys(ss):
                self.pred[s].append(b)
        self._dom = None

    def name_of(self, vid):
        n = self.d.get('names', {}).get(str(vid))
        return n[0] if n else None

    def names_of(self, vid):
        return self.d.get('names', {}).get(str(vid)) or []

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def _domtree(self, order, preds):
        idx = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds(b) if p in idom and p in idx]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        return idom

    def idom(self):
        if self._dom is None:
            self._dom = self._domtree(self.rpo(), lambda b: self.pred[b])
        return self._dom

    def dominates(self, a, b):
        d = self.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if d[b] == b:
                return False
            b = d[b]

    def inst_dominates(self, x, y):
        if x.bb == y.bb:
            return x.pos < y.pos
        return self.dominates(x.bb, y.bb)

    def reachable(self, frm, avoid=()):
        seen = set()
        st = [frm]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.succ[b])
        return seen

    def loops(self):
        """natural loops: header -> set(blocks)"""
        L = {}
        reach = set(self.rpo())
        for b in reach:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in self.pred[x] if p in reach)
        return L

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self, name=None):
        for i in self.insts():
            if i.op in ('call', 'invoke') and (name is None or i.callee == name or
                                              (not isinstance(name, str) and i.callee in name)):
                yield i


class Module:
    def __init__(self, d):
        self.d = d
        self.globals = d['globals']
        self.functions = {n: Function(n, f, self) for n, f in d['functions'].items()}

    def structs(self):
        """struct tag -> debug type with members, wherever one is mentioned"""
        if getattr(self, '_structs', None) is None:
            out = {}

            def go(d):
                if isinstance(d, dict):
                    if 'members' in d:
                        out.setdefault(d['struct'], d)
                        for m in d['members']:
                            go(m['type'])
                    for k in ('ptr', 'arr'):
                        if k in d:
                            go(d[k])
            for f in self.functions.values():
                for t in f.d.get('ditypes', []):
                    go(t)
                for t in (f.d.get('locals') or {}).values():
                    go(t)
            for g in self.globals.values():
                go(g.get('ditype'))
            self._structs = out
        return self._structs

    def fn(self, name):
        f = self.functions.get(name)
        if f is None or f.decl:
            raise AnalysisBroken('anchor vanished: function %s is not defined in the current tree' % name)
        return f

    def cstring(self, gname, off=0):
        g = self.globals.get(gname)
        if not g or 'init' not in g:
            return None
        i = g['init']
        if isinstance(i, dict) and 'bytes' in i:
            b = bytes(i['bytes'])[off:]
        elif isinstance(i, dict) and 'zero' in i:
            b = bytes(max(0, i['zero'] - off))
        else:
            return None
        n = b.find(b'\0')
        return (b if n < 0 else b[:n]).decode('latin-1')
