"""Runner shared by all checks: obligations, known findings, evidence, exit codes."""
import importlib, json, os, re, sys, threading, time, traceback
import ir, gvn
from ir import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []            # (rule, instance, ok, where, detail, key)
        self.notes = []
        self.assumptions = []
        self.counts = {}
        self._build = None
        self._prog = {}
        self._ev = {}
        self._flow = {}

    @property
    def build(self):
        if self._build is None:
            self._build = ir.Build()
        return self._build

    def close(self):
        if self._build is not None:
            self._build.close()

    def program(self, name, keep=None):
        """keep: functions of the program that stay calls"""
        if name not in self._prog:
            import prog
            self._prog[name] = prog.Program(self.build, name, keep=keep)
        return self._prog[name]

    def flow(self, name, keep=None):
        if name not in self._flow:
            import jsonflow
            p = self.program(name, keep)
            f = jsonflow.Flow(p.main, p.ev, prog=p)
            f.run()
            self._flow[name] = f
        return self._flow[name]

    def lib(self, form='flat'):
        return self.build.module(None, form)

    def fnev(self, name, argnames=None, form='flat', keep=None):
        k = (name, tuple(argnames or ()), form, tuple(keep or ()))
        if k not in self._ev:
            m = self.build.module(None, form, keep)
            f = m.fn(name)
            an = {i: a for i, a in enumerate(argnames)} if argnames else {}
            if argnames and len(argnames) != len(f.args):
                raise AnalysisBroken('anchor changed: %s takes %d arguments, expected %d' %
                                     (name, len(f.args), len(argnames)))
            self._ev[k] = gvn.Ev(f, an)
        return self._ev[k]

    def ob(self, rule, instance, ok, where='', detail='', key=None):
        """one obligation: rule applied to an instance"""
        self.obs.append((rule, str(instance), bool(ok), where, detail, key or '%s|%s' % (rule, instance)))
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def note(self, s):
        self.notes.append(s)

    def need(self, n, what):
        """fail as broken (not as a violation) when fewer instances than expected were found"""
        got = self.counts.get(what, 0)
        if got < n:
            raise AnalysisBroken('rule matched %d %s, expected at least %d' % (got, what, n))


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)', l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def run(pid, tier):
    t0 = time.time()
    c = Ctx(pid, tier)
    mod = importlib.import_module('checks.' + pid.lower())
    status = 0
    err = None
    try:
        mod.run(c)
        if not c.obs:
            raise AnalysisBroken('no obligations were generated')
    except AnalysisBroken as e:
        err = 'ANALYSIS-BROKEN property=%s %s' % (pid, e)
    except Exception:
        err = 'ANALYSIS-BROKEN property=%s internal error\n%s' % (pid, traceback.format_exc())
    finally:
        c.close()
    import eqv
    if eqv.SAMPLED:
        c.notes.append('%d comparisons have too many cases to go through; no difference in 300 random choices of all conditions each' % len(eqv.SAMPLED))
    kf = known()
    bad, kn = [], {}
    for rule, inst, ok, where, detail, key in c.obs:
        if ok:
            continue
        if (pid, key) in kf:
            kn[key] = kf[(pid, key)]
        else:
            bad.append((rule, inst, where, detail, key))
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    ok_n = sum(1 for o in c.obs if o[2])
    rules = {}
    for o in c.obs:
        r = rules.setdefault(o[0], [0, 0])
        r[0] += 1
        r[1] += o[2]
    files = ['%s' % os.path.basename(f) for f in sorted(getattr(c._build, 'bc', {}) or [])] if c._build else []
    cov = {
        'explanation': getattr(mod, 'RULE', mod.__doc__ or '').strip(),
        'obligations': len(c.obs), 'discharged': ok_n,
        'checker_cmd': 'python3-vt check.py %s' % pid,
        'trusted_base': ['clang 18 front end and LLVM 18 normalisation passes', 'tools/irdump.cpp', 'lib/*.py'],
        'units_analysed': files,
        'rules': {k: {'instances': v[0], 'hold': v[1]} for k, v in rules.items()},
        'counts': c.counts,
        'samples': [{'rule': o[0], 'instance': o[1], 'holds': o[2], 'where': o[3]} for o in c.obs[:12]],
        'known_findings': sorted(kn),
        'notes': c.notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': c.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, w in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    if bad:
        rp = os.path.join(evd, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for rule, inst, where, detail, key in bad:
                f.write('rule: %s\ninstance: %s\nwhere: %s\nkey: %s\n%s\n\n' % (rule, inst, where, key, detail))
        for rule, inst, where, detail, key in bad[:20]:
            print('%s: %s [%s] %s' % (pid, rule, inst, where))
            if detail:
                print('    ' + detail[:1500].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, VERIF)))
        status = 1
        if err:
            print('(also: %s)' % err)
    elif err:
        print(err)
        status = 2
    else:
        print('%s: %d obligations hold (%s) in %.1fs' % (pid, ok_n, ', '.join('%s: %d' % (k, v[0]) for k, v in rules.items()), time.time() - t0))
    return status


def main(argv):
    pid = argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    out = []
    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(run(pid, tier)))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
