"""Obligations, verdicts, evidence."""
import json
import os
import pickle
import signal
import sys
import time
import traceback

from .values import *
from .interp import Raise, Halt, AnalysisError
from . import compare

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(pid):
    """keys of listed findings"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: property=%s key=' % pid):
                rest = l.split(' key=', 1)[1]
                key, _, what = rest.partition(' | ')
                out[key.strip()] = what.strip()
    return out


class Budget(BaseException):
    pass


def expired(*a):
    raise Budget('the analysis takes too long')


class Check:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.obs = {}                   # rule -> [n, discharged, undecided]
        self.viol = {}                  # key -> text
        self.undec = {}
        self.scen = []                  # (name, paths, status)
        self.failed = []
        self.stats = {'calls': 0, 'branches': 0, 'merged': 0, 'stmts': 0, 'sends': 0}
        self.functions = set()
        self.files = set()
        self.opaque = set()
        self.cut = set()
        self.widened = set()
        self.samples = []
        self.jobs = []
        self.t0 = time.time()
        self.budget = 780 if self.tier == 'thorough' else 540
        self.job_budget = 360 if self.tier == "thorough" else 240
        self.notes = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scenario(self, name, f):
        """queue one analysis (analyses are independent and are run on all cores)"""
        self.jobs.append((name, f))

    def run_job(self, name, f):
        """engine failures make an analysis undecided, never a violation"""
        t = time.time()
        compare.CURRENT[0] = None
        armed = False
        try:
            left = self.budget - (t - self.t0)
            if left <= 1:
                raise Budget('no time left')
            try:
                signal.signal(signal.SIGALRM, expired)
                signal.setitimer(signal.ITIMER_REAL, min(self.job_budget, left))
                armed = True
            except ValueError:
                pass
            n = f()
            self.scen.append((name, n, 'done', round(time.time() - t, 2)))
        except (Budget, AnalysisError, RecursionError, AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError,
                NotImplementedError, OSError, SyntaxError, UnicodeError) as e:
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc(limit=int(os.environ.get("VP_DEBUG")))
            self.failed.append((name, '%s: %s' % (type(e).__name__, str(e)[:300])))
            self.scen.append((name, 0, 'incomplete', round(time.time() - t, 2)))
        finally:
            if armed:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if os.environ.get('VP_TIMES'):
            print('%7.2fs %s' % (time.time() - t, name), file=sys.stderr)

    KEEP = ('obs', 'viol', 'undec', 'scen', 'failed', 'stats', 'functions', 'files', 'opaque', 'cut', 'widened', 'samples', 'notes')

    def go(self):
        """run the queued analyses, in forked workers"""
        jobs, self.jobs = self.jobs, []
        only = os.environ.get('VP_ONLY')
        if only:
            jobs = [j for j in jobs if only in j[0]]
        n = int(os.environ.get('VP_JOBS') or min(8, os.cpu_count() or 1))
        if n <= 1 or len(jobs) <= 1:
            for name, f in jobs:
                self.run_job(name, f)
            return
        tokr, tokw = os.pipe()
        os.write(tokw, b''.join(i.to_bytes(2, 'big') for i in range(len(jobs))))
        os.close(tokw)
        kids = []
        sys.stdout.flush()
        for k in range(min(n, len(jobs))):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    while True:
                        b = os.read(tokr, 2)
                        if len(b) < 2:
                            break
                        self.run_job(*jobs[int.from_bytes(b, 'big')])
                    data = pickle.dumps({a: self.portable(getattr(self, a)) for a in self.KEEP})
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                    rc = 0
                except BaseException:       # noqa
                    traceback.print_exc()
                finally:
                    os._exit(rc)
            os.close(w)
            kids.append((pid, r))
        os.close(tokr)
        first = {a: getattr(self, a) for a in self.KEEP}
        base = pickle.loads(pickle.dumps({a: self.portable(first[a]) for a in self.KEEP}))
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.failed.append(('worker', 'a worker ended without a result'))
                continue
            self.merge(pickle.loads(data), base)

    @staticmethod
    def portable(x):
        if isinstance(x, (set, frozenset)):
            return {y if isinstance(y, (str, tuple, int)) else str(y) for y in x}
        return x

    def merge(self, d, base):
        for k, v in d['obs'].items():
            b = base['obs'].get(k, [0, 0, 0])
            r = self.obs.setdefault(k, [0, 0, 0])
            for i in range(3):
                r[i] += v[i] - b[i]
        for a in ('viol', 'undec'):
            for k, v in d[a].items():
                getattr(self, a).setdefault(k, v)
        for a in ('scen', 'failed', 'samples', 'notes'):
            getattr(self, a).extend(d[a][len(base[a]):])
        for k, v in d['stats'].items():
            self.stats[k] += v - base['stats'][k]
        for a in ('functions', 'files', 'opaque', 'cut', 'widened'):
            getattr(self, a).update(d[a])

    def absorb(self, I):
        s = I.stats
        for k in ('calls', 'branches', 'merged', 'stmts'):
            self.stats[k] += s[k]
            s[k] = 0
        self.functions |= s['functions']
        self.files |= s['files']
        self.opaque |= s['opaque']
        self.cut |= s['cut']
        self.widened |= s['widened']

    def ob(self, rule, ok, where, detail, key=None):
        """one obligation: ok True / False / None (undecided)"""
        r = self.obs.setdefault(rule, [0, 0, 0])
        r[0] += 1
        if ok is False and compare.doubtful(compare.CURRENT[0]):
            ok = None
        if ok is True:
            r[1] += 1
        elif ok is None:
            r[2] += 1
            self.undec.setdefault('%s @ %s' % (rule, key or where), detail() if callable(detail) else detail)
        else:
            k = '%s:%s' % (rule, key if key is not None else where)
            if k not in self.viol:
                self.viol[k] = '%s\n  rule: %s\n  where: %s\n  %s' % (self.title, rule, where, detail() if callable(detail) else detail)
        return ok

    def finish(self):
        self.go()
        self.scen.sort()
        wall = time.time() - self.t0
        kn = known(self.pid)
        new = {k: v for k, v in self.viol.items() if k not in kn}
        old = {k: v for k, v in self.viol.items() if k in kn}
        n = sum(r[0] for r in self.obs.values())
        d = sum(r[1] for r in self.obs.values())
        u = sum(r[2] for r in self.obs.values())
        cov = {
            'explanation': self.title,
            'obligations': n, 'discharged': d, 'undecided': u,
            'rules': {k: {'obligations': v[0], 'discharged': v[1], 'undecided': v[2]} for k, v in sorted(self.obs.items())},
            'analyses': [{'name': a, 'abstract_paths': b, 'status': c, 'seconds': s} for a, b, c, s in self.scen][:400],
            'abstract_paths': sum(x[1] or 0 for x in self.scen),
            'functions_analysed': sorted('%s:%s' % (os.path.relpath(f, '/repo') if f.startswith('/repo') else os.path.basename(os.path.dirname(f)) + '/' + os.path.basename(f), q)
                                         for f, q in self.functions),
            'function_count': len(self.functions),
            'files': sorted(os.path.relpath(f, '/repo') for f in self.files if f.startswith('/repo')),
            'inlined_calls': self.stats['calls'], 'undecided_branches': self.stats['branches'], 'joins': self.stats['merged'],
            'opaque_library_calls': sorted(self.opaque)[:60], 'recursion_cut': sorted(self.cut), 'widened_loops': sorted(map(str, self.widened))[:40],
            'incomplete': ['%s: %s' % x for x in self.failed],
            'undecided_obligations': ['%s: %s' % x for x in list(self.undec.items())[:40]],
            'samples': self.samples[:8],
            'notes': self.notes,
        }
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': 'other',
              'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(new),
              'assumptions': ['loops of the node source are unrolled once or twice', 'packages whose sources are not here have no types',
                              'function literals handed to calls run once'] if self.pid.startswith('G') else ['CPython semantics of the language subset as modelled in pysa/', 'the node follows service/eeproxy/proxy.go',
                              'contract behaviour is represented by the schematic contracts under pysa/scores']}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided; %d analyses, %d abstract paths, %d functions, %.1fs' % (
            self.pid, n, d, u, len(self.scen), cov['abstract_paths'], len(self.functions), wall))
        for a, e in self.failed[:10]:
            print('INCOMPLETE: %s: %s' % (a, e))
        for k, v in list(self.undec.items())[:5]:
            print('UNDECIDED: %s: %s' % (k, v[:300]))
        for k in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kn[k]))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for k, v in new.items():
                    f.write('key: %s\n%s\n\n' % (k, v))
            for k, v in list(new.items())[:5]:
                print('key: %s\n%s' % (k, v[:3000]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if n == 0 or d == 0 and u == 0:
            print('ANALYSIS-BROKEN: no obligation was generated for %s' % self.pid)
            return 2
        return 0


def show_trace(st, limit=40):
    out = []
    for e in st.trace[-limit:]:
        w = e.where.split(' via ')[0]
        out.append('    %s %s   [%s]' % (e.kind, ' '.join(compare_show(a) for a in e.args), w.replace('/repo/', '')))
    return '\n'.join(out)


def compare_show(a):
    s = repr(a)
    return s if len(s) < 300 else s[:300] + '…'


def run(pid, f):
    from .world import run_thread
    return run_thread(f)
