"""Paths of the node's Go source (goan/): built from /verif/goan on each run, run on /repo's current source."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .interp import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


CONST = re.compile(r'(lt|eq)\(const:(-?\d+),const:(-?\d+)\)$')


def impossible(facts):
    """a comparison of two numbers came out the other way"""
    for k, v in facts.items():
        m = CONST.match(k)
        if m:
            a, b = int(m.group(2)), int(m.group(3))
            if v is not (a < b if m.group(1) == 'lt' else a == b):
                return True
    return False


MADE = re.compile(r'eq\((WithStack|Wrapf?|Errorf|New|WithCode|WithStatus)#\d+,nil\)$')


class Go:
    """one built analyser; removed at the end"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='goan.')
        env = dict(os.environ, GO111MODULE='on', GOFLAGS='-mod=mod', GOTOOLCHAIN='local', CGO_ENABLED='0', GOPROXY='off', GOWORK='off')
        env.setdefault('HOME', self.dir)
        self.env = env
        exe = os.path.join(self.dir, 'goan')
        r = None
        for cache in (None, os.path.join(self.dir, 'cache')):
            e = dict(env, GOCACHE=cache) if cache else env
            r = subprocess.run(['go', 'build', '-o', exe, '.'], cwd=os.path.join(VERIF, 'goan'), env=e, capture_output=True, text=True, timeout=400)
            if r.returncode == 0:
                break
        if r.returncode != 0:
            self.close()
            raise AnalysisError('goan does not build: ' + r.stderr[:500])
        self.exe = exe

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, **job):
        job['root'] = REPO
        r = subprocess.run([self.exe], input=json.dumps(job), capture_output=True, text=True, env=self.env, timeout=500)
        if r.returncode != 0:
            raise AnalysisError('goan: ' + r.stderr[-500:])
        return [json.loads(l) for l in r.stdout.splitlines() if l.strip()]


class GPath:
    def __init__(self, entry, d):
        self.entry = entry
        self.how = d['how']
        self.ret = d.get('ret') or []
        self.events = d.get('events') or []
        self.heap = d.get('heap') or {}

    def facts(self, upto=None):
        out = {}
        for e in self.events if upto is None else self.events[:upto]:
            if e['k'] == 'cond':
                out[e['f']] = bool(e.get('v'))
        return out

    def calls(self, *names):
        return [(i, e) for i, e in enumerate(self.events) if e['k'] == 'call' and (not names or e['f'] in names)]

    def value(self, t, facts=None):
        """truth of a boolean term on this path: True, False or None"""
        if t is None:
            return None
        if t.startswith('!'):
            v = self.value(t[1:], facts)
            return None if v is None else not v
        if t in ('true', 'false'):
            return t == 'true'
        if t.startswith('zero('):
            return False
        return (self.facts() if facts is None else facts).get(t)

    def show(self):
        out = []
        for e in self.events:
            if e['k'] == 'cond':
                out.append('    %s is %s   [%s]' % (e['f'], 'true' if e.get('v') else 'false', e['at']))
            elif e['k'] in ('call', 'set', 'return', 'go', 'panic'):
                out.append('    %s %s%s(%s)   [%s]' % (e['k'], e.get('recv', '') + '.' if e.get('recv') else '', e.get('f', ''), ', '.join(e.get('args') or []), e['at']))
        return 'path:\n' + '\n'.join(out[-40:])


def paths(c, results):
    """-> {entry: (info, [paths])}; what could not be enumerated is reported as undecided"""
    out = {}
    for r in results:
        if r.get('err'):
            c.ob('enumerated', None, r['entry'], '%s: %s' % (r['entry'], r['err']), r['entry'])
            continue
        # an error that has just been made is not nil
        ps = [q for q in (GPath(r['entry'], p) for p in r.get('paths') or []) if not any(v and MADE.match(k) for k, v in q.facts().items()) and not impossible(q.facts())]
        out[r['entry']] = (r, ps)
        c.functions.add((os.path.join(REPO, r['at'].rsplit(':', 1)[0]), r['entry'].split(':', 1)[1]))
        for p in ps:
            for e in p.events:
                if e.get('in') and e.get('at'):
                    c.functions.add((os.path.join(REPO, e['at'].rsplit(':', 1)[0]), e['in']))
                    c.files.add(os.path.join(REPO, e['at'].rsplit(':', 1)[0]))
        c.ob('enumerated', True, r['entry'], '')
    return out
