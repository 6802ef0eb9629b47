"""G03: what a function of the node locks is released on every way out of it."""
import os

from .. import gopaths

TITLE = 'Locks are released on every exit'
SKIP = {'.git', 'test', 'testdata', 'node_modules', 'javaee', 'pyee', 'integration', 'testsuite', 'doc', 'docker', 'vendor'}


def run(c):
    def f():
        dirs = []
        for r, ds, fs in os.walk(gopaths.REPO):
            ds[:] = sorted(d for d in ds if d not in SKIP)
            if any(x.endswith('.go') and not x.endswith('_test.go') for x in fs):
                dirs.append(os.path.relpath(r, gopaths.REPO))
        go = gopaths.Go()
        try:
            R = go.run(dirs=dirs, locks=True)
        finally:
            go.close()
        n = hand = 0
        for d in R:
            n += d['exits']
            c.functions.add(('/repo/' + d['at'].split(':')[0], d['fn'].split(':')[1]))
            bad = {}
            for what, where, text in d.get('bad') or []:
                bad.setdefault(what.split(' ')[0], {})[what.split(' ', 1)[1]] = (where, text)
            handed = set(d.get('hand') or [])
            hand += len(handed)
            for k, at in d['sites'].items():
                for rule in ('released', 'locked-twice', 'released-once'):
                    b = bad.get(rule, {}).pop(k, None)
                    ok = None if d.get('err') else b is None
                    c.ob(rule, ok, b[0] if b else at, d.get('err') or '%s: %s is %s' % (d['fn'], k, b and b[1]), '%s %s' % (d['fn'], k))
            for rule, m in bad.items():
                for k, b in m.items():
                    c.ob(rule, False, b[0], '%s: %s is %s' % (d['fn'], k, b[1]), '%s %s' % (d['fn'], k))
            if handed:
                c.notes.append('left to the caller or to what is returned: %s %s' % (d['fn'], sorted(handed)))
        c.notes.append('packages: %d, functions which lock: %d' % (len(dirs), len(R)))
        return n
    c.scenario('functions of the node', f)
