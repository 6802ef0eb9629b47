#!/usr/bin/env python3
"""mkseed.py SPEC...: make /verif/seeded/<id>/ from a specification file and verify it.

SPEC (tools/seeds/<id>.py) defines PROP, EDITS = [(file, old, new)], NEEDS, BREAKS and DEMO (python text using node.py)."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sid = os.path.basename(spec)[:-3]
    out = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    assert not sh('git -C /repo status --short').stdout.strip(), 'repo is not clean'
    try:
        for f, old, new in ns['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(out + '/patch.diff', 'w').write(diff)
        if not ns.get('NODEMO'):
            shutil.copy(os.path.join(ROOT, 'tools', 'fakenode.py'), out + '/node.py')
        open(out + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/pyee"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        r = json.load(open('/tmp/seedtest.json'))
        failed = [k for k in json.load(open('/opt/vp/BASELINE.json'))['stable'] if k not in r.get('passed', r.get('pass', []))]
        d = sh('bash %s/demo.sh' % out, cwd='/repo')
        print(sid, 'build', b.returncode, 'tests failing', len(failed), 'demo with patch', d.returncode, d.stdout[-300:].strip().replace('\n', ' | ') if d.returncode == 0 else d.stdout.strip().splitlines()[-1:])
        if len(sys.argv) > 1 and not os.environ.get('NOCHECK'):
            c = sh('%s %s/check.py %s' % (sys.executable, ROOT, ns['PROP']))
            print('   check rc', c.returncode, [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', 'key:'))][:3])
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    d = sh('bash %s/demo.sh' % out, cwd='/repo')
    print('   demo without patch', d.returncode, d.stdout[-400:] if d.returncode else '')


for s in sys.argv[1:]:
    make(s)
