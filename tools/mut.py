#!/usr/bin/env python3
"""mut.py FILE OLD NEW CHECK...: run checks against a scratch copy of /repo with one textual change (development aid)."""
import os, shutil, subprocess, sys, tempfile
f, old, new = sys.argv[1:4]
d = tempfile.mkdtemp(prefix='mut')
try:
    subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
    os.makedirs(d + '/r')
    subprocess.run('cd ' + os.environ.get('BASE', '/repo') + ' && git archive HEAD pyee common service javaee module block consensus network chain havah | tar -x -C %s/r' % d, shell=True, check=True)
    p = d + '/r/' + (f if '/' in f and f.split('/')[0] in ('pyee', 'common', 'service', 'javaee', 'module', 'block', 'consensus', 'network', 'chain', 'havah') else 'pyee/pyexec/' + f)
    s = open(p).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    n = s.count(old)
    if n == 0:
        sys.exit('text not found')
    if n > 1:
        print('note: %d occurrences, first replaced' % n)
    open(p, 'w').write(s.replace(old, new, 1))
    for c in sys.argv[4:]:
        env = dict(os.environ, VP_REPO=d + '/r')
        r = subprocess.run([sys.executable, '/verif/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        L = r.stdout.splitlines()
        print('%s rc=%d %s' % (c, r.returncode, L[0] if L else ''))
        for l in L[1:]:
            if l.startswith(('key:', 'INCOMPLETE', 'UNDECIDED', 'VIOLATION', 'Traceback', 'ANALYSIS')):
                print('   ', l[:200])
finally:
    shutil.rmtree(d)
