"""C14: the package validator lets no forbidden import or builtin through."""
import ast

from ..kit import *
from .. import world as w
from ..pkgs import Files, ROOT, CODE, const

TITLE = 'The package validator lets no forbidden import or builtin through'
BAD = ('exec', 'eval', 'compile', '__import__')

CLEAN = 'import iconservice\n'
MAIN = CLEAN + 'class Score(iconservice.IconScoreBase):\n    pass\n'

IMPORTS = ['import os', 'import os as o', 'import os.path', 'from os import path', 'from os import *', 'import iconservice, os', 'from iconservice2 import x',
           'import pyexec', 'from pyexec.ipc import proxy', 'from pyexec import Logger', 'import sys, iconservice', 'import icon', 'import service', 'import iconservices',
           'from typing import List', 'from importlib import import_module as x', 'import builtins', 'from builtins import open as VarDB', 'from os import VarDB, ArrayDB',
           'from . import a\nimport os', 'import p_0', 'from p_0 import x', 'import a.b as iconservice']
NAMES = ['eval("1")', 'exec("x = 1")', 'compile("1", "", "eval")', '__import__("os")', 'x = eval', 'x = [exec]', 'x = lambda: eval', 'x = [eval(y) for y in "1"]', 'x = {exec: 1}',
         'x = f"{eval}"', 'x = y if __import__ else 1', 'def f(a=eval): pass', 'def f(*, a=exec): pass', '@eval\ndef f(): pass', 'class A(eval): pass', 'class A: x = compile',
         'x: int = eval', 'try:\n    pass\nexcept eval:\n    pass', 'with compile as z:\n    pass', 'assert eval', 'x = (yield_ for yield_ in (exec,))', 'x = "%s" % __import__',
         'del_ = not exec', 'import iconservice\nx = iconservice and eval']

FN = 'def f():\n%s\n'
POSITIONS = {
    'top': '%s\n',
    'after others': CLEAN + 'import iconservice as x\nfrom . import a\n%s\n',
    'function': 'def f():\n@1\n',
    'function with names': 'def f(a, b=2, *c, d=3, **e):\n    g = a + b\n@1\n    return g\n',
    'nested function': 'def f():\n    def g():\n        def h():\n@3\n        return h\n    return g\n',
    'closure': 'def f(v):\n    def g():\n        v\n@2\n    return g\n',
    'method': 'class Score:\n    def m(self):\n@2\n',
    'class body': 'class Score:\n    x = 1\n@1\n',
    'inner class': 'class A:\n    class B:\n        class C:\n            def m(self):\n@4\n',
    'class in function': 'def f():\n    class A:\n@2\n    return A\n',
    'branch': 'x = 1\nif x:\n    y = 2\nelse:\n@1\n',
    'loop': 'for i in range(3):\n@1\nelse:\n    pass\n',
    'handler': 'try:\n    pass\nexcept Exception:\n@1\nfinally:\n    pass\n',
    'finally': 'try:\n    pass\nfinally:\n@1\n',
    'async': 'async def f():\n@1\n',
    'generator': 'def f():\n    yield 1\n@1\n',
    'many constants': '@many\n%s\n',
    'many constants in a function': 'def f():\n@manyin\n@1\n',
    'many names': '@names\n%s\n',
    'many constants and names': '@many\n@names\n%s\n',
    'many names in a function': 'def f(x):\n@attrs\n@1\n',
    'low byte of the level is positive': '@lowbyte\n%s\n',
}


def fill(pos, stmt):
    t = POSITIONS[pos]
    t = t.replace('@attrs', '\n'.join('    x.n%d' % i for i in range(300)))
    t = t.replace('@manyin', '\n'.join('    x = %d' % (1000 + i) for i in range(300)))
    t = t.replace('@many', '\n'.join('x = %d' % (1000 + i) for i in range(300)))
    t = t.replace('@names', '\n'.join('n%d = 5' % i for i in range(300)))
    # the constant 0 gets index 257, whose low byte is the index of a positive constant
    t = t.replace('@lowbyte', '\n'.join('x = %d' % (1 + i) for i in range(257)))
    for n in range(1, 5):
        t = t.replace('@%d' % n, '\n'.join('    ' * n + l for l in stmt.splitlines()))
    return t.replace('%s', stmt) if '%s' in t else t


def dirty(src):
    """what the statement forbids, read off the syntax tree"""
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Import) and any(a.name != 'iconservice' for a in n.names):
            return True
        if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module != 'iconservice':
            return True
        if isinstance(n, ast.Name) and n.id in BAD:
            return True
    return False


PLACES = ['main.py', '__init__.py', 'other.py', '_hidden.py', 'Upper.py', 'sub/__init__.py', 'sub/mod.py', 'sub/deep/__init__.py', 'sub/deep/mod.py', 'bare/mod.py',
          'tests/test_x.py', 'setup.py', 'iconservice.py', 'zzz.py', 'a.py', 'sub/main.py', 'sub/other.py', 'package.py']


def packages():
    out = []
    n = 0
    for pos in POSITIONS:
        for i, stmt in enumerate(IMPORTS + NAMES):
            # every statement in the plain places, a rotating choice in the others
            if pos not in ('top', 'function') and (i + len(pos)) % 4:
                continue
            src = fill(pos, stmt)
            try:
                compile(src, 'x', 'exec')
            except SyntaxError:
                continue
            out.append(('%s: %s' % (pos, stmt.replace('\n', '; ')), {'main.py': MAIN, 'a.py': src}))
    for f in PLACES:
        for stmt in ('import os', 'x = eval', 'def f():\n    import os'):
            files = {'__init__.py': '', 'main.py': MAIN, 'other.py': CLEAN, 'sub/__init__.py': '', 'sub/mod.py': CLEAN, 'sub/deep/__init__.py': '', 'sub/deep/mod.py': 'from . import x\n'}
            files[f] = stmt + '\n'
            out.append(('%s in %s' % (stmt.replace('\n', ';'), f), files))
    clean = [MAIN, CLEAN + 'from . import a\n', 'x = 1\n', 'from .a import b\nfrom .. import c\n', 'import iconservice as i\ndef f():\n    import iconservice\n    return 5\n', '']
    for i, src in enumerate(clean):
        out.append(('clean %d' % i, {'__init__.py': '', 'main.py': MAIN, 'other.py': src, 'sub/mod.py': src}))
    return out


def run(c):
    ps = packages()
    size = 24
    for i in range(0, len(ps), size):
        c.scenario('packages %d to %d' % (i, min(i + size, len(ps)) - 1), lambda part=ps[i:i + size], i=i: concrete(c, part, i))
    for n in (6, 9):
        for level in (0, 1):
            c.scenario('any code of %d instructions, level %d' % (n, level), lambda n=n, level=level: anycode(c, n, level))


def concrete(c, part, base):
    W = make(['basic'], verify=True)
    names = ['p_%d' % (base + i) for i in range(len(part))]
    F = Files(W, {n: dict(files, **{'package.json': '{}'}) for n, (_, files) in zip(names, part)})
    try:
        res = W.boot([w.req_getapi(n, ROOT + '/' + n) for n in names])
        c.absorb(W.I)
    finally:
        F.undo()
    bad = {}
    for n, (what, files) in zip(names, part):
        bad[n] = [f for f, t in files.items() if f.endswith('.py') and dirty(t)]
    for st, v in res:
        rs, _ = requests(st)
        seen = {}
        for e in st.trace:
            if e.kind == 'runs':
                seen.setdefault(e.args[0].split('/')[2], e)
        for r, (what, files) in zip(rs, part):
            d = bad[r.name]
            if not d:
                c.ob('clean-analysed', True, what, '', 'clean')
                continue
            ran = seen.get(r.name)
            c.ob('rejected-before-loading', ran is None, place(ran.where) if ran else what,
                 lambda: 'the package (%s) has %s in %s and its file %s is run\n%s' % (what, 'forbidden code', d, ran.args[0], show(st)), 'forbidden package is run')
            s = r.status
            c.ob('rejected', None if s is None else not (isinstance(s, K) and s.v == 0) if isinstance(s, K) else None, r.where(),
                 lambda: 'the package (%s) has forbidden code in %s and is inspected\n%s' % (what, d, show(st)), 'forbidden package is inspected')
    return len(res)


def anycode(c, n, level):
    """a code object of n instructions with any operations: the name imported is `os`, the level the given one"""
    import dis
    LC, IM, EX = dis.opmap['LOAD_CONST'], dis.opmap['IMPORT_NAME'], dis.opmap['EXTENDED_ARG']
    W = make(['basic'], verify=True)
    path = ROOT + '/p/a.py'
    ops = [sym(INT, 'op%d' % i) for i in range(n)]

    def code(I, st):
        for o in ops:
            st = st.assume_le0(pneg(o))
            st = st.assume_le0(padd(o, K(-255)))
        units = [K(dis.opmap['RESUME']), K(0)]
        for o in ops:
            units += [o, K(1)]
        return I.alloc(st, HObj(CODE, {'co_code': Tup(tuple(units)), 'co_names': Tup((K('iconservice'), K('os'))), 'co_consts': Tup((K(9), K(level), NONE)),
                                       'co_varnames': Tup(()), 'co_name': K('<module>'), 'co_flags': K(0), 'co_freevars': Tup(()), 'co_cellvars': Tup(())}))
    F = Files(W, {'p': {'main.py': MAIN, 'a.py': '', 'package.json': '{}'}}, code={path: code})
    try:
        res = W.boot([w.req_getapi('p', ROOT + '/p')])
        c.absorb(W.I)
    finally:
        F.undo()
    for st, v in res:
        requests(st)
        ran = [e for e in st.trace if e.kind == 'runs']
        if not ran:
            c.ob('import-resolved', True, path, '', 'rejected')
            continue
        for s in st.leaves():
            judge(c, s, ops, level, (LC, IM, EX), path, ran[0].where)
    return len(res)


def judge(c, st, ops, level, codes, path, where):
    LC, IM, EX = codes
    for i, o in enumerate(ops):
        if i < 2:
            continue
        isimp = eqfact(st, o, IM)
        if isimp is False:
            c.ob('import-resolved', True, path, '', 'no import')
            continue
        ok = False if isimp else None
        if level:
            ext = eqfact(st, ops[i - 3], EX) if i >= 3 else False
            if eqfact(st, ops[i - 1], LC) and eqfact(st, ops[i - 2], LC) and ext is False:
                ok = True
        c.ob('import-resolved', ok, place(where), lambda: 'an import of `os` at level %d, instruction %d of %s, is let through: what precedes it is %s\n%s'
             % (level, i, path, [eqname(st, x) for x in ops[max(0, i - 3):i + 1]], show(st)), 'import let through')


def eqfact(st, o, n):
    """True / False / None: the operation is n on this path"""
    d = st.decide(T('eq0', (padd(o, K(-n)),), BOOL))
    return d


def eqname(st, o):
    import dis
    for n, v in (('LOAD_CONST', 100), ('IMPORT_NAME', 108), ('EXTENDED_ARG', 144)):
        if eqfact(st, o, dis.opmap[n]):
            return n
    return 'any'

