"""C03: every request gets exactly one reply and the executor keeps serving."""
import ast
import os
from ..kit import *
from .. import world as w

TITLE = 'Every request gets exactly one reply and the executor keeps serving'
CODE = '/scores/ends'
STEPS = ('schema', 'setBase', 'deleteBase', 'delete')


EARLIES = []


def endings():
    """every ending the schematic contract knows"""
    t = ast.parse(open(os.path.join(w.SCORES, 'ends', 'main.py')).read())
    f = [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.name == '_end'][0]
    return [n.test.comparators[0].value for n in f.body if isinstance(n, ast.If)]


HEAD = """
from iconservice import *


class T1(Exception):
    def __str__(self):
        raise SystemExit(3)

    def __repr__(self):
        raise KeyboardInterrupt()


class T2(BaseException):
    def __str__(self):
        raise ValueError('no text')


class T3(Exception):
    def __str__(self):
        raise SystemExit()


class T4(Exception):
    def __repr__(self):
        raise GeneratorExit()


class T5(Exception):
    def __str__(self):
        return 3


class T6(IconScoreException):
    @property
    def message(self):
        raise KeyboardInterrupt()


class T7(IconScoreException):
    @property
    def code(self):
        raise SystemExit()


class Odd(int):
    def __index__(self):
        raise SystemExit()

    def to_bytes(self, *a, **k):
        raise SystemExit()


class Text(str):
    def encode(self, *a):
        raise SystemExit()


def boom(x):
    raise x


%s


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        %s

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    %s

    @external
    def end(self, how: str):
        pass
"""
EARLY = ('Exception("x")', 'T1()', 'T2()', 'T3()', 'T4()', 'T5()', 'T6("x")', 'T7("x")', 'SystemExit(1)', 'KeyboardInterrupt()', 'GeneratorExit()', 'BaseException("x")', 'StopIteration(4)',
         'Exception("\\ud800")', 'IconScoreException("x", 3)', 'IconScoreException(None)', 'IconScoreException(object())', '3')
BODIES = {'default of text that is no text': '@external\n    def f(self, a: str = "\\ud800"):\n        pass', 'default of a strange text': '@external\n    def f(self, a: str = Text("x")):\n        pass',
          'default of a strange number': '@external\n    def f(self, a: int = Odd(3)):\n        pass', 'name that is no text': 'pass',
          'property which exits': '@property\n    def end2(self):\n        raise SystemExit()', 'class body which exits': 'raise SystemExit()',
          'hint which exits': '@external\n    def f(self, a: boom(SystemExit())):\n        pass', 'hint of no known kind': '@external\n    def f(self, a: "x y"):\n        pass',
          'attribute access which exits': 'def __getattr__(self, n):\n        raise SystemExit()', 'new which exits': 'def __new__(cls, *a, **k):\n        raise SystemExit()',
          'new which gives something else': 'def __new__(cls, *a, **k):\n        return 3', 'no parameters': '@external\n    def f():\n        pass'}


RAISING = ('Exception', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit', 'BaseException', 'revert', 'hostiletext', 'surrogate', 'hostiledict', 'int')


def run(c):
    EARLIES.clear()

    def one(name, reqs, nested=()):
        def f():
            W = make(['ends'])
            for path, text in EARLIES:
                if any(path in r for r in tuple(reqs) + tuple(nested)):
                    w.virtual(W, path.split('/')[-1], text)
            keys = tuple(mk(*r) for r in reqs)
            if nested:
                nk = tuple(mk(*r) for r in nested)
                W.nested = lambda st, data: nk if len(st.node[1]) == 1 else ()
            res = W.boot(list(keys) + [w.req_invoke('z', CODE, 'end', w.plist(typed_str('none')), costs=(), value=K(0))])
            c.absorb(W.I)
            judge(c, W, name, res, [r[1] for r in reqs] + ['z'])
            return len(res)
        c.scenario(name, f)

    def mk(kind, name, *a):
        if kind == 'api':
            return w.req_getapi(name, a[0])
        method, params, flag, costs = a[:4]
        return w.req_invoke(name, a[4] if len(a) > 4 else CODE, method, params, readonly=flag, costs=costs, value=K(0) if method not in ('fallback', '') else None)

    def P(*ts):
        return w.plist(*[typed_str(t) for t in ts])
    E = endings()
    for e in E:
        one('method ends with ' + e, [('run', 'q', 'end', P(e), 0, ())])
        if e in RAISING or c.thorough:
            one('read-only invocation ends with ' + e, [('run', 'q', 'end', P(e), 1, ())])
            one('read-only method ends with ' + e, [('run', 'q', 'end_ro', P(e), 0, ())])
        if e in RAISING or c.thorough:
            one('nested request ends with ' + e, [('run', 'q', 'calls', P('2', 'none'), 0, ())], [('run', 'n', 'end', P(e), 0, ())])
            one('method with named parameters ends with ' + e, [('run', 'q', 'end', w.pdict(('how', typed_str(e))), 0, ())])
            for n in ('1', '3', '6', '7') if c.thorough else ('1', '6'):
                one('%s while %s writes are outstanding' % (e, n), [('run', 'q', 'after', P(n, e), 0, ())])
    for e in ('none', 'SystemExit', 'revert', 'hostiledict'):
        for n in ('1', '2', '3'):
            one('%s after %s writes, steps may run out' % (e, n), [('run', 'q', 'after', P(n, e), 0, STEPS)])
            one('%s after %s writes whose failure is hidden, steps may run out' % (e, n), [('run', 'q', 'caught', P(n, e), 0, STEPS)])
        for n in ('1', '2'):
            one('%s after %s writes and a call, steps may run out' % (e, n), [('run', 'q', 'calls', P(n, e), 0, STEPS)])
    for m in ('on_install', 'on_update', 'fallback', '', 'nope', '_end', '__init__', '_IconScoreBase__call'):
        for fl in (0, 1):
            one('method %r, flags %d' % (m, fl), [('run', 'q', m, w.plist(), fl, ())])
        one('method %r with named parameters' % m, [('run', 'q', m, w.pdict(('x', typed_str('y'))), 0, ())])
    one('too many parameters', [('run', 'q', 'end', P('a', 'b', 'c'), 0, ())])
    one('too few parameters', [('run', 'q', 'end', P(), 0, ())])
    one('unknown named parameter', [('run', 'q', 'end', w.pdict(('x', typed_str('y'))), 0, ())])
    one('parameters of no known form', [('run', 'q', 'end', L(K(w.NIL), NONE), 0, ())])
    one('parameter of another type', [('run', 'q', 'end', w.plist(typed_int(isym('p'))), 0, ())])
    one('contract missing', [('run', 'q', 'end', P('none'), 0, (), '/scores/none')])
    for b in ('bad2', 'bad3', 'bad4'):
        one('contract %s' % b, [('run', 'q', 'end', P('none'), 0, (), '/scores/' + b)])
        one('contract %s is inspected' % b, [('api', 'q', '/scores/' + b)])
        one('contract %s is inspected during a call' % b, [('run', 'q', 'calls', P('2', 'none'), 0, ())], [('api', 'n', '/scores/' + b), ('run', 'k', 'end', P('none'), 0, (), '/scores/' + b)])
    def early(name, *parts):
        text = HEAD % parts
        path = '/scores/early%d' % len(EARLIES)
        EARLIES.append((path, text))
        one('contract: %s' % name, [('run', 'q', 'end', P('none'), 0, (), path)])
        one('inspection: %s' % name, [('api', 'q', path)])
        one('inspection during a call: %s' % name, [('run', 'q', 'calls', P('2', 'none'), 0, ())], [('api', 'n', path), ('run', 'k', 'end', P('none'), 0, (), path)])
    for x in EARLY:
        early('the module raises %s' % x, 'raise ' + x, '', '')
        early('the constructor raises %s' % x, '', 'raise ' + x, '')
    for n, x in BODIES.items():
        early(n, '', '', x)
    one('contract fails to load', [('run', 'q', 'end', P('none'), 0, (), '/scores/bad1')])
    one('inspection', [('api', 'q', CODE)])
    one('inspection of a missing contract', [('api', 'q', '/scores/none')])
    one('inspection of a contract which fails to load', [('api', 'q', '/scores/bad1')])
    one('inspection of a contract which fails to load, twice', [('api', 'q', '/scores/bad1'), ('api', 'r', '/scores/bad1')])
    for a, b in (('SystemExit', 'Exception'), ('GeneratorExit', 'hostiletext'), ('revert', 'KeyboardInterrupt')):
        one('%s, then %s' % (a, b), [('run', 'q', 'end', P(a), 0, ()), ('run', 'r', 'end', P(b), 1, ())])
        one('inspections during a call, %s' % a, [('run', 'q', 'calls', P('2', a), 0, ())], [('api', 'n', CODE), ('api', 'm', '/scores/bad1'), ('run', 'k', 'end', P(b), 0, ())])


def judge(c, W, name, res, names):
    for what, where, st in W.problems:
        c.ob('protocol', False, place(where), '%s (%s)\n%s' % (what, name, show(st)), what)
    for st, v in res:
        rs, out = requests(st)
        idle = isinstance(v, Halt) and v.reason == 'idle'
        c.ob('keeps-serving', idle, rs[-1].where() if rs else 'start-up', lambda: '%s (%s)\n%s' % (endname(W, st, v), name, show(st)),
             'stops: ' + endname(W, st, v)[:60])
        for r in rs:
            c.ob('one-reply', r.replies == 1 if idle or r.replies > 1 else None, r.where(),
                 lambda: 'request %s gets %d replies (%s)\n%s' % (r.name, r.replies, name, show(st)), '%d replies' % r.replies)
        if idle:
            for n in names:
                c.ob('served', any(r.name == n for r in rs), rs[-1].where(), 'request %s is never served (%s)\n%s' % (n, name, show(st)), 'not served')
            z = [r for r in rs if r.name == 'z']
            if z:
                c.ob('serves-normally', z[0].ok, z[0].where(), lambda: 'a plain request that follows ends with status %r (%s)\n%s' % (z[0].status, name, show(st)),
                     'later request fails')
