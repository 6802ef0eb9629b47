"""C17: contracts with illegal declarations are rejected at load."""
from ..kit import *
from .. import world as w
from . import c16

TITLE = 'Contracts with illegal declarations are rejected at load'
HEAD = '''from typing import List, Dict, Optional, Union, Any, Tuple, Set
from iconservice import *
import vp


class Inner(TypedDict):
    a: int


class Other:
    pass

%s

class Score(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    @external
    def ok(self):
        vp.mark('ran')

%s
'''
HOOKS = '''    def on_install(self) -> None:
        super().on_install()
''', '''    def on_update(self) -> None:
        super().on_update()
'''
KINDS = {'external': '@external', 'read-only': '@external(readonly=True)', 'payable': '@payable', 'event': '@eventlog', 'isolated': '@isolated', 'interface': '@interface'}


def lines(*ls):
    return ''.join('    %s\n' % l for l in ls) + '        pass\n'


def illegal():
    """name -> (text before the contract, methods of the contract, whether it brings its own hooks)"""
    out = {}

    def add(name, body, before='', hooks=''):
        assert name not in out, name
        out[name] = (before, body, hooks)
    ev = 'def f(self, x: int):'
    for k in ('external', 'payable', 'event', 'isolated'):
        add(k + ' twice', lines(KINDS[k], KINDS[k], ev))
    add('interface twice', lines('@interface', '@interface', ev))
    add('external and read-only', lines('@external', '@external(readonly=True)', ev))
    add('read-only and external', lines('@external(readonly=True)', '@external', ev))
    add('read-only twice', lines('@external(readonly=True)', '@external(readonly=True)', ev))
    add('event twice, with indexed', lines('@eventlog(indexed=1)', '@eventlog', ev))
    add('external twice, parentheses', lines('@external()', '@external', ev))
    add('external twice around payable', lines('@external', '@payable', '@external', ev))
    add('payable twice around external', lines('@payable', '@external', '@payable', ev))
    combos = [('read-only', 'payable'), ('external', 'event'), ('payable', 'event'), ('read-only', 'event'), ('external', 'interface'), ('payable', 'interface'),
              ('event', 'interface'), ('read-only', 'interface'), ('isolated', 'payable'), ('isolated', 'event'), ('isolated', 'interface')]
    for a, b in combos:
        add('%s over %s' % (a, b), lines(KINDS[a], KINDS[b], ev))
        add('%s over %s' % (b, a), lines(KINDS[b], KINDS[a], ev))
    add('isolated alone', lines('@isolated', ev))
    add('external, payable and event', lines('@external', '@payable', '@eventlog', ev))
    add('external, payable and isolated', lines('@external', '@payable', '@isolated', ev))
    add('read-only, payable without parameters', lines('@external(readonly=True)', '@payable', 'def f(self) -> int:'))
    # deployment hooks
    for h, o in ((0, 'on_install'), (1, 'on_update')):
        for k in KINDS:
            add('%s %s' % (k, o), lines(KINDS[k], 'def %s(self):' % o), hooks=HOOKS[1 - h])
        add('external payable ' + o, lines('@external', '@payable', 'def %s(self):' % o), hooks=HOOKS[1 - h])
        for bad in ('*args', '**kw', 'x: float', 'x: dict', '*, x: int', "x: int = 'a'", 'x: List'):
            add('%s with %s' % (o, bad), lines('def %s(self, %s):' % (o, bad)), hooks=HOOKS[1 - h])
    # fallback
    add('external fallback', lines('@external', 'def fallback(self):'))
    add('read-only fallback', lines('@external(readonly=True)', 'def fallback(self):'))
    add('external payable fallback', lines('@external', '@payable', 'def fallback(self):'))
    add('payable external fallback', lines('@payable', '@external', 'def fallback(self):'))
    add('event fallback, payable', lines('@payable', '@eventlog', 'def fallback(self):'))
    add('isolated payable fallback', lines('@payable', '@isolated', 'def fallback(self):'))
    for p in ('x', 'x: int', 'x: int = 1', 'x=None', '*args', '**kw', '*, x: int = 1', 'x: int, y: str'):
        add('payable fallback with %s' % p, lines('@payable', 'def fallback(self, %s):' % p))
    for r in ('int', 'str', 'bool', 'dict', 'List[int]', 'Address', "'Address'", 'Inner'):
        add('payable fallback giving %s' % r, lines('@payable', 'def fallback(self) -> %s:' % r))
    # parameters
    for d in ('external', 'read-only', 'payable'):
        for p in ('*args', '**kw', '*, x', '*, x: int', '*, x: int = 1', 'x, /', 'x: int, /, y: int', 'x: int, *args', 'x: int, **kw', 'x: int, *, y: int', '*args: int', '**kw: int'):
            add('%s method with %s' % (d, p), lines(KINDS[d], 'def f(self, %s):' % p))
    for d, dn in (('@external', ''), ('@external\n    @payable', 'payable '), ('@external(readonly=True)', 'read-only ')):
        for t in ('float', 'list', 'dict', 'tuple', 'set', 'object', 'type', 'complex', 'bytearray', 'None', 'Any', 'List', 'Dict', 'Tuple', 'Set', 'Dict[str, int]', 'Dict[str, str]',
                  'Tuple[int]', 'Tuple[int, str]', 'Set[int]', "'int'", "'str'", "'bytes'", "'bool'", "'List[int]'", "'Inner'", "'Nothing'", "''", 'Union[int, str]', 'Union[int, str, None]',
                  'Union[int, None, str]', 'Optional[float]', 'Optional[dict]', 'Optional[Dict[str, int]]', 'Optional[List]', 'Optional[list]', 'Optional[Any]', 'List[float]', 'List[dict]',
                  'List[list]', 'List[List]', 'List[Any]', 'List[None]', "List['int']", 'List[Dict[str, int]]', 'List[List[float]]', 'List[List[list]]', 'List[Union[int, str]]',
                  'List[Tuple[int]]', 'List[Other]', 'Other', 'Optional[Other]', 'IconScoreBase', 'VarDB', 'Exception', '3', 'True', 'vp', 'len'):
            if dn and t not in ('float', 'list', 'dict', 'Dict[str, int]', 'Other', "'int'", 'Union[int, str]', 'List', 'Any'):
                continue
            add('%sparameter of %s' % (dn, t), lines(d, 'def f(self, x: %s):' % t))
            if not dn and t in ('float', 'list', 'Dict[str, int]', 'List[Any]', 'Union[int, str]', 'Other'):
                add('second parameter of %s' % t, lines(d, 'def f(self, n: int, x: %s):' % t))
                add('parameter of %s, default None' % t, lines(d, 'def f(self, x: %s = None):' % t))
    # structures
    st = 'class Bad(TypedDict):\n'
    for what, fs in (('17 fields', ['f%d: int' % i for i in range(17)]), ('30 fields', ['f%d: str' % i for i in range(30)]), ('itself', ["n: int", "next: 'Bad'"]),
                     ('lists of itself', ["n: int", "next: List['Bad']"]), ('itself, optional', ["next: Optional['Bad']"]), ('a float', ['x: float']), ('a dict', ['x: dict']), ('a Dict', ['x: Dict[str, int]']),
                     ('a bare list', ['x: list']), ('a bare List', ['x: List']), ('a list of floats', ['x: List[float]']), ('a union', ['x: Union[int, str]']), ('a class', ['x: Other']),
                     ('Any', ['x: Any']), ('a good and a bad field', ['a: int', 'x: float']), ('a bad and a good field', ['x: float', 'a: int']), ('a list of Dict', ['x: List[Dict[str, int]]']),
                     ('an optional Dict', ['x: Optional[Dict[str, int]]']), ('a text type', ["x: 'int'"])):
        b = st + ''.join('    %s\n' % f for f in fs)
        for t, tn in (('Bad', ''), ('List[Bad]', 'list of '), ('Optional[Bad]', 'optional '), ('Outer', 'structure of a '), ('ListOuter', 'structure of a list of a ')):
            o = '\nclass Outer(TypedDict):\n    i: Inner\n    b: Bad\n' if t == 'Outer' else '\nclass ListOuter(TypedDict):\n    n: int\n    b: List[Bad]\n' if t == 'ListOuter' else ''
            add('%sstructure with %s' % (tn, what), lines('@external', 'def f(self, x: %s):' % t), before=b + o)
    deep = 'int'
    for _ in range(16):
        deep = 'List[%s]' % deep
    for t in (deep, 'List[%s]' % deep, 'Optional[%s]' % deep, deep.replace('int', 'Inner')):
        add('too deep list %s' % t, lines('@external', 'def f(self, x: %s):' % t))
    # defaults
    for t, ds in (('int', ("'1'", "''", "b'1'", 'True', 'False', '1.0', '[]', '()', 'Other()')), ('str', ('1', "b''", 'True', '0', '[]')), ('bytes', ("''", '0', 'True')),
                  ('bool', ('0', '1', "''", "'true'", "b'\\x01'")), ('Address', ("'hx' + '1' * 40", '0', "b'\\x00' * 21", "''", 'Other()')), ('List[int]', ('[]', '[1]', '0', "''", '()')),
                  ('Optional[int]', ("''", "'1'", 'True', '1.5')), ('Optional[str]', ('0', "b''")), ('Optional[bool]', ('0', '1')), ('Optional[bytes]', ("''",)), ('Union[None, int]', ("'x'", 'False')),
                  ('Inner', ('{}', '0', "{'a': 1}")), ("'Address'", ("'hx'", '1')), ('Optional[Address]', ("''", '0'))):
        for d in ds:
            add('%s by default %s' % (t, d), lines('@external', 'def f(self, x: %s = %s):' % (t, d)))
    for d in ('1', "b''", 'True', '0', '[]'):
        add('unannotated by default %s' % d, lines('@external', 'def f(self, x=%s):' % d))
    add('second default of another type', lines('@external', "def f(self, x: int = 1, y: int = 'z'):"))
    add('read-only by default of another type', lines('@external(readonly=True)', "def f(self, x: int = 'z') -> int:"))
    # events
    five = 'a: int, b: str, c: bytes, d: bool, e: Address'
    for n in (4, 5):
        add('%d indexed of five' % n, lines('@eventlog(indexed=%d)' % n, 'def E(self, %s):' % five))
    add('4 indexed of four', lines('@eventlog(indexed=4)', 'def E(self, a: int, b: int, c: int, d: int):'))
    for n, ps in ((1, ''), (2, 'a: int'), (3, 'a: int'), (3, 'a: int, b: str'), (2, ''), (3, ''), (4, 'a: int')):
        add('%d indexed of %s' % (n, ps or 'none'), lines('@eventlog(indexed=%d)' % n, 'def E(self%s):' % (', ' + ps if ps else '')))
    add('event without self', lines('@eventlog', 'def E(a: int):'))
    add('event without anything', lines('@eventlog', 'def E():'))
    add('event of another first name', lines('@eventlog', 'def E(this, a: int):'))
    add('indexed event without self', lines('@eventlog(indexed=1)', 'def E(a: int, b: int):'))
    for t in ('list', 'dict', 'float', 'object', 'tuple', 'List[int]', 'Dict[str, int]', 'List', 'Optional[int]', 'Union[None, str]', 'Union[int, str]', 'Inner', 'List[Inner]', "'int'", "'str'", "'Nothing'", 'None',
              'Any', 'Other', 'bytearray', 'complex', 'IconScoreBase', '3', 'Optional[Address]', "Optional['Address']", "'List[int]'"):
        add('event argument of %s' % t, lines('@eventlog', 'def E(self, x: %s):' % t))
        add('second, indexed event argument of %s' % t, lines('@eventlog(indexed=2)', 'def E(self, n: int, x: %s):' % t))
    add('unannotated event argument', lines('@eventlog', 'def E(self, x):'))
    add('unannotated second event argument', lines('@eventlog(indexed=1)', 'def E(self, a: int, x):'))
    add('unannotated event argument with default', lines('@eventlog', "def E(self, x='a'):"))
    for p in ('*args', '**kw', '*args: int', '**kw: int', '*, x: int', 'x: int, /', 'x: int, *, y: int'):
        add('event with %s' % p, lines('@eventlog', 'def E(self, %s):' % p))
    for t, d in (('int', "'1'"), ('str', '1'), ('bytes', "''"), ('bool', '1'), ('int', 'True'), ('Address', "'hx'"), ("'Address'", '0')):
        add('event argument %s by default %s' % (t, d), lines('@eventlog', 'def E(self, x: %s = %s):' % (t, d)))
    # what is no function
    for k in ('external', 'payable', 'event', 'isolated'):
        add('%s class' % k, '    %s\n    class f:\n        pass\n' % KINDS[k])
        for d in ('staticmethod', 'classmethod', 'property'):
            add('%s %s' % (k, d), lines(KINDS[k], '@' + d, 'def f(self):'))
    # in a base class
    for n, b in (('external twice', lines('@external', '@external', ev)), ('read-only payable', lines('@external(readonly=True)', '@payable', ev)), ('float', lines('@external', 'def f(self, x: float):')),
                 ('indexed', lines('@eventlog(indexed=2)', 'def E(self, x: int):'))):
        add('in a base class: ' + n, '', before='class Parent(IconScoreBase):\n    @external\n    def up(self):\n        pass\n\n' + b)
    # nothing external
    return out


NOTHING = {'nothing external': '    def f(self):\n        pass\n', 'only an event': lines('@eventlog', 'def E(self, x: int):'), 'only hooks': ''}


def text(before, body, hooks):
    t = HEAD % (before, body + '\n' + (hooks if hooks else '\n'.join(HOOKS)))
    return t.replace('class Score(IconScoreBase)', 'class Score(Parent)') if 'class Parent(' in before else t


def run(c):
    def one(name, code_text, legal, invoke):
        def f():
            W = make(['basic'])
            code = w.virtual(W, 'bad' + ''.join('%02x' % b for b in name.encode()), code_text)
            n = 0
            qs = [w.req_getapi('q', code)]
            if invoke:
                qs = [w.req_invoke('q', code, invoke, w.plist(), costs=(), value=K(0))]
            res = W.boot(qs)
            c.absorb(W.I)
            for st, e in res:
                judge(c, name, legal, bool(invoke), st)
                n += 1
            return n
        c.scenario(('executing' if invoke else 'inspecting') + ': ' + name, f)
    for name, (before, body, hooks) in illegal().items():
        t = text(before, body, hooks)
        one(name, t, False, None)
        one(name, t, False, 'ok')
    for name, body in NOTHING.items():
        t = text('', body, '').replace('    @external\n    def ok', '    def ok')
        one(name, t, False, None)
        one(name, t, False, 'on_install')
    for name, k in c16.contracts().items():
        one('legal, ' + name, k.text(), True, None)
    for d in KINDS:
        if d not in ('interface', 'isolated'):
            one('legal, plain ' + d, text('', lines(KINDS[d], 'def f(self, x: int):'), ''), True, None)
            one('legal, plain ' + d, text('', lines(KINDS[d], 'def f(self, x: int):'), ''), True, 'ok')
    c.go()


def judge(c, name, legal, invoke, st):
    allr, _ = requests(st)
    key = '%s:%s' % ('executing' if invoke else 'inspecting', name)
    if not allr or allr[0].reply is None:
        c.ob('refused' if not legal else 'accepted', None, 'load', lambda: '%s: not answered' % name, key)
        return
    r = allr[0]
    ok = r.ok if isinstance(r.status, K) else None
    if legal:
        c.ob('accepted', ok, r.where(), lambda: '%s: a contract with legal declarations is refused' % name, key)
        return
    if st.notes and ok:
        ok = None if any(n.startswith(('recursion cut', 'effects cut')) for n in st.notes) else ok
    c.ob('refused', (not ok) if ok is not None else None, r.where(), lambda: 'a contract declaring "%s" is %s' % (name, 'executed' if invoke else 'accepted'), key)
    if invoke:
        c.ob('not run', not r.marks('ran'), r.where(), lambda: 'a method of a contract declaring "%s" is run' % name, key + ':ran')
