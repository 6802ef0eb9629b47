"""C22: execution is deterministic: what is sent and what a contract sees does not depend on the host, on set order or on what ran before."""
import ast

from ..kit import *
from .. import world as w
from ..world import World
from ..pkgs import Files, ROOT
from . import c21

TITLE = 'Execution is deterministic'
FLOATS = ('truediv', 'f2i', 'float', 'fadd', 'fmul', 'round', 'fsum')
HOST = ('impure', 'id', 'hash')

EXTRA = '''
class Pair(TypedDict):
    a: int
    b: Address


class Score(IconScoreBase):

    @eventlog(indexed=1)
    def Ev(self, a: int):
        pass

    @eventlog(indexed=2)
    def All(self, a: int, b: str, c: bytes, d: bool, e: Address):
        pass

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external
    def work(self, n: int) -> int:
        VarDB('w', self.db, value_type=int).set(n)
        self.Ev(n)
        return n

    @payable
    @external
    def go(self, op: str):
        attempt(op, getattr(LIB, op), self, self.db)

    @external(readonly=True)
    def see(self, op: str):
        attempt(op, getattr(LIB, op), self, self.db)

    @external
    def conv(self, a: int, b: str, c: bytes, d: bool, e: Address, f: List[int] = None, g: Pair = None):
        vp.mark('given', a, b, c, d, e, f, g)
        self.All(a, b, c, d, e)
        return {'a': [a, b, c, d, e], 'b': f, 'g': g}

    @external
    def quit(self, how: str):
        VarDB('w', self.db, value_type=int).set(3)
        self.set_fee_sharing_proportion(40)
        if how == 'fail':
            raise ValueError('no')
        if how == 'revert':
            revert('no', 3)
        if how == 'exit':
            raise SystemExit()
        if how == 'swallow':
            try:
                self.call(TO, 'go', {})
            except BaseException:
                pass
        if how == 'coin':
            try:
                create_interface_score(TO, Peer).icx('no').go()
            except BaseException:
                pass
        if how == 'js':
            json_dumps({})
            sha3_256(b'')
'''


class Returning(ast.NodeTransformer):
    """every action returns what it sees"""
    def visit_FunctionDef(self, n):
        if isinstance(n.body[-1], ast.Expr):
            n.body[-1] = ast.copy_location(ast.Return(n.body[-1].value), n.body[-1])
        return n


def text():
    t = ast.parse(c21.HEAD % (list(c21.NAMES_),))
    for n in t.body:
        if isinstance(n, ast.ClassDef) and n.name == 'Base':
            Returning().visit(n)
    t = ast.unparse(ast.fix_missing_locations(t))
    t = t.replace("vp.mark('refused', name)", "vp.mark('refused', name, str(e))").replace("vp.mark('done', name)", "vp.mark('done', name, r)")
    t = t.replace('return me.msg.value', '''return (me.msg.sender.to_bytes(), me.msg.value, me.tx.hash, me.tx.index, me.tx.timestamp, me.tx.nonce, me.tx.origin.to_bytes(),
                me.block_height, me.now(), me.block.height, me.block.timestamp, me.owner.to_bytes(), me.address.to_bytes(), me.address == TO, {me.address: 1}.get(TO),
                str(me.address), me.get_fee_sharing_proportion())''')
    return t + '\n' + EXTRA


WORLDS = {}


def world(back, verify=False):
    W = WORLDS.get((back, verify))
    if W is None:
        W = WORLDS[(back, verify)] = install(World([], verify=verify))
        W.I.impure = True
        W.I.backwards = back
    W.problems = []
    W.reply = {}
    W.on_send = None
    W.start = {}
    W.__dict__.pop('nested', None)
    return W, w.virtual(W, 'det', text())


def run(c):
    def sides(name, ask, nested=None, prior=None, reply=True):
        """the same request with sets in one order and in the other, and after something else"""
        def f():
            got = []
            ways = [(False, False), (True, False)] + ([(False, True)] if prior else [])
            for back, after in ways:
                W, p = world(back)
                if reply:
                    W.reply['CALL'] = c21.fine
                W.start = {'q': 1000}
                q = ask(p)
                pre = [prior(p)] if after else []
                if nested:
                    n = nested(p)
                    W.nested = lambda st, data: (n,) if len(st.node[1]) == 1 and st.node[1][0][1] == 'q' else ()
                got.append(W.boot(pre + [q]))
                c.absorb(W.I)
            for st, v in got[0]:
                judge(c, name, st)
            hosts(c, name, got[0])
            alike(c, name + ', sets in another order', got[0], got[1], 'depends on set order')
            if prior:
                for st, v in got[2]:
                    judge(c, name, st)
                alike(c, name, got[0], got[2], 'depends on an earlier execution')
            return sum(len(g) for g in got)
        c.scenario(name, f)

    def go(op, ro, costs, method='go'):
        return lambda p: w.req_invoke('q', p, method, w.plist(typed_str(op)), readonly=ro, costs=costs, value=K(0))

    def later(op):
        return lambda p: w.req_invoke('q', p, 'go', w.plist(typed_str(op)), costs=('schema',) + V1[op], schema=K(1), value=K(0))

    for op in c21.NAMES_:
        if op in SLOW and not c.thorough:
            continue
        sides('action %s' % op, go(op, 0, COSTS.get(op, ())))
        sides('action %s, read-only' % op, go(op, 1, ()))
        if op in V1:
            sides('action %s, later costs' % op, later(op))
        if c.thorough:
            sides('action %s, steps may run out' % op, go(op, 0, ('schema', 'default', 'get', 'set', 'replace', 'delete', 'eventLog', 'apiCall')))
            sides('action %s in a read-only method' % op, go(op, 0, (), 'see'))
    x = lambda n, ty: sym(ty, 'in', ('any', n), ty)
    addr = L(K(w.ADDRESS), K(b'\x01' + b'\x11' * 20))
    TYPED = [L(K(w.TINT), i2b(isym('n'))), typed_str('text'), typed_bytes(x('c', BYTES)), L(K(w.TBOOL), K(b'\x01')), addr]
    sides('typed parameters by position', lambda p: w.req_invoke('q', p, 'conv', w.plist(*TYPED), costs=(), value=K(0)))
    sides('typed parameters by name', lambda p: w.req_invoke('q', p, 'conv', w.pdict(*zip((b'a', b'b', b'c', b'd', b'e'), (
        typed_str('0x11'), typed_str('t'), typed_str('0x1234'), typed_str('0x1'), typed_str('cx' + '11' * 20)))), costs=(), value=K(0)))
    sides('unknown text parameters by name', lambda p: w.req_invoke('q', p, 'conv', w.pdict(*zip((b'a', b'b', b'c', b'd', b'e'), (
        typed_str(x('a', BYTES)), typed_str(x('b', BYTES)), typed_str('0x1234'), typed_str('0x1'), typed_str('cx' + '11' * 20)))), costs=(), value=K(0)))
    sides('a list and a structure', lambda p: w.req_invoke('q', p, 'conv', w.plist(*(TYPED + [w.plist(TYPED[0], TYPED[0]), w.pdict((b'a', TYPED[0]), (b'b', addr))])),
                                                          costs=(), value=K(0)))
    sides('too few parameters', lambda p: w.req_invoke('q', p, 'conv', w.plist(*TYPED[:3]), costs=(), value=K(0)))
    sides('unknown method', lambda p: w.req_invoke('q', p, 'nothing', w.plist(), costs=(), value=K(0)))
    for how in ('ok', 'fail', 'revert', 'exit', 'swallow', 'coin', 'js'):
        sides('ending ' + how, go(how, 0, (), 'quit'))
        # what ran before leaves nothing behind
        prior = lambda p, how=how: w.req_invoke('p', p, 'quit', w.plist(typed_str(how)), costs=(), value=K(0))
        for op in ('var_set', 'var_get', 'get_fee', 'call', 'peer', 'event', 'props', 'hash', 'js', 'arr_len', 'send', 'balance', 'owner') if c.thorough or how != 'ok' else ('var_set',):
            sides('action %s after an execution ending %s' % (op, how), go(op, 0, ()), prior=prior)
        sides('typed parameters after an execution ending ' + how, lambda p: w.req_invoke('q', p, 'conv', w.plist(*TYPED), costs=(), value=K(0)), prior=prior)
        sides('execution ending %s after one ending ok' % how, go(how, 0, (), 'quit'), prior=lambda p: w.req_invoke('p', p, 'quit', w.plist(typed_str('ok')), costs=(), value=K(0)))
    for op in ('var_set', 'call', 'event', 'fee', 'get_fee', 'hash'):
        sides('action %s after a read-only execution' % op, go(op, 0, ()), prior=lambda p: w.req_invoke('p', p, 'quit', w.plist(typed_str('ok')), readonly=1, costs=(), value=K(0)))
        sides('action %s after an inspection' % op, go(op, 0, ()), prior=lambda p: w.req_getapi('p', p))
        sides('action %s after an execution which ran out of steps' % op, go(op, 0, ()),
              prior=lambda p: w.req_invoke('p', p, 'quit', w.plist(typed_str('ok')), costs=('set', 'schema'), schema=K(0), limit=K(0), value=K(0)))
        for n in ('call', 'peer'):
            sides('%s around %s' % (n, op), go(n, 0, ()), nested=lambda p, op=op: w.req_invoke('n', p, 'go', w.plist(typed_str(op)), costs=(), value=K(0)))
    sides('inspection', lambda p: w.req_getapi('q', p))
    for how in ('ok', 'fail', 'exit'):
        sides('inspection after an execution ending ' + how, lambda p: w.req_getapi('q', p),
              prior=lambda p, how=how: w.req_invoke('p', p, 'quit', w.plist(typed_str(how)), costs=(), value=K(0)))
    packages(c)


V1 = {'var_set': ('setBase', 'deleteBase', 'set', 'delete'), 'var_remove': ('setBase', 'deleteBase', 'delete'), 'var_get': ('getBase', 'get'), 'event': ('logBase', 'log')}
SLOW = ('arr_pop', 'arr_put')
COSTS = {'hash': ('apiCall',), 'hash2': ('apiCall',), 'js': ('apiCall',), 'js2': ('apiCall',), 'key': ('apiCall',), 'recover': ('apiCall',), 'event': ('eventLog', 'schema'),
         'var_set': ('set', 'replace', 'schema'), 'var_get': ('get',), 'arr_in': ('get',)}
GOOD = {'package.json': '{}', 'main.py': 'from iconservice import *\nfrom .helper import x\nfrom .sub.more import y\n', 'helper.py': 'x = 1\n', 'sub/__init__.py': '', 'sub/more.py': 'y = 2\n'}
PACKS = {'good': GOOD, 'one bad': dict(GOOD, **{'helper.py': 'import os\n'}), 'two bad': dict(GOOD, **{'helper.py': 'import os\n', 'sub/more.py': 'eval("1")\n'}),
         'bad and broken': dict(GOOD, **{'helper.py': 'import os\n', 'sub/more.py': 'x x\n'}), 'many': dict(GOOD, **{'a%d.py' % i: 'x = 1\n' for i in range(6)})}


def packages(c):
    """directory entries in one order and in the other"""
    for n, files in PACKS.items():
        def f(n=n, files=files):
            got = []
            for back in (False, True):
                W, p = world(back, True)
                F = Files(W, {'pack': files}, stand_in='det')
                if back:
                    fwd = F.names
                    F.names = lambda d: fwd(d)[::-1]
                try:
                    got.append(W.boot([w.req_getapi('q', ROOT + '/pack')]))
                finally:
                    F.undo()
                c.absorb(W.I)
            for st, v in got[0]:
                judge(c, n, st)
            alike(c, 'inspection of a package (%s), directory entries in another order' % n, got[0], got[1], 'depends on directory order')
            return len(got[0])
        c.scenario('package %s' % n, f)


def search(v, pred, seen=None):
    if isinstance(v, T):
        if pred(v):
            return v
        kids = [x for x in v.args if isinstance(x, Val)]
    elif isinstance(v, Tup):
        kids = v.items
    elif isinstance(v, P):
        kids = [a for m, _ in v.terms for a in m if isinstance(a, Val)]
    else:
        return None
    for x in kids:
        r = search(x, pred)
        if r is not None:
            return r
    return None


def ofhost(t):
    if t.op in HOST:
        return True
    if t.op in ('str', 'repr') and len(t.args) == 1 and isinstance(t.args[0], T):
        a = t.args[0]
        if a.op in ('function', 'method', 'bmethod'):
            return True
        return a.op == 'obj' and isinstance(a.args[0], K) and not a.args[0].v.endswith('Address') and a.args[0].v.split('.')[0] in ('pyexec', 'iconservice', 'det')
    return False


def small(v):
    """made of lengths and constants alone: far below 2**53, where the division is exact enough"""
    if isinstance(v, K):
        return isinstance(v.v, (int, float))
    if isinstance(v, P):
        return all(isinstance(a, T) and small(a) for m, _ in v.terms for a in m)
    if isinstance(v, T):
        return v.op == 'len' or v.op in FLOATS and all(small(a) for a in v.args if isinstance(a, Val))
    return False


def rounded(t):
    return t.op in FLOATS and not small(t)


def judge(c, name, st):
    rs, _ = requests(st)
    for r in rs:
        for e in r.events:
            if not isinstance(e, Ev) or not (e.kind == 'mark' or e.kind == 'send' and e.args[0] != w.LOG):
                continue
            what = 'what the contract sees' if e.kind == 'mark' else NAMES.get(e.args[0], 'what is sent')
            for pred, rule, says in ((ofhost, 'host-independent', 'depends on the host'), (rounded, 'no-rounding', 'depends on floating point rounding')):
                hit = None
                for a in e.args:
                    if isinstance(a, Val):
                        hit = hit or search(a, pred)
                c.ob(rule, hit is None, place(e.where), lambda: '%s %s: %r (%s)\n%s' % (what, says, hit, name, show(st)), '%s %s' % (what, says))


def literals(st):
    """the facts about the host a path is taken under"""
    out = {}
    for d, n in ((st.lit, 'lit'), (st.ty, 'ty'), (st.eqk, 'eqk'), (st.nek, 'nek'), (st.iv, 'iv')):
        for k, x in d.items():
            vs = [a for m, _ in k for a in m if isinstance(a, Val)] if isinstance(k, tuple) else [k]
            if any(isinstance(v, Val) and search(v, ofhost) is not None for v in vs):
                out[(n, k)] = x
    return out


def excluded(l, l2):
    for k, x in l.items():
        if k[0] == 'eqk' and k in l2 and l2[k] != x or k[0] == 'eqk' and x in l2.get(('nek', k[1]), ()):
            return True
        if k[0] in ('lit', 'ty', 'iv') and l2.get(k, x) != x:
            return True
    return False


def pure(st):
    return {k: x for k, x in st.lit.items() if not (isinstance(k, Val) and search(k, ofhost) is not None)}


def hosts(c, name, res):
    """what is done is not decided by the host"""
    paths = [(s, literals(s)) for st, v in res for s in st.leaves()]
    some = [(s, l) for s, l in paths if l]
    if not some:
        c.ob('host-decides-nothing', True, 'q', '')
        return
    for s, l in some:
        for s2, l2 in some:
            if l == l2 or s is s2:
                continue
            if not excluded(l, l2) and not excluded(l2, l):
                continue
            a, b = pure(s), pure(s2)
            if any(b.get(k, x) != x for k, x in a.items()):
                continue
            e, e2 = c21.essence(s), c21.essence(s2)
            if e is None or e2 is None or [p[:2] for p in e] == [p[:2] for p in e2]:
                continue
            requests(s)
            d = c21.differs(s, e, e2)
            c.ob('host-decides-nothing', False if d else None, place(d[0]) if d else 'q',
                 lambda: 'the host decides what is done: %s; facts %r (%s)\n%s' % (d[1] if d else '', list(l)[:3], name, show(s)), 'decided by the host')
            return
    c.ob('host-decides-nothing', True, 'q', '')


def alike(c, name, A, B, kind):
    """every path of the one analysis has its counterpart in the other"""
    for X, Y in ((A, B), (B, A)):
        es = [c21.essence(s) for s, v in Y]
        keys = {tuple(p[:2] for p in e) for e in es if e is not None}
        for s, v in X:
            e = c21.essence(s)
            if e is None:
                continue
            if tuple(p[:2] for p in e) in keys:
                c.ob('same-execution', True, place(e[-1][2]) if e else 'q', '')
                continue
            requests(s)
            ds = [c21.differs(s, e, x) for x in es if x is not None]
            ok = False if ds and all(ds) else None
            d = ds[0] if ok is False else ('q', '', '')
            c.ob('same-execution', ok, place(d[0]), lambda: 'the execution %s: %s (%s)\n%s' % (kind, d[1], name, show(s)), kind)
