"""C21: inspecting a contract has no side effects."""
from ..kit import *
from .. import world as w

TITLE = 'Inspecting a contract has no side effects'
STATUSES = set(range(14)) | set(range(32, 1000))

HEAD = '''from iconservice import *
import vp

kept = {}


class Peer(InterfaceScore):

    @interface
    def go(self):
        pass


def attempt(name, f, *args):
    vp.mark('try', name)
    try:
        r = f(*args)
    except BaseException as e:
        vp.mark('refused', name)
    else:
        vp.mark('done', name)


TO = Address.from_string('cx' + '11' * 20)


class Base:

    def put(self, me, db):
        db.put(b'k', b'v')

    def get(self, me, db):
        db.get(b'k')

    def delete(self, me, db):
        db.delete(b'k')

    def db_contains(self, me, db):
        db.get_sub_db(b'a').contains(b'v')

    def close(self, me, db):
        db.close()

    def var_set(self, me, db):
        VarDB('v', db, value_type=int).set(5)

    def var_get(self, me, db):
        VarDB('v', db, value_type=int).get()

    def var_remove(self, me, db):
        VarDB('v', db, value_type=str).remove()

    def dict_set(self, me, db):
        DictDB('d', db, value_type=int)['a'] = 3

    def dict_get(self, me, db):
        DictDB('d', db, value_type=int)['a']

    def dict_in(self, me, db):
        'a' in DictDB('d', db, value_type=int)

    def dict_del(self, me, db):
        d = DictDB('d', db, value_type=int, depth=2)['x']
        del d['a']

    def arr_put(self, me, db):
        ArrayDB('a', db, value_type=int).put(3)

    def arr_len(self, me, db):
        len(ArrayDB('a', db, value_type=int))

    def arr_in(self, me, db):
        3 in ArrayDB('a', db, value_type=int)

    def arr_pop(self, me, db):
        ArrayDB('a', db, value_type=int).pop()

    def transfer(self, me, db):
        me.icx.transfer(TO, 3)

    def send(self, me, db):
        r = me.icx.send(TO, 3)
        vp.mark('sent', r)

    def balance(self, me, db):
        me.icx.get_balance(TO)

    def own_balance(self, me, db):
        me.icx.get_balance(me.address)

    def call(self, me, db):
        me.call(TO, 'go', {})

    def call_amount(self, me, db):
        me.call(TO, 'go', {'a': 1}, 5)

    def peer(self, me, db):
        me.create_interface_score(TO, Peer).go()

    def peer_coin(self, me, db):
        create_interface_score(TO, Peer).icx(7).go()

    def event(self, me, db):
        me.Ev(3)

    def fee(self, me, db):
        me.set_fee_sharing_proportion(50)

    def get_fee(self, me, db):
        me.get_fee_sharing_proportion()

    def hash(self, me, db):
        sha3_256(b'abc')

    def hash2(self, me, db):
        sha_256(b'abc')

    def js(self, me, db):
        json_dumps({'a': 1})

    def js2(self, me, db):
        json_loads('{}')

    def key(self, me, db):
        create_address_with_key(b'\\x02' + b'\\x01' * 32)

    def recover(self, me, db):
        recover_key(b'\\x01' * 32, b'\\x02' * 64 + b'\\x00')

    def props(self, me, db):
        me.msg.value

    def owner(self, me, db):
        me.get_owner(me.address)

    def run(self, me, db):
        me.work(4)


OPS = [n for n in %r]
LIB = Base()


def everything(me, db):
    for n in OPS:
        attempt(n, getattr(LIB, n), me, db)

'''
NAMES_ = ['put', 'get', 'delete', 'db_contains', 'close', 'var_set', 'var_get', 'var_remove', 'dict_set', 'dict_get', 'dict_in', 'dict_del', 'arr_put', 'arr_len',
          'arr_in', 'arr_pop', 'transfer', 'send', 'balance', 'own_balance', 'call', 'call_amount', 'peer', 'peer_coin', 'event', 'fee', 'get_fee', 'hash',
          'hash2', 'js', 'js2', 'key', 'recover', 'props', 'owner', 'run']
BODY = '''
%(module)s

class Score(IconScoreBase):
%(body)s
    @eventlog(indexed=1)
    def Ev(self, a: int):
        pass

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
%(init)s
    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _snap(self, tag):
        vp.mark(tag, self.msg.sender.to_bytes(), self.msg.value, self.tx.hash, self.tx.index, self.block_height, self.now(), self.owner.to_bytes(),
                self.address.to_bytes(), self.get_fee_sharing_proportion())

    @external
    def work(self, n: int) -> int:
        self._snap('work')
        VarDB('w', self.db, value_type=int).set(n)
        self.Ev(n)
        return n

    @external
    def keep(self):
        kept['me'] = self
        kept['db'] = self.db
        kept['on'] = True
        self.icx

    @external
    def outer(self):
        self._snap('before')
        kept['me'] = self
        kept['db'] = self.db
        self.set_fee_sharing_proportion(9)
        VarDB('w', self.db, value_type=int).set(1)
        kept['on'] = True
        self.call(TO, 'go', {})
        kept['on'] = False
        self._snap('after')
        VarDB('w', self.db, value_type=int).set(2)
        VarDB('x', self.db, value_type=int).get()
        self.Ev(8)
        self.icx.transfer(TO, 1)

    @external(readonly=True)
    def quiet(self) -> int:
        self._snap('before')
        kept['me'] = self
        kept['db'] = self.db
        kept['on'] = True
        self.call(TO, 'go', {})
        kept['on'] = False
        self._snap('after')
        attempt('put', LIB.put, self, self.db)
        attempt('event', LIB.event, self, self.db)
        return VarDB('x', self.db, value_type=int).get()
'''

OWN = '        if vp.inspected():\n            everything(self, db)\n'
KEPT = "        if kept.get('on'):\n            everything(kept['me'], kept['db'])\n"
PLACES = {
    'constructor': dict(init=OWN),
    'constructor, then fails': dict(init=OWN + "            raise ValueError('no')\n"),
    'constructor, then exits': dict(init=OWN + '            raise SystemExit()\n'),
    'constructor, then reverts': dict(init=OWN + "            revert('no', 3)\n"),
    'constructor with objects of an earlier execution': dict(init=KEPT),
    'own inspection method': dict(init='', body="    @property\n    def _IconScoreBase__get_api(self):\n        everything(self, self.db)\n        return super()._IconScoreBase__get_api\n\n"),
    'own inspection result': dict(init='', body="    def _IconScoreBase__get_api(self):\n        everything(self, self.db)\n        return 5\n\n"),
    'new': dict(init='', body="    def __new__(cls, db):\n        if vp.inspected():\n            everything(cls, db)\n        return object.__new__(cls)\n\n"),
    'module': dict(module='everything(Base, None)\ncreate_interface_score(TO, Peer)\n', init=''),
    'class body': dict(body='    everything(Base, None)\n\n', init=''),
    'plain': dict(init=''),
}


def text(place, ops):
    p = {'module': '', 'body': '', 'init': ''}
    p.update(PLACES[place])
    return HEAD % (list(ops),) + BODY % p


def run(c):
    def code(W, i, place, ops):
        return w.virtual(W, 'insp%d_%d' % (i, abs(hash_(ops))), text(place, ops))

    def alone(i, place, ops, verify):
        name = 'inspection alone, %s: %s' % (place, ' '.join(ops) if len(ops) < 5 else '%d actions' % len(ops))

        def f():
            W = make([], verify=verify) if verify else make([])
            p = code(W, i, place, ops)
            res = W.boot([w.req_getapi('a', p)])
            c.absorb(W.I)
            for st, v in res:
                judge(c, W, name, st, v, place)
            return len(res)
        c.scenario(name, f)

    def after(i, place, ops, ro):
        name = 'inspection after an execution, %s%s: %s' % (place, ', read-only' if ro else '', ' '.join(ops) if len(ops) < 5 else '%d actions' % len(ops))

        def f():
            W = make([])
            W.reply['CALL'] = fine
            p = code(W, i, place, ops)
            res = W.boot([w.req_invoke('q', p, 'keep', w.plist(), readonly=ro, costs=()), w.req_getapi('a', p)])
            c.absorb(W.I)
            for st, v in res:
                judge(c, W, name, st, v, place)
            return len(res)
        c.scenario(name, f)

    def amid(i, place, ops, method, ro, other, costs):
        name = 'inspection of %s during %s%s, %s: %s' % ('another contract' if other else 'the same contract', method, ', read-only' if ro else '', place,
                                                        ' '.join(ops) if len(ops) < 5 else '%d actions' % len(ops))

        def f():
            got = []
            for nest in (False, True):
                W = make([])
                W.reply['CALL'] = fine
                p = code(W, i, place, ops)
                o = w.virtual(W, 'insp_plain', text('plain', ops)) if other else p
                q = w.req_invoke('q', o, method, w.plist(), readonly=ro, costs=costs, schema=K(0), revision=K(0))
                a = w.req_getapi('a', p)
                if nest:
                    W.nested = lambda st, data: (a,) if len(st.node[1]) == 1 else ()
                got.append(W.boot([q]))
                c.absorb(W.I)
            for st, v in got[1]:
                judge(c, W, name, st, v, place)
            same_run(c, W, name, got)
            return len(got[1])
        c.scenario(name, f)

    def then(i, place, ops, order):
        name = 'execution %s an inspection, %s: %s' % (order, place, ' '.join(ops) if len(ops) < 5 else '%d actions' % len(ops))

        def f():
            got = []
            for insp in (False, True):
                W = make([])
                W.reply['CALL'] = fine
                p = code(W, i, place, ops)
                q = w.req_invoke('q', p, 'work', w.plist(typed_int(sym(INT, 'in', ('any', 'n'), INT))), costs=())
                a = w.req_getapi('a', p)
                got.append(W.boot([a, q] if insp else [q]))
                c.absorb(W.I)
            for st, v in got[1]:
                judge(c, W, name, st, v, place)
            same_run(c, W, name, got)
            return len(got[1])
        c.scenario(name, f)

    every = tuple(NAMES_)
    for i, place in enumerate(PLACES):
        alone(i, place, every, False)
        for n in (every if c.thorough else ()):
            alone(i, place, (n,), False)
        if place in ('module', 'class body'):
            continue
        after(i, place, every, 0)
        then(i, place, every, 'after')
        for method, ro in (('outer', 0), ('quiet', 0), ('outer', 2), ('quiet', 1)):
            for other in (False, True):
                if other and place.endswith('earlier execution'):
                    continue
                amid(i, place, every, method, ro, other, ())
        amid(i, place, every, 'outer', 0, False, ('schema', 'apiCall', 'set', 'replace', 'get', 'eventLog') if c.thorough else ('schema', 'apiCall'))
        if c.thorough:
            for n in every:
                amid(i, place, (n,), 'outer', 0, False, ())
    after(list(PLACES).index('constructor with objects of an earlier execution'), 'constructor with objects of an earlier execution', every, 1)


def hash_(ops):
    import zlib
    return zlib.crc32(' '.join(ops).encode())


def fine(W, st, h):
    """a call succeeds and uses some steps within its limit"""
    kind, n, arg = h[:3]
    used = isym('call', n, 'used')
    st = st.assume_le0(pneg(used))
    its = W.items(arg)
    lim = its[2]
    lim = lim.args[0] if isinstance(lim, T) and lim.op == 'i2b' else K(int.from_bytes(lim.v, 'big', signed=True)) if isinstance(lim, K) else None
    if lim is not None:
        st = st.assume_le0(padd(used, lim, -1)) or st
    return W.deliver(st, w.RESULT, L(K(0), i2b(used), L(K(w.TBYTES), bsym('call', n, 'result'))), 'CALL', n)


def judge(c, W, name, st, v, place):
    rs, _ = requests(st)
    a = [r for r in rs if r.name == 'a']
    if not a:
        return
    r = a[0]
    bad = r.sends(*COMMANDS)
    for e in bad:
        c.ob('nothing-sent', False, placed(e), 'while a contract is inspected the executor sends %s (%s)\n%s' % (NAMES[e.args[0]], name, show(st)),
             '%s while inspecting' % NAMES[e.args[0]])
    if not bad:
        c.ob('nothing-sent', True, r.where(), '')
    for e in r.nested():
        c.ob('nothing-sent', False, e.where(), 'a request is handled while a contract is inspected (%s)' % name, 'nested')
    if r.replies != 1:
        c.ob('inspection-answered', False, r.where(), '%s; the inspection is answered %d times (%s)\n%s' % (endname(W, st, v), r.replies, name, show(st)),
             '%d replies' % r.replies)
    else:
        c.ob('inspection-answered', True, r.where(), '')


def placed(e):
    return place(e.where)


def essence(st):
    """what the node sees of the execution itself, and what the contract sees of its context"""
    rs, _ = requests(st)
    q = [r for r in rs if r.name == 'q']
    if not q:
        return None
    out = []
    for e in q[0].events:
        if isinstance(e, Ev) and (e.kind == 'mark' or e.kind == 'send' and e.args[0] != w.LOG):
            out.append((e.kind, e.args, e.where))
    return out


def same_run(c, W, name, got):
    """the execution goes the same way with and without the inspection"""
    def leaves(res):
        return [(s, v) for st, v in res for s in [st]]
    A, B = leaves(got[0]), leaves(got[1])
    ea = [essence(s) for s, v in A]
    for s, v in B:
        e = essence(s)
        if e is None:
            continue
        if any(len(e) == len(x) and all(p[0] == q[0] and p[1] == q[1] for p, q in zip(e, x)) for x in ea if x is not None):
            c.ob('context-unchanged', True, e[-1][2] if e else 'q', '')
            continue
        # find a difference from every run without the inspection
        where, verdict = None, False
        for x in ea:
            if x is None:
                continue
            d = differs(s, e, x)
            if d is None:
                verdict = None
            else:
                where = where or d
        if not ea:
            verdict = None
        c.ob('context-unchanged', verdict, place(where[0]) if where else 'q',
             lambda: 'after an inspection the execution goes another way: %s (%s)\n%s' % (where[1] if where else '', name, show(s)), 'execution changed: %s' % (where[2] if where else ''))


def differs(st, e, x):
    """the first definite difference, as (place, text, kind); None if none is definite"""
    for p, q in zip(e, x):
        if p[0] != q[0] or len(p[1]) != len(q[1]):
            return (p[2], '%r instead of %r' % (p[:2], q[:2]), p[0])
        for i, (a, b) in enumerate(zip(p[1], q[1])):
            if a is b or a == b:
                continue
            if isinstance(a, Val) and isinstance(b, Val):
                r = same(st, a, b)
                if r is False:
                    return (p[2], '%r instead of %r' % (a, b), '%s %s' % (p[0], p[1][0] if not isinstance(p[1][0], Val) else i))
                if r is None:
                    return None
            else:
                return (p[2], '%r instead of %r' % (a, b), p[0])
    if len(e) != len(x):
        y = e[len(x)] if len(e) > len(x) else x[len(e)]
        return (y[2], 'there is %s %r' % ('more:' if len(e) > len(x) else 'less:', y[:2]), 'more or less')
    return None
