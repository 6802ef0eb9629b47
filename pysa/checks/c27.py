"""C27: a contract sees the transaction, block and caller the node supplied."""
from ..kit import *
from .. import world as w

TITLE = 'A contract sees the transaction, block and caller the node supplied'
CODE = '/scores/ctx'
FIELDS = ('sender', 'value', 'transaction hash', 'transaction index', 'origin', 'transaction timestamp', 'nonce', 'block height', 'now()', 'owner',
          'own address', 'block.height', 'block.timestamp')


def expected(name, sender):
    return (bsym(name + '.from') if sender else NONE, isym(name + '.value'), bsym(name + '.txhash'), isym(name + '.txindex'), bsym(name + '.origin'),
            isym(name + '.txtime'), isym(name + '.nonce'), isym(name + '.height'), isym(name + '.btime'), bsym(name + '.owner'), bsym(name + '.to'),
            isym(name + '.height'), isym(name + '.btime'))


def snapshot(c, rule, st, mark, name, scen, fee=True, sender=True):
    got = mark.args[1:]
    for f, g, e in zip(FIELDS, got, expected(name, sender)):
        ok = same(st, g, e)
        c.ob(rule, ok, place(mark.where), lambda: '%s seen by the contract is %r, the request says %r (%s)\n%s' % (f, g, e, scen, show(st)), f)


def run(c):
    def one(name, method, params, nested=(), sender=True, flag=0):
        def f():
            W = make(['ctx'])
            q = w.req_invoke('q', CODE, method, params, readonly=flag, costs=(), sender=sender)
            if nested:
                keys = tuple(w.req_invoke('n%d' % i, CODE, m, p, costs=()) for i, (m, p) in enumerate(nested))
                W.nested = lambda st, data: keys if len(st.node[1]) == 1 else ()
            res = W.boot([q, w.req_invoke('z', CODE, 'show', w.plist(), costs=())])
            c.absorb(W.I)
            for st, v in res:
                rs, _ = requests(st)
                for r in rs:
                    for e in r.marks():
                        if len(e.args) > 10:
                            snapshot(c, 'supplied-values', st, e, r.name, name, sender=sender or r.name != 'q')
            return len(res)
        c.scenario(name, f)

    for flag in (0, 1):
        one('method call, flags %d' % flag, 'show', w.plist(), flag=flag)
        one('call without a sender, flags %d' % flag, 'show', w.plist(), sender=False, flag=flag)
    one('named parameters', 'enter', w.L(K(w.DICT), w.D(('how', typed_str('ok')))))
    for m in ('on_install', 'on_update', 'fallback'):
        one(m, m, w.plist())
        one(m + ' without a sender', m, w.plist(), sender=False)
    for how in ('call', 'iface', 'transfer', 'send', 'twice'):
        one('around a nested ' + how, 'around', w.plist(typed_str(how), typed_str('none')), (('enter', w.plist(typed_str('ok'))),))
        one('around a failing nested ' + how, 'around', w.plist(typed_str(how), typed_str('none')), (('enter', w.plist(typed_str('exception'))),))
    one('read-only method', 'around_ro', w.plist(typed_str('call'), typed_str('none')), (('show', w.plist()),))
