"""C04: deferred write replies are consumed in order and never mistaken."""
from ..kit import *
from .. import world as w

TITLE = 'Deferred write replies are consumed in order and never mistaken'
CODE = '/scores/seq'
STEPS = ('schema', 'setBase', 'deleteBase', 'delete')
READS = ('get', 'dget', 'bal', 'in', 'call', 'iface', 'send', 'dhas')


def run(c):
    def one(method, ops, costs=(), nested=(), limit=None):
        name = '%s %s%s%s' % (method, ops, ', steps may run out' if costs else '', ''.join(', callee %s %s' % (n[0], n[1]) for n in nested))

        def f():
            W = make(['seq'])
            W.on_send = lambda W, st, m, data: early(W, st, m)
            q = w.req_invoke('q', CODE, method, w.plist(typed_str(ops)), costs=costs, limit=limit, value=K(0), sender='account' if costs else True)
            if nested:
                keys = tuple(w.req_getapi('n%d' % i, n[1]) if n[0] == 'api' else w.req_invoke('n%d' % i, CODE, n[0], w.plist(typed_str(n[1])), costs=costs, value=K(0))
                             for i, n in enumerate(nested))
                W.nested = lambda st, data: keys if len(st.node[1]) == 1 else ()
            if ops.count('rem') > 5 and costs:
                W.reply['SETVALUE'] = lambda W, st, h: W.deliver(st.assume_le0(pneg(isym('old', h[1], 'size'))), w.SETVALUE, L(TRUE, isym('old', h[1], 'size')), 'SETVALUE', h[1])
            res = W.boot([q, w.req_invoke('z', CODE, 'run', w.plist(typed_str('get')), costs=(), value=K(0))])
            c.absorb(W.I)
            judge(c, W, name, res, bool(costs))
            return len(res)
        c.scenario(name, f)
    kinds = ('set', 'rem', 'empty', 'dset', 'ddel')
    for n in range(1, 9 if c.thorough else 8):
        for r in READS:
            one('run', ','.join([kinds[i % 5] for i in range(n)] + [r]))
        one('run', ','.join([kinds[(i * 2 + 1) % 5] for i in range(n)]))
        one('run', ','.join([kinds[i % 5] for i in range(n)] + ['get', 'rem', 'bal', 'set', 'in', 'call', 'dget']))
    for ops in ('set,event,rem,get', 'rem,plain,get', 'set,fee,rem', 'rem,fail', 'set,rem,revert', 'rem,rem,rem,rem,rem,rem,fail', 'set,rem,call,set,rem,call,get',
                'rem,call,rem', 'get,set,get,rem,get'):
        one('run', ops)
        one('caught', ops)
    for n in ((('run', 'set,rem'),), (('run', 'rem,rem,rem,rem,rem,rem,get'),), (('run', 'rem,fail'),), (('caught', 'get,rem,bal'),), (('api', CODE),),
              (('api', CODE), ('run', 'rem,get'))):
        for ops in ('set,rem,call,get', 'rem,call,rem,bal', 'call,set,get', 'rem,rem,rem,rem,rem,rem,call,get'):
            one('run', ops, (), n)
    # steps may run out anywhere
    for r in ('get', 'bal', 'in', 'call'):
        one('caught', 'rem,%s,%s' % (r, r), STEPS)
        one('caught', 'set,%s,%s' % (r, r), STEPS)
        one('caught', 'rem,rem,%s,%s' % (r, r), STEPS)
        one('run', 'rem,set,' + r, STEPS)
        one('run', 'set,rem,' + r, STEPS)
    for ops in ('set,set,get', 'rem,rem,rem,rem,rem,rem,get', 'set,rem,plain,get', 'rem,event,get,bal'):
        one('caught', ops, ('schema', 'deleteBase') if 'rem,rem,rem' in ops else STEPS)
    one('caught', 'rem,call,bal', STEPS, (('run', 'rem,get'),))
    one('caught', 'rem,call,bal', STEPS, (('run', 'rem,fail'),))
    if c.thorough:
        one('caught', 'set,set,set,get,bal', STEPS)
        one('caught', 'rem,rem,set,get,bal', STEPS)
        one('caught', 'set,rem,set,call,bal', STEPS)


def early(W, st, m):
    """a nested call or the final result is sent while answers of the node are unread"""
    frames = st.node[1]
    if m == w.CALL and frames and frames[-1][2]:
        W.problem(st, 'a nested call is requested while %d answers of the node are unread' % len(frames[-1][2]))


def expect(I, st, op, n):
    """what the contract should get for request number n"""
    if op in ('get', 'dget'):
        has = st.decide(sym(BOOL, 'get', n, 'has'))
        return None if has is None else bsym('get', n, 'value') if has else NONE
    if op == 'dhas':
        return known(st, sym(BOOL, 'get', n, 'has'))
    if op == 'bal':
        return isym('balance', n)
    if op == 'in':
        return known(st, sym(BOOL, 'yn', n))
    if op in ('call', 'iface'):
        return bsym('call', n, 'result')
    if op == 'send':
        return known(st, I.model.eq0(isym('call', n, 'status')))
    return None


def known(st, b):
    d = st.decide(b)
    return b if d is None else kb(d)


CARRIER = {'get': w.GETVALUE, 'dget': w.GETVALUE, 'dhas': w.GETVALUE, 'bal': w.GETBALANCE, 'in': w.CONTAINS, 'call': w.CALL, 'iface': w.CALL, 'send': w.CALL}


def judge(c, W, name, res, costs):
    for what, where, st in W.problems:
        c.ob('protocol', False, place(where), '%s (%s)\n%s' % (what, name, show(st)), what)
    for st, v in res:
        idle = isinstance(v, Halt) and v.reason == 'idle'
        c.ob('protocol', idle or None, 'loop', '%s (%s)' % (endname(W, st, v), name), '')
        # number the requests which the node answers, and follow them
        n = 0
        number = {}
        for e in st.trace:
            if e.kind == 'send' and (e.args[0] in (w.GETVALUE, w.CONTAINS, w.GETINFO, w.GETBALANCE, w.CALL) or
                                     e.args[0] == w.SETVALUE and deferred(e)):
                number[id(e)] = n
                n += 1
        rs, _ = requests(st)
        for r in rs:
            ev = [e for e in r.events if isinstance(e, Ev)]
            last = {}
            begun = None
            for e in ev:
                if e.kind == 'send':
                    last[e.args[0]] = number.get(id(e))
                elif e.kind == 'mark' and e.args[0] == 'begin':
                    begun = e.args[1].v
                    last = {}
                elif e.kind == 'mark' and e.args[0] == 'saw':
                    op = e.args[1].v
                    if op in CARRIER:
                        k = last.get(CARRIER[op])
                        if k is None and op == 'in' and e.args[2] is FALSE:
                            continue        # an empty array is not searched
                        if k is None:
                            c.ob('own-answer', False, place(e.where), '%s returns without asking the node (%s)\n%s' % (op, name, show(st)), op + ' without request')
                            continue
                        x = expect(W.I, st, op, k)
                        c.ob('own-answer', None if x is None else same(st, e.args[2], x), place(e.where),
                             lambda: '%s gets %r, the node answered %r to that request (%s)\n%s' % (op, e.args[2], x, name, show(st)), op)
                elif e.kind == 'mark' and e.args[0] == 'broken' and e.args[1].v not in ('fail',):
                    c.ob('no-confusion', False, place(e.where), '%s fails: %r (%s)\n%s' % (e.args[1].v, e.args[2], name, show(st)), 'failure of ' + e.args[1].v)
                elif e.kind == 'mark' and e.args[0] == 'failed' and e.args[1].v not in ('revert', 'call', 'iface', 'transfer'):
                    code = strip(e.args[2])
                    ok = costs and isinstance(code, K) and code.v == OUT_OF_STEP
                    c.ob('no-confusion', ok, place(e.where), '%s fails with %r %r (%s)\n%s' % (e.args[1].v, e.args[2], e.args[3], name, show(st)), 'failure of ' + e.args[1].v)
            if r.replies == 1 and r.data is not None and r.result is not None and not r.ok:
                s = r.status
                if isinstance(s, K) and s.v == SYSTEM_ERROR and 'fail' not in name:
                    c.ob('no-confusion', False, r.where(), 'the request ends with %r (%s)\n%s' % (r.result, name, show(st)), 'request fails')
                else:
                    c.ob('no-confusion', True, r.where(), '')


def deferred(e):
    d = seq(e.args[1])
    f = d[1] if d is not None and len(d) == 3 else None
    return isinstance(f, K) and f.v & w.F_OLDVALUE
