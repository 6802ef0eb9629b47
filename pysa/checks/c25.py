"""C25: the fee share sent is within 0..100 and sent once."""
from ..kit import *
from .. import world as w

TITLE = 'The fee share sent is within 0..100 and sent once'
CODE = '/scores/fee'


def run(c):
    def one(ops, method='run', flag=0, inner=(), costs=(), after=None):
        name = '%s %s%s%s%s%s' % (method, ops, ' flags %d' % flag if flag else '', ' around ' + ' and '.join('%s %s' % x[:2] for x in inner) if inner else '',
                                  ' with prices' if costs else '', ' then ' + after if after else '')

        def f():
            W = make(['fee'])
            qs = [w.req_invoke('q', CODE, method, w.plist(typed_str(ops)) if ops else w.plist(), readonly=flag, costs=costs, value=K(0))]
            if after:
                qs.append(w.req_invoke('z', CODE, 'run', w.plist(typed_str(after)), readonly=0, costs=(), value=K(0)))
            keys = tuple(w.req_invoke('n%d' % i, CODE, x[0], w.plist(typed_str(x[1])), readonly=x[2], costs=(), value=K(0)) for i, x in enumerate(inner))
            W.nested = (lambda st, data: keys if len(st.node[1]) == 1 else ()) if keys else (lambda st, data: ())
            res = W.boot(qs)
            c.absorb(W.I)
            for st, e in res:
                judge(c, name, st)
            return len(res)
        c.scenario(name, f)
    for ops in ('set f', 'set f,set g', 'set f,set g,set h', 'const 0', 'const 1', 'const 100', 'const 101', 'const -1', 'const 99,const 0', 'const 50,const 101', 'const 50,const -1',
                'const 0,const 5', 'set f,get', 'get', 'set f,set g,get', 'bool', 'odd text', 'odd none', 'odd bytes', 'odd list', 'odd big', 'const 7,odd text', 'const 7,odd big',
                'const 1000000', 'const -100', 'set f,write', 'set f,rem,set g', 'set f,fail', 'set f,revert', 'set f,exit', 'set f,set g,fail', 'write', 'const 50,set f',
                'maybe f', 'const 3,maybe f', 'maybe f,const 4', 'set f,set f', 'const 50,const 50'):
        one(ops)
    for ops in ('set f', 'const 50', 'set f,set g'):
        one(ops, flag=1)
        one(ops, 'ask')
        one(ops, after='get')
        one(ops, after='set g')
        one(ops, after='write')
        one(ops + ',fail', after='get,const 3')
    for m in ('on_install', 'on_update', 'fallback'):
        one('', m)
    for kind in ('call', 'iface', 'send'):
        for inn in ('set g', 'const 70', 'get', 'set g,fail', 'const 70,exit'):
            one('call ' + kind, inner=[('run', inn, 0)])
            one('set f,call %s' % kind, inner=[('run', inn, 0)])
            one('call %s,set f' % kind, inner=[('run', inn, 0)])
            one('const 5,call %s,get' % kind, inner=[('run', inn, 0)])
    one('const 5,call call,get', inner=[('run', 'const 70', 0), ('run', 'get,const 80', 0)])
    one('const 5,call call,get', inner=[('run', 'const 70', 1)])
    one('const 5,call call,get', inner=[('ask', 'const 70', 0)])
    one('set f,rem', costs=('schema', 'setBase', 'deleteBase', 'delete'))
    one('set f,rem,write,rem', costs=('schema', 'setBase', 'deleteBase', 'delete'))
    one('rem,set f,rem', costs=('schema', 'setBase', 'deleteBase', 'delete'))


def between(x):
    return [T('le0', (pneg(x),), BOOL), T('le0', (padd(x, K(100), -1),), BOOL)]


def inside(st, x):
    """whether 0 <= x <= 100"""
    if isinstance(x, K):
        return isinstance(x.v, int) and 0 <= x.v <= 100
    if not isinstance(x, T) or x.ty not in (INT, BOOL):
        return None
    rs = [holds(st, l) for l in between(x)]
    return False if False in rs else None if None in rs else True


def outside_range(st, x):
    """whether x < 0 or x > 100 on every path"""
    if isinstance(x, K):
        return not (isinstance(x.v, int) and 0 <= x.v <= 100)
    lo, hi = T('le0', (padd(x, K(1)),), BOOL), T('le0', (padd(K(101), x, -1),), BOOL)
    if st.decide(lo) is True or st.decide(hi) is True:
        return True
    r = [holds(s, lo) is True or holds(s, hi) is True for s in st.leaves()] if hasattr(st, 'leaves') else []
    if r and all(r):
        return True
    # a value in between that reaches this point
    s = st
    for l in between(x):
        if s.decide(l) is False:
            return None
    return False if holds(st, T('not', (T('and', tuple(between(x)), BOOL),), BOOL)) is False else None


def judge(c, name, st):
    rs, out = requests(st)
    for e in out:
        if e.kind == 'send' and e.args[0] == w.SETFEEPCT:
            c.ob('before-the-result', False, place(e.where), lambda: 'a fee share is sent outside any execution (%s)\n%s' % (name, show(st)), 'sent outside')
    for r in rs:
        last, known = None, True
        for e in r.marks():
            v = e.args[1] if len(e.args) > 1 else None
            if e.args[0] == 'set':
                last = v
                c.ob('in-range-when-set', inside(st, v) if numeric(v) else None, place(e.where), lambda: '%r is taken (%s)\n%s' % (v, name, show(st)), 'takes a value out of range')
            elif e.args[0] == 'refused':
                c.ob('refused-only-when-outside', True if forbidden(name, r) else (outside_range(st, v) if numeric(v) else True), place(e.where),
                     lambda: '%r is refused (%s)\n%s' % (v, name, show(st)), 'refuses a value in range')
            elif e.args[0] == 'get':
                c.ob('reads-back', same(st, v, last if last is not None else K(0)), place(e.where), lambda: 'reads %r, set %r (%s)\n%s' % (v, last, name, show(st)), 'reads back')
        sent = r.sends(w.SETFEEPCT)
        c.ob('once', len(sent) <= 1, place(sent[-1].where) if sent else r.where(), lambda: 'sent %d times (%s)\n%s' % (len(sent), name, show(st)), 'sent twice')
        for e in sent:
            v = strip(e.args[1])
            c.ob('in-range', (inside(st, v) if numeric(v) and not isinstance(getattr(v, 'v', 0), bool) else False if isinstance(v, K) else None), place(e.where),
                 lambda: '%r is sent (%s)\n%s' % (v, name, show(st)), 'sends a value out of range')
            c.ob('last-value', same(st, number(v), number(last)) if last is not None else False, place(e.where),
                 lambda: 'sends %r, the last value set is %r (%s)\n%s' % (v, last, name, show(st)), 'sends another value')
        if last is not None and not sent and r.ok:
            c.ob('sent', same(st, number(last), K(0)), r.where(), lambda: 'the fee share %r is not sent (%s)\n%s' % (last, name, show(st)), 'not sent')


def number(v):
    return K(int(v.v)) if isinstance(v, K) and isinstance(v.v, bool) else v


def numeric(v):
    return isinstance(v, K) and isinstance(v.v, int) or isinstance(v, T) and v.ty in (INT, BOOL)


def forbidden(name, r):
    """executions that may not set it"""
    return 'flags 1' in name or name.startswith('ask') or r.depth and ' around ' in name
