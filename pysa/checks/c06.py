"""C06: steps used never exceed the limit; running out fails the call."""
from ..kit import *
from .. import world as w
from .c05 import Prices, V0, V1, Undecided, charges, plain, numeric, numeric_reply, index, size, decided

TITLE = 'Steps used never exceed the limit; running out fails the call'
CODE = '/scores/seq'


def prices(name, costs, schema):
    """what every price table satisfies: a replacement costs no more than a new entry, and deleting is not dearer than setting"""
    f = []

    def p(x):
        return isym(name + '.cost.' + x) if x in costs else K(0)
    if schema == 0:
        f.append((T('le0', (padd(p('replace'), p('set'), -1),), BOOL), True))
    else:
        f.append((T('le0', (padd(p('deleteBase'), p('setBase'), -1),), BOOL), True))
        f.append((T('le0', (p('delete'),), BOOL), True))
        # removing what was stored gives back no more than storing it cost
    return [x for x in f if not isinstance(x[0].args[0], K)]


def run(c):
    def one(method, ops, schema, costs=None, flag=0, nested=(), limit=None):
        cs = costs if costs is not None else (V0 if schema == 0 else V1)
        name = '%s %s, schedule %d%s%s%s' % (method, ops, schema, '' if costs is None else ' ' + '/'.join(costs), ', read-only' if flag else '',
                                            ''.join(', callee %s %s' % n for n in nested))

        def f():
            W = make(['seq'])
            num = any(x in ops for x in ('put', 'pop', 'in', 'len'))
            if num:
                W.reply['GETVALUE'] = numeric_reply
            q = w.req_invoke('q', CODE, method, w.plist(typed_str(ops)), costs=cs + ('schema',), schema=K(schema), value=K(0), readonly=flag, limit=limit,
                             code_facts=prices('q', cs, schema), sender='account' if ',' in ops else True)
            if ops.count('rem') > 5:
                W.reply['SETVALUE'] = lambda W, st, h: W.deliver(st.assume_le0(pneg(isym('old', h[1], 'size'))).assume(sym(BOOL, 'old', h[1], 'has'), True), w.SETVALUE, L(TRUE, isym('old', h[1], 'size')), 'SETVALUE', h[1])
            if nested:
                keys = tuple(w.req_invoke('n%d' % i, CODE, n[0], w.plist(typed_str(n[1])), costs=cs + ('schema',), schema=K(schema), value=K(0),
                                          code_facts=prices('n%d' % i, cs, schema))
                             for i, n in enumerate(nested))
                W.nested = lambda st, data: keys if len(st.node[1]) == 1 else ()
            res = W.boot([q])
            c.absorb(W.I)
            for st, v in res:
                judge(c, W, name, st, v, cs, schema, numeric if num else plain, ops)
            return len(res)
        c.scenario(name, f)
    for s in (0, 1):
        for op in ('get', 'set', 'rem', 'empty', 'dset', 'ddel', 'dget', 'dhas', 'bal', 'event', 'plain', 'in', 'len', 'call', 'send', 'transfer', 'iface', 'fail'):
            one('run', op, s)
            one('caught', op, s)
        for op in ('get', 'in'):
            one('ask', op, s)
            one('ask_caught', op, s, None, 1)
        few = ('set', 'replace', 'eventLog') if s == 0 else ('setBase', 'deleteBase', 'logBase')
        for ops in ('get,get', 'set,get', 'rem,get', 'get,event', 'event,get', 'set,event', 'rem,call', 'set,call', 'get,call', 'event,call', 'rem,event,call', 'set,rem,call', 'call,get',
                    'call,call', 'rem,bal,call'):
            one('run', ops, s, few + ('get', 'delete') if len(ops) < 9 else few)
        for ops in ('set,set', 'set,rem', 'rem,set', 'rem,rem', 'event,set', 'get,set', 'set,set,set', 'rem,set,get', 'set,get,set'):
            if ops == 'set,set,set' and s == 0 and not c.thorough:
                continue
            one('run', ops, s, few)
            one('caught', ops, s, few)
        for ops in ('set,set,get', 'rem,set,event'):
            one('caught', ops, s, ('delete',))
        one('run', 'put', s, few[:1])
        one('run', 'rem,rem,rem,rem,rem,rem,call', s, ('deleteBase',) if s else ('replace',))
        one('caught', 'rem,rem,set,rem,rem,set,rem', s, ('setBase',) if s else ('replace',))
        one('run', 'set,call,set', s, few[:2], 0, (('run', 'set'),))
        one('caught', 'rem,call,get', s, few[:2] + (('getBase',) if s else ('get',)), 0, (('run', 'rem,get'),))
        one('run', 'call,call', s, few[:1], 0, (('caught', 'set'),))
    if c.thorough:
        one('caught', 'put,pop', 1, ('getBase',))
        one('caught', 'put,pop', 0, ('get',))
        one('run', 'rem,rem,rem,rem,rem,rem,call', 0, ('delete',))
        for s in (0, 1):
            for ops in ('set,rem,get', 'rem,event,set', 'set,set,call', 'rem,rem,call', 'event,event,event', 'get,rem,call'):
                one('run', ops, s)
                one('caught', ops, s)


def failing(I, st, r, pr, op, i, answer, first):
    """what the operation that ran out would have cost, and whether it was asked in advance"""
    if op in ('set', 'dset'):
        n = size(I, st, bsym_any('set%d' % i))
        gets = [k for k in first if k[0] == w.GETVALUE]
        has = False
        if gets:
            has = decided(st, sym(BOOL, 'get', gets[-1][1], 'has'))
            if has and decided(st, I.model.eq0(size(I, st, answer(st, gets[-1][1])))):
                has = False
        c = padd(pr.base('set'), pmul(pr('set'), n))
        if has:
            if pr.schema == 0:
                c = pmul(pr('replace'), n)
            else:
                half = I.model.floordiv(st, padd(pr('setBase'), pr('deleteBase')), K(2))
                c = padd(padd(c, padd(half, pr('setBase'), -1)), pmul(pr('delete'), size(I, st, answer(st, gets[-1][1]))))
        return c, [k[1] for k in gets]
    if op in ('event', 'plain'):
        n = K(7) if op == 'plain' else padd(K(19), padd(I.model.length(st, i2b(T('in', ('any', 'num'), INT))), I.model.length(st, bsym_any('val'))))
        return padd(pr.base('log'), pmul(pr('log'), n)) if pr.schema else pmul(pr('eventLog'), n), []
    if op in ('get', 'dget', 'dhas', 'rem', 'ddel', 'empty', 'bal', 'in', 'len', 'call', 'send', 'transfer', 'iface', 'fail'):
        return K(0), []
    return None, []


def bsym_any(n):
    return T('in', ('any', n), BYTES)


def total(ch):
    t = K(0)
    for a, b in ch:
        if b is None:
            return None
        t = padd(t, b)
    return t


def judge(c, W, name, st, v, costs, schema, answer, ops):
    I = W.I
    for r in index(st):
        limit = isym(r.name + '.limit')
        pr = Prices(r.name, costs, schema)
        # the limit a nested call gets
        evs = list(r.events)
        for i, e in enumerate(evs):
            if isinstance(e, Ev) and e.kind == 'send' and e.args[0] == w.CALL and not r.marks('failed'):
                d = seq(e.args[1])
                split(c, st, lambda st: calllimit(c, I, st, r, pr, answer, evs[:i], d, limit, name, e))
        if r.replies != 1 or r.used is None:
            c.ob('reported', None, r.where(), 'no result (%s)' % name, 'no result')
            continue
        used = r.used
        used = used.args[0] if isinstance(used, T) and used.op == 'i2b' else K(int.from_bytes(used.v, 'big', signed=True)) if isinstance(used, K) else None
        if used is None:
            c.ob('within-limit', None, r.where(), 'used %r (%s)' % (r.used, name), 'used')
            continue
        c.ob('within-limit', holds(st, I.model.le0(padd(used, limit, -1))), r.where(),
             lambda: 'the request may report %r used of %r (%s)\n%s' % (used, limit, name, show(st)), 'used beyond limit')
        s = r.status
        if r.sends(w.CALL) and not (isinstance(s, K) and s.v == OUT_OF_STEP) and not r.marks('failed'):
            split(c, st, lambda st: counted(c, I, st, r, pr, answer, used, name))
        if isinstance(s, K) and s.v == OUT_OF_STEP:
            if not any(x in ops for x in ('call', 'send', 'transfer', 'iface')):
                c.ob('uses-everything', same(st, used, limit), r.where(),
                     lambda: 'the request runs out of steps and reports %r used of %r (%s)\n%s' % (used, limit, name, show(st)), 'out of steps, rest kept')
                if not r.marks('failed'):
                    split(c, st, lambda st: needed(c, I, st, r, pr, answer, limit, name))
        for e in r.marks('failed'):
            code = strip(e.args[2])
            op = e.args[1].v
            if op not in ('call', 'send', 'transfer', 'iface', 'fail', 'revert'):
                c.ob('out-of-steps-status', isinstance(code, K) and code.v == OUT_OF_STEP, place(e.where),
                     lambda: '%s fails with %r %r (%s)\n%s' % (op, code, e.args[3], name, show(st)), 'status')


def split(c, st, f, depth=0):
    try:
        f(st)
    except Undecided as e:
        if depth > 8:
            return
        if st.alts:
            for i, s in enumerate(st.leaves()):
                if i < 64:
                    split(c, s, f, depth + 1)
            return
        for val in (True, False):
            s = st.assume(e.args[0], val)
            if s is not None and s.feasible():
                split(c, s, f, depth + 1)


class Part:
    pass


def part(r, evs):
    p = Part()
    p.first, p.events = r.first, evs
    return p


def calllimit(c, I, st, r, pr, answer, evs, d, limit, name, e):
    t = total(charges(I, st, part(r, evs), pr, answer))
    if t is None or d is None or len(d) < 3:
        return
    want = i2b(padd(limit, t, -1))
    c.ob('call-limit', same(st, d[2], want), place(e.where),
         lambda: 'a nested call gets the limit %r; %r remain (%s)\n%s' % (d[2], want, name, show(st)), 'limit of nested call')


def needed(c, I, st, r, pr, answer, limit, name):
    begun = r.marks('begin')
    done = r.marks('saw')
    if len(begun) == len(done):
        op, own, skip = None, K(0), []
    else:
        op = begun[-1].args[1].v
        i = len(begun) - 1
        # requests since then
        first = []
        n = r.first
        on = False
        for e in r.events:
            if isinstance(e, Req):
                n = e.last
                continue
            if e is begun[-1]:
                on = True
            if e.kind == 'send' and (e.args[0] in (w.GETVALUE, w.CONTAINS, w.GETINFO, w.GETBALANCE, w.CALL) or e.args[0] == w.SETVALUE and seq(e.args[1])[1].v & w.F_OLDVALUE):
                if on:
                    first.append((e.args[0], n))
                n += 1
        own, skip = failing(I, st, r, pr, op, i, answer, first)
    if own is None:
        return
    ch = [x for x in charges(I, st, r, pr, answer) if x[0] not in ['read %d' % k for k in skip]]
    t = total(ch)
    if t is None:
        return
    t = padd(t, own)
    c.ob('fails-only-if-needed', holds(st, I.model.le0(padd(padd(limit, K(1)), t, -1))), r.where(),
         lambda: 'the request runs out of steps at %s although %r may fit in %r (%s)\n%s' % (op, t, limit, name, show(st)), 'out of steps too early')


def counted(c, I, st, r, pr, answer, used, name):
    t = total(charges(I, st, r, pr, answer))
    if t is not None:
        c.ob('callee-steps-counted', same(st, used, t), r.where(),
             lambda: 'the request reports %r used; with its nested calls it used %r (%s)\n%s' % (used, t, name, show(st)), 'steps of nested call')
