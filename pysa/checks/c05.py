"""C05: state and event operations cost exactly what the price table says."""
from ..kit import *
from .. import world as w

TITLE = 'State and event operations cost exactly what the price table says'
CODE = '/scores/seq'
V0 = ('get', 'set', 'replace', 'delete', 'eventLog')
V1 = ('get', 'set', 'delete', 'log', 'getBase', 'setBase', 'deleteBase', 'logBase')
PRICES = V0 + ('log', 'getBase', 'setBase', 'deleteBase', 'logBase', 'apiCall', 'default', 'contractCall')


class Prices:
    def __init__(self, name, costs, schema):
        self.name, self.costs, self.schema = name, costs, schema

    def __call__(self, x):
        if x not in self.costs:
            return K(0)
        return isym(self.name + '.cost.' + x)

    def base(self, x):
        return self(x + 'Base') if self.schema else K(0)


class Undecided(Exception):
    pass


def size(I, st, v):
    if v is NONE:
        return K(0)
    return I.model.length(st, v)


def decided(st, lit):
    if isinstance(lit, K):
        return bool(lit.v)
    d = st.decide(lit)
    if d is None:
        raise Undecided(lit)
    return d


def charges(I, st, r, pr, answer):
    """what the price table says the trace of the request costs: list of (what, amount); answer: n -> value the node supplied"""
    out = []
    n = r.first
    evs = [e for e in r.events]
    got = {}        # key -> number of the latest read whose charge is not yet decided upon
    reads = []      # (index in out, key, n)
    for e in evs:
        if isinstance(e, Req):
            n = e.last
            continue
        if e.kind != 'send':
            continue
        m = e.args[0]
        its = seq(e.args[1])
        if m == w.GETVALUE:
            reads.append((len(out), e.args[1], n))
            v = answer(st, n)
            out.append(('read %d' % n, padd(pr.base('get'), pmul(pr('get'), size(I, st, v)))))
            n += 1
        elif m == w.SETVALUE:
            key, flag, val = its
            fl = flag.v
            if fl & w.F_OLDVALUE:
                has = decided(st, sym(BOOL, 'old', n, 'has'))
                old = isym('old', n, 'size')
                num = n
                n += 1
            else:
                num = None
                if val is NONE:
                    has = None
                else:
                    prev = [x for x in reads if x[1] is key]
                    if not prev:
                        out.append(('write without knowing the old value', None))
                        continue
                    i, k, num = prev[-1]
                    has = decided(st, sym(BOOL, 'get', num, 'has'))
                    old = size(I, st, answer(st, num))
                    # the read belongs to the write
                    out[i] = ('old value of write', K(0))
                    reads.remove(prev[-1])
            if val is NONE or decided(st, I.model.eq0(size(I, st, val))):
                if has is None:
                    out.append(('deletion whose old value is not asked for', None))
                elif has:
                    out.append(('deletion', padd(pr.base('delete'), pmul(pr('delete'), old))))
                continue
            new = size(I, st, val)
            c = padd(pr.base('set'), pmul(pr('set'), new))
            if has:
                if pr.schema == 0:
                    c = padd(c, pmul(padd(pr('replace'), pr('set'), -1), new))
                else:
                    half = I.model.floordiv(st, padd(pr('setBase'), pr('deleteBase')), K(2))
                    c = padd(padd(c, padd(half, pr('setBase'), -1)), pmul(pr('delete'), old))
            out.append(('write', c))
        elif m == w.CONTAINS:
            cnt, sz = isym('cnt', n), isym('size', n)
            c = pmul(pr('get'), sz)
            if pr.schema:
                if decided(st, I.model.le0(padd(cnt, K(-1)))):
                    c = padd(c, pr('getBase'))
                else:
                    c = padd(c, pmul(pr('getBase'), cnt))
            out.append(('search', c))
            n += 1
        elif m == w.EVENT:
            t = K(0)
            for l in its:
                for x in seq(l):
                    t = padd(t, size(I, st, x))
            c = padd(pr.base('log'), pmul(pr('log'), t)) if pr.schema else pmul(pr('eventLog'), t)
            out.append(('event', c))
        elif m == w.CALL:
            out.append(('call', isym('call', n, 'used')) if not any(isinstance(x, Req) and x.first == n + 1 for x in evs) else ('call', isym('call', n, 'used')))
            n += 1
        elif m in (w.GETBALANCE, w.GETINFO):
            n += 1
    return out


def index(st):
    """number the requests which the node answers"""
    from .c04 import deferred
    rs, _ = requests(st)
    n = 0
    stack = []
    it = iter(rs)
    for e in st.trace:
        if e.kind == 'recv' and e.args[0] == 'request':
            r = next(it)
            r.first = n
            stack.append(r)
        elif e.kind == 'reply' and stack:
            stack.pop().last = n
        elif e.kind == 'send' and (e.args[0] in (w.GETVALUE, w.CONTAINS, w.GETINFO, w.GETBALANCE, w.CALL) or e.args[0] == w.SETVALUE and deferred(e)):
            n += 1
    for r in stack:
        r.last = n
    return rs


def plain(st, n):
    d = st.decide(sym(BOOL, 'get', n, 'has'))
    if d is None:
        raise Undecided(sym(BOOL, 'get', n, 'has'))
    return bsym('get', n, 'value') if d else NONE


def numeric(st, n):
    d = st.decide(sym(BOOL, 'get', n, 'has'))
    if d is None:
        raise Undecided(sym(BOOL, 'get', n, 'has'))
    return i2b(isym('get', n, 'num')) if d else NONE


def numeric_reply(W, st, h):
    out = []
    n = h[1]
    for s, has in W.I.fork(st, sym(BOOL, 'get', n, 'has')):
        if has:
            s = s.assume_le0(pneg(isym('get', n, 'num')))
        out += W.deliver(s, w.GETVALUE, L(kb(has), i2b(isym('get', n, 'num')) if has else NONE), 'GETVALUE', n)
    return out


def run(c):
    def one(method, ops, schema, costs=None, flag=0, nested=(), limit=None):
        cs = costs if costs is not None else PRICES
        name = '%s %s, schedule %d%s%s%s' % (method, ops, schema, '' if costs is None else ' ' + '/'.join(costs), ', read-only' if flag else '',
                                            ''.join(', callee %s %s' % n for n in nested))

        def f():
            W = make(['seq'])
            num = any(x in ops for x in ('put', 'pop', 'in', 'len'))
            if num:
                W.reply['GETVALUE'] = numeric_reply
            q = w.req_invoke('q', CODE, method, w.plist(typed_str(ops)), costs=cs + ('schema',), schema=K(schema), value=K(0), readonly=flag, limit=limit,
                             sender='account' if ',' in ops else True)
            if ops.count('rem') > 5:
                W.reply['SETVALUE'] = lambda W, st, h: W.deliver(st.assume_le0(pneg(isym('old', h[1], 'size'))).assume(sym(BOOL, 'old', h[1], 'has'), True), w.SETVALUE, L(TRUE, isym('old', h[1], 'size')), 'SETVALUE', h[1])
            if nested:
                keys = tuple(w.req_invoke('n%d' % i, CODE, n[0], w.plist(typed_str(n[1])), costs=cs + ('schema',), schema=K(schema), value=K(0))
                             for i, n in enumerate(nested))
                W.nested = lambda st, data: keys if len(st.node[1]) == 1 else ()
            res = W.boot([q])
            c.absorb(W.I)
            for st, v in res:
                judge(c, W, name, st, v, cs, schema, numeric if num else plain)
            return len(res)
        c.scenario(name, f)
    T1 = ('setBase', 'deleteBase', 'delete')
    for s in (0, 1):
        P = V0 if s == 0 else V1
        for op in ('get', 'set', 'rem', 'empty', 'dset', 'ddel', 'dget', 'dhas', 'bal', 'event', 'plain', 'in', 'len', 'call', 'fail', 'iface'):
            one('run', op, s)
        for op in ('put', 'pop'):
            for p in P:
                if p != 'delete' or op == 'pop' or c.thorough:
                    one('run', op, s, (p,))
        for op in ('get', 'dget', 'in', 'bal', 'len'):
            one('ask', op, s)
            one('run', op, s, None, 1)
        for ops in ('get,get', 'set,get', 'rem,get', 'event,get', 'get,event', 'set,rem', 'rem,set', 'set,set', 'rem,rem', 'empty,rem', 'set,fail', 'rem,revert', 'set,event', 'rem,bal',
                    'rem,call', 'set,call'):
            one('run', ops, s, P)
        # more operations with fewer prices
        few = ('set', 'replace') if s == 0 else ('setBase', 'deleteBase')
        for ops in ('set,rem,get,set', 'rem,set,rem', 'set,set,rem', 'rem,dset,empty', 'rem,set,bal,rem'):
            one('run', ops, s, few)
            one('run', ops, s, ('delete',))
        one('run', 'rem,rem,rem,rem,rem,rem' + (',rem' if c.thorough or s else ''), s, ('deleteBase',) if s else ('delete',), 0, (), K(10 ** 12) if s else None)
        one('run', 'rem,rem,set,rem,rem,set,rem', s, ('setBase',) if s else ('replace',))
        one('run', 'call,set', s, few, 0, (('run', 'set'),))
        one('run', 'rem,call,set', s, few, 0, (('run', 'rem,get'),))
        one('run', 'set,call', s, few, 0, (('run', 'set,rem'),))
    one('run', 'set', 2)
    one('run', 'rem,get', 2, V1)
    one('run', 'set,get,event', 0, ())
    one('run', 'set,get,event', 1, ())
    if c.thorough:
        for s in (0, 1):
            P = V0 if s == 0 else V1
            for ops in ('set,rem,get', 'rem,set,get', 'set,get,set', 'rem,event,set', 'in,set', 'set,in', 'rem,in', 'put,put', 'put,pop', 'pop,get'):
                one('run', ops, s, P)


def judge(c, W, name, st, v, costs, schema, answer):
    I = W.I
    for r in index(st):
        if r.replies != 1 or r.used is None:
            c.ob('reported', None, r.where(), 'no result (%s)' % name, 'no result')
            continue
        pr = Prices(r.name, costs, schema)
        s = r.status
        oos = isinstance(s, K) and s.v == OUT_OF_STEP
        if oos:
            # what is charged in advance was not requested
            begun = [e.args[1].v for e in r.marks('begin')]
            done = [e.args[1].v for e in r.marks('saw')]
            sets = [e for e in r.sends(w.SETVALUE) if seq(e.args[1])[2] is not NONE and not (isinstance(seq(e.args[1])[2], K) and seq(e.args[1])[2].v == b'')]
            events = r.sends(w.EVENT)
            if 'put' not in begun and 'pop' not in begun and 'empty' not in begun and 'set' not in [b for b, d in zip(begun, done) if b == 'empty']:
                n = sum(1 for d in done if d in ('set', 'dset'))
                c.ob('charged-before-write', len(sets) <= n, sets[-1].where if sets else r.where(),
                     lambda: 'a write is requested although it cannot be paid for (%s)\n%s' % (name, show(st)), 'write before charge')
            n = sum(1 for d in done if d in ('event', 'plain'))
            c.ob('charged-before-event', len(events) <= n, events[-1].where if events else r.where(),
                 lambda: 'an event is recorded although it cannot be paid for (%s)\n%s' % (name, show(st)), 'event before charge')
            continue
        exact(c, I, st, r, pr, answer, name)


def exact(c, I, st, r, pr, answer, name):
    try:
        ch = charges(I, st, r, pr, answer)
    except Undecided as e:
        if st.alts:
            for i, s in enumerate(st.leaves()):
                if i < 128:
                    exact(c, I, s, r, pr, answer, name)
            return
        # what the node answered does not matter to the code; it may matter to the price
        for val in (True, False):
            s = st.assume(e.args[0], val)
            if s is not None and s.feasible():
                exact(c, I, s, r, pr, answer, name)
        return
    free = [a for a, b in ch if b is None]
    if free:
        c.ob('charged-exactly', False, r.where(), '%s (%s)\n%s' % (free[0], name, show(st)), free[0])
        return
    t = K(0)
    for a, b in ch:
        t = padd(t, b)
    c.ob('charged-exactly', same(st, r.used, i2b(t)), r.where(),
         lambda: 'the request reports %r; the price table says %r = %s (%s)\n%s' % (r.used, t, ', '.join('%s: %r' % x for x in ch), name, show(st)),
         'amount for ' + ','.join(sorted({a.split(' ')[0] for a, b in ch})))
