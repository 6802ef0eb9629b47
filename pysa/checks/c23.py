"""C23: a nested call carries exactly what the contract asked for."""
from ..kit import *
from .. import world as w
from .c12 import match, alls

TITLE = 'A nested call carries exactly what the contract asked for'
CODE = '/scores/calls'
CX, CY, HX = K(b'\x01' + b'\x11' * 20), K(b'\x01' + b'\x00' * 19 + b'\x07'), K(b'\x00' + b'\x22' * 20)
NO = object()
TARGETS = {'cx': CX, 'cy': CY, 'hx': HX, 'me': None, 'sender': None}
NOT_TARGETS = ('none', 'cxtext', 'raw', 'i', 'zero', 'empty', 'text0', 'list', 'obj', 'dict')
NOT_AMOUNTS = ('none', 's', 's2', 'text0', 'empty', 'b', 'float', 'whole', 'list', 'cx')
AMOUNTS = ('v', 'zero', 'one', 'big')


def any_(n, ty):
    return T('in', ('any', n), ty)


def value(k):
    """typed template of an argument; NO if it has no typed form"""
    fixed = {'s': ('str', K('some text')), 's2': ('str', K('17')), 'true': ('bool', TRUE), 'cx': ('addr', CX), 'cy': ('addr', CY), 'hx': ('addr', HX),
             'none': ('nil', None), 'list': ('list', (('int', K(1)), ('str', K('a')), ('list', (('int', K(2)),)))), 'dict': ('dict', (('k', ('int', K(1))),)),
             'zero': ('int', K(0)), 'one': ('int', K(1)), 'big': ('int', K(2 ** 256)), 'minus': ('int', K(-1)), 'empty': ('bytes', K(b'')),
             'text0': ('str', K(''))}
    if k in ('i', 'i1', 'i2', 'v', 'v1', 'v2'):
        return ('int', any_(k, INT))
    if k == 'b':
        return ('bytes', any_(k, BYTES))
    if k == 'o':
        return ('bool', any_(k, BOOL))
    if k in ('bad', 'obj', 'float', 'whole'):
        return NO
    return fixed[k]


def number(k):
    v = value(k)
    return v[1] if v is not NO and v[0] == 'int' else TRUE if k == 'true' else None


def arguments(given):
    args = [g for g in given.split(',') if g and '=' not in g]
    kw = [g.split('=') for g in given.split(',') if '=' in g]
    return args, kw


def payload(args, kw):
    """the typed parameters, None if they have no typed form"""
    vs, ks = [value(a) for a in args], [(n, value(v)) for n, v in kw]
    if NO in vs or any(v is NO for _, v in ks):
        return None
    if not ks:
        return ('list', tuple(vs))
    return ('dict', tuple(ks) + ((('.', ('list', tuple(vs))),) if vs else ()))


def expected(ops):
    """per operation: None (nothing is sent), 'refused' (nothing is sent and it fails), or (target, amount, method, parameters)"""
    boxes, coin, out = {}, {}, []
    for op in ops.split(';'):
        kind, *rest = op.split('/')
        if kind == 'new':
            boxes[rest[0]], coin[rest[0]] = rest[1], K(0)
            out.append(None)
            continue
        if kind == 'icx':
            n = number(rest[1])
            if n is None or isinstance(n, K) and n.v < 0:
                out.append('refused')
            elif isinstance(n, K):
                coin[rest[0]] = n
                out.append(None)
            else:
                # refused exactly when negative
                coin[rest[0]] = ('nonneg', n, coin[rest[0]])
                out.append(('sign', n))
            continue
        if kind == 'help':
            out.append(None)
            continue
        args, kw = arguments(rest.pop())
        if kind == 'bal':
            out.append(('balance', args[0]) if args[0] in TARGETS else 'refused')
            continue
        if kind in ('call', 'amount'):
            t, m = rest[:2]
            a = rest[2] if kind == 'amount' else args[0] if args else 'zero'
            n, p = number(a), payload([], kw)
        elif kind in ('transfer', 'send'):
            t, m, p = args[0], 'none', ('list', ())
            n = number(args[1])
        else:
            b, m = rest[:2]
            t, p = boxes[b], payload(args, kw)
            n, coin[b] = coin[b], K(0)
            if kind == 'chain':
                x = number(rest[2])
                n = x if x is None or not isinstance(x, K) else x if x.v >= 0 else None
                if n is not None and not isinstance(n, K):
                    n = ('nonneg', n, None)
        if t not in TARGETS or n is None or p is None:
            out.append('refused' if kind != 'send' else None)
        else:
            out.append((t, n, K('') if m in ('none', 'fallback') else value(m)[1] if m in ('s',) else K(m), p))
    return out


def cases(thorough):
    out = []
    for t in TARGETS:
        out += ['call/%s/ping/a=i' % t, 'transfer/%s,v' % t, 'send/%s,v' % t, 'new/x/%s;use/x/go/' % t, 'bal/%s' % t]
    for t in NOT_TARGETS:
        out += ['call/%s/ping/a=i' % t, 'transfer/%s,v' % t, 'send/%s,v' % t, 'new/x/%s;use/x/go/' % t, 'bal/%s' % t, 'amount/%s/ping/v/' % t]
    for a in AMOUNTS:
        out += ['amount/cx/ping/%s/' % a, 'amount/cx/none/%s/' % a, 'call/cx/ping/%s' % a, 'transfer/cx,%s' % a, 'send/hx,%s' % a, 'new/x/cx;chain/x/go/%s/' % a,
                'new/x/cx;icx/x/%s;use/x/go/;use/x/go/' % a]
    for a in NOT_AMOUNTS:
        out += ['amount/cx/ping/%s/' % a, 'transfer/cx,%s' % a, 'send/hx,%s' % a, 'new/x/cx;chain/x/go/%s/;use/x/go/' % a, 'new/x/cx;icx/x/%s;use/x/go/' % a]
    out += ['new/x/cx;icx/x/minus;use/x/go/', 'new/x/cx;chain/x/go/minus/;use/x/go/']
    for m in ('none', 'fallback', 's', 'ping', 'on_install', '_x'):
        out += ['call/cx/%s/' % m, 'call/cx/%s/a=i' % m, 'amount/cy/%s/v/a=i,b=b' % m]
    for given in ('', 'i', 'i1,i2', 'i2,i1', 'b,o,s', 'a=i', 'a=i1,b=i2', 'b=i1,a=i2', 'i,b=b', 'i1,b=i2,c=o', 's,list,c=dict', 'none', 'a=none', 'none,none',
                  'empty,text0', 'list', 'dict', 'a=list', 'cx,hx', 'true,one', 'zero,minus', 'a=zero,b=minus,c=none', 'bad', 'a=bad', 'i,b=bad', 'bad,b=i'):
        for m in ('take', 'named'):
            out.append('new/x/cx;use/x/%s/%s' % (m, given))
        if not arguments(given)[0]:
            out.append('call/cx/ping/%s' % given)
    out += ['new/x/cx;use/x/fallback/', 'new/x/cx;chain/x/fallback/v/', 'new/x/cx;help/x', 'new/x/cy/d;use/x/extra/i;use/x/take/s', 'new/m/cy;use/m/take/i',
            # the attached amount
            'new/x/cx;chain/x/go/v/;use/x/go/', 'new/x/cx;icx/x/v1;icx/x/v2;use/x/go/;use/x/go/', 'new/x/cx;new/y/cy;icx/x/v;use/y/go/;use/x/go/;use/x/go/',
            'new/x/cx;new/y/cx;icx/x/one;use/y/go/;use/x/go/', 'new/x/cx;chain/x/take/one/bad;use/x/go/', 'new/x/cx;chain/x/take/one/a=bad;use/x/go/;use/x/go/',
            'new/x/none;chain/x/go/one/;use/x/go/', 'new/x/cxtext;chain/x/go/one/;use/x/go/', 'new/x/cx;icx/x/one;help/x;use/x/go/', 'new/x/cx;icx/x/one;new/x/cx;use/x/go/',
            'new/x/cx;icx/x/one;call/cx/ping/;use/x/go/', 'new/x/cx;icx/x/one;transfer/cx,v;use/x/go/;use/x/go/', 'new/x/cx;icx/x/big;icx/x/minus;icx/x/zero;use/x/go/',
            'new/x/cx;chain/x/go/one/;chain/x/go/big/;use/x/go/', 'new/x/cx;icx/x/one;bal/cx;use/x/go/',
            'call/cx/ping/;call/cy/pong/', 'transfer/cx,v1;transfer/cy,v2', 'call/cx/ping/a=i1;call/cx/ping/a=i2;call/cx/ping/']
    return list(dict.fromkeys(out))


def run(c):
    def one(ops):
        def f():
            W = make(['calls'])
            res = W.boot([w.req_invoke('q', CODE, 'run', w.plist(typed_str(ops)), costs=(), value=K(0), readonly=0)])
            c.absorb(W.I)
            for st, e in res:
                judge(c, ops, st)
            return len(res)
        c.scenario(ops, f)
    for ops in cases(c.thorough):
        one(ops)


def judge(c, ops, st):
    rs, _ = requests(st)
    for r in rs[:1]:
        n = len(ops.split(';'))
        if len(r.marks('try')) != n or len(r.marks('refused')) + len(r.marks('done')) != n:
            c.ob('caught', None, r.where(), lambda: 'the attempts are not seen (%s)\n%s' % (ops, show(st)), 'attempts of ' + ops)
            continue
        groups = []
        for e in r.events:
            if not isinstance(e, Ev):
                continue
            if e.kind == 'mark' and e.args[0] == 'try':
                groups.append(([], [], []))
            elif groups and e.kind == 'send' and e.args[0] in (w.CALL, w.GETBALANCE):
                groups[-1][0].append(e)
            elif groups and e.kind == 'send' and e.args[0] != w.LOG:
                groups[-1][2].append(e)
            elif groups and e.kind == 'mark':
                groups[-1][1].append(e)
        signs = {}
        for op, want, (sent, marks, other) in zip(ops.split(';'), expected(ops), groups):
            kind = op.split('/')[0]
            where = place((sent or marks)[0].where)
            refused = bool([m for m in marks if m.args[0] == 'refused'])

            def ob(rule, ok, why, key):
                c.ob(rule, ok, where, lambda: '%s of %s: %s\n%s' % (op, ops, why, show(st)), key)
            ob('body-not-run', not [m for m in marks if m.args[0] == 'body'], 'the body of the interface method runs', 'body')
            if want is None or want == 'refused':
                ob('nothing-sent', not sent, '%d messages are sent' % len(sent), 'sends for ' + op)
                if want == 'refused':
                    ob('refused', refused, 'is not refused', 'not refused ' + op)
                continue
            if want[0] == 'sign':
                ob('nothing-sent', not sent, '%d messages are sent' % len(sent), 'sends for ' + op)
                neg = holds(st, T('le0', (padd(want[1], K(1)),), BOOL)) if refused else holds(st, T('le0', (pneg(want[1]),), BOOL))
                ob('refused' if refused else 'amount-checked', neg, 'an amount is %s' % ('refused which may be fine' if refused else 'taken which may be negative'), 'sign of amount')
                signs[want[1]] = not refused
                continue
            if want[0] == 'balance':
                ob('balance', len(sent) == 1 and sent[0].args[0] == w.GETBALANCE and target(st, sent[0].args[1], want[1]), 'asked for %r' % (sent,), 'balance of ' + want[1])
                continue
            t, amount, method, params = want
            if isinstance(amount, tuple):
                last = amount[1]
                amount = resolve(st, amount, signs, refused and not sent)
                if amount is NO and not sent:
                    ob('amount-checked', holds(st, T('le0', (padd(last, K(1)),), BOOL)), 'an amount which may be fine is refused', 'sign of amount')
                if amount is NO:
                    ob('nothing-sent', not sent, 'a negative amount is sent', 'negative amount')
                    continue
            ob('sent-once', len(sent) == 1, '%d calls are sent' % len(sent), 'calls of ' + kind)
            for e in sent[:1]:
                d = seq(e.args[1])
                if e.args[0] != w.CALL or d is None or len(d) != 5:
                    ob('form', False if d is not None else None, 'sent as %r' % (e.args[1],), 'form')
                    continue
                ob('target', target(st, d[0], t), 'target %r' % (d[0],), 'target of ' + kind)
                ob('amount', coin(st, d[1], amount), 'amount %r instead of %r' % (d[1], amount), 'amount of ' + kind)
                if sent[0] is first(r):
                    ob('limit', same(st, d[2], i2b(isym('q.limit'))), 'limit %r' % (d[2],), 'limit of ' + kind)
                ob('kind', same(st, strip(d[3]), K(b'call')), 'kind %r' % (d[3],), 'kind')
                ob('contents', match(st, d[4], ('dict', (('method', ('str', method)), ('params', params)))), 'contents %r' % (d[4],), 'contents of ' + kind)


def first(r):
    xs = r.sends(w.CALL)
    return xs[0] if xs else None


def target(st, v, t):
    if t == 'me':
        return same(st, v, bsym('q.to'))
    if t == 'sender':
        return same(st, v, bsym('q.from'))
    return same(st, v, TARGETS[t])


def coin(st, v, amount):
    if amount is TRUE:
        return same(st, v, K(b'\x01'))
    return same(st, v, i2b(amount) if not isinstance(amount, K) else K(amount.v.to_bytes((amount.v + (amount.v < 0)).bit_length() // 8 + 1, 'big', signed=True)))


def resolve(st, a, signs, failed):
    """the amount that stands: an attempt that was refused leaves the earlier one"""
    while isinstance(a, tuple):
        _, n, before = a
        if before is None:
            neg = holds(st, T('le0', (padd(n, K(1)),), BOOL))
            return NO if neg is True or failed else n
        a = n if signs.get(n) else before
    return a
