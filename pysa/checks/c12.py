"""C12: typed values cross the node boundary unchanged or are refused."""
from ..kit import *
from .. import world as w

TITLE = 'Typed values cross the node boundary unchanged or are refused'
CODE = '/scores/typed'
X, SX, BX, OX = T('in', ('any', 'xi'), INT), T('in', ('any', 'xs'), STR), T('in', ('any', 'xb'), BYTES), T('in', ('any', 'xo'), BOOL)
HX, CX = K(b'\x00' + b'\x11' * 20), K(b'\x01' + b'\x11' * 20)
OTHER = K(b'\x01' + b'\x00' * 19 + b'\x07')


def i(x):
    return ('int', K(x) if isinstance(x, int) else x)


def s(x):
    return ('str', K(x) if isinstance(x, str) else x)


def b(x):
    return ('bytes', K(x) if isinstance(x, bytes) else x)


def o(x):
    return ('bool', K(x) if isinstance(x, bool) else x)


def a(x):
    return ('addr', x)


def l(*xs):
    return ('list', xs)


def d(**kw):
    return ('dict', tuple(kw.items()))


N = ('nil', None)
LEGAL = {
    'none': N, 'int': i(X), 'zero': i(0), 'one': i(1), 'minus': i(-1), 'n128': i(-128), 'n129': i(-129), 'p127': i(127), 'p128': i(128),
    'p255': i(255), 'p256': i(256), 'p32': i(2 ** 32), 'n64': i(-2 ** 63), 'p256b': i(2 ** 256 - 1),
    'str': s(SX), 'text0': s(''), 'uni': s('\u00e9\u4e2d\U0001f600 "\\'), 'nulltext': s('\x00'),
    'bytes': b(BX), 'empty': b(b''), 'nonutf': b(b'\xff\x00'), 'bool': o(OX), 'true': o(True), 'false': o(False), 'cx': a(CX), 'hx': a(HX),
    'list0': l(), 'list': l(i(1), s('a'), b(b'b'), N, o(True), a(HX), l(i(2)), d(k=i(3))), 'anys': l(i(X), s(SX), b(BX), o(OX)),
    'nested': l(l(), l(l()), l(l(i(1)), l(l(i(2), l(o(True), l(N, l(b(b'')))))))), 'same': l(l(i(1)), l(i(1))),
    'bools': l(o(True), o(False), i(1), i(0), o(True)), 'tuple': l(i(1), l(s('a'), l()), b(b'b')), 'dict0': d(),
    'dict': ('dict', (('a', i(1)), ('b', s('x')), ('', b(b'y')), ('n', N), ('t', o(True)), ('f', o(False)), ('l', l(i(1), o(True))),
                      ('d', d(e=d(g=i(X)))), ('h', a(CX)))),
    'unikey': ('dict', (('\u00e9', i(1)), ('e', i(2)))), 'deep': d(a=l(d(b=l(d(c=l(o(OX), b(BX)))))))}
ILLEGAL = ('float', 'zerofloat', 'complex', 'object', 'plain', 'self', 'type', 'module', 'function', 'set', 'frozenset', 'generator', 'range',
           'exception', 'inlist', 'intuple', 'indict', 'intkeys', 'boolkeys', 'byteskeys', 'nonekeys', 'tuplekeys', 'addrkeys',
           'somekeys', 'deepkeys')
TAGS = {'nil': 0, 'dict': 1, 'list': 2, 'bytes': 3, 'str': 4, 'bool': 5, 'addr': 10, 'int': 11}


def wire(x):
    """what the node sends for a value"""
    t, v = x
    if t == 'nil':
        p = NONE
    elif t == 'list':
        p = L(*[wire(y) for y in v])
    elif t == 'dict':
        p = D(*[(K(k.encode()), wire(y)) for k, y in v])
    elif t == 'int':
        p = i2b(v) if not isinstance(v, K) else K(v.v.to_bytes((v.v + (v.v < 0)).bit_length() // 8 + 1, 'big', signed=True))
    elif t == 'str':
        p = K(v.v.encode()) if isinstance(v, K) else bsym('text', v.args[1])
    elif t == 'bool':
        p = K(bytes([v.v])) if isinstance(v, K) else None
    else:
        p = v
    return L(K(TAGS[t]), p)


def match(st, got, x):
    """whether a sent value is the typed form of x"""
    t, v = x
    its = seq(got)
    if its is None or len(its) != 2:
        return False
    tag = strip(its[0])
    if tag != K(TAGS[t]) or isinstance(tag.v, bool):
        return False if isinstance(tag, K) else None
    p = its[1]
    if t == 'nil':
        return same(st, p, NONE)
    if t == 'list':
        ys = seq(p)
        if ys is None:
            return None
        return False if len(ys) != len(v) else alls([match(st, y, z) for y, z in zip(ys, v)])
    if t == 'dict':
        ps = pairs(p)
        if ps is None or not all(isinstance(k, K) for k, _ in ps):
            return None
        got = {k.v.decode() if isinstance(k.v, bytes) else k.v: y for k, y in ps}
        return False if set(got) != {k for k, _ in v} or len(got) != len(ps) else alls([match(st, got[k], z) for k, z in v])
    if t == 'int':
        return same(st, p, i2b(v))
    if t == 'str':
        return same(st, p, K(v.v.encode()) if isinstance(v, K) else T('encode', (v,), BYTES))
    if t == 'bool':
        x = st.decide(v) if not isinstance(v, K) else v.v
        return None if x is None else same(st, p, K(bytes([x])))
    return same(st, p, v)


def alls(xs):
    return False if False in xs else None if None in xs else True


def concrete(x):
    return isinstance(x[1], K) or x[1] is None or x[0] in ('list', 'dict') and all(concrete(y[1] if x[0] == 'dict' else y) for y in x[1])


def run(c):
    def one(m, how, legal):
        def f():
            W = make(['typed'])
            if m.startswith('answer'):
                W.reply['CALL'] = lambda W, st, h: W.deliver(st, w.RESULT, L(K(0), K(b'\x00'), wire(LEGAL[how])), 'CALL', h[1])
            ps = [typed_str(how)]
            if m == 'take':
                ps.append(wire(LEGAL[how]))
            if m == 'take-named':
                params = w.pdict((b'how', typed_str(how)), (b'x', wire(LEGAL[how])))
            else:
                params = w.plist(*ps)
            res = W.boot([w.req_invoke('q', CODE, m.split('-')[0], params, costs=(), value=K(0), readonly=1 if m == 'ret_ro' else 0)])
            c.absorb(W.I)
            for st, e in res:
                judge(c, W, m, how, legal, st)
            return len(res)
        c.scenario('%s %s' % (m, how), f)
    for m in ('ret', 'ret_ro', 'named', 'positional'):
        for how in LEGAL:
            one(m, how, True)
        for how in ILLEGAL:
            one(m, how, False)
    for m in ('answer', 'answer2', 'take'):
        for how in LEGAL:
            # texts and unknown truth values are settled above
            if how not in ('tuple', 'str', 'bool', 'anys', 'deep'):
                one(m, how, True)


def judge(c, W, m, how, legal, st):
    rs, _ = requests(st)
    r = rs[0]
    what = '%s %s' % (m, how)

    def ob(rule, ok, why, key):
        c.ob(rule, ok, r.where(), lambda: '%s (%s)\n%s' % (why, what, show(st)), key)
    if m in ('answer', 'answer2', 'take'):
        if not r.ok:
            ob('received', False, 'a value the node sent is not taken', 'refused %s' % how)
            return
        ms = r.marks('same')
        if not ms:
            ob('received', None, 'nothing seen', 'seen')
        for e in ms:
            ob('received', alls([same(st, e.args[1], TRUE), same(st, e.args[2], e.args[3])]), 'received %r instead of %r' % (e.args[2], e.args[3]), 'received ' + how)
        return
    sent = []
    if m in ('named', 'positional'):
        for e in r.sends(w.CALL):
            its = seq(e.args[1])
            body = its[4] if its is not None and len(its) > 4 else None
            # [dict tag, {method, params}]
            top = seq(body)
            ps = dict(('%s' % (k.v.decode() if isinstance(k.v, bytes) else k.v), v) for k, v in pairs(top[1]) or [] if isinstance(k, K)) if top is not None else {}
            sent.append(ps.get('params'))
    else:
        sent = [r.result] if r.ok else []
    if not legal:
        ok = not sent and not r.ok and isinstance(r.status, K)
        if st.notes & {'operator on unknown types'}:
            ok = True if ok else None
        ob('refused', ok, 'a value that has no typed form is sent', 'sent ' + how)
        return
    text = LEGAL[how][0] == 'str' or how == 'anys'
    if not sent:
        # texts which are no unicode have no bytes
        ob('sent', None if text and not concrete(LEGAL[how]) else False, 'the value is not sent', 'not sent ' + how)
        return
    x = LEGAL[how]
    if m == 'named':
        x = d(x=x)
    if m == 'positional':
        x = l(x)
    for v in sent:
        ob('sent', None if v is None else match(st, v, x), 'sent as %r' % (v,), 'sent as ' + how)
