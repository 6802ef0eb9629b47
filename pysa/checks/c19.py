"""C19: call parameters reach the method converted to their declared types."""
from ..kit import *
from .. import world as w

TITLE = 'Call parameters reach the method converted to their declared types'
CODE = '/scores/conv'
HX, CX = 'hx' + '0123456789abcdef0011' * 2, 'cx' + 'f' * 40
# methods of one parameter: declared type, default
ONE = {'i': 'int', 's': 'str', 'b': 'bool', 'a': 'Address', 'y': 'bytes', 'ri': 'int', 'pay': 'int', 'oi': ('int', None), 'os': ('str', None),
       'ob': ('bool', None), 'oa': ('Address', None), 'oy': ('bytes', None), 'di': ('int', 7), 'db_': ('bool', True), 'ds': ('str', 'x'),
       'ui': 'int', 'uy': 'bytes', 'ua': 'Address'}
MORE = {'mix': (('n', 'int'), ('s', 'str'), ('y', 'bytes'), ('f', 'bool'), ('a', 'Address')), 'tail': (('n', 'int'), ('m', 'int', 2), ('k', 'int', 3)),
        'words': (('cls', 'int'), ('params', 'int'), ('key', 'bytes')),
        'names': (('func_name', 'int'), ('method', 'bytes'), ('value', 'bool'), ('arg_params', 'str'), ('kw_params', 'int')),
        'inherited': (('n', 'int'), ('s', 'str')), 'on_install': (('n', 'int'), ('who', 'Address')), 'on_update': (('data', 'bytes'),), 'nothing': ()}
METHODS = dict(MORE)
for _n, _t in ONE.items():
    METHODS[_n] = (('v',) + (_t if isinstance(_t, tuple) else (_t,)),)
INTS = ('0', '1', '-1', '17', '0x0', '0x1', '0xff', '0xFF', '-0x1', '-0x80', '007', '123456789012345678901234567890', '0x' + 'f' * 64, '10', '0x10', '-10')
BADINTS = ('', '+0x1', ' 0x1', '0x', '-', '-0x', 'x', '1.0', '1e3', 'ff', '0xg', '0x-1', '--1', '0X1', '0b1', '0o7', 'true', 'None', '-0X1', '1x', '1,0', '- 1')
TEXTS = ('', 'a', '0x1', 'None', 'true', '\u00e9\u4e2d\U0001f600', ' x ', '[]', '{"a":1}', '0')
BYTES_ = ('', '0x', '00', '0x00', 'ff00', '0xff00', '0xFF00', 'aB', '0x' + '5a' * 100, '3078', '0x3078', '0a1b')
BADBYTES = ('0', '0x0', 'g0', '0xg0', '0X00', 'x00', '-00', '-0x00', '0x0x00', 'text', '00f', '\u00e9')
ADDRS = (HX, CX, 'hx' + '0' * 40, 'cx' + '0' * 40, 'cx' + 'f' * 20 + '0' * 20)
BADADDRS = ('', 'hx', 'cx', HX[2:], HX[:-1], HX + '0', HX[:-2], HX + '00', 'HX' + HX[2:], 'hX' + HX[2:], HX.upper(), 'hx' + HX[2:].upper(), '0x' + HX[2:], 'ax' + HX[2:],
            'hx' + '0' * 39 + 'A', 'hx' + 'A' + '0' * 39, 'hx' + '0' * 39 + 'g', 'hx' + 'g' + '0' * 39, ' ' + HX, HX + ' ', 'xh' + HX[2:], 'hx' + '0' * 19 + ' ' + '0' * 20, 'system')
GOOD = {'int': INTS, 'bool': INTS, 'str': TEXTS, 'bytes': BYTES_, 'Address': ADDRS}
BAD = {'int': BADINTS, 'bool': BADINTS, 'str': (), 'bytes': BADBYTES, 'Address': BADADDRS}
SAMPLE = {'int': '-0x1f', 'bool': '0x1', 'str': '0x12', 'bytes': '0x1234', 'Address': CX}
NOTTEXT = (('an int', lambda: typed_int(K(1))), ('zero', lambda: typed_int(K(0))), ('a boolean', lambda: L(K(w.TBOOL), K(b'\x01'))), ('false', lambda: L(K(w.TBOOL), K(b'\x00'))),
           ('an address', lambda: L(K(w.ADDRESS), K(b'\x01' * 21))), ('a list', lambda: L(K(w.LIST), L())), ('a list of text', lambda: L(K(w.LIST), L(typed_str('1')))),
           ('a map', lambda: L(K(w.DICT), D())), ('any int', lambda: typed_int(isym('given'))))


def meant(ty, text):
    """what a text stands for"""
    if ty in ('int', 'bool'):
        neg, digits = text.startswith('-'), text.lstrip('-')
        n = 0
        base = 16 if digits.startswith('0x') else 10
        for ch in digits[2:] if base == 16 else digits:
            n = n * base + '0123456789abcdef'.index(ch.lower())
        n = -n if neg else n
        return K(n) if ty == 'int' else K(n != 0)
    if ty == 'str':
        return K(text)
    if ty == 'bytes':
        return K(bytes.fromhex(text[2:] if text.startswith('0x') else text))
    return address(bytes([0 if text[0] == 'h' else 1]) + bytes.fromhex(text[2:]))


def address(b):
    return ('address', b)


def agrees(st, got, want):
    if isinstance(want, tuple):
        x = seq(got)
        return x is not None and len(x) == 2 and same(st, x[1], K(want[1]))
    got = strip(got)
    if isinstance(want, K) and isinstance(got, K):
        return type(want.v) is type(got.v) and want.v == got.v
    if isinstance(want, K) and isinstance(want.v, bool) and isinstance(got, T) and got.ty != BOOL:
        return False
    return same(st, got, want)


def run(c):
    def one(name, method, params, expect, ro=0, symbolic=False, may=False):
        tag = '%s: %s' % (method, name)

        def f():
            W = make(['conv'])
            res = W.boot([w.req_invoke('q', CODE, method, params(), costs=(), value=K(0), readonly=ro)])
            c.absorb(W.I)
            for st, e in res:
                judge(c, tag, method, expect, st, symbolic, may)
            return len(res)
        c.scenario(tag, f)

    def named(pairs):
        return lambda: w.pdict(*((k.encode(), v() if callable(v) else typed_str(v)) for k, v in pairs))

    def whole(m, skip=(), change={}):
        return [(p[0], change.get(p[0], SAMPLE[p[1]])) for p in METHODS[m] if p[0] not in skip]

    def wanted(m, given):
        given = dict(given)
        return [(p[0], meant(p[1], given[p[0]]) if p[0] in given and isinstance(given[p[0]], str) else NONE if p[0] in given else K(p[2])) for p in METHODS[m]]
    nil = lambda: L(K(w.NIL), NONE)
    for m, ps in METHODS.items():
        if m in ONE:
            ty = ps[0][1]
            for t in GOOD[ty]:
                one('text %r' % t, m, named([('v', t)]), [('v', meant(ty, t))])
                if m == 'ri':
                    one('text %r, read-only' % t, m, named([('v', t)]), [('v', meant(ty, t))], ro=1)
            for t in BAD[ty]:
                one('ill-formed text %r' % t, m, named([('v', t)]), None)
            for what, v in NOTTEXT:
                one('named ' + what, m, named([('v', v)]), None)
            one('named nothing', m, named([('v', nil)]), [('v', NONE)])
            one('any text', m, lambda: w.pdict((b'v', L(K(w.STRING), bsym('text')))), ty, symbolic=True)
            for t in GOOD[ty][:12]:
                one('the bytes of text %r' % t, m, named([('v', lambda t=t: typed_bytes(K(t.encode())))]), [('v', meant(ty, t))], may=True)
            for t in BAD[ty][:12]:
                one('the bytes of ill-formed text %r' % t, m, named([('v', lambda t=t: typed_bytes(K(t.encode())))]), None)
            one('bytes that are no text', m, named([('v', lambda: typed_bytes(K(b'\xff\xfe')))]), None)
            one('other name', m, named([('V', SAMPLE[ty])]), None)
            one('no name', m, named([('', SAMPLE[ty])]), None)
            one('another name as well', m, named([('v', SAMPLE[ty]), ('w', SAMPLE[ty])]), None)
            one('self as well', m, named([('v', SAMPLE[ty]), ('self', SAMPLE[ty])]), None)
            one('nothing given by name', m, named([]), [('v', K(ps[0][2]))] if len(ps[0]) > 2 else None)
        else:
            names = [p[0] for p in ps]
            for k in range(max(1, len(names))):
                g = whole(m)
                g = g[k:] + g[:k]
                one('by name, from %d' % k, m, named(g), wanted(m, g))
                one('by name, backwards from %d' % k, m, named(g[::-1]), wanted(m, g))
            for n in names:
                g = whole(m, (n,))
                p = next(p for p in ps if p[0] == n)
                one('without ' + n, m, named(g), wanted(m, g) if len(p) > 2 else None)
                one('nothing as ' + n, m, named([(k, v if k != n else nil) for k, v in whole(m)]), wanted(m, [(k, v if k != n else nil) for k, v in whole(m)]))
                for what, v in NOTTEXT:
                    one('%s as %s' % (what, n), m, named([(k, x if k != n else v) for k, x in whole(m)]), None)
                for bad in BAD[p[1]][:4]:
                    one('%r as %s' % (bad, n), m, named([(k, x if k != n else bad) for k, x in whole(m)]), None)
                for extra in (n + '_', '_' + n, n.upper(), 'return', 'self', 'args', 'kwargs', ''):
                    one('%s instead of %s' % (extra, n), m, named([(k if k != n else extra, x) for k, x in whole(m)]), wanted(m, whole(m, (n,))) if False else None)
            for extra in ('zz', 'self', 'return', 'cls2', 'args', '', 'n n'):
                one('also ' + extra, m, named(whole(m) + [(extra, '1')]), None)
        # by position
        full = [('p%d' % i) for i in range(len(ps))]
        kinds = {'int': lambda s: (typed_int(isym(s)), isym(s)), 'text': lambda s: (L(K(w.STRING), bsym(s)), T('decode', (bsym(s),), STR)),
                 'bytes': lambda s: (typed_bytes(bsym(s)), bsym(s)), 'number text': lambda s: (typed_str('0x1'), K('0x1')), 'nothing': lambda s: (nil(), NONE),
                 'false': lambda s: (L(K(w.TBOOL), K(b'\x00')), K(False)), 'address': lambda s: (L(K(w.ADDRESS), K(b'\x01' + s.encode().ljust(20, b'.'))), address(b'\x01' + s.encode().ljust(20, b'.'))),
                 'empty text': lambda s: (typed_str(''), K('')), 'zero': lambda s: (typed_int(K(0)), K(0))}
        seen = set()
        for shift in range(len(kinds)):
            ks = [list(kinds)[(i + shift) % len(kinds)] for i in range(len(ps))]
            if tuple(ks) in seen:
                continue
            seen.add(tuple(ks))

            def vals(ks=ks):
                return [kinds[k]('p%d' % i) for i, k in enumerate(ks)]
            least = sum(1 for p in ps if len(p) == 2)
            for n in range(len(ps) + 1):
                if n < least:
                    if shift == 0:
                        one('%d given by position' % n, m, lambda vals=vals, n=n: w.plist(*[a for a, b in vals()][:n]), None)
                    continue
                want = [(p[0], vals()[i][1] if i < n else K(p[2])) for i, p in enumerate(ps)]
                one('by position, ' + ', '.join(ks[:n]), m, lambda vals=vals, n=n: w.plist(*[a for a, b in vals()][:n]), want)
            one('too many by position, ' + ', '.join(ks), m, lambda vals=vals: w.plist(*[a for a, b in vals()], typed_int(K(1))), None)
    one('a list and a list of lists', 'containers', lambda: w.plist(L(K(w.LIST), L(typed_int(isym('x')), nil())), L(K(w.LIST), L(L(K(w.LIST), L(typed_str('a'))), L(K(w.LIST), L())))), 'containers')


def judge(c, tag, method, expect, st, symbolic, may):
    rs, _ = requests(st)
    for r in rs:
        if r.reply is None:
            continue
        ran = r.marks('ran')
        where = place(ran[0].where) if ran else r.where()

        def ob(rule, ok, why, key):
            c.ob(rule, ok, where, lambda: '%s: %s\n%s' % (tag, why, show(st)), key)
        if expect is None:
            ob('refused', not ran and not r.ok, 'is not refused before the method runs', 'accepts ' + method)
            continue
        if symbolic:
            convert(c, ob, st, r, ran, expect)
            continue
        if expect == 'containers':
            if ran:
                a = ran[0].args
                xs, ys = (seq(a[2]), seq(a[4]))
                ok = xs is not None and ys is not None and len(xs) == 2 and len(ys) == 2 and same(st, xs[0], isym('x')) is True and same(st, xs[1], NONE) is True
                ob('unchanged', bool(ok), 'gets %r' % (a,), 'containers')
            else:
                ob('runs', False, 'does not run', 'containers')
            continue
        if len(ran) != 1:
            if not may and r.status is not None:
                ob('runs', False, 'does not run (status %r)' % (r.status,), method + ' does not run')
            continue
        a = ran[0].args[1:]
        got = dict((a[i].v, a[i + 1]) for i in range(0, len(a), 2))
        for n, want in expect:
            ob('value', agrees(st, got[n], want), 'gets %s = %r instead of %r' % (n, got[n], want), '%s of %s' % (n, method))


def convert(c, ob, st, r, ran, ty):
    """an unknown text: the value is the conversion of that very text"""
    t = T('decode', (bsym('text'),), STR)
    if not ran:
        ob('fails', not r.ok, 'succeeds without running', 'unknown text')
        return
    v = strip(ran[0].args[2])
    hexa = [T('startswith', (t, K(p)), BOOL) for p in ('0x', '-0x')]
    known = [st.decide(h) for h in hexa]
    bases = (16,) if True in known else (10,) if known == [False, False] else (16, 10)
    if ty == 'int':
        ob('value', any_of([same(st, v, T('s2i', (t, K(b)), INT)) for b in bases]), 'gets %r' % (v,), 'int of any text')
    elif ty == 'bool':
        ob('value', any_of([same(st, v, T('not', (T('eq0', (T('s2i', (t, K(b)), INT),), BOOL),), BOOL)) for b in bases]) if isinstance(v, T) else None, 'gets %r' % (v,), 'bool of any text')
    elif ty == 'str':
        ob('value', same(st, v, t), 'gets %r' % (v,), 'text of any text')
    elif ty == 'bytes':
        want = T('fromhex', (T('slice', (t, K(2), NONE), STR) if known[0] is True else t,), BYTES)
        ob('value', same(st, v, want), 'gets %r' % (v,), 'bytes of any text')
    else:
        x = seq(v)
        want = T('fromhex', (T('slice', (t, K(2), NONE), STR),), BYTES)
        ob('value', any_of([same(st, x[1], T('cat', (K(k), want), BYTES)) for k in (b'\x00', b'\x01')]) if x is not None and len(x) == 2 else False, 'gets %r' % (v,), 'address of any text')


def any_of(oks):
    return True if True in oks else None if None in oks else False
