"""C16: the published interface matches the declarations."""
from ..kit import *
from .. import world as w
from ..decl import *
from ..decl import Method as M, Param as P

TITLE = 'The published interface matches the declarations'
EXT, RO, PAY = 'external', 'external(readonly=True)', 'payable'
HX = b'\x00' + b'\x12' * 20
DEFAULTS = {'int': (('0', b'\x00'), ('7', b'\x07'), ('-1', b'\xff'), ('127', b'\x7f'), ('128', b'\x00\x80'), ('-128', b'\x80'), ('-129', b'\xff\x7f'),
                    ('2 ** 64', b'\x01' + bytes(8)), ('-2 ** 63', b'\x80' + bytes(7)), ('10 ** 18', (10 ** 18).to_bytes(8, 'big'))),
            'str': (("''", b''), ("'text'", b'text'), ("'\\u00e9'", b'\xc3\xa9'), ("'0x1'", b'0x1')),
            'bytes': (("b''", b''), ("b'\\x00\\xff'", b'\x00\xff')),
            'bool': (('True', b'\x01'), ('False', b'\x00')),
            'Address': (("Address.from_string('hx' + '12' * 20)", HX), ("Address.from_string('cx' + '12' * 20)", b'\x01' + HX[1:]), ('ZERO_SCORE_ADDRESS', b'\x01' + bytes(20)))}
BASES = ('int', 'str', 'bytes', 'bool', 'Address')


def contracts():
    out = {}
    out['kinds'] = Contract([M('a', [EXT]), M('b', [RO], ret='int', out=INT), M('c', [EXT, PAY]), M('d', [PAY, EXT]), M('e', [PAY]), M('f', ()),
                             M('fallback', [PAY]), M('ev', ['eventlog'], [P('x', 'int')]), M('_g', [EXT]), M('zz', ['external()']), M('yy', ['external(readonly=False)']),
                             M('ev2', ['eventlog()']), M('on', [EXT]), M('on_install2', [EXT])])
    out['no payable fallback'] = Contract([M('a', [EXT]), M('fallback', ())])
    out['fallback with None'] = Contract([M('a', [EXT]), M('fallback', [PAY], ret='None')])
    out['only a fallback'] = Contract([M('fallback', [PAY])])
    # types, one by one and in the first, a middle and the last place
    ms = [M('t_%d' % i, [EXT], [P('v', t)]) for i, t in enumerate(BASES + (None, "'Address'"))]
    out['base types'] = Contract(ms)
    out['several types'] = Contract([M('p%d' % i, [EXT], [P('n%d' % j, (BASES * 3)[i + j]) for j in range(i)]) for i in range(8)])
    out['unannotated among others'] = Contract([M('a', [EXT], [P('x'), P('y', 'int'), P('z')]), M('b', [EXT], [P('y', 'int'), P('x'), P('z', 'bytes')]),
                                                M('c', [EXT], [P('x', default="'d'", wire=b'd')]), M('d', [EXT], [P('y', 'int'), P('x', default='None')])])
    shapes = lambda t: (('list', t), ('list', ('list', t)), ('opt', t), ('opt2', t), ('opt3', t), ('opt', ('list', t)), ('list', ('opt', t)))
    for b in BASES:
        out['lists and optionals of ' + b] = Contract([M('s%d' % i, [EXT], [P('v', t)]) for i, t in enumerate(shapes(b))] +
                                                      [M('m%d' % i, [EXT], [P('a', 'int'), P('v', t), P('z', 'str')]) for i, t in enumerate(shapes(b))])
    deep = 'int'
    for _ in range(15):
        deep = ('list', deep)
    out['deep lists'] = Contract([M('a', [EXT], [P('v', deep)]), M('b', [EXT], [P('v', deep[1])]), M('c', [RO], [P('v', deep[1][1])])])
    for s in STRUCTS:
        t = ('struct', s)
        out['structure ' + s] = Contract([M('a', [EXT], [P('v', t)]), M('b', [EXT], [P('v', ('list', t))]), M('c', [RO], [P('i', 'int'), P('v', t), P('j', 'str')]),
                                          M('d', [EXT, PAY], [P('v', ('opt', t))]), M('e', [EXT], [P('v', ('list', ('list', t)))]), M('f', [EXT], [P('v', t, 'None')]),
                                          M('g', [EXT], [P('v', t), P('v2', t)])])
    # defaults
    for b, ds in DEFAULTS.items():
        ds = ds + (('None', None),)
        out['defaults of ' + b] = Contract(
            [M('s%d' % i, [EXT], [P('v', b, d, x)]) for i, (d, x) in enumerate(ds)] +
            [M('o%d' % i, [EXT], [P('v', ('opt', b), d, x)]) for i, (d, x) in enumerate(ds)] +
            [M('u%d' % i, [EXT], [P('v', ('opt2', b), d, x)]) for i, (d, x) in enumerate(ds)] +
            [M('t%d' % i, [EXT], [P('q', 'int'), P('v', b, d, x), P('w', 'str', "'x'", b'x')]) for i, (d, x) in enumerate(ds)])
    out['how many are required'] = Contract([M('r%d%d' % (i, j), [EXT], [P('a%d' % k, 'int', *(() if k < i else (str(k + 1), bytes([k + 1])))) for k in range(j)])
                                             for j in range(1, 5) for i in range(j + 1)])
    out['None for lists'] = Contract([M('a', [EXT], [P('v', ('list', 'int'), 'None')]), M('b', [EXT], [P('v', ('opt', ('list', 'str')), 'None')])])
    # results
    rs = [('int', INT), ('str', STR), ('bytes', BYTES), ('bool', BOOL), ('Address', ADDRESS), ("'Address'", ADDRESS), ('dict', DICT), ('list', LIST), ('Dict[str, int]', DICT),
          ('List[int]', LIST), ('One', DICT), ('None', None), (None, None), ('List[One]', LIST), ('Dict', DICT), ('List', LIST)]
    one = [P('v', ('struct', 'One'))]
    for d, n in (([RO], 'read-only'), ([EXT], 'external'), ([EXT, PAY], 'payable')):
        out['results, ' + n] = Contract([M('m%d' % i, d, one if r and 'One' in r else (), ret=r, out=o) for i, (r, o) in enumerate(rs)])
    # events
    evs = []
    for n in range(6):
        for i in range(min(n, 3) + 1):
            evs.append(M('E%d%d' % (n, i), ['eventlog(indexed=%d)' % i], [P('a%d' % k, (BASES + BASES)[n + k]) for k in range(n)]))
    evs += [M('Plain%d' % i, ['eventlog'], [P('v', b)]) for i, b in enumerate(BASES + ("'Address'",))]
    evs += [M('Dflt%d' % i, ['eventlog(indexed=1)'], [P('v', b), P('w', b, DEFAULTS[b][0][0])]) for i, b in enumerate(BASES)]
    evs += [M('Result', ['eventlog'], [P('v', 'int')], ret='int', out=INT)]
    out['events'] = Contract([M('a', [EXT])] + evs)
    # deployment
    out['deployment parameters'] = Contract([M('a', [EXT]), M('on_install', (), [P('n', 'int'), P('who', 'Address')], 'None', body='super().on_install()'),
                                             M('on_update', (), [P('x'), P('d', 'bytes', "b'1'", b'1')], body='super().on_update()')])
    out['deployment defaults'] = Contract([M('a', [EXT]), M('on_install', (), [P('n', 'int', '3', b'\x03')], 'int', INT, body='super().on_install()'),
                                           M('on_update', (), [P('s', ('struct', 'Flat')), P('l', ('list', 'int'))], body='super().on_update()')])
    # inheritance
    base = [M('kept', [EXT], [P('x', 'int')]), M('hidden', [EXT]), M('again', [RO], [P('x', 'int')], 'int', INT), M('opened', ()), M('Ev', ['eventlog(indexed=1)'], [P('x', 'int')]),
            M('fallback', [PAY]), M('Ev2', ['eventlog'], [P('x', 'int')]), M('turned', ['eventlog'], [P('x', 'int')])]
    out['inherited'] = Contract([M('own', [EXT])], base=base)
    out['overridden'] = Contract([M('hidden', ()), M('again', [EXT, PAY], [P('y', 'str'), P('z', 'bytes')], 'str', STR), M('opened', [EXT]), M('fallback', ()),
                                  M('Ev2', ['eventlog(indexed=2)'], [P('x', 'str'), P('y', 'str')]), M('turned', [RO], ret='bool', out=BOOL)], base=base)
    out['hooks of the base'] = Contract([M('own', [EXT])], base=[ON_INSTALL, M('on_update', (), [P('n', 'int')], body='super().on_update()')], hooks=False)
    out['other things'] = Contract([M('own', [EXT]), M('sm', ['staticmethod'], [P('x', 'int')], first=None), M('cm', ['classmethod'], first='cls'), M('pr', ['property'], body='return 1'),
                                    M('__dunder__', (), [P('x', 'int')]), M('__private', (), [P('x', 'int')])],
                                   extra='\nclass Other:\n    def own(self, x: int):\n        pass\n\n\ndef free(x: int):\n    pass\n')
    out['words'] = Contract([M('m', [EXT], [P(n, 'int')]) for n in ('cls',)] + [M('n', [EXT], [P('name', 'str'), P('type', 'int'), P('default', 'bytes'), P('flags', 'bool')]),
                            M('fallback2', [EXT]), M('event', [EXT]), M('api', [EXT]), M('o', [EXT], [P('indexed', 'int'), P('fields', 'str'), P('inputs', 'bytes')])])
    return out


def run(c):
    for i, (name, k) in enumerate(contracts().items()):
        for ro in (0,):
            def f(name=name, k=k, i=i):
                W = make(['basic'])
                code = w.virtual(W, 'decl%d' % i, k.text())
                res = W.boot([w.req_getapi('q', code)])
                c.absorb(W.I)
                for st, e in res:
                    judge(c, name, k, st)
                return len(res)
            c.scenario(name, f)
    c.go()


def plain(st, v):
    """a message as Python values; None for nil; ('?', text) for what is not known"""
    v = strip(v)
    if v is NONE:
        return None
    if isinstance(v, K):
        return v.v
    s = seq(v)
    if s is not None:
        return tuple(plain(st, x) for x in s)
    return ('?', repr(v))


def opaque(v):
    return isinstance(v, tuple) and (len(v) == 2 and v[0] == '?' or any(opaque(x) for x in v))


def judge(c, name, k, st):
    allr, _ = requests(st)
    if not allr or allr[0].reply is None:
        c.ob('published', None, 'GETAPI', lambda: '%s: not answered' % name, '%s:answer' % name)
        return
    r = allr[0]
    want = k.api()
    if not r.ok:
        c.ob('published', False if isinstance(r.status, K) else None, r.where(), lambda: '%s: a contract with legal declarations is refused (status %s)' % (name, r.status), '%s:refused' % name)
        return
    got = plain(st, r.data[1])
    if not isinstance(got, tuple) or opaque(got) and got[0] == '?':
        c.ob('published', None if opaque(got) else False, r.where(), lambda: '%s: the reply lists no methods: %r' % (name, got), '%s:form' % name)
        return
    by = {}
    for g in got:
        if not isinstance(g, tuple) or len(g) != 6:
            c.ob('published', False if not opaque(g) else None, r.where(), lambda: '%s: an entry is not of six items: %r' % (name, g), '%s:items' % name)
            return
        by.setdefault(g[1], []).append(g)
    for n in sorted(set(want) | set(by), key=repr):
        gs = by.get(n, [])
        if n not in want:
            c.ob('published', False if isinstance(n, str) else None, r.where(), lambda: '%s: %r is published but is not declared external, nor an event, fallback or hook' % (name, n), '%s:%s:extra' % (name, n))
            continue
        c.ob('published', True if len(gs) == 1 else None if any(opaque((x,)) for x in by) else False, r.where(), lambda: '%s: %s is published %d times' % (name, n, len(gs)), '%s:%s:times' % (name, n))
        if len(gs) != 1:
            continue
        g = gs[0]
        for what, a, b in zip(('kind', 'name', 'flags', 'number of required or indexed parameters'), g, want[n]):
            c.ob(what, type(a) is type(b) and a == b if not opaque(a) else None, r.where(), lambda: '%s: %s is published with %s %r, declared is %r' % (name, n, what, a, b), '%s:%s:%s' % (name, n, what))
        c.ob('outputs', g[5] == want[n][5] if not opaque(g[5]) else None, r.where(), lambda: '%s: the results of %s are published as %r, declared is %r' % (name, n, g[5], want[n][5]), '%s:%s:outputs' % (name, n))
        ins, wins = g[4], want[n][4]
        if not isinstance(ins, tuple) or opaque(ins) and ins[:1] == ('?',):
            c.ob('inputs', None, r.where(), lambda: 'parameters', '%s:%s:inputs' % (name, n))
            continue
        c.ob('inputs', len(ins) == len(wins), r.where(), lambda: '%s: %s is published with %d parameters, declared are %d' % (name, n, len(ins), len(wins)), '%s:%s:count' % (name, n))
        for a, b in zip(ins, wins):
            good = form(a)
            if good is None or opaque(a):
                c.ob('inputs', None if opaque(a) else False, r.where(), lambda: '%s: %s is published with the parameter %r' % (name, n, a), '%s:%s:%s' % (name, n, b[0]))
                continue
            for what, x, y in zip(('name', 'type', 'default', 'fields'), good, b):
                c.ob('parameter ' + what, x == y and type(x) is type(y), r.where(), lambda: '%s: parameter %s of %s is published with %s %r, declared is %r' % (name, b[0], n, what, x, y),
                     '%s:%s:%s:%s' % (name, n, b[0], what))


def form(a):
    """(name, type, default, fields) as the node reads it: fields may be absent, and a field is a name, a type and its own fields"""
    if not isinstance(a, tuple) or len(a) not in (3, 4):
        return None
    fs = a[3] if len(a) == 4 else None
    return (a[0], a[1], a[2], inner(fs) if fs else None)


def inner(fs):
    if not isinstance(fs, tuple):
        return ('malformed', fs)
    out = []
    for f in fs:
        if not isinstance(f, tuple) or len(f) < 2:
            return ('malformed', fs)
        # the node reads the third item of a field as the fields of its structure, and skips what follows
        out.append((f[0], f[1], inner(f[2]) if len(f) > 2 and f[2] else None))
    return tuple(out)
