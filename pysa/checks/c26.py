"""C26: crypto and JSON helpers charge first and tolerate bad input."""
import hashlib
import json

from ..kit import *
from .. import world as w

TITLE = 'Crypto and JSON helpers charge first and tolerate bad input'
CODE = '/scores/helpers'
KEY65 = '04' + '79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8'
KEY33 = '02' + '79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'
NOBYTES = ('text', 'int', 'none', 'float', 'list', 'dict', 'self', 'addr', 'true')
COMPACT = 256


def watch(W):
    """the work of the libraries is seen in the trace"""
    I = W.I
    m = I.model

    def seen(what, f):
        def hook(I, st, args, kw):
            return f(I.emit(st, 'work', what), args, kw)
        return hook

    def fails(st, term, kind):
        out = []
        for s, ok in I.fork(st, T('valid', (term,), BOOL)):
            out += [(s, term)] if ok else I.exc(s, kind, 'malformed')
        return out

    def recover(st, args, kw):
        return fails(st, T('recovered', tuple(m.freeze(st, a) for a in args) + tuple(Tup((K(k), m.freeze(st, v))) for k, v in sorted(kw.items()))), Exception)

    def public(st, args, kw):
        return fails(st, T('publickey', tuple(m.freeze(st, a) for a in args)), ValueError)
    h = I.hooks
    h['hashlib.sha3_256'] = seen('hash', m.x_hashlib_sha3_256)
    h['hashlib.sha256'] = seen('hash', m.x_hashlib_sha256)
    h['hashlib.new'] = seen('hash', m.x_hashlib_new)
    h['json.dumps'] = seen('dumps', m.x_json_dumps)
    h['json.loads'] = seen('loads', m.x_json_loads)
    h['coincurve.PublicKey'] = seen('key', public)
    h['coincurve.PublicKey.from_signature_and_message'] = seen('recover', recover)


def const(k):
    """the value of an argument, if it is known"""
    if k[0] == 'z' and k[1:].isdigit():
        return bytes(int(k[1:]))
    if k[0] == 'x' and len(k) > 8:
        return bytes.fromhex(k[1:])
    if k.startswith('json:'):
        return k[5:].replace(';', ',')
    return {'list': [1, 'a', None, True], 'dict': {'a': 1, 'b': [2]}, 'uni': '\u00e9\u4e2d', 'none': None, 'true': True, 'false': False, 'float': 1.5}.get(k, k)


def run(c):
    def one(ops, rev=COMPACT, method='run', costs=('apiCall',)):
        name = '%s, revision %d%s%s' % (ops if len(ops) < 60 else ops[:50] + '..', rev, ', read-only' if method == 'ask' else '', '' if costs else ', no prices')

        def f():
            W = make(['helpers'])
            watch(W)
            res = W.boot([w.req_invoke('q', CODE, method, w.plist(typed_str(ops)), costs=costs, value=K(0), readonly=0, revision=K(rev))])
            c.absorb(W.I)
            for st, e in res:
                judge(c, W, name, ops, rev, costs, st)
            return len(res)
        c.scenario(name, f)
    for h in ('sha3', 'sha2'):
        for a in ('z0', 'z1', 'z31', 'z32', 'z33', 'z63', 'z64', 'z65', 'z319', 'z320', 'z321', 'z1000', 'bytes', 'x616263ff00') + NOBYTES:
            one('%s,%s' % (h, a))
        for rev in (0, 1, 255, 511):
            one('%s,z33' % h, rev)
        one('%s,z33' % h, method='ask')
        one('%s,z33' % h, costs=())
        one('%s,bytes|%s,z100|%s,z0' % (h, h, h))
    for rev in (0, 1, 255, COMPACT, 257, 511, 512, 768, 1024 + 255):
        for a in ('list', 'dict', 'uni', 'none', 'float', 'true'):
            one('dumps,' + a, rev)
        for a in ('json:[1; {"a": null}]', 'json:"\u00e9"', 'json:17'):
            one('loads,' + a, rev)
    for rev in (0, COMPACT):
        for a in ('self', 'set', 'z5', 'addr', 'text', 'int'):
            one('dumps,' + a, rev)
        for a in ('text', 'json:', 'json:{', 'json:nope', 'int', 'none', 'list', 'dict', 'z5', 'bytes', 'self', 'surrogate', 'true', 'float'):
            one('loads,' + a, rev)
        one('dumps,list', rev, method='ask')
        one('loads,json:[]', rev, method='ask')
        one('loads,json:[]|dumps,dict|loads,text', rev)
        for k in (KEY33, KEY65):
            one('address,x' + k, rev)
    for a in ('x' + KEY33, 'x03' + KEY33[2:], 'x' + KEY65, 'x06' + KEY65[2:], 'x07' + KEY65[2:], 'x02' + KEY65[2:], 'x04' + KEY33[2:], 'x00' + KEY33[2:], 'x05' + KEY33[2:], 'z33', 'z65',
              'z0', 'z1', 'z20', 'z32', 'z34', 'z64', 'z66', 'bytes', 'x' + 'ff' * 33, 'x' + 'ff' * 65, 'x02' + 'ff' * 32) + NOBYTES:
        one('address,' + a)
    for h in ('z32', 'b32', 'z0', 'z31', 'z33') + NOBYTES:
        one('recover,%s,z65' % h)
        one('recover,%s,bytes' % h)
    for s in ('z65', 'z64', 'z66', 'z0') + NOBYTES:
        one('recover,z32,' + s)
        one('recover,bytes,%s,false' % s)
    for cflag in ('true', 'false', 'none', 'int', 'text', 'self', 'list'):
        one('recover,z32,z65,' + cflag)
    one('recover,bytes,bytes', method='ask')
    one('recover,bytes,bytes', 0)
    one('recover,bytes,bytes|address,bytes|sha3,bytes')
    one('recover,bytes,bytes', costs=())


def prices(I, st, op, rev, costs):
    """the documented price of one use, None if it does not matter"""
    f, *args = op.split(',')
    c = isym('q.cost.apiCall') if costs else K(0)
    m = I.model

    def part(ratio):
        return m.floordiv(st, pmul(c, K(ratio)), K(1000))
    a = const(args[0])
    if f in ('sha3', 'sha2'):
        if args[0] == 'bytes':
            n = m.floordiv(st, padd(m.length(st, T('in', ('any', 'bytes'), BYTES)), K(31)), K(32))
        elif isinstance(a, bytes):
            n = K((len(a) + 31) // 32)
        else:
            return None
        return padd(c, m.floordiv(st, pmul(c, n), K(10)))
    if f in ('dumps', 'loads'):
        if not rev & COMPACT:
            return K(0)
        if args[0] in ('self', 'set', 'z5', 'addr', 'text', 'int', 'surrogate'):
            return None
        if f == 'dumps':
            n = len(json.dumps(a, separators=(',', ':')).encode())
        elif isinstance(a, str) and args[0].startswith('json:'):
            n = len(a.encode())
        else:
            return None
        p = part(5000 if f == 'dumps' else 4000)
        return padd(p, m.floordiv(st, pmul(p, K(n)), K(100)))
    if f == 'address':
        return part(15000 if len(a) == 33 else 1500) if isinstance(a, bytes) and len(a) in (33, 65) else None
    return part(70000)


def judge(c, W, name, ops, rev, costs, st):
    rs, _ = requests(st)
    for r in rs:
        n = len(ops.split('|'))
        groups = []
        for e in r.events:
            if isinstance(e, Ev) and e.kind == 'mark' and e.args[0] == 'try':
                groups.append(([], []))
            elif groups and isinstance(e, Ev) and e.kind == 'work':
                groups[-1][0].append(e)
            elif groups and isinstance(e, Ev) and e.kind == 'mark':
                groups[-1][1].append(e)
        if len(groups) != n or any(len(x[1]) != 1 for x in groups):
            c.ob('returns', None, r.where(), lambda: 'the uses are not seen (%s)\n%s' % (name, show(st)), 'uses')
            continue
        limit = isym('q.limit')
        total, oos = K(0), False
        for op, (work, (e,)) in zip(ops.split('|'), groups):
            f, *args = op.split(',')
            where = place(e.where)

            def ob(rule, ok, why, key):
                c.ob(rule, ok, where, lambda: '%s of %s: %s\n%s' % (op, name, why, show(st)), key)
            p = prices(W.I, st, op, rev, costs)
            code = strip(e.args[3]) if e.args[0] == 'refused' else None
            out = isinstance(code, K) and code.v == OUT_OF_STEP
            if e.args[0] == 'gave':
                total = padd(total, p) if total is not None and p is not None else None
            elif out:
                oos = True
                if f != 'dumps':
                    ob('charged-first', not work, 'the work is done although the steps run out', f + ' works before it charges')
                ob('free-when-compact', bool(f not in ('dumps', 'loads') or rev & COMPACT), 'JSON is charged without the revision flag', f + ' charged')
            else:
                total = None
            if f in ('address', 'recover') and e.args[0] == 'refused':
                ob('raises-nothing', out, 'raises %r' % (e.args[2],), f + ' raises')
            a = [const(x) for x in args]
            if f == 'address' and e.args[0] == 'gave':
                if args[0] in NOBYTES or isinstance(a[0], bytes) and (len(a[0]) not in (33, 65) or a[0][0] != 4 and len(a[0]) == 65 or a[0][0] not in (2, 3) and len(a[0]) == 33):
                    ob('nothing', same(st, e.args[2], NONE), 'gives %r' % (e.args[2],), 'address of a malformed key')
                elif isinstance(a[0], bytes) and len(a[0]) == 65:
                    ob('address', same(st, e.args[2], K(b'\x00' + hashlib.sha3_256(a[0][1:]).digest()[-20:])), 'gives %r' % (e.args[2],), 'address of a key')
            if f == 'recover' and e.args[0] == 'gave':
                bad = args[0] in NOBYTES or args[1] in NOBYTES or isinstance(a[0], bytes) and len(a[0]) != 32 or isinstance(a[1], bytes) and len(a[1]) != 65
                if bad:
                    ob('nothing', same(st, e.args[2], NONE), 'gives %r' % (e.args[2],), 'key of malformed input')
            if f in ('sha3', 'sha2'):
                if args[0] in NOBYTES:
                    ob('refused', e.args[0] == 'refused' and not work, 'is not refused', 'hash of another type')
                elif e.args[0] == 'gave':
                    x = K(a[0]) if isinstance(a[0], bytes) else T('in', ('any', 'bytes'), BYTES)
                    alg = 'sha3_256' if f == 'sha3' else 'sha256'
                    ob('digest', same(st, e.args[2], K(hashlib.new(alg, x.v).digest()) if isinstance(x, K) else T(alg, (x,), BYTES)), 'gives %r' % (e.args[2],), 'digest')
                else:
                    ob('hashes', out, 'raises %r' % (e.args[2],), 'hash raises')
            if f == 'dumps' and e.args[0] == 'gave' and args[0] in ('list', 'dict', 'uni', 'none', 'float', 'true'):
                ob('text', same(st, e.args[2], K(json.dumps(a[0], separators=(',', ':')) if rev & COMPACT else json.dumps(a[0]))), 'gives %r' % (e.args[2],), 'JSON text')
            if f == 'loads' and e.args[0] == 'gave' and args[0] in ('int', 'none', 'list', 'dict', 'z5', 'bytes', 'self', 'true', 'float'):
                ob('nothing', same(st, e.args[2], NONE), 'gives %r' % (e.args[2],), 'JSON of another type')
        used = r.used
        used = used.args[0] if isinstance(used, T) and used.op == 'i2b' else K(int.from_bytes(used.v, 'big', signed=True)) if isinstance(used, K) else None
        if used is not None and total is not None and not oos:
            c.ob('price', same(st, used, total), r.where(), lambda: '%s uses %r instead of %r\n%s' % (name, used, total, show(st)), 'price of ' + ops.split(',')[0])
