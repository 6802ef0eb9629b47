"""C09: distinct storage locations have distinct, node-compatible keys."""
import hashlib
import re
from ..kit import *
from .. import world as w

TITLE = 'Distinct storage locations have distinct, node-compatible keys'
CODE = '/scores/keys'
TY = {'int': INT, 'str': STR, 'bytes': BYTES}
#: classes of lengths in which the RLP form has one shape
SIZES = ((0, 255), (256, 65535), (65536, 16777215))


def size_facts(kind, name, lo, hi):
    """the bytes of the name or key have between lo and hi bytes"""
    x = sym(TY[kind], 'any', name + '.' + kind)
    b = T('i2b', (x,), BYTES) if kind == 'int' else T('encode', (x,), BYTES) if kind == 'str' else x
    n = T('len', (b,), INT)
    return [(T('le0', (padd(K(lo), n, -1),), BOOL), True), (T('le0', (padd(n, K(-hi)),), BOOL), True)]


def one_size(W, st, h):
    """the size of the array is n, every element exists"""
    return W.deliver(st, w.GETVALUE, L(TRUE, i2b(SIZE)), 'GETVALUE', h[1])


SIZE = T('in', ('any', 'n'), INT)


def run(c):
    def one(how, *sizes):
        def f():
            W = make(['keys'])
            W.reply['GETVALUE'] = one_size if 'iter' not in how else lambda W, st, h: W.deliver(st, w.GETVALUE, L(TRUE, i2b(K(3))), 'GETVALUE', h[1])
            parts = how.split(',')
            facts = [(T('le0', (pneg(SIZE),), BOOL), True), (T('le0', (padd(SIZE, K(-2 ** 31)),), BOOL), True)]
            rng = list(sizes) + [SIZES[0]] * 9
            for k, n in zip(parts[2:], ['name', 'k0', 'k1', 'k2', 'k3']):
                r = rng.pop(0)
                if k in TY:
                    facts += size_facts(k, n, *r)
            q = w.req_invoke('q', CODE, 'run', w.plist(typed_str(how)), costs=(), value=K(0), code_facts=facts)
            res = W.boot([q])
            c.absorb(W.I)
            for st, e in res:
                judge(c, W, name, how, st)
            return len(res)
        name = how + ''.join(', length %d to %d' % x for x in sizes)
        c.scenario(name, f)
    # what the operations address
    for how in ('var,get,v', 'var,set,v', 'var,remove,v', 'arr,len,a', 'arr,in,a', 'arr,get,a,int', 'arr,set,a,int', 'arr,put,a', 'arr,pop,a', 'arr,iter,a',
                'dict,get,d,k', 'dict,set,d,k', 'dict,in,d,k', 'dict,del,d,k', 'dict,remove,d,k',
                'dict,get,d,k,l', 'dict,set,d,k,l,m', 'dict,in,d,k,l', 'dict,del,d,k,l,m', 'dict,remove,d,k,l', 'dict,get,d,k,l,m,n'):
        one(how)
    kinds = ('int', 'str', 'bytes', 'addr', 'bool', 'empty')
    for n in kinds:
        one('var,set,' + n)
        one('var,get,' + n)
        one('arr,put,' + n)
        one('arr,in,' + n)
        one('arr,len,' + n)
        one('dict,set,%s,int' % n)
        one('dict,set,d,%s' % n)
        one('dict,get,d,%s' % n)
        one('dict,in,d,%s' % n)
        one('dict,del,d,%s' % n)
        one('dict,set,d,%s,l' % n)
        one('dict,get,d,k,%s' % n)
        for m in kinds:
            one('dict,set,%s,%s' % (n, m))
            one('dict,set,d,%s,%s' % (n, m))
    for n in ('none', 'float', 'list'):
        one('var,set,' + n)
        one('arr,put,' + n)
        one('dict,set,d,' + n)
        one('dict,get,d,k,' + n)
        one('dict,get,%s,k' % n)
        one('dict,del,d,%s,k' % n)
    # where the form of a key changes
    for k in ['n:%d' % x for x in (0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65536, 2 ** 63, -2 ** 63, 2 ** 64)] + \
            ['x:', 'x:00', 'x:7f', 'x:80', 'x:ff', 'x:0001', 'r:2', 'r:55', 'r:56', 'r:255', 'r:256', 'r:300', 'r:65535', 'r:65536'] + \
            ['AbC', '\u00e9', 'x y ', ' ', '1', '\u4e2d\u6587', '-1', 'a.b', '\u0130', '0x10']:
        one('dict,set,d,' + k)
        one('dict,get,d,%s,b' % k)
        one('var,get,' + k)
        one('arr,len,' + k)
        one('dict,in,%s,k' % k)
    for lo, hi in SIZES[1:]:
        for n in TY:
            one('var,set,' + n, (lo, hi))
            one('dict,set,d,' + n, (0, 1), (lo, hi))
            one('dict,get,%s,k' % n, (lo, hi))
            one('arr,len,' + n, (lo, hi))
    if c.thorough:
        for a in kinds:
            for b in kinds:
                for d in kinds:
                    one('dict,set,%s,%s,%s' % (a, b, d))
    node(c)


REFUSE = {'none', 'float', 'list'}


def judge(c, W, name, how, st):
    rs, _ = requests(st)
    if len(rs) != 1:
        c.ob('key', None, 'request', 'unexpected requests (%s)' % name, 'requests')
        return
    r = rs[0]
    parts = how.split(',')
    marks = [e.args[1] for e in r.marks('key')]
    sends = r.sends(w.GETVALUE, w.SETVALUE, w.CONTAINS)
    codes = [e.args[1] for e in r.marks('refused')]
    if REFUSE & set(parts[2:]):
        c.ob('other-keys-refused', len(codes) == 1 and same(st, strip(codes[0]), K(INVALID_PARAMETER)) and not sends, r.where(),
             lambda: 'a name or key of another type is not refused with invalid-parameter (%s)\n%s' % (name, show(st)), 'key type accepted')
        return
    if r.marks('other') or not r.ok:
        c.ob('key', None if st.notes - set() else False, r.where(), lambda: 'unexpected failure (%s)\n%s' % (name, show(st)), 'failure ' + parts[0] + ' ' + parts[1])
        return
    out_of_range = bool(codes) and parts[0] == 'arr'
    if codes and not out_of_range:
        c.ob('legal-keys-accepted', False, r.where(), lambda: 'refused (%s)\n%s' % (name, show(st)), 'refused ' + parts[0])
        return
    touched = set()
    open_ = False
    for e in sends:
        m = e.args[0]
        k = e.args[1]
        if m != w.GETVALUE:
            d = seq(k)
            k = d[0] if d else None
        if k is None:
            c.ob('key', None, place(e.where), 'message not understood', 'shape')
            continue
        if m == w.CONTAINS:
            pre = [x.args[1] for x in r.marks('prefix')]
            c.ob('prefix', same(st, k, pre[0]) if pre else None, place(e.where), lambda: 'the search uses prefix %r, expected %r (%s)\n%s' % (k, pre, name, show(st)), 'prefix of the search')
            continue
        rules = []
        for i, x in enumerate(marks):
            v = same(st, k, hashed(x)) 
            rules.append(v)
            if v:
                touched.add(i)
                break
        ok = True if True in rules else False if rules and all(x is False for x in rules) else None
        open_ = open_ or ok is None
        c.ob('key', ok, place(e.where), lambda: '%s uses the key %r; locations of the operation: %r (%s)\n%s' % (NAMES[m], k, marks, name, show(st)),
             'key of %s' % parts[0])
    if not codes:
        c.ob('location-used', True if len(touched) == len(marks) else None if open_ else False, r.where(), lambda: 'locations %r, used %r (%s)\n%s' % (marks, touched, name, show(st)),
             'location not used by %s %s' % (parts[0], parts[1]))

def hashed(x):
    if isinstance(x, K) and isinstance(x.v, bytes):
        return K(hashlib.sha3_256(x.v).digest())
    return T('sha3_256', (x,), BYTES)


def node(c):
    """the node's own container keys use the same tags"""
    from ..golang import consts
    def f():
        cs = consts('service/scoredb')
        W = make(['keys'])
        I = W.I
        tags = {'ArrayDBPrefix': 0, 'DictDBPrefix': 1, 'VarDBPrefix': 2}
        for k, v in tags.items():
            got = cs.get(k)
            c.ob('node-tag', None if got is None else got == v, 'service/scoredb/scoredb.go', 'the node uses container tag %r for %s, the executor %r' % (got, k, v), k)
        return 1
    c.scenario('tags of the node', f)
