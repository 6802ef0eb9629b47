"""C10: a stored value is read back as what was stored."""
from ..kit import *
from .. import world as w

TITLE = 'A stored value is read back as what was stored'
CODE = '/scores/store'
KINDS = {'int': ('int', 'zero', 'minus', 'big', 'low', 'n128', 'p128'), 'str': ('str', 'text0', 'uni'), 'bytes': ('bytes', 'empty', 'nul', 'none8'),
         'bool': ('bool', 'false', 'true'), 'addr': ('addr', 'cx')}
DEFAULT = {'int': K(0), 'str': K(''), 'bool': K(False), 'bytes': K(None), 'addr': K(None)}
OTHER = ('none', 'float', 'list', 'tuple', 'dict', 'object', 'type')
BOXES = ('var', 'dict', 'deep', 'arr')


def run(c):
    def one(*hows, missing=False):
        name = ' then '.join(hows) + (', nothing stored' if missing else '')

        def f():
            W = make(['store'], memory=True)
            size_key = []

            def reply(W, st, h):
                # values written before are found (None: the default answer of the node); an array has one element
                for k, v in st.node[3][:h[3]]:
                    if k is h[2]:
                        return None
                if 'arr' in hows[0] and isinstance(h[2], K) and h[2] == ARRAY_SIZE:
                    return W.deliver(st, w.GETVALUE, L(TRUE, K(b'\x01')), 'GETVALUE', h[1])
                if missing:
                    return W.deliver(st, w.GETVALUE, L(FALSE, NONE), 'GETVALUE', h[1])
                return None
            W.reply['GETVALUE'] = reply
            res = W.boot([w.req_invoke('q%d' % i, CODE, 'run', w.plist(typed_str(h)), costs=(), value=K(0)) for i, h in enumerate(hows)])
            c.absorb(W.I)
            for st, e in res:
                judge(c, W, name, hows, st, missing)
            return len(res)
        c.scenario(name, f)
    for box in BOXES:
        for t, kinds in KINDS.items():
            for k in kinds:
                one('%s,%s,%s,get' % (box, t, k))
                one('%s,%s,%s' % (box, t, k), '%s,%s,get' % (box, t))
                if box in ('dict', 'deep'):
                    one('%s,%s,%s,in' % (box, t, k))
                    one('%s,%s,%s,remove,in,get' % (box, t, k), missing=True)
                if box == 'arr':
                    one('%s,%s,%s,pop' % (box, t, k))
                if box == 'var':
                    one('var,%s,%s,remove,get' % (t, k), missing=True)
            one('%s,%s,get' % (box, t), missing=True)
            if box in ('dict', 'deep'):
                one('%s,%s,in' % (box, t), missing=True)
            for k in OTHER:
                one('%s,%s,%s' % (box, t, k))
            if c.thorough:
                for k in kinds:
                    for l in kinds:
                        one('%s,%s,%s,get,%s,get' % (box, t, k, l))


import hashlib
ARRAY_SIZE = K(hashlib.sha3_256(b'\x00' + b'a').digest())


def judge(c, W, name, hows, st, missing):
    rs, _ = requests(st)
    want, present = None, None
    for r, how in zip(rs, hows):
        parts = how.split(',')
        t = parts[1]
        other = [e for e in r.marks('other')]
        if other or not r.ok:
            c.ob('round-trip', None if st.notes & {'operator on unknown types'} else False, r.where(), lambda: 'unexpected failure (%s)\n%s' % (name, show(st)), 'failure with ' + parts[0])
            continue
        refusals = r.marks('refused')
        bad = set(parts[2:]) & set(OTHER)
        if bad:
            c.ob('other-types-refused', len(refusals) == 1 and same(st, strip(refusals[0].args[1]), K(INVALID_PARAMETER)) and not r.sends(w.SETVALUE), r.where(),
                 lambda: 'a value of type %s is not refused with invalid-parameter (%s)\n%s' % (bad, name, show(st)), 'stores ' + ' '.join(sorted(bad)))
            continue
        if refusals:
            c.ob('storable-types-accepted', False, r.where(), lambda: 'refused (%s)\n%s' % (name, show(st)), 'refuses ' + t)
            continue
        if missing and want is None:
            want, present = DEFAULT[t], False
        for e in r.marks():
            m = e.args[0]
            if m == 'put':
                want, present = e.args[2], True
            elif m == 'removed':
                want, present = DEFAULT[t], False
            elif m == 'in' and present is not None:
                c.ob('membership', same(st, e.args[1], K(present)), place(e.where), lambda: 'membership gives %r, the entry %s (%s)\n%s' %
                     (e.args[1], 'is stored' if present else 'is not stored', name, show(st)), 'membership, ' + t)
            elif m == 'got' and want is not None:
                kind_ok = same(st, e.args[1], K('addr' if t == 'addr' and present else 'plain'))
                ok = same(st, e.args[2], want)
                c.ob('round-trip' if present else 'default', False if kind_ok is False else ok, place(e.where),
                     lambda: 'reads %r, expected %r (%s)\n%s' % (e.args[2], want, name, show(st)), '%s %s reads differently' % (parts[0], t))
