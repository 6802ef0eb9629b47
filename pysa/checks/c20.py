"""C20: addresses parse, print and compare exactly."""
import random

from ..kit import *
from ..compare import admits, at
from .. import world as w

TITLE = 'Addresses parse, print and compare exactly'
CODE = '/scores/addrs'
TEXT = T('in', ('any', 'text'), STR)
OCTETS = T('in', ('any', 'octets'), BYTES)


def legal_text(t):
    return len(t) == 42 and t[:2] in ('hx', 'cx') and all(x in '0123456789abcdef' for x in t[2:])


def legal_octets(b):
    return len(b) == 20 or len(b) == 21 and b[0] in (0, 1)


def texts():
    """texts which differ in one respect from a legal one, and legal ones"""
    rnd = random.Random(3)
    out = []
    bases = [p + ''.join(rnd.choice('0123456789abcdef') for _ in range(40)) for p in ('hx', 'cx') for _ in range(6)]
    bases += ['hx' + '0' * 40, 'cx' + '0' * 40, 'hx' + 'f' * 40, 'cx' + 'f' * 40, 'hx' + '9' * 40, 'cx' + 'a' * 40, 'hx0' + 'a' * 39, 'cxa' + '0' * 39, 'hx' + '0123456789abcdef' * 2 + '01234567']
    out += bases
    for b in (bases[0], bases[7], 'hx' + '0' * 40, 'cx' + 'f' * 40):
        for n in list(range(0, 46)) + [64, 80, 82, 84]:
            out.append((b + b[2:] + b[2:])[:n])
        for i in range(42):
            for ch in ('0', 'a', 'f', 'g', 'x', 'A', 'F', ' ', '\n', '\t', '_', '-', '+', '\0', '\u0660', '\uff10', '\u00e9', 'h', 'c', 'X', '`', ':', '/', '@'):
                out.append(b[:i] + ch + b[i + 1:])
                if i % 6 == 0:
                    out.append(b[:i] + ch + b[i:])
            out.append(b[:i] + b[i + 1:])
        out += [b.upper(), b[2:], b[2:] + b[:2], b + '\n', '\n' + b, b + ' ', ' ' + b, '0x' + b[2:], b[:2] + '0x' + b[4:], b[:2] + b[2:].upper(), b[1] + b[0] + b[2:],
                b[0] + b[2:] + 'x', b[:2] + b, b[2:] + b[2:4], 'HX' + b[2:], 'Cx' + b[2:], 'dx' + b[2:], 'hc' + b[2:], 'xx' + b[2:], 'ch' + b[2:], b[:2] + ' ' * 40,
                b[:2] + '-' + b[3:], b[:2] + '+' + b[3:], b[:2] + '_' * 40, b[:20] + ' ' + b[21:], b[:2] + b[2:40] + '\r\n', b[:41] + '\n']
    return sorted(set(out), key=lambda t: (len(t), t))


def octets():
    rnd = random.Random(4)
    out = [bytes(n) for n in range(0, 45)] + [b'\xff' * n for n in range(0, 45)]
    for n in (20, 21, 22, 19):
        for first in range(256):
            out.append(bytes([first]) + rnd.randbytes(n - 1))
    return out


TEXTS, OCTETSES = texts(), octets()


def run(c):
    def one(name, method, params, judge, pre=None, sender=True, facts=()):
        def f():
            W = make(['addrs'])
            res = W.boot([w.req_invoke('q', CODE, method, params(), costs=(), value=K(0), sender=sender, code_facts=list(facts))])
            c.absorb(W.I)
            for st, e in res:
                rs, _ = requests(st)
                for r in rs:
                    judge(W, name, st, r)
            return len(res)
        c.scenario(name, f)

    def reading(sym, legal, cands, meaning):
        """the facts of an accepting path exclude what is not legal, those of a refusing one what is"""
        def judge(W, name, st, r):
            for e in r.marks():
                if e.args[0] not in ('address', 'nothing', 'refused'):
                    continue
                accepted = e.args[0] == 'address'
                for s in st.leaves():
                    bad, unknown, fine = None, None, []
                    for x in cands:
                        ok = admits(s, sym, x)
                        if ok is False:
                            continue
                        if legal(x) != accepted:
                            if ok:
                                bad = x
                                break
                            unknown = x
                        elif accepted:
                            fine.append((x, ok))
                    what = 'accepts' if accepted else 'refuses'
                    c.ob('form', False if bad is not None else None if unknown is not None else True, place(e.where),
                         lambda: '%s: the path which %s admits %r\n%s' % (name, what, bad if bad is not None else unknown, show(s)), '%s what is %s' % (what, 'no address' if accepted else 'an address'))
                    for x, ok in fine[:12] + fine[12::10]:
                        want = meaning(x)
                        for i, (what, v) in enumerate(zip(('text', 'bytes', 'kind', 'body', 'is_contract', 'is an Address', 'repr'), e.args[2:])):
                            got = at(s, sym, x, v)
                            good = None if got is None else (type(got[0]) is type(want[i]) and got[0] == want[i])
                            c.ob('round-trip', good if ok or good else None, place(e.where), lambda: '%s: %s of the address of %r is %r\n%s' % (name, what, x, got, show(s)), what)
        return judge

    def of_text(t):
        k, b = 'hc'.index(t[0]), bytes.fromhex(t[2:])
        return (t, bytes([k]) + b, k, b, k == 1, True, t)

    def of_octets(b):
        k, body = (0, b) if len(b) == 20 else (b[0], b[1:])
        t = 'hc'[k] + 'x' + body.hex()
        return (t, bytes([k]) + body, k, body, k == 1, True, t)
    one('any text', 'text', w.plist, reading(TEXT, legal_text, TEXTS, of_text))
    one('any bytes', 'octets', w.plist, reading(OCTETS, legal_octets, OCTETSES, of_octets))
    for n in (0, 1, 19, 20, 21, 22, 32, 40, 42):
        one('any %d bytes' % n, 'sized', lambda n=n: w.plist(typed_int(K(n))), reading(OCTETS, legal_octets, [b for b in OCTETSES if len(b) == n], of_octets))
    wire = bsym('wire')
    on_wire = reading(wire, lambda b: legal_octets(b), OCTETSES, of_octets)
    one('any bytes as a parameter', 'wire', lambda: w.plist(L(K(w.ADDRESS), wire)), on_wire)
    for t in TEXTS[::13]:
        def fixed(W, name, st, r, t=t):
            for e in r.marks():
                if legal_text(t):
                    ok = e.args[0] == 'address' and [same(st, g, K(x)) for g, x in zip(e.args[2:], of_text(t))]
                    c.ob('round-trip', bool(ok) and all(x is True for x in ok), place(e.where), lambda: '%r gives %r\n%s' % (t, e.args, show(st)), 'of a text')
                else:
                    c.ob('form', e.args[0] == 'refused', place(e.where), lambda: '%r is accepted\n%s' % (t, show(st)), 'accepts what is no address')
        one('text %r' % t, 'one', lambda t=t: w.plist(typed_str(t)), fixed)

    def others(W, name, st, r):
        ms = r.marks('other')
        for e in ms:
            c.ob('form', same(st, e.args[1], K('refused')), place(e.where), lambda: 'an address is made of %r\n%s' % (e.args[2:], show(st)), 'accepts another type')
    one('neither text nor bytes', 'other', w.plist, others)

    def equals(k1, k2, mark):
        def judge(W, name, st, r):
            b1, b2 = T('in', ('any', 'b1'), BYTES), T('in', ('any', 'b2'), BYTES)
            for e in r.marks(mark):
                for s in st.leaves():
                    got = [truth(s, x) for x in e.args[1:]]
                    eq = same(s, b1, b2)
                    where = place(e.where)
                    if mark == 'looked':
                        want = [k1 == k2 and eq] * len(got) if k1 == k2 else [False] * len(got)
                    else:
                        want = [k1 == k2 and eq, not (k1 == k2 and eq) if eq is not None or k1 != k2 else None, None]
                        if k1 == k2 and got[0] is not None:
                            pts = witness(s, [b1, b2], lambda x, y: (x == y) != got[0])
                            c.ob('equality', False if pts else True, where, lambda: '%s: == is %r for %r\n%s' % (name, got[0], pts, show(s)), 'equality')
                        c.ob('hash', True if got[0] is False or got[2] is True else False if got[0] is True and got[2] is False else None, where, lambda: '%s: equal addresses hash %r\n%s' % (name, got, show(s)), 'hash of equals')
                        c.ob('equality', None if got[0] is None or got[1] is None else got[0] != got[1], where, lambda: '%s: == gives %r and != %r\n%s' % (name, got[0], got[1], show(s)), 'inequality')
                    for g, x in zip(got, want):
                        if x is not None and g is not None:
                            c.ob('equality', bool(g) == bool(x), where, lambda: '%s: gives %r\n%s' % (name, got, show(s)), 'equality')
        return judge
    for k1 in (0, 1):
        for k2 in (0, 1):
            for m in ('equal', 'looked'):
                one('%s: kinds %d and %d, any bodies' % (m, k1, k2), m, lambda k1=k1, k2=k2: w.plist(typed_int(K(k1)), typed_int(K(k2))), equals(k1, k2, m))
    some = ['hx' + '0' * 40, 'cx' + '0' * 40, 'hx' + '0' * 39 + '1', 'hx1' + '0' * 39, 'cx' + 'f' * 40, 'hx' + 'f' * 40, 'cx' + '0' * 39 + '1', 'hx' + '0' * 20 + '1' + '0' * 19]
    for t1 in some:
        for t2 in some:
            def both(W, name, st, r, t1=t1, t2=t2):
                q = t1 == t2
                want = (q, not q, None if not q else True, q, q, 2 if q else 1, 2, 1 if q else 2, q, q)
                for e in r.marks('parsed'):
                    for i, (g, x) in enumerate(zip(e.args[1:], want)):
                        if x is not None:
                            c.ob('equality', same(st, g, K(x)), place(e.where), lambda: '%s: observation %d is %r instead of %r\n%s' % (name, i, g, x, show(st)), 'of two texts')
            one('%s and %s' % (t1, t2), 'parsed', lambda t1=t1, t2=t2: w.plist(typed_str(t1), typed_str(t2)), both)

    def strange(W, name, st, r):
        for e in r.marks('strange'):
            for i, g in enumerate(e.args[1:]):
                c.ob('equality', same(st, g, K(False)), place(e.where), lambda: 'an address equals something else (%d: %r)\n%s' % (i, g, show(st)), 'to other things')
    one('other things', 'strange', w.plist, strange)


def truth(st, v):
    v = strip(v)
    if isinstance(v, K):
        return bool(v.v)
    if isinstance(v, T) and v.op == 'not':
        r = truth(st, v.args[0])
        return None if r is None else not r
    return holds(st, v) if isinstance(v, T) and v.ty == BOOL else None
