"""C18: a recorded event carries the declared signature and arguments."""
from ..kit import *
from .. import world as w

TITLE = 'A recorded event carries the declared signature and arguments'
CODE = '/scores/events'
NONE_ = object()
# name -> (indexed, ((parameter, type, default),))
DECL = {
    'E0': (0, ''), 'E1': (0, 'a:int'), 'E1i': (1, 'a:str'), 'All0': (0, 'a:int b:str c:bytes d:bool e:Address'),
    'All1': (1, 'a:Address b:bool c:bytes d:str e:int'), 'All2': (2, 'a:bytes b:Address c:int d:str e:bool'),
    'All3': (3, 'a:bool b:int c:str d:Address e:bytes'), 'Exact': (3, 'a:str b:bytes c:int'),
    'Defaults': (2, 'a:int b:str=two c:bytes=03 d:bool=true e:Address=none'), 'AllDefaults': (1, 'a:int=zero b:str=text0 c:bytes=none'),
    'Quoted': (1, 'a:Address b:Address'), 'Inherited': (1, 'a:int b:str'), 'Overridden': (1, 'b:int a:bytes'),
    'Base.Overridden': (2, 'a:int b:str'), 'ICXTransfer': (3, 'a:Address b:Address c:int'), 'ICXTransfers': (3, 'a:Address b:Address c:int'),
    '_hidden': (1, 'a:int'), 'Same': (2, 'a:int b:int c:int d:int')}
GOOD = {'int': ('i', 'zero', 'minus', 'none'), 'str': ('s', 'text0', 'uni', 'none'), 'bytes': ('b', 'empty', 'none'), 'bool': ('o', 'true', 'none'),
        'Address': ('cx', 'hx', 'none')}
BAD = {'int': ('s', 'b', 'cx', 'float', 'list', 'type'), 'str': ('i', 'b', 'hx', 'me', 'zero'), 'bytes': ('s', 'i', 'cx', 'list', 'tuple', 'text0'),
       'bool': ('i', 'zero', 's', 'float'), 'Address': ('s', 'b', 'i', 'me', 'dict', 'empty')}


def params(name):
    out = []
    for p in DECL[name][1].split():
        n, t = p.split(':')
        t, _, d = t.partition('=')
        out.append((n, t, d or None))
    return out


def value(k, ty):
    """the bytes recorded for a value, by its name in the contract"""
    if k == 'none':
        return NONE
    if k[0] == 'i':
        return i2b(T('in', ('any', k), INT))
    if k[0] == 's' and k != 'surrogate':
        return T('encode', (T('in', ('any', k), STR),), BYTES)
    if k == 'cx':
        return K(b'\x01' + b'\x11' * 20)
    if k == 'hx':
        return K(b'\x00' + b'\x22' * 20)
    if k == 'uni':
        return K('\u00e9\u4e2d\U0001f600'.encode())
    if k[0] == 'o':
        return T('in', ('any', k), BOOL)
    if k[0] == 'b':
        return T('in', ('any', k), BYTES)
    return K({'zero': b'\x00', 'minus': b'\xff\x7f', 'empty': b'', 'text0': b'', 'true': b'\x01', 'two': b'two', '03': b'\x03'}[k])


def expected(op):
    """None when the event is to be refused, else (indexed, data) as recorded"""
    name, _, given = op.partition(':')
    args = [g for g in given.split(',') if g and '=' not in g]
    kw = dict(g.split('=') for g in given.split(',') if '=' in g)
    if name == 'ICXTransfer':
        return None
    ps = params(name)
    if len(args) > len(ps):
        return None
    vals = []
    for i, (n, t, d) in enumerate(ps):
        if i < len(args):
            if n in kw:
                return None
            v = args[i]
        elif n in kw:
            v = kw.pop(n)
        elif d is None:
            return None
        else:
            v = d
        if v not in GOOD[t] and v != d and not (v[0] == 'i' and t == 'int' and v[1:].isdigit()):
            return None
        vals.append(value(v, t))
    if kw:
        return None
    sig = '%s(%s)' % (name.split('.')[-1], ','.join(t for _, t, _ in ps))
    n = DECL[name][0]
    return [K(sig.encode())] + vals[:n], vals[n:]


def agree(st, got, want):
    gs = seq(got)
    if gs is None:
        return None
    if len(gs) != len(want):
        return False
    out = True
    for g, x in zip(gs, want):
        if isinstance(x, T) and x.ty == BOOL:
            b = st.decide(x)
            r = None if b is None else same(st, g, K(bytes([b])))
        else:
            r = same(st, g, x)
        if r is False:
            return False
        if r is None:
            out = None
    return out


def cases(thorough):
    out = ['E0:', 'E0:i', 'E0:none', 'E0:a=i', 'E1:i', 'E1i:s', 'E1i:', 'E1i:none']
    for e in ('All0', 'All1', 'All2', 'All3', 'Exact'):
        ps = params(e)
        base = [GOOD[t][0] for _, t, _ in ps]
        out.append('%s:%s' % (e, ','.join(base)))
        out.append('%s:%s' % (e, ','.join('%s=%s' % (p[0], v) for p, v in reversed(list(zip(ps, base))))))
        out.append('%s:%s' % (e, ','.join(base[:2] + ['%s=%s' % (p[0], v) for p, v in list(zip(ps, base))[2:]])))
        out.append('%s:%s' % (e, ','.join('none' for _ in ps)))
        out.append('%s:%s' % (e, ','.join(base + ['i'])))
        out.append('%s:%s' % (e, ','.join(base[:-1])))
        out.append('%s:' % e)
        out.append('%s:%s,zz=i' % (e, ','.join(base)))
        out.append('%s:%s,zz=i' % (e, ','.join(base[:-1])))
        out.append('%s:%s,a=%s' % (e, ','.join(base), base[0]))
        out.append('%s:%s,a=%s' % (e, ','.join(base[:-1]), base[0]))
        out.append('%s:%s,self=i' % (e, ','.join(base[:-1])))
        for i, (n, t, d) in enumerate(ps):
            for g in GOOD[t][1:]:
                out.append('%s:%s' % (e, ','.join(base[:i] + [g] + base[i + 1:])))
            for b in BAD[t]:
                out.append('%s:%s' % (e, ','.join(base[:i] + [b] + base[i + 1:])))
                if thorough:
                    out.append('%s:%s' % (e, ','.join(base[:i] + ['%s=%s' % (ps[j][0], b if j == i else base[j]) for j in range(i, len(ps))])))
    out += ['Defaults:i', 'Defaults:a=i', 'Defaults:i,s', 'Defaults:i,e=cx', 'Defaults:i,c=b,b=s', 'Defaults:i,none,none,none,none', 'Defaults:',
            'Defaults:b=s', 'Defaults:i,zz=i', 'Defaults:i,s,b=s', 'Defaults:i,s,b,o,cx', 'Defaults:i,s,b,o,cx,i', 'Defaults:i,b=b', 'Defaults:i,c=s',
            'Defaults:i,d=zero', 'Defaults:i,e=s', 'Defaults:i,self=s', 'Defaults:i,d=o',
            'AllDefaults:', 'AllDefaults:c=b', 'AllDefaults:i', 'AllDefaults:none,none', 'AllDefaults:b=s,a=i', 'AllDefaults:d=i', 'AllDefaults:s',
            'Quoted:cx,hx', 'Quoted:hx,b=cx', 'Quoted:s,cx', 'Quoted:cx,s', 'Quoted:cx', 'Quoted:none,cx',
            'Inherited:i,s', 'Inherited:b=s,a=i', 'Inherited:s,i', 'Overridden:i,b', 'Overridden:a=b,b=i', 'Overridden:i,s', 'Overridden:a=i,b=s',
            'Base.Overridden:i,s', 'Base.Overridden:a=i,b=s', 'Base.Overridden:i,b',
            'ICXTransfer:cx,hx,i', 'ICXTransfer:cx,hx,c=zero', 'ICXTransfer:none,none,none', 'ICXTransfer:c=i,a=cx,b=cx', 'ICXTransfers:cx,hx,i',
            '_hidden:i', 'Same:i1,i2,i3,i4', 'Same:d=i4,c=i3,b=i2,a=i1', 'Same:i1,i2,d=i4,c=i3', 'Same:i1,d=i4,b=i2', 'Same:i1,i2,i3,i4,i5',
            'Same:i1,i2,i3,a=i1']
    return list(dict.fromkeys(out))


SEQUENCES = ('E0:;E1:i', 'E1i:s;E1i:i;E1i:s', 'Defaults:i;Defaults:i,s,b,o,cx;Defaults:i', 'AllDefaults:i;AllDefaults:', 'ICXTransfer:cx,hx,i;ICXTransfers:cx,hx,i',
             'Overridden:i,b;Base.Overridden:i,s;Overridden:i,b', 'Same:i1,i2,i3,i4;Same:i1,i2,i3;Same:i4,i3,i2,i1', 'All3:o,i,s,cx,b;All2:b,hx,i,s,o;All1:cx,o,b,s,i')


def run(c):
    def one(ops):
        def f():
            W = make(['events'])
            res = W.boot([w.req_invoke('q', CODE, 'run', w.plist(typed_str(ops)), costs=(), value=K(0), readonly=0)])
            c.absorb(W.I)
            for st, e in res:
                judge(c, ops, st)
            return len(res)
        c.scenario(ops, f)
    for ops in SEQUENCES:
        one(ops)
    for op in cases(c.thorough):
        one(op)


def judge(c, ops, st):
    rs, _ = requests(st)
    for r in rs:
        if len(r.marks('try')) != len(ops.split(';')) or len(r.marks('refused', )) + len(r.marks('done')) != len(ops.split(';')):
            # the contract catches everything: the executor ends the call itself
            c.ob('caught', None, r.where(), lambda: 'the attempts are not seen (%s)\n%s' % (ops, show(st)), 'attempts of ' + ops)
            continue
        # events between two attempts
        groups = []
        for e in r.events:
            if not isinstance(e, Ev):
                continue
            if e.kind == 'mark' and e.args[0] == 'try':
                groups.append(([], []))
            elif groups and e.kind == 'send' and e.args[0] == w.EVENT:
                groups[-1][0].append(e)
            elif groups and e.kind == 'mark':
                groups[-1][1].append(e)
        for op, (sent, marks) in zip(ops.split(';'), groups):
            want = expected(op)
            name = op.split(':')[0]
            where = place((sent or marks)[0].where)
            c.ob('body-not-run', not [m for m in marks if m.args[0] == 'body'], where, lambda: 'the body of the event runs (%s)\n%s' % (op, show(st)), 'body of ' + name)
            refused = [m for m in marks if m.args[0] == 'refused']
            if want is None:
                c.ob('refused', bool(refused) and not sent, where, lambda: '%s is %s\n%s' % (op, 'recorded' if sent else 'not refused', show(st)), 'records ' + op)
                continue
            if refused:
                surrogate = st.notes & {'operator on unknown types'}
                c.ob('recorded', None if surrogate or unencodable(st, op) else False, where, lambda: '%s is refused\n%s' % (op, show(st)), 'refuses ' + op)
                c.ob('refused', not sent, where, lambda: '%s is refused after it was recorded\n%s' % (op, show(st)), 'refused but recorded ' + op)
                continue
            c.ob('recorded-once', len(sent) == 1, where, lambda: '%d records of %s\n%s' % (len(sent), op, show(st)), 'records of ' + name)
            for e in sent[:1]:
                body = seq(e.args[1])
                if body is None or len(body) != 2:
                    c.ob('contents', False if body is not None else None, place(e.where), lambda: '%s is sent as %r' % (op, e.args[1]), 'form of ' + name)
                    continue
                for what, got, x in zip(('indexed', 'data'), body, want):
                    c.ob(what, agree(st, got, x), place(e.where), lambda: '%s: %s part %r instead of %r\n%s' % (op, what, got, x, show(st)), '%s of %s' % (what, name))


def unencodable(st, op):
    """text that is not encodable as UTF-8 cannot be recorded"""
    return any(st.decide(T('encodable', (T('in', ('any', v.split('=')[-1]), STR),), BOOL)) is not True for v in op.partition(':')[2].split(',') if v.split('=')[-1] == 's')
