"""Abstract values: hash-consed value numbers, linear (polynomial) integers, constants, heap references."""

class Val:
    __slots__ = ()


_intern = {}
_next = [0]


def _mk(cls, key, init):
    k = (cls, key)
    v = _intern.get(k)
    if v is None:
        v = object.__new__(cls)
        init(v)
        _next[0] += 1
        v.uid = _next[0]
        _intern[k] = v
    return v


class K(Val):
    """A Python constant."""
    __slots__ = ('v', 'uid')

    def __new__(cls, v):
        def init(o):
            o.v = v
        if isinstance(v, float) and v != v:
            return _mk(cls, (float, 'nan'), init)
        return _mk(cls, (type(v), v), init)

    def __repr__(self):
        return repr(self.v)


class Ty(Val):
    """A built-in Python class."""
    __slots__ = ('t', 'uid')

    def __new__(cls, t):
        def init(o):
            o.t = t
        return _mk(cls, t, init)

    def __repr__(self):
        return '<%s>' % self.t.__name__


class T(Val):
    """A symbolic value (value number): operator applied to arguments.  ty: TypeSet or None."""
    __slots__ = ('op', 'args', 'ty', 'uid')

    def __new__(cls, op, args=(), ty=None):
        args = tuple(args)

        def init(o):
            o.op = op
            o.args = args
            o.ty = ty
        return _mk(cls, (op, args), init)

    def __repr__(self):
        return show(self)


class Tup(Val):
    __slots__ = ('items', 'uid')

    def __new__(cls, items):
        items = tuple(items)

        def init(o):
            o.items = items
        return _mk(cls, items, init)

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ',)'


class Ref(Val):
    __slots__ = ('id', 'uid')

    def __new__(cls, id):
        def init(o):
            o.id = id
        return _mk(cls, id, init)

    def __repr__(self):
        return '@%d' % self.id


class BM(Val):
    """bound method"""
    __slots__ = ('f', 'self', 'uid')

    def __new__(cls, f, self_):
        def init(o):
            o.f = f
            o.self = self_
        return _mk(cls, (f, self_), init)

    def __repr__(self):
        return '<bound %r of %r>' % (self.f, self.self)


class Bi(Val):
    """built-in function of the model"""
    __slots__ = ('name', 'args', 'uid')

    def __new__(cls, name, args=()):
        args = tuple(args)

        def init(o):
            o.name = name
            o.args = args
        return _mk(cls, (name, args), init)

    def __repr__(self):
        return '<builtin %s%r>' % (self.name, self.args)


class BiM(Val):
    """method of a built-in object, bound"""
    __slots__ = ('recv', 'name', 'uid')

    def __new__(cls, recv, name):
        def init(o):
            o.recv = recv
            o.name = name
        return _mk(cls, (recv, name), init)

    def __repr__(self):
        return '<%r.%s>' % (self.recv, self.name)


class Ext(Val):
    """something of a library outside the repository, by dotted path"""
    __slots__ = ('path', 'uid')

    def __new__(cls, path):
        def init(o):
            o.path = path
        return _mk(cls, path, init)

    def __repr__(self):
        return '<ext %s>' % self.path


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def kb(b):
    return TRUE if b else FALSE


# ------------------------------------------------------------------ type sets
class TS:
    """set of leaf types, or the complement of one"""
    __slots__ = ('neg', 's')

    def __init__(self, s, neg=False):
        self.s = frozenset(s)
        self.neg = neg

    def __eq__(self, o):
        return isinstance(o, TS) and self.neg == o.neg and self.s == o.s

    def __hash__(self):
        return hash((self.neg, self.s))

    def inter(self, o):
        if not self.neg and not o.neg:
            return TS(self.s & o.s)
        if not self.neg:
            return TS(self.s - o.s)
        if not o.neg:
            return TS(o.s - self.s)
        return TS(self.s | o.s, True)

    def union(self, o):
        return self.comp().inter(o.comp()).comp()

    def comp(self):
        return TS(self.s, not self.neg)

    def empty(self):
        return not self.neg and not self.s

    def single(self):
        if not self.neg and len(self.s) == 1:
            return next(iter(self.s))
        return None

    def subset(self, o):
        return self.inter(o.comp()).empty()

    def __repr__(self):
        return ('~' if self.neg else '') + '{' + ','.join(sorted(map(str, self.s))) + '}'


ANY = TS((), True)
INT = TS(['int'])
BOOL = TS(['bool'])
STR = TS(['str'])
BYTES = TS(['bytes'])
NONET = TS(['NoneType'])
INTS = TS(['int', 'bool'])
SCALARS = TS(['int', 'bool', 'str', 'bytes', 'NoneType'])


# ------------------------------------------------------------------ polynomials
class P(Val):
    """integer polynomial over symbolic atoms; terms: tuple of ((atom,...), coef) sorted by uid"""
    __slots__ = ('terms', 'uid')

    def __new__(cls, terms):
        def init(o):
            o.terms = terms
        return _mk(cls, terms, init)

    def __repr__(self):
        return show(self)


def _pdict(v):
    """K int / P / T -> dict"""
    if isinstance(v, K):
        c = int(v.v)
        return {(): c} if c else {}
    if isinstance(v, P):
        return dict(v.terms)
    return {(v,): 1}


def pnorm(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return K(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if len(m) == 1 and c == 1 and not (m[0].ty is not None and m[0].ty.subset(BOOL)):
            return m[0]
    return P(tuple(sorted(d.items(), key=lambda x: tuple(a.uid for a in x[0]))))


def padd(a, b, sign=1):
    d = dict(_pdict(a))
    for m, c in _pdict(b).items():
        d[m] = d.get(m, 0) + sign * c
    return pnorm(d)


def pmul(a, b):
    d = {}
    for m1, c1 in _pdict(a).items():
        for m2, c2 in _pdict(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.uid))
            d[m] = d.get(m, 0) + c1 * c2
    return pnorm(d)


def pneg(a):
    return pmul(a, K(-1))


def split_const(p):
    """p = form + const ; returns (form tuple, const, sign) with the form's first coefficient positive and gcd 1"""
    d = dict(_pdict(p))
    c = d.pop((), 0)
    if not d:
        return None, c, 1, 1
    items = tuple(sorted(d.items(), key=lambda x: tuple(a.uid for a in x[0])))
    sign = 1 if items[0][1] > 0 else -1
    import math
    g = 0
    for _, k in items:
        g = math.gcd(g, abs(k))
    form = tuple((m, sign * k // g) for m, k in items)
    return form, c, sign, g


def is_intval(v):
    if isinstance(v, P):
        return True
    if isinstance(v, K):
        return isinstance(v.v, int)
    if isinstance(v, T):
        return v.ty is not None and v.ty.subset(INTS)
    return False


# ------------------------------------------------------------------ display
def show(v, depth=0):
    if depth > 12:
        return '…'
    if isinstance(v, T):
        if v.op == 'in':
            return str(v.args[0]) if len(v.args) == 1 else '%s' % ('.'.join(map(str, v.args)))
        return v.op + '(' + ', '.join(show(a, depth + 1) if isinstance(a, Val) else str(a) for a in v.args) + ')'
    if isinstance(v, P):
        out = []
        for m, c in v.terms:
            s = '*'.join(show(a, depth + 1) for a in m)
            if not m:
                out.append('%+d' % c)
            elif c == 1:
                out.append('+' + s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%+d*%s' % (c, s))
        r = ''.join(out)
        return r[1:] if r.startswith('+') else r
    if isinstance(v, Tup):
        return '(' + ', '.join(show(a, depth + 1) for a in v.items) + ')'
    return repr(v)


def atoms_of(v, acc=None):
    """all sub-values"""
    if acc is None:
        acc = set()
    if not isinstance(v, Val) or v in acc:
        return acc
    acc.add(v)
    if isinstance(v, T):
        for a in v.args:
            if isinstance(a, Val):
                atoms_of(a, acc)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Val):
                        atoms_of(b, acc)
                    elif isinstance(b, tuple):
                        for c in b:
                            atoms_of(c, acc)
    elif isinstance(v, P):
        for m, c in v.terms:
            for a in m:
                atoms_of(a, acc)
    elif isinstance(v, Tup):
        for a in v.items:
            atoms_of(a, acc)
    return acc
