"""Comparison of abstract values: equal in every concretisation, different, or not settled.

Values are compared by normal form.  When the normal forms differ, both sides are interpreted at a few points that
satisfy the path's facts; a difference there makes the mismatch definite, anything else leaves it unsettled (and
unsettled never raises an alarm)."""
import hashlib
import re
import random

from .values import *
from .state import *


class Unk(Exception):
    pass


def is_enum(v):
    return isinstance(v, T) and v.op == 'enum' and len(v.args) == 2


def strip(v):
    """enum members of integer kind are their values on the wire"""
    if is_enum(v) and isinstance(v.args[1], K) and isinstance(v.args[1].v, int):
        return v.args[1]
    return v


def seq(v):
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, T) and v.op in ('list', 'tuple'):
        return v.args
    return None


def pairs(v):
    if isinstance(v, T) and v.op == 'dict' and all(isinstance(p, Tup) and len(p.items) == 2 for p in v.args):
        return [(p.items[0], p.items[1]) for p in v.args]
    return None


def minlen(n):
    return ((n + (n < 0)).bit_length() + 8) // 8


def rematch(key):
    fn, pat, s, fl = key
    m = getattr(re, fn)(pat, s, *fl)
    if m is None:
        raise ValueError('no match')
    return m


class Eval:
    def __init__(self, st, rnd):
        self.st = st
        self.rnd = rnd
        self.env = {}

    def pick(self, t):
        st, r = self.st, self.rnd
        ts = st.tset(t)
        k = st.eqk.get(t)
        if k is not None:
            return k.v
        if ts.subset(INTS):
            lo, hi = st.bounds(t)
            if ts.subset(BOOL):
                if t in st.lit:
                    return st.lit[t]
                return bool(r.getrandbits(1))
            c = r.choice([0, 1, 2, 3, 5, 17, 31, 32, 33, 100, 127, 128, 255, 256, 1000, 65535, 10 ** 6, -1, -2, -128, -129,
                          r.randrange(0, 1 << 40), -r.randrange(0, 1 << 20)])
            if lo is not None and hi is not None and hi - lo < 1000:
                return r.randint(lo, hi)
            if lo is not None and c < lo:
                c = lo + abs(c)
            if hi is not None and c > hi:
                c = hi - abs(c) % 1000
                if lo is not None and c < lo:
                    c = lo
            return c
        if ts.subset(BYTES) or ts.subset(STR):
            lo, hi = st.bounds(T('len', (t,), INT))
            lo = lo or 0
            n = r.choice([lo, lo + 1, lo + r.randrange(0, 8), lo + r.randrange(0, 80)])
            if hi is not None:
                n = min(n, hi)
            if ts.subset(STR):
                return ''.join(r.choice('abcxyz0189_') for _ in range(n))
            b = bytearray(r.getrandbits(8) for _ in range(n))
            for i in range(min(n, 2)):
                l, h = st.bounds(T('byteat', (t, K(i)), INT))
                if l is not None and h is not None and l <= h:
                    b[i] = r.randint(max(0, l), min(255, h))
            if T('isutf8', (t,), BOOL) in st.lit and st.lit[T('isutf8', (t,), BOOL)]:
                return bytes(x & 0x7f for x in b)
            return bytes(b)
        if ts.subset(NONET):
            return None
        if ts.neg or len(ts.s) > 1:
            # any allowed kind
            for kind in ('str', 'bytes', 'int', 'bool', 'NoneType'):
                if not ts.inter(TS([kind])).empty():
                    return {'str': 'v%d' % r.randrange(99), 'bytes': bytes([r.randrange(256)]), 'int': r.randrange(1000), 'bool': True,
                            'NoneType': None}[kind]
        raise Unk(t.op)

    def ev(self, v):
        if isinstance(v, K):
            return v.v
        if v in self.env:
            return self.env[v]
        x = self._ev(v)
        self.env[v] = x
        return x

    def _ev(self, v):
        if isinstance(v, P):
            t = 0
            for m, c in v.terms:
                x = c
                for a in m:
                    x *= int(self.ev(a))
                t += x
            return t
        if isinstance(v, Tup):
            return tuple(self.ev(x) for x in v.items)
        if not isinstance(v, T):
            raise Unk(type(v).__name__)
        op, a = v.op, v.args
        if op == 'in':
            return self.pick(v)
        f = getattr(self, 'o_' + op, None)
        if f is None:
            raise Unk(op)
        try:
            return f(v, *[self.ev(x) if isinstance(x, Val) else x for x in a])
        except (ValueError, TypeError, IndexError, ZeroDivisionError, OverflowError, UnicodeError, KeyError):
            raise Unk(op)

    def o_regroup(self, v, key):
        return rematch(key).group()

    def o_relen(self, v, key):
        return rematch(key).end()

    def o_list(self, v, *a):
        return list(a)

    def o_dict(self, v, *a):
        return {k: x for k, x in a}

    def o_enum(self, v, n, x):
        return ('enum', n, x)

    def o_obj(self, v, *a):
        return ('obj',) + a

    def o_len(self, v, x):
        return len(x)

    def o_byteat(self, v, b, i):
        return b[i]

    def o_charat(self, v, b, i):
        return b[i]

    def o_byte(self, v, n):
        return bytes([n])

    def o_i2b(self, v, n):
        return n.to_bytes(minlen(n), 'big', signed=True)

    def o_b2i(self, v, b):
        return int.from_bytes(b, 'big', signed=True)

    def o_b2u(self, v, b):
        return int.from_bytes(b, 'big')

    def o_u2b(self, v, n, *a):
        if a:
            return n.to_bytes(a[0], 'big')
        return n.to_bytes((n.bit_length() + 7) // 8, 'big')

    def o_tobytes(self, v, n, L, order, signed):
        return n.to_bytes(L, order, signed=signed)

    def o_cat(self, v, *a):
        return b''.join(a)

    def o_scat(self, v, *a):
        return ''.join(a)

    def o_slice(self, v, b, lo, hi, step=None):
        return b[lo:hi:step]

    def o_encode(self, v, s, *a):
        return s.encode('utf-8')

    def o_decode(self, v, b, *a):
        return b.decode('utf-8')

    def o_hex(self, v, b):
        return b.hex() if isinstance(b, bytes) else hex(b)

    def o_fromhex(self, v, s):
        return bytes.fromhex(s)

    def o_str(self, v, x):
        return str(x)

    def o_repeat(self, v, b, n):
        return b * n

    def o_sha3_256(self, v, b):
        return hashlib.sha3_256(b).digest()

    def o_sha256(self, v, b):
        return hashlib.sha256(b).digest()

    def o_floordiv(self, v, a, b):
        return a // b

    def o_mod(self, v, a, b):
        return a % b

    def o_truediv(self, v, a, b):
        return a / b

    def o_f2i(self, v, a):
        return int(a)

    def o_float(self, v, a):
        return float(a)

    def o_id(self, v, x):
        if isinstance(x, tuple) and x[:1] == ('object',):
            return 0x7f0000000000 + 16 * x[1]       # objects alive at the same time have different identities
        raise Unk('id')

    def o_oid(self, v, x):
        return 0x7f0000000000 + 16 * x

    def o_hash(self, v, x):
        if isinstance(x, int):
            return hash(x)
        if isinstance(x, (bytes, str)):
            return int.from_bytes(hashlib.sha256(x.encode('utf-8', 'surrogatepass') if isinstance(x, str) else x).digest()[:7], 'big')
        raise Unk('hash')

    def o_and(self, v, a, b):
        return a & b

    def o_or(self, v, a, b):
        return a | b

    def o_xor(self, v, a, b):
        return a ^ b

    def o_rshift(self, v, a, b):
        return a >> b

    def o_lshift(self, v, a, b):
        return a << b

    def o_pow(self, v, a, b):
        if abs(b) > 64:
            raise Unk('pow')
        return a ** b

    def o_abs(self, v, a):
        return abs(a)

    def o_max(self, v, *a):
        return max(a)

    def o_min(self, v, *a):
        return min(a)

    def o_bit_length(self, v, a):
        return a.bit_length()

    def o_le0(self, v, a):
        return a <= 0

    def o_eq0(self, v, a):
        return a == 0

    def o_eq(self, v, a, b):
        return type(a) is type(b) and a == b

    def o_eqk(self, v, a, b):
        return type(a) is type(b) and a == b

    def o_not(self, v, a):
        return not a

    def o_s2i(self, v, s, base):
        return int(s, base)

    def o_isint(self, v, s, base):
        try:
            int(s, base)
            return True
        except ValueError:
            return False

    def o_isutf8(self, v, b):
        try:
            b.decode('utf-8')
            return True
        except UnicodeError:
            return False

    def o_isty(self, v, a, ts):
        return not ts.inter(TS([type(a).__name__])).empty()


def facts_hold(st, e, rel):
    """the path's facts about the symbols involved hold at this point (a fact that cannot be evaluated is taken not to)"""
    for form, (lo, hi) in st.iv.items():
        if not any(a in rel for m, c in form for a in m if isinstance(a, Val)) and not any(atoms_of(a) & rel for m, c in form for a in m):
            continue
        try:
            x = 0
            for m, c in form:
                y = c
                for a in m:
                    y *= int(e.ev(a))
                x += y
        except Unk:
            return False
        if lo is not None and x < lo or hi is not None and x > hi:
            return False
        if x in st.ne.get(form, ()):
            return False
    for form, ks in st.ne.items():
        if form in st.iv or not any(atoms_of(a) & rel for m, c in form for a in m):
            continue
        try:
            x = 0
            for m, c in form:
                y = c
                for a in m:
                    y *= int(e.ev(a))
                x += y
        except Unk:
            return False
        if x in ks:
            return False
    for t, val in st.lit.items():
        if not atoms_of(t) & rel:
            continue
        try:
            if bool(e.ev(t)) != val:
                return False
        except Unk:
            return False
    for t, k in st.eqk.items():
        if not atoms_of(t) & rel:
            continue
        try:
            if e.ev(t) != k.v:
                return False
        except Unk:
            return False
    for t, ks in st.nek.items():
        if not atoms_of(t) & rel:
            continue
        try:
            x = e.ev(t)
            if any(type(x) is type(k.v) and x == k.v for k in ks):
                return False
        except Unk:
            return False
    for t, ts in st.ty.items():
        if t not in rel:
            continue
        try:
            x = e.ev(t)
        except Unk:
            return False
        if ts.inter(TS([type(x).__name__])).empty():
            return False
    return True


def witness(st, pred_terms, pred, tries=4000, seed=7):
    """a point satisfying the facts where pred(values) is true; True/None"""
    rnd = random.Random(seed)
    rel = set()
    for t in pred_terms:
        rel |= {x for x in atoms_of(t) if isinstance(x, T)}
    # facts connect further symbols
    for form in st.iv:
        at = set()
        for m, c in form:
            for a in m:
                at |= {x for x in atoms_of(a) if isinstance(x, T) and x.op == 'in'}
        if at & rel:
            rel |= at
    rel = {x for x in rel if x.op == 'in'} | set(t for t in pred_terms if isinstance(t, T))
    bad = 0
    for _ in range(tries):
        e = Eval(st, rnd)
        try:
            vals = [e.ev(t) for t in pred_terms]
        except Unk:
            bad += 1
            if bad > 200:
                return None
            continue
        try:
            if not pred(*vals):
                continue
        except Exception:
            continue
        if facts_hold(st, e, rel):
            return {repr(k): v for k, v in e.env.items() if isinstance(k, T) and k.op == 'in'}
    return None


def tkey(x):
    if isinstance(x, bool):
        return ('bool', x)
    if isinstance(x, (list, tuple)):
        return ('seq',) + tuple(tkey(y) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((tkey(k), tkey(v)) for k, v in x.items())
    return (type(x).__name__, x)


def same(st, a, b, tries=1500):
    """True / False / None"""
    a, b = strip(a), strip(b)
    if a is b:
        return True
    sa, sb = seq(a), seq(b)
    if sa is not None and sb is not None:
        if len(sa) != len(sb):
            return False
        out = True
        for x, y in zip(sa, sb):
            r = same(st, x, y, tries)
            if r is False:
                return False
            if r is None:
                out = None
        return out
    pa, pb = pairs(a), pairs(b)
    if pa is not None and pb is not None:
        da, db = dict(pa), dict(pb)
        if set(da) != set(db):
            if all(isinstance(k, K) for k in list(da) + list(db)):
                return False
            return None
        out = True
        for k in da:
            r = same(st, da[k], db[k], tries)
            if r is False:
                return False
            if r is None:
                out = None
        return out
    if isinstance(a, K) and isinstance(b, K):
        return type(a.v) is type(b.v) and a.v == b.v
    if is_intval(a) and is_intval(b) and not (isinstance(a, K) and isinstance(a.v, bool)) and not (isinstance(b, K) and isinstance(b.v, bool)):
        d = st.decide_eq0(padd(a, b, -1))
        if d is None:
            d = st.decide_eq0(st.reduce(padd(a, b, -1)))
        if d is None and not st.alts:
            t = st.tight()
            d = t.decide_eq0(t.reduce(padd(a, b, -1)))
        if d is True or d is False and st.feasible():
            return d
        if d is False:
            return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, T) and x.op == 'i2b':
            if isinstance(y, T) and y.op == 'i2b':
                r = same(st, x.args[0], y.args[0], tries)
                if r is not None:
                    return r
            if isinstance(y, K) and isinstance(y.v, bytes) and y.v:
                n = int.from_bytes(y.v, 'big', signed=True)
                d = st.decide_eq0(padd(x.args[0], K(-n)))
                if d is True and len(y.v) == minlen(n):
                    return True
                if d is False:
                    return False
        if isinstance(x, T) and isinstance(y, K):
            d = st.decide(T('eqk', (x, y), BOOL))
            if d is not None:
                return d
    x, y = tidy(st, a), tidy(st, b)
    if x is not a or y is not b:
        return same(st, x, y, tries)
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op in ('sha3_256', 'sha256') and same(st, a.args[0], b.args[0], min(tries, 200)) is True:
        return True
    if st.alts:
        return over(st, lambda s: same(s, a, b, 300))
    w = witness(st, [a, b], lambda x, y: tkey(x) != tkey(y), tries)
    return False if w is not None and 'alternatives dropped' not in st.notes else None


def tidy(st, v):
    """replace what the facts of the state determine"""
    if isinstance(v, T):
        if v.op == 'byte' and isinstance(v.args[0], (T, P)):
            lo, hi = st.bounds(v.args[0])
            if lo is not None and lo == hi and 0 <= lo < 256:
                return K(bytes([lo]))
        elif v.op == 'cat':
            parts = [tidy(st, x) for x in v.args]
            if any(x is not y for x, y in zip(parts, v.args)):
                out = []
                for x in parts:
                    if isinstance(x, K) and out and isinstance(out[-1], K):
                        out[-1] = K(out[-1].v + x.v)
                    elif not (isinstance(x, K) and not x.v):
                        out.append(x)
                return out[0] if len(out) == 1 else T('cat', tuple(out), BYTES) if out else K(b'')
        elif v.op == 'sha3_256':
            x = tidy(st, v.args[0])
            if isinstance(x, K) and isinstance(x.v, bytes):
                return K(hashlib.sha3_256(x.v).digest())
            if x is not v.args[0]:
                return T(v.op, (x,), BYTES)
    return v


def over(st, f, most=128):
    """a judgement over the states which were joined"""
    out = True
    for i, s in enumerate(st.leaves()):
        if i >= most:
            return None
        r = f(s)
        if r is False:
            return False
        if r is None:
            out = None
    return out


def holds(st, lit, tries=3000):
    """is the boolean term true on every concretisation: True / False (definitely not) / None"""
    d = st.decide(lit)
    if d is True:
        return True
    if d is False:
        return False
    if not st.alts:
        d = st.tight().decide(lit)
        if d is not None:
            return d
    if st.alts:
        return over(st, lambda s: holds(s, lit, 500))
    w = witness(st, [lit], lambda x: not x, tries)
    return False if w is not None else None


for _fn in ('match', 'fullmatch', 'search'):
    setattr(Eval, 'o_re.' + _fn, lambda self, v, key: getattr(re, key[0])(key[1], key[2], *key[3]) is not None)


# ---------------------------------------------------------------------- paths the analysis is not sure of
UNMODELLED = ('unk', 'bi:', 'ext:', 'extm:', 'xm:', 'symm:', 'm:', 'cm:', 'new:', 'call', 'attr', 'attrsym', 'rec:', 'next', 'chain', 'zip', 'filter',
              'setop', 'hvf', 'range?', 'argspec', 'open', 'dir', 'sort', 'hasattr', 'enumof')
CURRENT = [None]            # the state under judgement
_seen = {}


def unmodelled(v):
    """whether a term contains the result of something the analysis has no model of"""
    r = _seen.get(v)
    if r is not None:
        return r
    if isinstance(v, T):
        op = v.op
        r = (op in UNMODELLED or ':' in op and op.split(':', 1)[0] + ':' in UNMODELLED or op[:2] == 'op' and len(op) > 2 and (not op[2].isalnum() or op[2].isupper())) \
            or any(unmodelled(x) for x in v.args if isinstance(x, Val))
    elif isinstance(v, Tup):
        r = any(unmodelled(x) for x in v.items)
    elif isinstance(v, P):
        r = any(unmodelled(a) for m, _ in v.terms for a in m if isinstance(a, Val))
    else:
        r = False
    _seen[v] = r
    return r


def doubtful(st):
    """a path taken because of a value the analysis has no model of need not exist"""
    if st is None:
        return False
    if 'loop bound' in st.notes:
        return True
    for d in (st.lit, st.ty, st.eqk, st.nek):
        for k in d:
            if isinstance(k, Val) and unmodelled(k):
                return True
    for d in (st.iv, st.ne):
        for k in d:
            for x in (k if isinstance(k, tuple) else (k,)):
                if isinstance(x, Val) and unmodelled(x) or isinstance(x, tuple) and any(isinstance(y, Val) and unmodelled(y) for y in x):
                    return True
    return False


# ---------------------------------------------------------------------- what a path admits
for _fn in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isidentifier', 'isnumeric', 'isdecimal', 'isascii',
            'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'casefold', 'zfill', 'swapcase', 'find', 'count', 'removeprefix', 'removesuffix'):
    if not hasattr(Eval, 'o_' + _fn):
        setattr(Eval, 'o_' + _fn, lambda self, v, s, *a, fn=_fn: getattr(s, fn)(*a))


def _ishex(self, v, s):
    try:
        bytes.fromhex(s)
        return True
    except ValueError:
        return False


Eval.o_ishex = _ishex


def admits(st, sym, value):
    """the path's facts about a symbol hold when it has the given value: True / False / None (a fact cannot be evaluated)"""
    e = Eval(st, random.Random(1))
    e.env[sym] = value
    out = True

    def about(t):
        ats = {x for x in atoms_of(t) if isinstance(x, T) and x.op == 'in'}
        return None if sym not in ats else len(ats) == 1

    def check(t, f):
        nonlocal out
        a = about(t)
        if a is None:
            return True
        if not a:
            out = None
            return True
        try:
            ok = f(e.ev(t))
        except Unk:
            out = None
            return True
        return bool(ok)
    if st.tset(sym).inter(TS([type(value).__name__])).empty():
        return False
    for t, val in st.lit.items():
        if not check(t, lambda x: bool(x) == val):
            return False
    for t, k in st.eqk.items():
        if not check(t, lambda x: type(x) is type(k.v) and x == k.v):
            return False
    for t, ks in st.nek.items():
        if not check(t, lambda x: not any(type(x) is type(getattr(k, 'v', k)) and x == getattr(k, 'v', k) for k in ks)):
            return False
    for form in list(st.iv) + [f for f in st.ne if f not in st.iv]:
        lo, hi = st.iv.get(form, (None, None))
        ks = st.ne.get(form, ())
        p = pnorm(dict(form))
        if isinstance(p, K):
            continue
        if not check(p, lambda x: not (lo is not None and x < lo or hi is not None and x > hi or x in ks)):
            return False
    return out


def at(st, sym, value, term):
    """the value of a term there, in a tuple; None if it cannot be evaluated"""
    e = Eval(st, random.Random(1))
    e.env[sym] = value
    try:
        return (e.ev(term),)
    except Unk:
        return None
