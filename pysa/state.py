"""Abstract state: heap, path facts (types, linear bounds, literals), trace of effects."""
from .values import *
from .values import _pdict

INF = None


def iadd(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[1] is None or b[1] is None else a[1] + b[1]
    return lo, hi


def iscale(a, k):
    if k == 0:
        return 0, 0
    lo = None if a[0] is None else a[0] * k
    hi = None if a[1] is None else a[1] * k
    return (lo, hi) if k > 0 else (hi, lo)


def imul(a, b):
    if a == (1, 1):
        return b
    if b == (1, 1):
        return a
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        return a[0] * b[0], (None if a[1] is None or b[1] is None else a[1] * b[1])
    if None in a or None in b:
        return None, None
    c = [x * y for x in a for y in b]
    return min(c), max(c)


def imulq(a, b):
    """a >= 0 times b of one sign"""
    if a[0] is not None and a[0] >= 0:
        if b[1] is not None and b[1] <= 0:
            r = imul(a, (-b[1], None if b[0] is None else -b[0]))
            return None if r[1] is None else -r[1], -r[0]
    return imul(a, b)


def imeet(a, b):
    lo = a[0] if b[0] is None else b[0] if a[0] is None else max(a[0], b[0])
    hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
    return lo, hi


class HObj:
    """heap object; treated as immutable (replaced on write)"""
    __slots__ = ('cls', 'fields', 'data')

    def __init__(self, cls, fields=None, data=None):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.data = data

    def setf(self, name, v):
        f = dict(self.fields)
        f[name] = v
        return HObj(self.cls, f, self.data)

    def delf(self, name):
        f = dict(self.fields)
        del f[name]
        return HObj(self.cls, f, self.data)

    def setd(self, data):
        return HObj(self.cls, self.fields, data)


class Ev:
    """one observable effect"""
    __slots__ = ('kind', 'args', 'where')

    def __init__(self, kind, args, where):
        self.kind = kind
        self.args = tuple(args)
        self.where = where

    def key(self):
        return self.kind, self.args

    def __repr__(self):
        return '%s%s' % (self.kind, tuple(self.args))


def i2blen(n):
    return ((n + (n < 0)).bit_length() + 8) // 8


class State:
    __slots__ = ('base', 'over', 'ty', 'iv', 'ne', 'eqk', 'nek', 'lit', 'trace', 'notes', 'node', 'branches', 'alts')

    def __init__(self):
        self.base = {}
        self.over = {}
        self.ty = {}
        self.iv = {}
        self.ne = {}
        self.eqk = {}
        self.nek = {}
        self.lit = {}
        self.trace = ()
        self.notes = frozenset()
        self.node = None
        self.branches = ()
        self.alts = ()          # disjunctions of facts left by joins: (side, side), a side is (facts, alternatives)

    def copy(self):
        n = State.__new__(State)
        n.base = self.base
        n.over = dict(self.over)
        n.ty = self.ty
        n.iv = self.iv
        n.ne = self.ne
        n.eqk = self.eqk
        n.nek = self.nek
        n.lit = self.lit
        n.trace = self.trace
        n.notes = self.notes
        n.node = self.node
        n.branches = self.branches
        n.alts = self.alts
        return n

    def freeze(self):
        """make the present heap the shared base"""
        b = dict(self.base)
        b.update(self.over)
        self.base = b
        self.over = {}

    # heap (functional: states are values, but writes are done on fresh copies by the interpreter)
    def get(self, ref):
        o = self.over.get(ref.id)
        return o if o is not None else self.base[ref.id]

    def has(self, ref):
        return ref.id in self.over or ref.id in self.base

    def put(self, ref, obj):
        n = self.copy()
        n.over[ref.id] = obj
        return n

    def with_trace(self, ev):
        n = self.copy()
        n.trace = self.trace + (ev,)
        return n

    def note(self, s):
        if s in self.notes:
            return self
        n = self.copy()
        n.notes = self.notes | {s}
        return n

    # -------------------------------------------------------------- type facts
    def tset(self, v):
        if isinstance(v, K):
            return TS([type(v.v).__name__])
        if isinstance(v, P):
            return INT
        if isinstance(v, Tup):
            return TS(['tuple'])
        if isinstance(v, T):
            t = v.ty if v.ty is not None else ANY
            f = self.ty.get(v)
            return t.inter(f) if f is not None else t
        return None

    def restrict(self, v, ts):
        """assume v's type in ts; None if impossible"""
        cur = self.tset(v)
        n = cur.inter(ts)
        if n.empty():
            return None
        if n == cur:
            return self
        s = self.copy()
        s.ty = dict(self.ty)
        s.ty[v] = n
        return s

    # -------------------------------------------------------------- bounds
    def atom_bounds(self, a):
        b = (None, None)
        if a.ty is not None and a.ty.subset(BOOL):
            b = (0, 1)
        elif a.op in ('len', 'bit_length'):
            b = (0, None)
            x = a.args[0]
            if a.op == 'len' and isinstance(x, T) and x.op == 'i2b':
                l, h = self.bounds0(x.args[0])
                b = (1, None if l is None or h is None else max(i2blen(l), i2blen(h)))
        elif a.op == 'byteat':
            b = (0, 255)
        elif a.op == 'mod' and isinstance(a.args[1], K) and a.args[1].v > 0:
            b = (0, a.args[1].v - 1)
        elif a.op == 'floordiv' and isinstance(a.args[1], K) and a.args[1].v > 0:
            l, h = self.bounds0(a.args[0])
            k = a.args[1].v
            b = (None if l is None else l // k, None if h is None else h // k)
        elif a.op == 'and' and isinstance(a.args[1], K) and a.args[1].v >= 0:
            b = (0, a.args[1].v)
        f = self.iv.get((((a,), 1),))
        if f is not None:
            b = imeet(b, f)
        return b

    def mono_bounds(self, m):
        b = (1, 1)
        for a in m:
            b = imul(b, self.atom_bounds(a))
        if len(m) == 1:
            return b
        f = self.iv.get(((m, 1),))
        return imeet(b, f) if f is not None else b

    def form_bounds0(self, form):
        b = (0, 0)
        for m, c in form:
            b = iadd(b, iscale(self.mono_bounds(m), c))
        f = self.iv.get(form)
        if f is not None:
            b = imeet(b, f)
        if len(form) >= 2 and (b[0] is None or b[1] is None):
            x = self.factored(form)
            if x is not None:
                b = imeet(b, x)
        return b

    def factored(self, form):
        """bounds of  a*(q) + rest  where the atom a occurs in several products"""
        seen = {}
        for m, c in form:
            if len(m) >= 2:
                for a in set(m):
                    seen[a] = seen.get(a, 0) + 1
        b = None
        for a, n in seen.items():
            if n < 2:
                continue
            q, rest, left = {}, (0, 0), []
            for m, c in form:
                if len(m) >= 2 and a in m:
                    l = list(m)
                    l.remove(a)
                    q[tuple(l)] = c
                else:
                    left.append((m, c))
                    rest = iadd(rest, iscale(self.mono_bounds(m), c))
            if len(left) >= 2 and len(left) < len(form) and None in rest:
                y = self.factored(tuple(left))
                if y is not None:
                    rest = imeet(rest, y)
            x = iadd(imulq(self.atom_bounds(a), self.bounds0(pnorm(q))), rest)
            b = x if b is None else imeet(b, x)
        return b

    def form_bounds(self, form):
        b = self.form_bounds0(form)
        if len(form) >= 2 and (b[0] is None or b[1] is None):
            fd = dict(form)
            for g, gb in self.iv.items():
                if len(g) < 2 or g == form:
                    continue
                if not any(m in fd for m, _ in g):
                    continue
                for sg in (1, -1):
                    r = dict(fd)
                    for m, c in g:
                        r[m] = r.get(m, 0) - sg * c
                    rp = pnorm(r)
                    rf, rc, rs, rg = split_const(rp)
                    if rf is None:
                        rb = (rc, rc)
                    elif len(rf) <= len(form):
                        rb = iadd(iscale(self.form_bounds0(rf), rs * rg), (rc, rc))
                    else:
                        continue
                    b = imeet(b, iadd(iscale(gb, sg), rb))
        return b

    def bounds(self, p):
        form, c, sign, g = split_const(p)
        if form is None:
            return c, c
        b = iscale(self.form_bounds(form), sign * g)
        return iadd(b, (c, c))

    def bounds0(self, p):
        form, c, sign, g = split_const(p)
        if form is None:
            return c, c
        return iadd(iscale(self.form_bounds0(form), sign * g), (c, c))

    def decide_le0(self, p):
        lo, hi = self.bounds(p)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        return None

    def decide_eq0(self, p):
        lo, hi = self.bounds(p)
        if lo == 0 and hi == 0:
            return True
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        form, c, sign, g = split_const(p)
        if form is not None:
            if c % g:
                return False
            if -c * sign // g in self.ne.get(form, ()):
                return False
        return None

    def _set_iv(self, form, b):
        cur = self.form_bounds(form)
        n = imeet(cur, b)
        ne = self.ne.get(form, ())
        lo, hi = n
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        s = self.copy()
        s.iv = dict(self.iv)
        s.iv[form] = (lo, hi)
        return s

    def assume_le0(self, p):
        """p <= 0"""
        form, c, sign, g = split_const(p)
        if form is None:
            return self if c <= 0 else None
        # sign*g*form + c <= 0
        if sign > 0:
            return self._set_iv(form, (None, (-c) // g))
        return self._set_iv(form, (-((-c) // g), None))

    def assume_eq0(self, p, val=True):
        form, c, sign, g = split_const(p)
        if form is None:
            return self if (c == 0) == val else None
        if c % g:
            return None if val else self
        k = -c * sign // g
        if val:
            if k in self.ne.get(form, ()):
                return None
            return self._set_iv(form, (k, k))
        s = self.copy()
        s.ne = dict(self.ne)
        s.ne[form] = frozenset(self.ne.get(form, frozenset())) | {k}
        lo, hi = self.form_bounds(form)
        if lo == k or hi == k:
            s.iv = dict(self.iv)
            if lo is not None:
                while lo in s.ne[form]:
                    lo += 1
            if hi is not None:
                while hi in s.ne[form]:
                    hi -= 1
            if lo is not None and hi is not None and lo > hi:
                return None
            s.iv[form] = (lo, hi)
        return s

    def feasible(self, rounds=4):
        """False if the linear facts contradict each other (bounds propagated between the forms)"""
        return self.propagate({}, rounds)

    def tight(self):
        """this state with the bounds of single terms tightened"""
        b = {}
        if not self.propagate(b, 4):
            return self
        s = self.copy()
        s.iv = dict(self.iv)
        for m, x in b.items():
            if len(m) == 1 and x != (None, None):
                f = ((m, 1),)
                s.iv[f] = imeet(s.iv.get(f, (None, None)), x)
        return s

    def propagate(self, b, rounds):

        def get(m):
            x = b.get(m)
            if x is None:
                x = b[m] = self.mono_bounds(m)
            return x

        def put(m, n):
            o = get(m)
            n = imeet(o, n)
            ne = self.ne.get(((m, 1),), ())
            lo, hi = n
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            n = (lo, hi)
            if n != o:
                b[m] = n
                ch[0] = True
            return not (lo is not None and hi is not None and lo > hi)
        forms = [(f, r) for f, r in self.iv.items()]
        for _ in range(rounds):
            ch = [False]
            for form, (lo, hi) in forms:
                tot = (0, 0)
                for m, c in form:
                    tot = iadd(tot, iscale(get(m), c))
                t = imeet(tot, (lo, hi))
                if t[0] is not None and t[1] is not None:
                    if t[0] > t[1]:
                        return False
                    if t[0] == t[1] and t[0] in self.ne.get(form, ()):
                        return False
                for m, c in form:
                    rest = (0, 0)
                    for n, d in form:
                        if n is not m:
                            rest = iadd(rest, iscale(get(n), d))
                    x = iadd((lo, hi), iscale(rest, -1))
                    if c > 0:
                        x = (None if x[0] is None else -((-x[0]) // c), None if x[1] is None else x[1] // c)
                    else:
                        x = (None if x[1] is None else -(x[1] // -c), None if x[0] is None else (-x[0]) // -c)
                    if not put(m, x):
                        return False
            for m in list(b):
                if len(m) < 2:
                    continue
                at = [get((a,)) for a in m]
                p = (1, 1)
                for x in at:
                    p = imul(p, x)
                if not put(m, p):
                    return False
                if len(m) == 2 and get(m) == (0, 0):
                    for i in (0, 1):
                        if at[i][0] is not None and at[i][0] >= 1 and not put((m[1 - i],), (0, 0)):
                            return False
            if not ch[0]:
                break
        return True

    def reduce(self, p):
        """p rewritten with the linear equalities known on this path"""
        from fractions import Fraction

        def fixed(items):
            out = {}
            for m, c in items:
                c = Fraction(c)
                left = []
                for a in m:
                    lo, hi = self.atom_bounds(a)
                    if lo is not None and lo == hi:
                        c *= lo
                    else:
                        left.append(a)
                left = tuple(left)
                out[left] = out.get(left, 0) + c
            return out
        rows = []
        for form, (lo, hi) in self.iv.items():
            if lo is not None and lo == hi:
                r = fixed(form)
                if lo:
                    r[()] = r.get((), 0) - lo
                rows.append(r)
        if not rows:
            return p
        d = fixed(_pdict(p).items())
        done = []
        for r in rows:
            for piv, q in done:
                k = r.get(piv)
                if k:
                    for m, c in q.items():
                        r[m] = r.get(m, 0) - k * c
            r = {m: c for m, c in r.items() if c}
            piv = next((m for m in sorted((m for m in r if m != ()), key=lambda m: (-len(m), tuple(-a.uid for a in m)))), None)
            if piv is None:
                continue
            k = r[piv]
            r = {m: c / k for m, c in r.items()}
            for i, (pv, q) in enumerate(done):
                k = q.get(piv)
                if k:
                    q = dict(q)
                    for m, c in r.items():
                        q[m] = q.get(m, 0) - k * c
                    done[i] = (pv, {m: c for m, c in q.items() if c})
            done.append((piv, r))
        for piv, q in done:
            k = d.get(piv)
            if k:
                for m, c in q.items():
                    d[m] = d.get(m, 0) - k * c
        d = {m: c for m, c in d.items() if c}
        l = 1
        for c in d.values():
            l = l * c.denominator
        return pnorm({m: int(c * l) for m, c in d.items()})

    # -------------------------------------------------------------- boolean literals
    def decide(self, t):
        """truth of a boolean term, or None"""
        if isinstance(t, K):
            return bool(t.v)
        if not isinstance(t, T):
            return None
        op = t.op
        if op == 'le0':
            return self.decide_le0(t.args[0])
        if op == 'eq0':
            return self.decide_eq0(t.args[0])
        if op == 'not':
            d = self.decide(t.args[0])
            return None if d is None else not d
        if op == 'isty':
            ts = self.tset(t.args[0])
            if ts is None:
                return None
            want = t.args[1]
            if ts.subset(want):
                return True
            if ts.inter(want).empty():
                return False
            return None
        if op == 'eqk':
            k = self.eqk.get(t.args[0])
            if k is not None:
                return k is t.args[1]
            if t.args[1] in self.nek.get(t.args[0], ()):
                return False
            lo, hi = self.bounds(T('len', (t.args[0],), INT)) if isinstance(t.args[1].v, (str, bytes)) else (None, None)
            if lo is not None and lo > len(t.args[1].v) or hi is not None and hi < len(t.args[1].v):
                return False
            ts = self.tset(t.args[0])
            if ts is not None and ts.inter(TS([type(t.args[1].v).__name__])).empty():
                return False
            return None
        if t in self.lit:
            return self.lit[t]
        b = self.iv.get((((t,), 1),))
        if b is not None:
            if b[0] == 1:
                return True
            if b[1] == 0:
                return False
        return None

    def assume(self, t, val):
        """assume a boolean term; None if contradictory"""
        if isinstance(t, K):
            return self if bool(t.v) == val else None
        d = self.decide(t)
        if d is not None:
            return self if d == val else None
        op = t.op
        if op == 'le0':
            if val:
                return self.assume_le0(t.args[0])
            return self.assume_le0(padd(K(1), pneg(t.args[0])))
        if op == 'eq0':
            return self.assume_eq0(t.args[0], val)
        if op == 'not':
            return self.assume(t.args[0], not val)
        if op == 'isty':
            return self.restrict(t.args[0], t.args[1] if val else t.args[1].comp())
        if op == 'eqk':
            s = self.copy()
            x, k = t.args
            if val:
                s.eqk = dict(self.eqk)
                s.eqk[x] = k
                s = s.restrict(x, TS([type(k.v).__name__]))
                if s is not None and isinstance(k.v, (str, bytes)):
                    s = s.assume_eq0(padd(T('len', (x,), INT), K(-len(k.v))))
                return s
            s.nek = dict(self.nek)
            s.nek[x] = frozenset(self.nek.get(x, frozenset())) | {k}
            if isinstance(k.v, (str, bytes)) and len(k.v) == 0:
                ts = s.tset(x)
                if ts is not None and ts.subset(TS([type(k.v).__name__])):
                    return s.assume_le0(padd(K(1), pneg(T('len', (x,), INT))))
            return s
        s = self.copy()
        s.lit = dict(self.lit)
        s.lit[t] = val
        return s

    # -------------------------------------------------------------- merging of facts
    def join_facts(self, o):
        """facts true in both"""
        n = self.copy()

        def same(a, b):
            if a is b:
                return a
            return {k: v for k, v in a.items() if k in b and b[k] == v}
        n.lit = same(self.lit, o.lit)
        n.eqk = same(self.eqk, o.eqk)
        if self.ty is not o.ty:
            n.ty = {}
            for k, v in self.ty.items():
                if k in o.ty:
                    n.ty[k] = v.union(o.ty[k])
        if self.iv is not o.iv:
            n.iv = {}
            for k in set(self.iv) | set(o.iv):
                a, b = self.form_bounds0(k), o.form_bounds0(k)
                lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
                hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
                if lo is not None or hi is not None:
                    n.iv[k] = (lo, hi)
        if self.ne is not o.ne:
            n.ne = {k: v & o.ne[k] for k, v in self.ne.items() if k in o.ne and v & o.ne[k]}
        if self.nek is not o.nek:
            n.nek = {k: v & o.nek[k] for k, v in self.nek.items() if k in o.nek and v & o.nek[k]}
        n.notes = self.notes | o.notes
        self.alternatives(o, n)
        return n

    def beyond(self, n, k):
        """facts of this state which n does not have"""
        out = []
        for f, b in self.iv.items():
            if n.iv.get(f) != b and imeet(n.form_bounds0(f), b) != n.form_bounds0(f):
                out.append(('iv', f, b))
        for f, ks in self.ne.items():
            if ks - n.ne.get(f, frozenset()):
                out.append(('ne', f, ks))
        for t, v in self.lit.items():
            if n.lit.get(t) != v:
                out.append(('lit', t, v))
        for t, v in self.eqk.items():
            if t not in n.eqk:
                out.append(('eqk', t, v))
        for t, ks in self.nek.items():
            if ks - n.nek.get(t, frozenset()):
                out.append(('nek', t, ks))
        for t, v in self.ty.items():
            if n.ty.get(t) != v:
                out.append(('ty', t, v))
        return tuple(out), self.alts[k:]

    def alternatives(self, o, n):
        k = 0
        while k < len(self.alts) and k < len(o.alts) and self.alts[k] == o.alts[k]:
            k += 1
        a, b = self.beyond(n, k), o.beyond(n, k)
        n.alts = self.alts[:k]
        if a == ((), ()) or b == ((), ()):
            # the other one adds nothing: every concretisation of it is one of this
            return
        n.alts += ((a, b),)
        if len(n.alts) > 48:
            n.alts = n.alts[-48:]
            n.notes = n.notes | {'alternatives dropped'}

    def taking(self, side):
        facts, alts = side
        s = self
        for kind, t, v in facts:
            if kind == 'iv':
                s = s._set_iv(t, v)
            elif kind == 'ne':
                s = s.copy()
                s.ne = dict(s.ne)
                s.ne[t] = frozenset(s.ne.get(t, frozenset())) | v
            elif kind == 'lit':
                s = s.assume(t, v)
            elif kind == 'eqk':
                s = s.assume(T('eqk', (t, v), BOOL), True)
            elif kind == 'nek':
                for x in v:
                    s = s.assume(T('eqk', (t, x), BOOL), False)
                    if s is None:
                        return None
            else:
                s = s.restrict(t, v)
            if s is None:
                return None
        if alts:
            s = s.copy()
            s.alts = s.alts + alts
        return s

    def leaves(self):
        """the states this one was joined from, as far as they are consistent with what is known now"""
        todo = [self]
        while todo:
            s = todo.pop()
            if not s.alts:
                yield s
                continue
            last = s.alts[-1]
            r = s.copy()
            r.alts = s.alts[:-1]
            for side in last:
                x = r.taking(side)
                if x is not None and x.feasible():
                    todo.append(x)

    def possible(self, limit=2000):
        if not self.feasible():
            return False
        if not self.alts:
            return True
        for s in self.leaves():
            return True
        return False
