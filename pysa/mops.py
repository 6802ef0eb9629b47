"""Operators, comparisons and subscripts."""
import operator
from .values import *
from .state import *
from .mcore import *

OPF = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
       'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift, 'RShift': operator.rshift, 'BitOr': operator.or_,
       'BitAnd': operator.and_, 'BitXor': operator.xor}
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
          'LShift': 'lshift', 'RShift': 'rshift', 'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor'}
CMPF = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}
CMPD = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
CMPR = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}


NOTIMPL = Ext('NotImplemented')
ABSTYPES = ('ga', 'ut', 'fwdref')


def canon(t):
    """generic types are equal when their arguments are; those of a union in any order"""
    if isinstance(t, T) and t.op == 'ga':
        xs = tuple(canon(x) for x in t.args[1].items) if isinstance(t.args[1], Tup) else (t.args[1],)
        return (t.args[0], frozenset(xs) if t.args[0] is Ext('typing.Union') else xs)
    if isinstance(t, T) and t.op == 'ut':
        return (Ext('typing.Union'), frozenset(canon(x) for x in t.args[0].items))
    return t


class Ops:
    # ------------------------------------------------------------------ arithmetic
    def augop(self, st, op, a, b):
        if isinstance(a, Ref) and op == 'Add':
            o = st.get(a)
            if isinstance(o.data, tuple) and o.data[0] in ('list', 'sym') and not isinstance(o.cls, Ref):
                return [(s, a if not israise(v) else v) for s, v in self.m_list_extend(st, a, [b], {})]
        if isinstance(a, Ref) and isinstance(st.get(a).cls, Ref):
            f = self.class_lookup(st, st.get(a).cls, '__i%s__' % DUNDER[op]) if op in DUNDER else None
            if f is not None:
                return self.I.call(st, BM(f, a), [b], {})
        return self.binop(st, op, a, b)

    def binop(self, st, op, a, b):
        I = self.I
        # enum flags
        for x in (a, b):
            if isinstance(x, Ref) and self.is_enum_member(st, x):
                r = self.flagop(st, op, a, b)
                if r is not None:
                    return r
        # user operators
        if isinstance(a, Ref) and isinstance(st.get(a).cls, Ref):
            f = self.class_lookup(st, st.get(a).cls, '__%s__' % DUNDER.get(op, op))
            if f is not None:
                return I.call(st, BM(f, a), [b], {})
        if isinstance(b, Ref) and isinstance(st.get(b).cls, Ref):
            f = self.class_lookup(st, st.get(b).cls, '__r%s__' % DUNDER.get(op, op))
            if f is not None:
                return I.call(st, BM(f, b), [a], {})
        # unions of types
        if op == 'BitOr' and self.is_typeish(st, a) and self.is_typeish(st, b):
            return [(st, self.mkunion([a, b], 'ut'))]
        if isinstance(a, K) and isinstance(b, K):
            r = self.fold(st, OPF[op], [a, b]) if not (op == 'Pow' and isinstance(b.v, int) and b.v > 5000) else None
            if r is not None:
                return r
        x, y = self.as_int(st, a), self.as_int(st, b)
        if x is not None and y is not None:
            return self.intop(st, op, x, y)
        # sequences
        ka, kb_ = self.kindof(st, a), self.kindof(st, b)
        if op == 'Add':
            if ka == kb_ == 'str':
                return [(st, self.cat([a, b], str, st))]
            if ka == kb_ == 'bytes':
                return [(st, self.cat([a, b], bytes, st))]
            if ka == kb_ == 'tuple' and isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            if ka == kb_ == 'list':
                ia, ib = self.items_of(st, a), self.items_of(st, b)
                if ia is not None and ib is not None:
                    return [I.new_list(st, ia + ib)]
                st, r = I.alloc(st, HObj(LISTT, {}, ('sym', T('lcat', (self.freeze(st, a), self.freeze(st, b)), TS(['list'])))))
                return [(st, r)]
        if op == 'Mult':
            for p, q in ((a, y), (b, x)):
                if q is not None:
                    it = None
                    if isinstance(q, K):
                        if isinstance(p, Tup):
                            return [(st, Tup(p.items * q.v))]
                        if isinstance(p, Ref) and isinstance(st.get(p).data, tuple) and st.get(p).data[0] == 'list':
                            return [I.new_list(st, st.get(p).data[1] * q.v)]
                    kp = self.kindof(st, p)
                    if kp in ('str', 'bytes'):
                        return [(st, T('repeat', (p, q), STR if kp == 'str' else BYTES))]
        if op == 'Mod' and ka == 'str':
            return [(st, T('format', (a, self.freeze(st, b)), STR))]
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and ka in ('set', 'dict') and ka == kb_:
            r = self.setop(st, op, a, b, ka)
            if r is not None:
                return r
            if ka == 'set' or op == 'BitOr':
                return [(st.note('set of unknown'), T('setop', (K(op), self.freeze(st, a), self.freeze(st, b)), TS([ka])))]
        # floats
        if ka == 'float' or kb_ == 'float':
            if (ka in ('float', 'int', 'bool')) and (kb_ in ('float', 'int', 'bool')):
                if x is not None and op in ('Div',):
                    pass
                return [(st, T('f' + op, (a if x is None else x, b if y is None else y), FLOAT))]
        # unknown operand types: the integer case, and a type error
        if ka is None or kb_ is None:
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            self.I.stats['opaque'].add('operator %s on unknown types at %s' % (op, I.where()))
            out = [(st.note('operator on unknown types'), T('op' + op, (fa, fb)))]
            sa = st
            for q in (a, b):
                if isinstance(q, T) and sa is not None:
                    sa = sa.restrict(q, INTS)
            if sa is not None and all(self.as_int(sa, q) is not None for q in (a, b)):
                out = self.intop(sa, op, self.as_int(sa, a), self.as_int(sa, b))
            return out + I.exc(st, TypeError, 'unsupported operand')
        return I.exc(st, TypeError, 'unsupported operand type(s) for %s' % op)

    def kindof(self, st, v):
        """name of the built-in type, 'object' for others, None if unknown"""
        if isinstance(v, T):
            ts = st.tset(v)
            s = ts.single()
            if s:
                return s
            if ts.subset(INTS):
                return 'int'
            if not ts.neg and ts.s and not (ts.s & {'int', 'bool', 'float', 'str', 'bytes', 'list', 'tuple', 'set', 'dict'}):
                return 'object'
            return None
        if isinstance(v, K):
            return type(v.v).__name__
        if isinstance(v, P):
            return 'int'
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o.data, tuple) and o.data[0] in ('list', 'set', 'dict'):
                return o.data[0]
            if isinstance(o.cls, Ty):
                return o.cls.t.__name__
        return 'object'

    def intop(self, st, op, x, y):
        I = self.I
        if isinstance(x, K) and isinstance(y, K):
            r = self.fold(st, OPF[op], [x, y])
            if r is not None:
                return r
        if op == 'Add':
            return [(st, padd(x, y))]
        if op == 'Sub':
            return [(st, padd(x, y, -1))]
        if op == 'Mult':
            return [(st, pmul(x, y))]
        if op in ('FloorDiv', 'Mod', 'Div'):
            out = []
            if not isinstance(y, K):
                res = I.fork(st, self.eq0(y))
            else:
                res = [(st, y.v == 0)]
            for s, z in res:
                if z:
                    out.extend(I.exc(s, ZeroDivisionError, 'division by zero'))
                elif op == 'FloorDiv':
                    out.append((s, self.floordiv(s, x, y)))
                elif op == 'Mod':
                    out.append((s, self.mod(s, x, y)))
                else:
                    out.append((s, T('truediv', (x, y), FLOAT)))
            return out
        if op == 'BitAnd':
            if isinstance(x, K):
                x, y = y, x
            if isinstance(y, K):
                if y.v == 0:
                    return [(st, K(0))]
                lo, hi = st.bounds(x)
                if y.v > 0 and (y.v + 1) & y.v == 0:
                    if lo is not None and lo >= 0 and hi is not None and hi <= y.v:
                        return [(st, x)]
            return [(st, T('and', (x, y), INT))]
        if op == 'BitOr':
            if isinstance(x, K):
                x, y = y, x
            if isinstance(y, K) and y.v == 0:
                return [(st, x)]
            return [(st, T('or', (x, y), INT))]
        if op == 'BitXor':
            return [(st, T('xor', (x, y), INT))]
        if op == 'LShift':
            if isinstance(y, K) and 0 <= y.v < 4096:
                return [(st, pmul(x, K(1 << y.v)))]
            return [(st, T('lshift', (x, y), INT))]
        if op == 'RShift':
            if isinstance(y, K) and 0 <= y.v < 4096:
                return [(st, self.floordiv(st, x, K(1 << y.v)))]
            return [(st, T('rshift', (x, y), INT))]
        if op == 'Pow':
            if isinstance(y, K) and 0 <= y.v <= 4:
                r = K(1)
                for _ in range(y.v):
                    r = pmul(r, x)
                return [(st, r)]
            return [(st, T('pow', (x, y), INT))]
        return [(st, T('op' + op, (x, y)))]

    def setop(self, st, op, a, b, kind):
        ia, ib = self.items_of(st, a), self.items_of(st, b)
        if ia is None or ib is None:
            return None
        if kind == 'dict':
            if op != 'BitOr':
                return None
            d = dict(self.dict_entries(st, a))
            d.update(dict(self.dict_entries(st, b)))
            return [self.I.new_dict(st, d.items())]

        unsure = []

        def has(seq, x):
            rs = [self.eq3(st, x, y) for y in seq]
            if True not in rs and None in rs:
                unsure.append(x)
            return True in rs
        if op == 'BitOr':
            r = ia + [x for x in ib if not has(ia, x)]
        elif op == 'BitAnd':
            r = [x for x in ia if has(ib, x)]
        elif op == 'Sub':
            r = [x for x in ia if not has(ib, x)]
        else:
            r = [x for x in ia if not has(ib, x)] + [x for x in ib if not has(ia, x)]
        if unsure:
            return [(st.note('set of unknown'), T('setop', (K(op), self.freeze(st, a), self.freeze(st, b)), TS(['set'])))]
        return [self.I.new_set(st, r)]

    def eq3(self, st, a, b):
        """True / False / None: whether two values are equal, without forking"""
        if a is b:
            return True
        if isinstance(a, (T, P)) or isinstance(b, (T, P)):
            ta, tb = st.tset(a), st.tset(b)
            num = TS(['int', 'bool', 'float'])
            if ta.inter(tb).empty() and (ta.inter(num).empty() or tb.inter(num).empty()):
                return False
            return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [self.eq3(st, x, y) for x, y in zip(a.items, b.items)]
            return False if False in rs else None if None in rs else True
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(st.get(x).cls, Ref) and not self.is_enum_member(st, x) and self.class_lookup(st, st.get(x).cls, '__eq__') is not None:
                return None
        return self.eq_const(st, a, b)

    def eq_const(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if isinstance(a, Ref) and isinstance(b, Ref) and self.is_enum_member(st, a) and self.is_enum_member(st, b):
            oa, ob = st.get(a), st.get(b)
            return oa.cls is ob.cls and oa.fields['_value_'] is ob.fields['_value_']
        return False

    # ------------------------------------------------------------------ comparison
    def compare(self, st, op, a, b):
        I = self.I
        if op == 'Is' or op == 'IsNot':
            r = self.is_(st, a, b)
            if op == 'IsNot':
                r = [(s, self.neg(v)) for s, v in r]
            return r
        if op == 'Eq':
            return self.eq(st, a, b)
        if op == 'NotEq':
            if isinstance(a, Ref) and isinstance(st.get(a).cls, Ref) and not self.is_enum_member(st, a):
                f = self.class_lookup(st, st.get(a).cls, '__ne__')
                if f is not None:
                    return [(s, kb(a is not b) if v is NOTIMPL else v) for s, v in I.call(st, BM(f, a), [b], {})]
            out = []
            for s, v in self.eq(st, a, b):
                if israise(v):
                    out.append((s, v))
                elif isinstance(v, (K, T)) and (isinstance(v, K) or v.ty is not None and v.ty.subset(BOOL)):
                    out.append((s, self.neg(v)))
                else:
                    out.extend((s2, t if israise(t) else kb(not t)) for s2, t in I.truth(s, v))
            return out
        if op in ('In', 'NotIn'):
            out = []
            if isinstance(b, Ext) and I.impure and impure_name(b.path):
                v = T('impure', (K(b.path), self.freeze(st, a)), BOOL)
                return [(st, v if op == 'In' else self.neg(v))]
            for s, v in self.contains(st, b, a):
                if israise(v) or op == 'In':
                    out.append((s, v))
                else:
                    out.append((s, self.neg(v)))
            return out
        # ordering
        if isinstance(a, K) and isinstance(b, K):
            r = self.fold(st, CMPF[op], [a, b])
            if r is not None:
                return r
        x, y = self.as_int(st, a), self.as_int(st, b)
        if x is not None and y is not None:
            t = {'Lt': lambda: self.lt(x, y), 'LtE': lambda: self.le(x, y), 'Gt': lambda: self.lt(y, x),
                 'GtE': lambda: self.le(y, x)}[op]()
            return [(st, self.dec(st, t))]
        if isinstance(a, Ref) and isinstance(st.get(a).cls, Ref):
            f = self.class_lookup(st, st.get(a).cls, CMPD[op])
            if f is not None:
                return self.notimpl(I.call(st, BM(f, a), [b], {}))
        if isinstance(b, Ref) and isinstance(st.get(b).cls, Ref):
            f = self.class_lookup(st, st.get(b).cls, CMPR[op])
            if f is not None:
                return self.notimpl(I.call(st, BM(f, b), [a], {}))
        ka, kb_ = self.kindof(st, a), self.kindof(st, b)
        if ka == kb_ and ka in ('str', 'bytes', 'tuple', 'list'):
            if op in ('Gt', 'GtE'):
                a, b = b, a
            t = T('slt' if op in ('Lt', 'Gt') else 'sle', (self.freeze(st, a), self.freeze(st, b)), BOOL)
            return [(st, self.dec(st, t))]
        if 'float' in (ka, kb_) and {ka, kb_} <= {'float', 'int', 'bool'}:
            return [(st, T('f' + op, (a, b), BOOL))]
        if ka is None or kb_ is None:
            sa = st
            for q in (a, b):
                if isinstance(q, T) and sa is not None:
                    sa = sa.restrict(q, INTS)
            out = []
            if sa is not None and self.as_int(sa, a) is not None and self.as_int(sa, b) is not None:
                out = self.compare(sa, op, a, b)
            else:
                out = [(st, T('c' + op, (self.freeze(st, a), self.freeze(st, b)), BOOL))]
            return out + I.exc(st, TypeError, 'not supported between instances')
        return I.exc(st, TypeError, "'%s' not supported between instances of %s and %s" % (op, ka, kb_))

    def notimpl(self, res):
        out = []
        for s, v in res:
            if v is NOTIMPL:
                out.extend(self.I.exc(s, TypeError, 'not supported between instances'))
            else:
                out.append((s, v))
        return out

    def is_(self, st, a, b):
        if a is b:
            return [(st, TRUE)]
        if isinstance(b, K) and b.v is None:
            a, b = b, a
        if isinstance(a, K) and a.v is None:
            if isinstance(b, T) and b.op not in ('ga', 'super', 'fwdref', 'ut'):
                return [(st, self.dec(st, T('isty', (b, NONET), BOOL)))]
            return [(st, FALSE)]
        if isinstance(a, K) and isinstance(b, K):
            return [(st, kb(type(a.v) is type(b.v) and a.v == b.v))]
        if isinstance(a, T) and a.op == 'typeof' or isinstance(b, T) and b.op == 'typeof':
            return self.eq(st, a, b)
        if isinstance(a, T) and isinstance(b, K):
            a, b = b, a
        if isinstance(a, K) and isinstance(b, T):
            if isinstance(a.v, bool):
                ts = st.tset(b)
                if ts.subset(BOOL):
                    return [(st, b if a.v else self.neg(b))]
                out = []
                s = st.restrict(b, BOOL)
                if s is not None:
                    t = T('eqk', (b, a), BOOL)
                    out.append((s, t))
                s = st.restrict(b, BOOL.comp())
                if s is not None:
                    out.append((s, FALSE))
                return out
            return self.eq(st, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if self.eq_const(st, a, b):
                return [(st, TRUE)]
            return [(st, FALSE)]
        if isinstance(a, T) and isinstance(b, T):
            return [(st, T('is', tuple(sorted((a, b), key=lambda x: x.uid)), BOOL))]
        return [(st, FALSE)]

    def and_all(self, st, gens):
        """lazy conjunction; gens: list of functions st -> results of boolean values"""
        cur = [(st, TRUE)]
        for g in gens:
            nxt = []
            for s, v in cur:
                if v is FALSE or israise(v):
                    nxt.append((s, v))
                    continue
                for s2, c in g(s):
                    if israise(c):
                        nxt.append((s2, c))
                    else:
                        for s3, b in self.I.truth(s2, c):
                            nxt.append((s3, b if israise(b) else kb(b)))
            cur = nxt
        return cur

    def eq(self, st, a, b):
        I = self.I
        if a is b and not isinstance(a, Ref):
            return [(st, TRUE)]
        if isinstance(a, K) and isinstance(b, K):
            try:
                return [(st, kb(a.v == b.v))]
            except Exception:
                return [(st, FALSE)]
        # user classes
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                o = st.get(x)
                if isinstance(o.cls, Ref) and not self.is_enum_member(st, x):
                    f = self.class_lookup(st, o.cls, '__eq__')
                    if f is not None:
                        return [(s, kb(a is b) if v is NOTIMPL else v) for s, v in I.call(st, BM(f, x), [y], {})]
        if isinstance(a, T) and isinstance(b, T) and a.op in ABSTYPES and b.op in ABSTYPES:
            return [(st, kb(canon(a) == canon(b)))]
        x, y = self.as_int(st, a), self.as_int(st, b)
        if x is not None and y is not None:
            return [(st, self.dec(st, self.eq0(padd(x, y, -1))))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a is b:
                return [(st, TRUE)]
            oa, ob = st.get(a), st.get(b)
            if self.is_enum_member(st, a) or self.is_enum_member(st, b):
                return [(st, kb(self.eq_const(st, a, b)))]
            da, db = oa.data, ob.data
            if isinstance(da, tuple) and isinstance(db, tuple) and da[0] in ('list', 'set', 'dict', 'sym') and db[0] in ('list', 'set', 'dict', 'sym'):
                if da[0] == db[0] == 'list':
                    if len(da[1]) != len(db[1]):
                        return [(st, FALSE)]
                    return self.and_all(st, [lambda s, p=p, q=q: self.eq(s, p, q) for p, q in zip(da[1], db[1])])
                if da[0] == db[0] == 'dict':
                    if len(da[1]) != len(db[1]):
                        return [(st, FALSE)]
                    d2 = dict(db[1])
                    if set(dict(da[1])) != set(d2):
                        return [(st, FALSE)]
                    return self.and_all(st, [lambda s, p=p, q=d2[k]: self.eq(s, p, q) for k, p in da[1]])
                fa, fb = self.freeze(st, a), self.freeze(st, b)
                return [(st, kb(True) if fa is fb else T('eq', tuple(sorted((fa, fb), key=lambda z: z.uid)), BOOL))]
            return [(st, FALSE)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(st, FALSE)]
            return self.and_all(st, [lambda s, p=p, q=q: self.eq(s, p, q) for p, q in zip(a.items, b.items)])
        if isinstance(b, T) and b.op == 'typeof':
            a, b = b, a
        if isinstance(a, T) and a.op == 'typeof':
            if isinstance(b, Ty):
                return [(st, self.dec(st, T('isty', (a.args[0], TS([b.t.__name__])), BOOL)))]
            if isinstance(b, Ref) and self.is_class(st, b):
                return [(st, self.dec(st, T('isty', (a.args[0], TS([self.clsname(st, b)])), BOOL)))]
        if isinstance(a, (Ty, Ext, Bi, BiM, BM)) or isinstance(b, (Ty, Ext, Bi, BiM, BM)):
            if isinstance(a, T) and a.op not in ('ga', 'ut', 'fwdref') or isinstance(b, T) and b.op not in ('ga', 'ut', 'fwdref'):
                fa, fb = self.freeze(st, a), self.freeze(st, b)
                t = a if isinstance(a, T) else b
                ts = st.tset(t)
                if not ts.neg and ts.subset(TS(list(LEAVES))):
                    return [(st, FALSE)]
                return [(st, T('eq', tuple(sorted((fa, fb), key=lambda z: z.uid)), BOOL))]
            return [(st, FALSE)]
        if isinstance(a, T) and isinstance(b, K):
            a, b = b, a
        if isinstance(a, K) and isinstance(b, T):
            k = a
            if b.op in ('ga', 'ut', 'fwdref'):
                return [(st, FALSE)]
            if k.v is None:
                return [(st, self.dec(st, T('isty', (b, NONET), BOOL)))]
            ts = st.tset(b)
            if isinstance(k.v, (str, bytes)):
                if ts.inter(TS([type(k.v).__name__])).empty():
                    return [(st, FALSE)]
                r = self.eq_struct(st, b, k)
                if r is not None:
                    return [(st, r)]
                return [(st, self.dec(st, T('eqk', (b, k), BOOL)))]
            if isinstance(k.v, (int, bool)):
                if ts.inter(TS(['int', 'bool', 'float'])).empty():
                    return [(st, FALSE)]
                out = []
                s = st.restrict(b, INTS)
                if s is not None:
                    out.extend(self.eq(s, k, b))
                s = st.restrict(b, INTS.comp())
                if s is not None:
                    out.append((s, FALSE))
                return out
            return [(st, T('eq', tuple(sorted((a, b), key=lambda z: z.uid)), BOOL))]
        if isinstance(a, T) and isinstance(b, T):
            ta, tb = st.tset(a), st.tset(b)
            i = ta.inter(tb)
            if i.empty() and ta.inter(INTS).empty():
                return [(st, FALSE)]
            if i.empty() and tb.inter(INTS).empty():
                return [(st, FALSE)]
            ka, kb2 = st.eqk.get(a), st.eqk.get(b)
            if ka is not None:
                return self.eq(st, ka, b)
            if kb2 is not None:
                return self.eq(st, a, kb2)
            return [(st, self.dec(st, T('eq', tuple(sorted((a, b), key=lambda z: z.uid)), BOOL)))]
        if isinstance(a, Ref) or isinstance(b, Ref):
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            if isinstance(o, T) and o.op not in ('ga', 'ut', 'fwdref'):
                ts = st.tset(o)
                if not ts.neg and ts.subset(TS(['int', 'bool', 'str', 'bytes', 'NoneType', 'float'])):
                    return [(st, FALSE)]
                fa, fb = self.freeze(st, a), self.freeze(st, b)
                if fa is fb:
                    return [(st, TRUE)]
                return [(st, T('eq', tuple(sorted((fa, fb), key=lambda z: z.uid)), BOOL))]
        return [(st, FALSE)]

    def eq_struct(self, st, t, k):
        """equality of a structured term and a constant, when it can be narrowed"""
        lo, hi = st.bounds(self.length(st, t))
        if lo is not None and lo > len(k.v) or hi is not None and hi < len(k.v):
            return FALSE
        if t.op == 'i2b':
            if len(k.v) and k.v == int.from_bytes(k.v, 'big', signed=True).to_bytes(len(k.v), 'big', signed=True):
                n = int.from_bytes(k.v, 'big', signed=True)
                if minlen(n) == len(k.v):
                    return self.dec(st, self.eq0(padd(t.args[0], K(-n))))
            return FALSE
        if t.op == 'encode' and isinstance(k.v, bytes):
            try:
                return self.dec(st, T('eqk', (t.args[0], K(k.v.decode())), BOOL))
            except UnicodeDecodeError:
                return FALSE
        if t.op == 'slice' and isinstance(k.v, bytes) and len(k.v) == 1 and t.args[1] is K(0) and t.args[2] is K(1):
            return self.dec(st, self.eq0(padd(T('byteat', (t.args[0], K(0)), INT), K(-k.v[0]))))
        return None

    def contains(self, st, c, x):
        I = self.I
        if isinstance(c, Ref):
            o = st.get(c)
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__contains__')
                if f is not None:
                    return I.bind(I.call(st, BM(f, c), [x], {}),
                                  lambda s, v: [(s2, b if israise(b) else kb(b)) for s2, b in I.truth(s, v)])
                if not isinstance(o.data, tuple):
                    if self.enum_kind(st, o.cls) in ('Flag', 'IntFlag'):
                        return I.bind(self.flagop(st, 'BitAnd', c, x), lambda s, v: self.eq(s, v, x))
                    out = []
                    for s, items in I.iterate_all(c, st):
                        if israise(items):
                            out.append((s, items))
                        elif items is None:
                            out.append((s, T('in', (K('contains'), self.freeze(s, x), self.freeze(s, c)), BOOL)))
                        else:
                            out.extend(self.in_items(s, items, x))
                    return out
            if self.is_class(st, c) and self.is_enum_class(st, c):
                return self.in_items(st, self.enum_members(st, c), x)
        items = self.items_of(st, c)
        if isinstance(c, K) and isinstance(c.v, (str, bytes)):
            if isinstance(x, K):
                r = self.fold(st, lambda p, q: q in p, [c, x])
                if r is not None:
                    return r
            return [(st, T('insub', (c, self.freeze(st, x)), BOOL))]
        if isinstance(c, T) and st.tset(c).subset(TS(['str', 'bytes'])):
            return [(st, self.dec(st, T('insub', (c, self.freeze(st, x)), BOOL)))]
        if isinstance(c, T) and c.op == 'range' and abs(c.args[2].v) == 1:
            n = self.as_int(st, x)
            if n is not None:
                lo, hi, step = c.args
                if isinstance(n, K) and isinstance(lo, K) and isinstance(hi, K):
                    return [(st, kb(n.v in range(lo.v, hi.v, step.v)))]
                out = []
                for s, b in I.fork(st, self.before(n, hi, step)):
                    if not b:
                        out.append((s, FALSE))
                    else:
                        out.append((s, self.dec(s, self.neg(self.before(n, lo, step)))))
                return out
        if items is not None:
            return self.in_items(st, items, x)
        if isinstance(c, (K, P)):
            return I.exc(st, TypeError, 'argument is not iterable')
        if isinstance(c, T) and c.op == 'range':
            st = st.note('membership of a range')
        return [(st, self.dec(st, T('member', (self.freeze(st, c), self.freeze(st, x)), BOOL)))]

    def in_items(self, st, items, x):
        out = []
        cur = [st]
        lits = []
        for it in items:
            nxt = []
            for s in cur:
                for s2, c in self.eq(s, it, x) if it is not x else [(s, TRUE)]:
                    if israise(c):
                        out.append((s2, c))
                        continue
                    for s3, b in self.I.truth(s2, c):
                        if israise(b):
                            out.append((s3, b))
                        elif b:
                            out.append((s3, TRUE))
                        else:
                            nxt.append(s3)
            cur = nxt
            if not cur:
                return out
        return out + [(s, FALSE) for s in cur]

    # ------------------------------------------------------------------ subscripts
    def find_key(self, st, pairs, k):
        """-> [(st, index or None | Raise)]"""
        out = []
        cur = [st]
        for i, (kk, _) in enumerate(pairs):
            if kk is k:
                # exact key
                if isinstance(k, K) or isinstance(k, Ref) or len(pairs) == 1 or all(not isinstance(q, T) for q, _ in pairs[:i]):
                    if not any(isinstance(q, (T, P)) for q, _ in pairs[:i]) and not isinstance(k, (T, P)):
                        return [(s, i) for s in cur]
        for i, (kk, _) in enumerate(pairs):
            nxt = []
            for s in cur:
                if kk is k:
                    out.append((s, i))
                    continue
                if isinstance(kk, K) and isinstance(k, K):
                    if kk.v == k.v:
                        out.append((s, i))
                    else:
                        nxt.append(s)
                    continue
                for s2, c in self.eq(s, kk, k):
                    if israise(c):
                        out.append((s2, c))
                        continue
                    for s3, b in self.I.truth(s2, c):
                        if israise(b):
                            out.append((s3, b))
                        elif b:
                            out.append((s3, i))
                        else:
                            nxt.append(s3)
            cur = nxt
            if not cur:
                return out
        return out + [(s, None) for s in cur]

    def unhashable(self, st, k):
        if isinstance(k, Ref):
            o = st.get(k)
            if isinstance(o.data, tuple) and o.data[0] in ('list', 'dict', 'set', 'sym') and not isinstance(o.cls, Ref):
                return True
            if isinstance(o.cls, Ref) and not self.is_enum_member(st, k):
                e = self.mro_find(st, o.cls, '__eq__')
                h = self.mro_find(st, o.cls, '__hash__')
                if e is not None and (h is None or h[0] > e[0]):
                    return True
        if isinstance(k, Tup):
            return any(self.unhashable(st, x) for x in k.items)
        return False

    def getitem(self, st, v, k):
        I = self.I
        if isinstance(v, Ref):
            o = st.get(v)
            if self.is_class(st, v):
                if self.is_enum_class(st, v) and not isinstance(k, Tup):
                    out = []
                    ms = [(st.get(m).fields['_name_'], m) for m in self.enum_members(st, v, True)]
                    for s, i in self.find_key(st, ms, k):
                        if israise(i):
                            out.append((s, i))
                        elif i is None:
                            out.extend(I.exc(s, KeyError, k))
                        else:
                            out.append((s, ms[i][1]))
                    return out
                return [(st, T('ga', (v, k if isinstance(k, Tup) else Tup((k,)))))]
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__getitem__')
                if f is not None:
                    return I.call(st, BM(f, v), [k], {})
            return self.raw_getitem(st, v, k)
        if isinstance(v, Ext):
            if I.impure and impure_name(v.path):
                return [(st, T('impure', (K(v.path), self.freeze(st, k))))]
            return [(st, self.generic(st, v, k))]
        if isinstance(v, Ty):
            return [(st, T('ga', (v, k if isinstance(k, Tup) else Tup((k,)))))]
        if isinstance(v, Tup):
            return self.seq_getitem(st, v, list(v.items), k)
        if isinstance(v, K):
            r = self.fold(st, lambda a, b: a[b], [v, k])
            if r is not None:
                return r
            if isinstance(v.v, (str, bytes)):
                return self.seq_getitem(st, v, self.items_of(st, v), k)
            return I.exc(st, TypeError, 'object is not subscriptable')
        if isinstance(v, P):
            return I.exc(st, TypeError, "'int' object is not subscriptable")
        if isinstance(v, T):
            if v.op == 'ga':
                return [(st, T('ga', (v.args[0], k if isinstance(k, Tup) else Tup((k,)))))]
            if v.op in ('list',):
                return self.seq_getitem(st, v, list(v.args), k)
            if v.op == 'dict':
                return self.dict_get(st, v, [tuple(x.items) for x in v.args], k)
            ts = st.tset(v)
            if ts.subset(TS(['int', 'bool', 'NoneType', 'float'])):
                return I.exc(st, TypeError, 'object is not subscriptable')
            n = self.as_int(st, k)
            if n is not None and v.op == 'range':
                out = []
                for s, ln in self.range_len(st, v):
                    for s1, neg in I.fork(s, self.lt(n, K(0))):
                        m = padd(n, ln) if neg else n
                        for s2, low in I.fork(s1, self.lt(m, K(0))):
                            if low:
                                out.extend(I.exc(s2, IndexError, 'range object index out of range'))
                                continue
                            for s3, b in I.fork(s2, self.lt(m, ln)):
                                if b:
                                    out.append((s3, padd(v.args[0], pmul(v.args[2], m))))
                                else:
                                    out.extend(I.exc(s3, IndexError, 'range object index out of range'))
                return out
            if n is not None and (ts.subset(TS(['bytes', 'str', 'list', 'tuple']))):
                ln = self.length(st, v)
                out = []
                if isinstance(n, K) and n.v < 0:
                    n = padd(n, ln)
                for s, b in I.fork(st, self.lt(n, ln)):
                    if b:
                        out.append((s, self.elem(s, v, n)))
                    else:
                        out.extend(I.exc(s, IndexError, 'index out of range'))
                return out
            if ts.subset(TS(['dict'])):
                fk = self.freeze(st, k)
                out = []
                for s, b in I.fork(st, T('member', (v, fk), BOOL)):
                    if b:
                        out.append((s, T('idx', (v, fk))))
                    else:
                        out.extend(I.exc(s, KeyError, k))
                return out
            return [(st, T('idx', (v, self.freeze(st, k))))]
        return I.exc(st, TypeError, 'object is not subscriptable')

    def raw_getitem(self, st, v, k):
        I = self.I
        o = st.get(v)
        d = o.data
        if isinstance(d, tuple):
            if d[0] == 'list':
                return self.seq_getitem(st, v, list(d[1]), k)
            if d[0] == 'dict':
                return self.dict_get(st, v, d[1], k)
            if d[0] == 'sym':
                return self.getitem(st, d[1], k)
            if d[0] == 'set':
                return I.exc(st, TypeError, "'set' object is not subscriptable")
        if isinstance(o.cls, Ext):
            return [(st, T('idx', (self.freeze(st, v), self.freeze(st, k))))]
        return I.exc(st, TypeError, 'object is not subscriptable')

    def dict_get(self, st, v, pairs, k):
        I = self.I
        if self.unhashable(st, k):
            return I.exc(st, TypeError, 'unhashable type')
        out = []
        for s, i in self.find_key(st, pairs, k):
            if israise(i):
                out.append((s, i))
            elif i is None:
                out.extend(I.exc(s, KeyError, k))
            else:
                out.append((s, pairs[i][1]))
        return out

    def seq_getitem(self, st, v, items, k):
        I = self.I
        n = self.as_int(st, k)
        if n is None:
            if isinstance(k, T) and not st.tset(k).inter(INTS).empty():
                out = []
                s = st.restrict(k, INTS)
                if s is not None:
                    out.extend(self.seq_getitem(s, v, items, k))
                s = st.restrict(k, INTS.comp())
                if s is not None:
                    out.extend(I.exc(s, TypeError, 'indices must be integers'))
                return out
            return I.exc(st, TypeError, 'indices must be integers')
        if isinstance(n, K):
            if -len(items) <= n.v < len(items):
                return [(st, items[n.v])]
            return I.exc(st, IndexError, 'index out of range')
        out = []
        cur = [st]
        for i in list(range(len(items))) + list(range(-len(items), 0)):
            nxt = []
            for s in cur:
                for s2, b in I.fork(s, self.eq0(padd(n, K(-i)))):
                    if b:
                        out.append((s2, items[i]))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            out.extend(I.exc(s, IndexError, 'index out of range'))
        return out

    def setitem(self, st, v, k, x):
        I = self.I
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__setitem__')
                if f is not None:
                    return I.call(st, BM(f, v), [k, x], {})
            return self.raw_setitem(st, v, k, x)
        if isinstance(v, Ext):
            self.I.stats['opaque'].add('item of %s set' % v.path)
            return [(st.note('item of library object set'), NONE)]
        if isinstance(v, T):
            st = st.note('item of unknown object set')
            return [(st, NONE)]
        return I.exc(st, TypeError, 'object does not support item assignment')

    def raw_setitem(self, st, v, k, x):
        I = self.I
        o = st.get(v)
        d = o.data
        if isinstance(d, tuple):
            if d[0] == 'dict':
                if self.unhashable(st, k):
                    return I.exc(st, TypeError, 'unhashable type')
                out = []
                for s, i in self.find_key(st, d[1], k):
                    if israise(i):
                        out.append((s, i))
                        continue
                    p = list(d[1])
                    if i is None:
                        p.append((k, x))
                    else:
                        p[i] = (p[i][0], x)
                    out.append((s.put(v, o.setd(('dict', tuple(p)))), NONE))
                return out
            if d[0] == 'list':
                n = self.as_int(st, k)
                if isinstance(n, K):
                    if -len(d[1]) <= n.v < len(d[1]):
                        p = list(d[1])
                        p[n.v] = x
                        return [(st.put(v, o.setd(('list', tuple(p)))), NONE)]
                    return I.exc(st, IndexError, 'list assignment index out of range')
                return [(self.forget(st, v), NONE)]
            if d[0] == 'sym':
                t = T('updated', (d[1], self.freeze(st, k), self.freeze(st, x)), d[1].ty)
                return [(st.put(v, o.setd(('sym', t))), NONE)]
        if isinstance(o.cls, Ext):
            return [(st.note('item of library object set'), NONE)]
        return I.exc(st, TypeError, 'object does not support item assignment')

    def delitem(self, st, v, k):
        I = self.I
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__delitem__')
                if f is not None:
                    return I.call(st, BM(f, v), [k], {})
            return self.raw_delitem(st, v, k)
        return I.exc(st, TypeError, 'object does not support item deletion')

    def raw_delitem(self, st, v, k):
        I = self.I
        o = st.get(v)
        d = o.data
        if isinstance(d, tuple):
            if d[0] == 'dict':
                out = []
                for s, i in self.find_key(st, d[1], k):
                    if israise(i):
                        out.append((s, i))
                    elif i is None:
                        out.extend(I.exc(s, KeyError, k))
                    else:
                        p = d[1][:i] + d[1][i + 1:]
                        out.append((s.put(v, o.setd(('dict', p))), NONE))
                return out
            if d[0] == 'list':
                n = self.as_int(st, k)
                if isinstance(n, K):
                    if -len(d[1]) <= n.v < len(d[1]):
                        p = list(d[1])
                        del p[n.v]
                        return [(st.put(v, o.setd(('list', tuple(p)))), NONE)]
                    return I.exc(st, IndexError, 'list assignment index out of range')
            return [(self.forget(st, v), NONE)]
        return I.exc(st, TypeError, 'object does not support item deletion')
