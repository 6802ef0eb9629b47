"""Objects: classes, instances, attributes, enums, descriptors, isinstance."""
import types
from .values import *
from .state import *
from .mcore import *

FUNC = Ty(type(lambda: 0))
MODT = Ty(type(types))
GENT = Ty(types.GeneratorType)
TYPET, OBJT = Ty(type), Ty(object)
PROPT, CMT, SMT = Ty(property), Ty(classmethod), Ty(staticmethod)
METHT = Ty(types.MethodType)
NONETY = Ty(type(None))
ENUMS = {'enum.Enum': 'Enum', 'enum.IntEnum': 'IntEnum', 'enum.Flag': 'Flag', 'enum.IntFlag': 'IntFlag', 'enum.StrEnum': 'Enum'}
ABSTRACT_TYPES = ('ga', 'ut', 'fwdref')


def isfn(o):
    from .interp import Fn
    return isinstance(o.data, Fn)


class Objects:
    # ------------------------------------------------------------------ classes
    def is_class(self, st, v):
        from .interp import ClassInfo
        return isinstance(v, Ref) and isinstance(st.get(v).data, ClassInfo)

    def is_fn(self, st, v):
        return isinstance(v, Ref) and isfn(st.get(v))

    def mro(self, st, cls):
        if isinstance(cls, Ref):
            return st.get(cls).data.mro
        if isinstance(cls, Ty):
            return tuple(Ty(t) for t in cls.t.__mro__)
        return (cls, OBJT)

    def mro_find(self, st, cls, name):
        if not isinstance(cls, Ref):
            return None
        for i, c in enumerate(st.get(cls).data.mro):
            if isinstance(c, Ref):
                f = st.get(c).fields
                if name in f:
                    return i, f[name]
        return None

    def class_lookup(self, st, cls, name):
        r = self.mro_find(st, cls, name)
        return r[1] if r is not None else None

    def builtin_base(self, st, cls):
        """host class of the first built-in base other than object, or None"""
        for c in self.mro(st, cls):
            if isinstance(c, Ty) and c is not OBJT:
                return c.t
        return None

    def ext_bases(self, st, cls):
        return [c.path for c in self.mro(st, cls) if isinstance(c, Ext)]

    def is_metaclass(self, st, cls):
        if isinstance(cls, Ty):
            return issubclass(cls.t, type)
        if isinstance(cls, Ext):
            return cls.path in ('abc.ABCMeta', 'typing._TypedDictMeta', 'enum.EnumMeta', 'enum.EnumType')
        return any(self.is_metaclass(st, c) for c in self.mro(st, cls) if not isinstance(c, Ref))

    def subclass(self, st, a, b):
        """a subclass of b; None if unknown"""
        if a is b or b is OBJT:
            return True
        if isinstance(a, Ref):
            m = self.mro(st, a)
            if b in m:
                return True
            if isinstance(b, Ref):
                return False
            return any(self.subclass(st, c, b) for c in m if not isinstance(c, Ref) and c is not OBJT)
        if isinstance(b, Ref):
            return False
        ha = a.t if isinstance(a, Ty) else self.host(a.path)
        hb = b.t if isinstance(b, Ty) else self.host(b.path)
        if isinstance(ha, type) and isinstance(hb, type):
            try:
                return issubclass(ha, hb)
            except TypeError:
                return False
        return False

    def is_typeish(self, st, v):
        if isinstance(v, Ty) or self.is_class(st, v):
            return True
        if isinstance(v, T):
            return v.op in ABSTRACT_TYPES
        if isinstance(v, K):
            return v.v is None
        if isinstance(v, Ext):
            return v.path.startswith('typing.')
        return False

    def mkunion(self, items, op):
        out = []
        for x in items:
            if isinstance(x, K) and x.v is None:
                x = NONETY
            if isinstance(x, K) and isinstance(x.v, str):
                x = T('fwdref', (x,))
            sub = [x]
            if isinstance(x, T) and x.op == 'ut':
                sub = x.args[0].items
            elif isinstance(x, T) and x.op == 'ga' and x.args[0] is Ext('typing.Union'):
                sub = x.args[1].items
            for y in sub:
                if y not in out:
                    out.append(y)
        if len(out) == 1:
            return out[0]
        if op == 'ut':
            return T('ut', (Tup(out),))
        return T('ga', (Ext('typing.Union'), Tup(out)))

    def generic(self, st, v, k):
        args = list(k.items) if isinstance(k, Tup) else [k]
        if v.path in ('typing.Union',):
            return self.mkunion(args, 'ga')
        if v.path == 'typing.Optional':
            return self.mkunion(args + [NONE], 'ga')
        origin = v
        h = self.host(v.path)
        if h is not None and hasattr(h, '__origin__') and isinstance(h.__origin__, type):
            o = h.__origin__
            origin = Ty(o) if o.__module__ == 'builtins' else Ext('%s.%s' % (o.__module__, o.__qualname__))
        res = []
        for a in args:
            if isinstance(a, K) and a.v is None:
                a = NONETY
            elif isinstance(a, K) and isinstance(a.v, str) and v.path != 'typing.Literal':
                a = T('fwdref', (a,))
            elif isinstance(a, Ref) and isinstance(st.get(a).data, tuple) and st.get(a).data[0] == 'list':
                res.extend(st.get(a).data[1])
                continue
            res.append(a)
        return T('ga', (origin, Tup(res)))

    def linearize(self, st, bases):
        seqs = []
        for b in bases:
            seqs.append(list(self.mro(st, b)))
        seqs.append(list(bases))
        out = []
        seqs = [[x for x in s if x is not OBJT] for s in seqs]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                return None
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]
        return out + [OBJT]

    def make_class(self, st, name, bases, ns, meta, kws, qual, module):
        I = self.I
        for b in bases:
            if isinstance(b, Ref) and not self.is_class(st, b):
                return I.exc(st, TypeError, 'bases must be types')
        if any(isinstance(b, Ext) and b.path.endswith('.TypedDict') for b in bases) or \
                any(isinstance(b, Ref) and st.get(b).cls is Ext('typing._TypedDictMeta') for b in bases):
            return self.make_typeddict(st, name, bases, ns, qual, module)
        bases = [b for b in bases if not (isinstance(b, T) and b.op == 'ga') and not (isinstance(b, Ext) and b.path in ('typing.Generic', 'typing.Protocol'))]
        if meta is None:
            for b in bases:
                m = st.get(b).cls if isinstance(b, Ref) else Ext('abc.ABCMeta') if isinstance(b, Ext) and b.path == 'abc.ABC' or \
                    isinstance(b, Ext) and b.path.startswith('collections.abc') else None
                if m is not None and m is not TYPET and (meta is None or meta is Ext('abc.ABCMeta')):
                    meta = m
        if meta is None:
            meta = TYPET
        if isinstance(meta, Ref):
            f = self.class_lookup(st, meta, '__new__')
            if f is not None:
                if self.is_obj(st, f, SMT):
                    f = st.get(f).fields['f']
                st, nsd = I.new_dict(st, [(K(k), v) for k, v in ns.items()])

                def fin(s, c):
                    g = self.class_lookup(s, meta, '__init__')
                    if g is not None:
                        return I.bind(I.call(s, g, [c, K(name), Tup(bases), nsd], kws), lambda s2, _: [(s2, c)])
                    return [(s, c)]
                return I.bind(I.call(st, f, [meta, K(name), Tup(bases), nsd], kws), fin)
        return self.type_new(st, meta, name, bases, ns)

    def make_typeddict(self, st, name, bases, ns, qual, module):
        ann = []
        for b in bases:
            if isinstance(b, Ref):
                a = st.get(b).fields.get('__annotations__')
                if a is not None:
                    ann.extend(st.get(a).data[1])
        a = ns.get('__annotations__')
        if a is not None:
            for k, v in st.get(a).data[1]:
                ann = [p for p in ann if p[0] is not k]
                if isinstance(v, K) and isinstance(v.v, str):
                    v = T('fwdref', (v,))
                ann.append((k, v))
        st, ad = self.I.new_dict(st, ann)
        ns = dict(ns)
        ns['__annotations__'] = ad
        ns['__total__'] = TRUE
        return self.type_new(st, Ext('typing._TypedDictMeta'), name, [Ty(dict)], ns)

    def type_new(self, st, meta, name, bases, ns):
        """type.__new__"""
        from .interp import ClassInfo
        bases = list(bases) or [OBJT]
        lin = self.linearize(st, bases)
        if lin is None:
            return self.I.exc(st, TypeError, 'Cannot create a consistent method resolution order (MRO)')
        ci = ClassInfo()
        ci.name = name
        ci.bases = tuple(bases)
        ci.meta = meta
        ci.module = ns['__module__'].v if '__module__' in ns else '?'
        ci.qual = ns['__qualname__'].v if '__qualname__' in ns else name
        st, r = self.I.alloc(st, HObj(meta, dict(ns), None))
        ci.mro = tuple([r] + lin)
        kind = None
        for c in lin:
            if isinstance(c, Ext) and c.path in ENUMS:
                kind = ENUMS[c.path]
                break
        st = st.put(r, HObj(meta, dict(ns), ci))
        if kind is not None:
            return self.enum_setup(st, r, ns, kind)
        return [(st, r)]

    # ------------------------------------------------------------------ enums
    def is_enum_class(self, st, cls):
        return self.enum_kind(st, cls) is not None

    def enum_kind(self, st, cls):
        if isinstance(cls, Ext):
            return ENUMS.get(cls.path)
        if not isinstance(cls, Ref) or not self.is_class(st, cls):
            return None
        for c in st.get(cls).data.mro:
            if isinstance(c, Ext) and c.path in ENUMS:
                return ENUMS[c.path]
        return None

    def is_enum_member(self, st, v):
        if not isinstance(v, Ref):
            return False
        o = st.get(v)
        return isinstance(o.cls, Ref) and '_value_' in o.fields and self.enum_kind(st, o.cls) is not None

    def enum_members(self, st, cls, aliases=False):
        o = st.get(cls)
        out = []
        for n in o.fields.get('$members', Tup(())).items:
            m = o.fields[n.v]
            if m not in out or aliases:
                if not aliases and self.enum_kind(st, cls) in ('Flag', 'IntFlag'):
                    x = st.get(m).fields['_value_']
                    if isinstance(x, K) and isinstance(x.v, int) and (x.v <= 0 or x.v & (x.v - 1)):
                        continue
                out.append(m)
        return out

    def enum_setup(self, st, r, ns, kind):
        names = []
        vals = []
        gen = self.class_lookup(st, r, '_generate_next_value_')
        if gen is not None and self.is_obj(st, gen, SMT):
            gen = st.get(gen).fields['f']
        for k, v in ns.items():
            if k.startswith('__') or (k.startswith('_') and k.endswith('_')):
                continue
            if isinstance(v, Ref) and (self.is_fn(st, v) or st.get(v).cls in (PROPT, CMT, SMT) or self.is_class(st, v)):
                continue
            if isinstance(v, T) and v.op == 'enumauto':
                if gen is not None:
                    st, lv = self.I.new_list(st, [x for _, x in vals])
                    res = [(s, x) for s, x in self.I.call(st, gen, [K(k), K(1), K(len(vals)), lv], {}) if not israise(x)]
                    st, v = res[0]
                elif kind in ('Flag', 'IntFlag'):
                    m = max([x.v for _, x in vals], default=0)
                    v = K(1 << m.bit_length())
                else:
                    v = K(max([x.v for _, x in vals], default=0) + 1)
            vals.append((k, v))
        o = st.get(r)
        fields = dict(o.fields)
        byval = {}
        for k, v in vals:
            if isinstance(v, (K, Tup)) and v in byval:
                fields[k] = byval[v]
            else:
                st, m = self.I.alloc(st, HObj(r, {'_name_': K(k), '_value_': v}))
                byval[v] = m
                fields[k] = m
            names.append(K(k))
        fields['$members'] = Tup(names)
        return [(st.put(r, HObj(o.cls, fields, o.data)), r)]

    def enum_by_value(self, st, cls, v):
        I = self.I
        kind = self.enum_kind(st, cls)
        if isinstance(v, Ref) and self.is_enum_member(st, v) and st.get(v).cls is cls:
            return [(st, v)]
        ms = self.enum_members(st, cls, True)
        if kind in ('Flag', 'IntFlag'):
            x = self.as_int(st, v)
            if isinstance(x, K):
                return [self.flag_member(st, cls, x.v)]
            return [(st.note('enum flag of unknown value'), T('enumof', (K(self.clsname(st, cls)), self.freeze(st, v))))]
        out = []
        cur = [st]
        for m in ms:
            nxt = []
            for s in cur:
                for s2, c in self.eq(s, s.get(m).fields['_value_'], v):
                    if israise(c):
                        out.append((s2, c))
                        continue
                    for s3, b in I.truth(s2, c):
                        if b is True:
                            out.append((s3, m))
                        else:
                            nxt.append(s3)
            cur = nxt
        for s in cur:
            out.extend(I.exc(s, ValueError, 'not a valid member'))
        return out

    def flag_member(self, st, cls, x):
        """-> (st, Ref)"""
        for m in self.enum_members(st, cls, True):
            if st.get(m).fields['_value_'] is K(x):
                return st, m
        allbits = 0
        for m in self.enum_members(st, cls, True):
            w = st.get(m).fields['_value_'].v
            allbits |= w
        if x < 0:
            x &= allbits
            return self.flag_member(st, cls, x)
        key = (cls.id, x)
        r = self.flagids.get(key)
        if r is None:
            self.I.nextid[0] += 1
            r = self.flagids[key] = Ref(self.I.nextid[0])
        if r.id not in st.over and r.id not in st.base:
            st = st.put(r, HObj(cls, {'_name_': NONE, '_value_': K(x)}))
        return st, r

    def flagop(self, st, op, a, b):
        ca = st.get(a).cls if self.is_enum_member(st, a) else None
        cb = st.get(b).cls if self.is_enum_member(st, b) else None
        cls = ca if ca is not None else cb
        kind = self.enum_kind(st, cls)
        if kind not in ('Flag', 'IntFlag') or op not in ('BitOr', 'BitAnd', 'BitXor'):
            return None
        if kind == 'Flag' and ca is not cb:
            return self.I.exc(st, TypeError, 'unsupported operand type(s)')
        va = st.get(a).fields['_value_'] if ca is not None else self.as_int(st, a)
        vb = st.get(b).fields['_value_'] if cb is not None else self.as_int(st, b)
        if not isinstance(va, K) or not isinstance(vb, K):
            return None
        x = {'BitOr': va.v | vb.v, 'BitAnd': va.v & vb.v, 'BitXor': va.v ^ vb.v}[op]
        return [self.flag_member(st, cls, x)]

    # ------------------------------------------------------------------ types of values
    def is_obj(self, st, v, cls):
        return isinstance(v, Ref) and st.get(v).cls is cls

    def is_exception(self, st, v):
        if not isinstance(v, Ref) or self.is_class(st, v):
            return False
        return any(isinstance(c, Ty) and issubclass(c.t, BaseException) for c in self.mro(st, st.get(v).cls))

    def typeof(self, st, v):
        if isinstance(v, K):
            return Ty(type(v.v))
        if isinstance(v, P):
            return Ty(int)
        if isinstance(v, Tup):
            return Ty(tuple)
        if isinstance(v, Ref):
            return st.get(v).cls
        if isinstance(v, T):
            if v.op == 'ga':
                return Ext('typing._GenericAlias')
            if v.op == 'ut':
                return Ext('types.UnionType')
            if v.op == 'fwdref':
                return Ext('typing.ForwardRef')
            if v.op == 'range':
                return Ty(range)
            if v.op == 'sliceobj':
                return Ty(slice)
            s = st.tset(v).single()
            if s in LEAVES:
                return Ty(LEAVES[s])
            return T('typeof', (v,))
        if isinstance(v, Ty):
            return Ty(type(v.t))
        if isinstance(v, BM):
            return METHT
        if isinstance(v, (Bi, BiM)):
            return Ty(types.BuiltinFunctionType)
        if isinstance(v, Ext):
            h = self.host(v.path)
            if h is not None:
                t = type(h)
                return Ty(t) if t.__module__ == 'builtins' else Ext('%s.%s' % (t.__module__, t.__qualname__))
        return T('typeof', (v,))

    def leaves_of(self, t):
        return [n for n, c in LEAVES.items() if issubclass(c, t)]

    def isinstance(self, st, v, cls):
        """-> [(st, boolean value | Raise)]"""
        I = self.I
        if isinstance(cls, T) and cls.op == 'ut':
            cls = cls.args[0]
        elif isinstance(cls, T) and cls.op == 'ga' and cls.args[0] is Ext('typing.Union'):
            cls = cls.args[1]
            if any(isinstance(x, T) and x.op == 'ga' for x in cls.items):
                return I.exc(st, TypeError, 'Subscripted generics cannot be used with class and instance checks')
        elif isinstance(cls, Ref) and st.get(cls).cls is Ext('typing._TypedDictMeta'):
            return I.exc(st, TypeError, 'TypedDict does not support instance and class checks')
        if isinstance(cls, Tup):
            out = []
            cur = [st]
            for i, c in enumerate(cls.items):
                nxt = []
                for s in cur:
                    for s2, b in self.isinstance(s, v, c):
                        if israise(b):
                            out.append((s2, b))
                        elif i == len(cls.items) - 1 and cur == [st] and i == 0:
                            out.append((s2, b))
                        else:
                            for s3, x in I.truth(s2, b):
                                if x:
                                    out.append((s3, TRUE))
                                else:
                                    nxt.append(s3)
                cur = nxt
            # type tests of one unknown value are joined again
            if len(out) > 1 and isinstance(v, T) and all(b is TRUE for _, b in out):
                ts = None
                for s, _ in out:
                    t = s.tset(v)
                    ts = t if ts is None else ts.union(t)
                s = st.restrict(v, ts)
                if s is not None and all(x.trace == st.trace and x.over.keys() == st.over.keys() for x, _ in out):
                    out = [(s, TRUE)]
            return out + [(s, FALSE) for s in cur]
        if isinstance(cls, K) or isinstance(cls, T) and cls.op == 'ga':
            return I.exc(st, TypeError, 'isinstance() arg 2 must be a type')
        if cls is NONETY and False:
            pass
        if isinstance(v, T) and v.op not in ABSTRACT_TYPES and v.op not in ('super', 'range'):
            ts = st.tset(v)
            if isinstance(cls, Ty):
                if cls is OBJT:
                    return [(st, TRUE)]
                ls = self.leaves_of(cls.t)
                if cls.t.__name__ not in LEAVES:
                    ls = ls + [cls.t.__name__]
                want = TS(ls)
            elif isinstance(cls, Ref):
                want = TS([self.clsname(st, cls)])
            elif isinstance(cls, Ext):
                h = self.host(cls.path)
                if isinstance(h, type):
                    want = TS(self.leaves_of(h) + [cls.path])
                else:
                    want = TS([cls.path])
            else:
                return [(st, T('isinst', (v, self.freeze(st, cls)), BOOL))]
            return [(st, self.dec(st, T('isty', (v, want), BOOL)))]
        t = self.typeof(st, v)
        if isinstance(cls, T):
            return [(st, T('isinst', (self.freeze(st, v), cls), BOOL))]
        if isinstance(t, T):
            return [(st, T('isinst', (v, cls), BOOL))]
        if isinstance(v, Ty) and isinstance(cls, Ty):
            return [(st, kb(isinstance(v.t, cls.t)))]
        if isinstance(v, Ref) and self.is_class(st, v) and cls is TYPET:
            return [(st, TRUE)]
        if self.is_enum_member(st, v) and self.enum_kind(st, st.get(v).cls) in ('IntEnum', 'IntFlag') and cls is Ty(int):
            return [(st, TRUE)]
        if not isinstance(cls, (Ty, Ext, Ref)):
            return I.exc(st, TypeError, 'isinstance() arg 2 must be a type')
        return [(st, kb(bool(self.subclass(st, t, cls))))]

    def exc_match(self, st, exc, type_):
        """-> [(st, bool)]"""
        if isinstance(type_, Tup):
            for t in type_.items:
                for s, b in self.exc_match(st, exc, t):
                    if b:
                        return [(st, True)]
            return [(st, False)]
        if isinstance(exc, Ref):
            return [(st, bool(self.subclass(st, st.get(exc).cls, type_)))]
        return self.I.bind(self.isinstance(st, exc, type_), lambda s, b: self.I.truth(s, b))

    # ------------------------------------------------------------------ instances
    def abstract_names(self, st, cls):
        """abstract methods left"""
        meta = st.get(cls).cls
        if meta is TYPET:
            return []
        seen = {}
        for c in st.get(cls).data.mro:
            if isinstance(c, Ref):
                for k, v in st.get(c).fields.items():
                    if k not in seen:
                        a = False
                        if isinstance(v, Ref):
                            o = st.get(v)
                            a = o.fields.get('__isabstractmethod__') is TRUE
                            g = o.fields.get('fget') or o.fields.get('f') if o.cls in (PROPT, CMT, SMT) else None
                            if isinstance(g, Ref) and st.get(g).fields.get('__isabstractmethod__') is TRUE:
                                a = True
                        seen[k] = a
        return [k for k, a in seen.items() if a]

    def new_instance(self, st, cls, args=()):
        """object.__new__"""
        ab = self.abstract_names(st, cls) if isinstance(cls, Ref) else []
        if ab:
            return self.I.exc(st, TypeError, "Can't instantiate abstract class with abstract methods " + ', '.join(ab))
        b = self.builtin_base(st, cls)
        data = None
        fields = {}
        if b is not None:
            if issubclass(b, dict):
                data = ('dict', ())
            elif issubclass(b, list):
                data = ('list', ())
            elif issubclass(b, set):
                data = ('set', ())
            elif issubclass(b, BaseException):
                fields['args'] = Tup([a for a in args])
        return [self.I.alloc(st, HObj(cls, fields, data))]

    def instantiate(self, st, cls, args, kw):
        I = self.I
        o = st.get(cls)
        if self.enum_kind(st, cls) is not None and '$members' in o.fields:
            return self.enum_by_value(st, cls, args[0])
        if isinstance(o.cls, Ref):
            f = self.class_lookup(st, o.cls, '__call__')
            if f is not None:
                return I.call(st, f, [cls] + list(args), kw)
        if self.is_metaclass(st, cls):
            if len(args) == 3:
                ent = self.dict_entries(st, args[2]) or []
                ns = {k.v: v for k, v in ent}
                return self.make_class(st, args[0].v, list(args[1].items), ns, cls, kw, args[0].v, '?')
            return [(st, self.typeof(st, args[0]))]
        f = self.class_lookup(st, cls, '__new__')
        if f is not None:
            if self.is_obj(st, f, SMT):
                f = st.get(f).fields['f']
            res = I.call(st, f, [cls] + list(args), kw)
        else:
            res = self.new_instance(st, cls, args)

        def init(s, r):
            if not isinstance(r, Ref) or not self.subclass(s, s.get(r).cls, cls):
                return [(s, r)]
            return I.bind(self.call_init(s, r, cls, args, kw), lambda s2, _: [(s2, r)])
        return I.bindx(res, init)

    def call_init(self, s, r, cls, args, kw):
        g = self.class_lookup(s, cls, '__init__')
        if g is not None:
            return self.I.call(s, g, [r] + list(args), kw)
        return self.raw_init(s, r, args, kw)

    def raw_init(self, s, r, args, kw):
        b = self.builtin_base(s, s.get(r).cls)
        if b is None:
            if (args or kw) and not any(isinstance(c, Ext) for c in self.mro(s, s.get(r).cls)) and \
                    self.class_lookup(s, s.get(r).cls, '__new__') is None:
                return self.I.exc(s, TypeError, '%s() takes no arguments' % self.clsname(s, s.get(r).cls))
            return [(s, NONE)]
        if issubclass(b, BaseException):
            return [(s.put(r, s.get(r).setf('args', Tup(args))), NONE)]
        if issubclass(b, (dict, list, set)):
            def f(s2, v):
                return [(s2.put(r, s2.get(r).setd(s2.get(v).data)), NONE)]
            return self.I.bind(self.call(s, Ty(b), args, kw), f)
        return [(s, NONE)]

    # ------------------------------------------------------------------ attributes
    def attrerr(self, st, what, name):
        return self.I.exc(st, AttributeError, "%s has no attribute '%s'" % (what, name))

    def bindattr(self, st, val, obj, cls):
        """value found in a class, seen through an instance (obj) or the class itself (obj None)"""
        I = self.I
        if isinstance(val, Ref):
            o = st.get(val)
            if isfn(o):
                return [(st, BM(val, obj) if obj is not None else val)]
            if o.cls is PROPT:
                if obj is None:
                    return [(st, val)]
                g = o.fields.get('fget')
                if g is None or g is NONE:
                    return self.attrerr(st, 'property', 'getter')
                return I.call(st, g, [obj], {})
            if o.cls is CMT:
                return [(st, BM(o.fields['f'], cls))]
            if o.cls is SMT:
                return [(st, o.fields['f'])]
            if isinstance(o.cls, Ref):
                g = self.class_lookup(st, o.cls, '__get__')
                if g is not None:
                    return I.call(st, g, [val, obj if obj is not None else NONE, cls], {})
        if isinstance(val, Bi) and val.name == 'partialmethod' and obj is not None:
            return [(st, BM(val, obj))]
        return [(st, val)]

    def getattr(self, st, v, name, default=None):
        I = self.I
        if isinstance(v, Ref):
            return self.getattr_ref(st, v, name)
        if isinstance(v, T):
            if v.op == 'super':
                return self.getattr_super(st, v, name)
            if v.op == 'ga':
                if name == '__origin__':
                    return [(st, v.args[0])]
                if name == '__args__':
                    return [(st, v.args[1])]
                if name == '__class__':
                    return [(st, self.typeof(st, v))]
                if isinstance(v.args[0], Ext) and name in ('__name__', '_name'):
                    return [(st, K(v.args[0].path.split('.')[-1]))]
                if name in ('__module__', '__parameters__'):
                    return [(st, T('attr', (v, K(name))))]
                if name.startswith('__') and name.endswith('__') or not isinstance(v.args[0], (Ty, Ref)):
                    return self.attrerr(st, 'generic alias', name)
                return self.getattr(st, v.args[0], name)
            if v.op == 'ut':
                if name == '__args__':
                    return [(st, v.args[0])]
                if name == '__class__':
                    return [(st, self.typeof(st, v))]
                return self.attrerr(st, 'types.UnionType', name)
            if v.op == 'fwdref':
                if name == '__forward_arg__':
                    return [(st, v.args[0])]
                return self.attrerr(st, 'ForwardRef', name)
            if name == '__class__':
                return [(st, self.typeof(st, v))]
            if v.op == 'typeof' and name in ('__name__', '__qualname__'):
                return [(st, T('typename', v.args, STR))]
            h = getattr(self, 'attr_' + v.op, None)
            if h is not None:
                r = h(st, v, name)
                if r is not None:
                    return r
            ts = st.tset(v)
            if not ts.neg and ts.subset(TS(list(LEAVES))):
                out = []
                for leaf in sorted(ts.s):
                    s = st.restrict(v, TS([leaf])) if len(ts.s) > 1 else st
                    if s is None:
                        continue
                    if hasattr(LEAVES[leaf], name):
                        out.append((s, BiM(v, name)))
                    else:
                        out.extend(self.attrerr(s, "'%s' object" % leaf, name))
                return out
            if v.op == 'range' and hasattr(range, name):
                return [(st, BiM(v, name))]
            I.stats['opaque'].add('attribute %s of unknown value at %s' % (name, I.where()))
            return [(st.note('attribute of unknown value'), T('attr', (v, K(name))))]
        if isinstance(v, K):
            if name == '__class__':
                return [(st, Ty(type(v.v)))]
            if hasattr(v.v, name):
                x = getattr(v.v, name)
                if isinstance(x, (int, str, bytes)) and not isinstance(v.v, (list, dict)):
                    return [(st, K(x))]
                return [(st, BiM(v, name))]
            return self.attrerr(st, "'%s' object" % type(v.v).__name__, name)
        if isinstance(v, (P, Tup)):
            t = int if isinstance(v, P) else tuple
            if name == '__class__':
                return [(st, Ty(t))]
            if hasattr(t, name):
                return [(st, BiM(v, name))]
            return self.attrerr(st, "'%s' object" % t.__name__, name)
        if isinstance(v, Ty):
            t = v.t
            if name == '__class__':
                return [(st, Ty(type(t)))]
            if name in ('__name__', '__qualname__', '__module__', '__doc__'):
                return [(st, K(getattr(t, name)))]
            if name == '__mro__':
                return [(st, Tup(self.mro(st, v)))]
            if name == '__bases__':
                return [(st, Tup([Ty(x) for x in t.__bases__]))]
            if hasattr(t, name):
                return [(st, Bi('unbound', (v, K(name))))]
            return self.attrerr(st, "type object '%s'" % t.__name__, name)
        if isinstance(v, Ext):
            if name == '__class__':
                return [(st, self.typeof(st, v))]
            p = v.path + '.' + name
            if p in self.extmap:
                return [(st, self.extmap[p])]
            h = self.host(v.path) if v.path.split('.')[0] in STDLIB else None
            if h is not None:
                if isinstance(h, types.ModuleType) and not hasattr(h, name):
                    x = self.host(p)
                    if x is None:
                        return self.attrerr(st, v.path, name)
                elif not hasattr(h, name):
                    return self.attrerr(st, v.path, name)
            if name in ('__name__', '__qualname__'):
                return [(st, K(v.path.split('.')[-1]))]
            if name == '__module__':
                return [(st, K(v.path.rpartition('.')[0]))]
            return [(st, self.ext_value(p))]
        if isinstance(v, BM):
            if name == '__self__':
                return [(st, v.self)]
            if name == '__func__':
                return [(st, v.f)]
            if name == '__class__':
                return [(st, METHT)]
            return self.getattr(st, v.f, name)
        if isinstance(v, (Bi, BiM)):
            if name in ('__name__', '__qualname__'):
                return [(st, K(v.name if not (isinstance(v, Bi) and v.name == 'unbound') else v.args[1].v))]
            if isinstance(v, Bi) and v.name == 'partial':
                if name == 'func':
                    return [(st, v.args[0])]
                if name == 'args':
                    return [(st, v.args[1])]
            if isinstance(v, BiM) and name == '__self__':
                return [(st, v.recv)]
            return self.attrerr(st, 'builtin', name)
        return self.attrerr(st, 'object', name)

    def super_mro(self, st, v):
        cls, obj = v.args
        start = obj if self.is_class(st, obj) and (not isinstance(st.get(obj).cls, Ref) or not self.subclass(st, st.get(obj).cls, cls)) else st.get(obj).cls
        m = list(self.mro(st, start))
        i = m.index(cls) if cls in m else -1
        return m[i + 1:], start

    def getattr_super(self, st, v, name):
        cls, obj = v.args
        rest, start = self.super_mro(st, v)
        inst = None if start is obj else obj
        for c in rest:
            if isinstance(c, Ref):
                f = st.get(c).fields
                if name in f:
                    if name == '__new__':
                        return [(st, f[name])]
                    return self.bindattr(st, f[name], inst, start)
            elif isinstance(c, Ext):
                r = self.ext_method(st, c, name, obj)
                if r is not None:
                    return [(st, r)]
                h = self.host(c.path)
                if h is not None and name not in ('__init__', '__new__') and hasattr(h, name):
                    return [(st, Bi('extmethod', (c, K(name), obj)))]
            elif isinstance(c, Ty) and hasattr(c.t, name):
                if name == '__new__':
                    return [(st, Bi('basenew', ()))]
                if name == '__init__':
                    return [(st, Bi('baseinit', (obj,)))]
                return [(st, Bi('raw', (obj, K(name))))]
        return self.attrerr(st, "'super' object", name)

    def ext_method(self, st, c, name, obj):
        """method a library base class provides"""
        if c.path.startswith('collections.abc.') and hasattr(self, 'mm_' + name):
            return Bi('mixin', (obj, K(name)))
        return None

    def getattr_class(self, st, v, name):
        I = self.I
        o = st.get(v)
        ci = o.data
        if name == '__name__':
            return [(st, K(ci.name))]
        if name == '__qualname__':
            return [(st, K(ci.qual))]
        if name == '__class__':
            return [(st, o.cls)]
        if name == '__mro__':
            return [(st, Tup(ci.mro))]
        if name == '__bases__':
            return [(st, Tup(ci.bases))]
        if name == '__dict__':
            return [I.new_dict(st, [(K(k), x) for k, x in o.fields.items() if not k.startswith('$')])]
        if name == '__doc__' and '__doc__' not in o.fields:
            return [(st, NONE)]
        if name == '__members__' and '$members' in o.fields:
            return [I.new_dict(st, [(n, o.fields[n.v]) for n in o.fields['$members'].items])]
        if name == '__abstractmethods__':
            return [I.new_set(st, [K(k) for k in self.abstract_names(st, v)])]
        meta = o.cls
        mp = self.class_lookup(st, meta, name) if isinstance(meta, Ref) else None
        if mp is not None and self.is_obj(st, mp, PROPT):
            return self.bindattr(st, mp, v, meta)
        for c in ci.mro:
            if isinstance(c, Ref):
                f = st.get(c).fields
                if name in f:
                    return self.bindattr(st, f[name], None, v)
            elif isinstance(c, Ext):
                r = self.ext_method(st, c, name, NONE)
                if r is not None:
                    return [(st, Bi('unboundmixin', (K(name),)))]
            elif isinstance(c, Ty):
                if name == '__annotations__':
                    st, d = I.new_dict(st, ())
                    st = st.put(v, st.get(v).setf('__annotations__', d))
                    return [(st, d)]
                if hasattr(c.t, name):
                    return [(st, Bi('unbound', (c, K(name))))]
        if mp is not None:
            return self.bindattr(st, mp, v, meta)
        if isinstance(meta, (Ty, Ext)):
            h = meta.t if isinstance(meta, Ty) else self.host(meta.path)
            if isinstance(h, type) and hasattr(h, name):
                return [(st, BiM(v, name))]
        if hasattr(type, name):
            return [(st, BiM(v, name))]
        return self.attrerr(st, "type object '%s'" % ci.name, name)

    def getattr_ref(self, st, v, name):
        I = self.I
        o = st.get(v)
        d = o.data
        if isinstance(d, tuple) and d[0] == 'module':
            if name in o.fields:
                return [(st, o.fields[name])]
            if name == '__dict__':
                return [I.new_dict(st, [(K(k), x) for k, x in o.fields.items()])]
            if name == '__class__':
                return [(st, MODT)]
            sub = d[1] + '.' + name
            m = I.module(st, sub)
            if m is not None:
                return [(st, m)]
            return self.attrerr(st, "module '%s'" % d[1], name)
        if self.is_class(st, v):
            return self.getattr_class(st, v, name)
        if isfn(o):
            if name in o.fields:
                return [(st, o.fields[name])]
            if name == '__class__':
                return [(st, FUNC)]
            if name == '__defaults__':
                return [(st, Tup(d.defaults) if d.defaults else NONE)]
            if name == '__dict__':
                return [I.new_dict(st, [(K(k), x) for k, x in o.fields.items() if not k.startswith('__')])]
            if name == '__code__':
                return [(st, T('code', (K('%s.%s' % (d.module, d.scope.qual)),)))]
            if name in ('__call__', '__get__'):
                return [(st, v if name == '__call__' else Bi('fnget', (v,)))]
            if name == '__globals__':
                return [(st, T('globals', (K(d.module),)))]
            return self.attrerr(st, "'function' object", name)
        cls = o.cls
        if name == '__class__':
            return [(st, cls)]
        if isinstance(cls, Ref):
            r = self.mro_find(st, cls, name)
            if r is not None:
                if self.is_obj(st, r[1], PROPT):
                    return self.bindattr(st, r[1], v, cls)
                val = r[1]
                if isinstance(val, Ref) and isinstance(st.get(val).cls, Ref) and name not in o.fields or \
                        isinstance(val, Ref) and isinstance(st.get(val).cls, Ref) and self.class_lookup(st, st.get(val).cls, '__set__') is not None:
                    if not self.is_class(st, val):
                        return self.bindattr(st, val, v, cls)
            if name in o.fields and not name.startswith('$'):
                return [(st, o.fields[name])]
            if r is not None:
                return self.bindattr(st, r[1], v, cls)
            if name == '__dict__':
                return [I.new_dict(st, [(K(k), x) for k, x in o.fields.items() if not k.startswith('$')])]
            if name == '__doc__':
                return [(st, NONE)]
            if self.is_enum_member(st, v):
                if name == 'value':
                    return [(st, o.fields['_value_'])]
                if name == 'name':
                    return [(st, o.fields['_name_'])]
            for c in st.get(cls).data.mro:
                if isinstance(c, Ext):
                    m = self.ext_method(st, c, name, v)
                    if m is not None:
                        return [(st, m)]
                    h = self.host(c.path)
                    if isinstance(h, type) and hasattr(h, name) and not hasattr(object, name):
                        if self.enum_kind(st, cls) in ('IntEnum', 'IntFlag') and hasattr(int, name):
                            return [(st, BiM(o.fields['_value_'], name))]
                        return [(st, Bi('extmethod', (c, K(name), v)))]
                elif isinstance(c, Ty) and hasattr(c.t, name):
                    if c is OBJT:
                        continue
                    return [(st, BiM(v, name))]
            g = self.class_lookup(st, cls, '__getattr__')
            if g is not None:
                return I.call(st, g, [v, K(name)], {})
            if hasattr(object, name):
                return [(st, BiM(v, name))]
            return self.attrerr(st, "'%s' object" % st.get(cls).data.name, name)
        if name in o.fields and not name.startswith('$'):
            return [(st, o.fields[name])]
        if isinstance(cls, Ty):
            t = cls.t
            if isinstance(d, tuple) and d[0] == 'sym' and t is list:
                lv = st.tset(d[1]).single() if isinstance(d[1], T) else None
                t = LEAVES.get(lv, t)
            if issubclass(t, BaseException):
                if name in ('__traceback__', '__cause__', '__context__'):
                    return [(st, NONE)]
            if hasattr(t, name):
                return [(st, BiM(v, name))]
            return self.attrerr(st, "'%s' object" % t.__name__, name)
        if isinstance(cls, Ext):
            h = getattr(self, 'xattr_' + cls.path.replace('.', '_'), None)
            if h is not None:
                return h(st, v, name)
            if cls.path == 'threading.local':
                return self.attrerr(st, "'_thread._local' object", name)
            return [(st, BiM(v, name))]
        return self.attrerr(st, 'object', name)

    def setattr(self, st, v, name, x):
        I = self.I
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o.cls, Ref) and not isinstance(o.data, tuple) or isinstance(o.cls, Ref) and o.data[0] in ('list', 'dict', 'set', 'sym'):
                if not self.is_class(st, v):
                    p = self.class_lookup(st, o.cls, name)
                    if p is not None and self.is_obj(st, p, PROPT):
                        f = st.get(p).fields.get('fset')
                        if f is None or f is NONE:
                            return self.attrerr(st, 'property', 'setter of ' + name)
                        return I.call(st, f, [v, x], {})
                    if p is not None and isinstance(p, Ref) and isinstance(st.get(p).cls, Ref) and not self.is_class(st, p):
                        f = self.class_lookup(st, st.get(p).cls, '__set__')
                        if f is not None:
                            return I.call(st, f, [p, v, x], {})
                    sa = self.class_lookup(st, o.cls, '__setattr__')
                    if sa is not None:
                        return I.call(st, sa, [v, K(name), x], {})
                    if self.is_enum_member(st, v) and name in ('value', 'name'):
                        return self.attrerr(st, 'enum', name)
                elif self.enum_kind(st, v) is not None and name in [n.v for n in o.fields.get('$members', Tup(())).items]:
                    return self.attrerr(st, 'cannot reassign member', name)
            elif isinstance(o.cls, Ty) and isinstance(o.data, tuple) and o.data[0] in ('list', 'dict', 'set', 'sym'):
                return self.attrerr(st, 'object', name)
            return [(st.put(v, o.setf(name, x)), NONE)]
        if isinstance(v, (K, P, Tup, BM, Ty)):
            return self.attrerr(st, 'object', name)
        if isinstance(v, T) and v.op == 'super':
            o = st.get(v.args[1])
            return [(st.put(v.args[1], o.setf(name, x)), NONE)]
        I.stats['opaque'].add('attribute %s of library or unknown object set at %s' % (name, I.where()))
        return [(st.note('attribute of unknown object set'), NONE)]

    def delattr(self, st, v, name):
        if isinstance(v, Ref):
            o = st.get(v)
            if name in o.fields:
                return [(st.put(v, o.delf(name)), NONE)]
            return self.attrerr(st, 'object', name)
        return [(st.note('attribute of unknown object deleted'), NONE)]
