"""Calls of built-in functions, classes and methods."""
import types
from .values import *
from .state import *
from .mcore import *
from .mobj import FUNC, GENT, TYPET, OBJT, PROPT, CMT, SMT, METHT, NONETY

ITERT = Ext('builtin.iterator')
STRRES = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'zfill', 'format', 'ljust', 'rjust',
          'removeprefix', 'removesuffix', 'swapcase', 'casefold', 'center', 'expandtabs', 'translate', 'format_map'}
BOOLRES = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isidentifier', 'isnumeric',
           'isdecimal', 'istitle', 'isascii', 'isprintable'}
INTRES = {'find', 'rfind', 'count'}


class Builtins:
    # ------------------------------------------------------------------ dispatch
    def call(self, st, fn, args, kw, env=None):
        I = self.I
        args = list(args)
        if isinstance(fn, Ty):
            return self.construct(st, fn, args, kw)
        if isinstance(fn, Bi):
            m = getattr(self, 'b_' + fn.name, None)
            if m is None:
                I.stats['opaque'].add('built-in %s at %s' % (fn.name, I.where()))
                return [(st.note('built-in ' + fn.name), T('bi:' + fn.name, [self.freeze(st, a) for a in args]))]
            return m(st, fn, args, kw)
        if isinstance(fn, BiM):
            return self.method(st, fn.recv, fn.name, args, kw)
        if isinstance(fn, Ext):
            return self.call_ext(st, fn, args, kw)
        if isinstance(fn, T):
            if fn.op == 'ga':
                return I.call(st, fn.args[0], args, kw)
            h = I.hooks.get('call:' + fn.op)
            if h is not None:
                return h(I, st, fn, args, kw)
            if not st.tset(fn).neg:
                return I.exc(st, TypeError, 'object is not callable')
            I.stats['opaque'].add('call of unknown value %s at %s' % (fn.op, I.where()))
            return [(st.note('call of unknown value'), T('call', [fn] + [self.freeze(st, a) for a in args]))]
        return I.exc(st, TypeError, 'object is not callable')

    def call_ext(self, st, fn, args, kw):
        I = self.I
        h = I.hooks.get(fn.path)
        if h is not None:
            return h(I, st, args, kw)
        if I.impure and impure_name(fn.path):
            return [(st, T('impure', (K(fn.path), Tup([self.freeze(st, a) for a in args])), IMPURE_TYPES.get(fn.path.rpartition('.')[2], ANY)))]
        m = getattr(self, 'x_' + fn.path.replace('.', '_'), None)
        if m is not None:
            return m(st, args, kw)
        ho = self.host(fn.path) if fn.path.split('.')[0] in STDLIB else None
        if isinstance(ho, type):
            if issubclass(ho, BaseException):
                return [I.alloc(st, HObj(fn, {'args': Tup(args)}))]
            # an object of a library class: identity only
            return [I.alloc(st, HObj(fn, {'$args': Tup(args)}))]
        I.stats['opaque'].add('library call %s at %s' % (fn.path, I.where()))
        return [(st.note('library call ' + fn.path), T('ext:' + fn.path, [self.freeze(st, a) for a in args] +
                                                       [Tup((K(k), self.freeze(st, v))) for k, v in sorted(kw.items())]))]

    # ------------------------------------------------------------------ constructors
    def construct(self, st, fn, args, kw):
        I = self.I
        t = fn.t
        m = getattr(self, 'k_' + t.__name__, None)
        if m is not None and t.__module__ == 'builtins':
            return m(st, args, kw)
        if issubclass(t, BaseException):
            return [I.alloc(st, HObj(fn, {'args': Tup(args)}))]
        I.stats['opaque'].add('construction of %s at %s' % (t.__name__, I.where()))
        return [(st.note('construction of ' + t.__name__), T('new:' + t.__name__, [self.freeze(st, a) for a in args]))]

    def k_type(self, st, args, kw):
        if len(args) == 1:
            return [(st, self.typeof(st, args[0]))]
        ent = self.dict_entries(st, args[2]) or []
        ns = {k.v: v for k, v in ent}
        ns.setdefault('__module__', K('?'))
        ns.setdefault('__qualname__', args[0])
        return self.make_class(st, args[0].v, list(args[1].items), ns, None, kw, args[0].v, '?')

    def k_object(self, st, args, kw):
        return [self.I.alloc(st, HObj(OBJT, {}))]

    def k_bool(self, st, args, kw):
        if not args:
            return [(st, FALSE)]
        b = self.I.truth_term(st, args[0])
        if b is not None:
            return [(st, self.dec(st, b))]
        return [(s, v if israise(v) else kb(v)) for s, v in self.I.truth(st, args[0])]

    def split_types(self, st, v, groups):
        """partition an unknown value by type groups -> [(st, group index or None)]"""
        out = []
        ts = st.tset(v)
        rest = st
        for i, g in enumerate(groups):
            s = rest.restrict(v, g)
            if s is not None:
                out.append((s, i))
            rest = rest.restrict(v, g.comp())
            if rest is None:
                return out
        out.append((rest, None))
        return out

    def k_int(self, st, args, kw):
        I = self.I
        if not args:
            return [(st, K(0))]
        v = args[0]
        base = args[1] if len(args) > 1 else kw.get('base')
        if isinstance(v, K) and (base is None or isinstance(base, K)):
            r = self.fold(st, int, [v] + ([base] if base is not None else []))
            if r is not None:
                return r
        if base is None:
            x = self.as_int(st, v)
            if x is not None:
                return [(st, x)]
        if isinstance(v, T):
            out = []
            for s, g in self.split_types(st, v, [INTS, STR, BYTES, FLOAT]):
                if g == 0 and base is None:
                    out.append((s, self.as_int(s, v)))
                elif g in (1, 2):
                    b = base if base is not None else K(10)
                    for s2, ok in I.fork(s, T('isint', (v, b), BOOL)):
                        if ok:
                            out.append((s2, T('s2i', (v, b), INT)))
                        else:
                            out.extend(I.exc(s2, ValueError, 'invalid literal for int()'))
                elif g == 3 and base is None:
                    if isinstance(v, T) and v.op == 'truediv' and isinstance(v.args[1], K) and isinstance(v.args[1].v, int) and v.args[1].v > 0:
                        # the quotient of a small non-negative integer is truncated exactly
                        lo, hi = s.bounds(v.args[0])
                        if lo is not None and hi is not None and lo >= 0 and hi <= 2 ** 50 and v.args[1].v <= 2 ** 50:
                            out.append((s, self.floordiv(s, v.args[0], v.args[1])))
                            continue
                    out.append((s, T('f2i', (v,), INT)))
                else:
                    out.extend(I.exc(s, TypeError, 'int() argument must be a string, a bytes-like object or a real number'))
            return out
        if isinstance(v, Ref):
            o = st.get(v)
            for n in ('__int__', '__index__'):
                f = self.class_lookup(st, o.cls, n) if isinstance(o.cls, Ref) else None
                if f is not None:
                    return I.call(st, BM(f, v), [], {})
        return I.exc(st, TypeError, 'int() argument')

    def k_float(self, st, args, kw):
        r = self.fold(st, float, args)
        if r is not None:
            return r
        return [(st, T('float', [self.freeze(st, a) for a in args], FLOAT))]

    def k_str(self, st, args, kw):
        if not args:
            return [(st, K(''))]
        if len(args) > 1 or 'encoding' in kw:
            return self.method(st, args[0], 'decode', args[1:], {k: v for k, v in kw.items() if k != 'object'})
        return self.to_str(st, args[0])

    def k_bytes(self, st, args, kw):
        I = self.I
        if not args:
            return [(st, K(b''))]
        v = args[0]
        if len(args) > 1 or 'encoding' in kw:
            return self.method(st, v, 'encode', args[1:], kw)
        if isinstance(v, T):
            out = []
            for s, g in self.split_types(st, v, [BYTES, INTS]):
                if g == 0:
                    out.append((s, v))
                elif g == 1:
                    x = self.as_int(s, v)
                    for s2, neg in I.fork(s, self.lt(x, K(0))):
                        if neg:
                            out.extend(I.exc(s2, ValueError, 'negative count'))
                        else:
                            out.append((s2, T('repeat', (K(b'\0'), x), BYTES)))
                elif s.tset(v).subset(TS(['str', 'NoneType', 'float', 'dict'])):
                    out.extend(I.exc(s, TypeError, 'cannot convert to bytes'))
                else:
                    out.append((s, T('bytesof', (v,), BYTES)))
            return out
        if isinstance(v, K):
            r = self.fold(st, bytes, [v]) if not (isinstance(v.v, int) and v.v > 100000) else None
            if r is not None:
                return r
        if isinstance(v, Ref):
            o = st.get(v)
            f = self.class_lookup(st, o.cls, '__bytes__') if isinstance(o.cls, Ref) else None
            if f is not None:
                return I.call(st, BM(f, v), [], {})
        out = []
        for s, items in I.iterate_all(v, st):
            if israise(items):
                out.append((s, items))
            elif items is None:
                out.append((s, T('bytesof', (self.freeze(s, v),), BYTES)))
            else:
                parts = []
                bad = None
                for x in items:
                    n = self.as_int(s, x)
                    if n is None:
                        bad = TypeError
                        break
                    lo, hi = s.bounds(n)
                    if isinstance(n, K) and not 0 <= n.v <= 255:
                        bad = ValueError
                        break
                    parts.append(K(bytes([n.v])) if isinstance(n, K) else self.mkbyte(n))
                if bad is not None:
                    out.extend(I.exc(s, bad, 'bytes must be in range(0, 256)'))
                else:
                    out.append((s, self.cat(parts, bytes, s)))
        return out

    k_bytearray = k_bytes

    def k_memoryview(self, st, args, kw):
        return [(st, args[0])]

    def mkbyte(self, n):
        """one byte of value n (0..255 known)"""
        if isinstance(n, K):
            return K(bytes([n.v & 255]))
        return T('byte', (n,), BYTES)

    def seq_of(self, st, v, mk, kind):
        out = []
        for s, items in self.I.iterate_all(v, st):
            if israise(items):
                out.append((s, items))
            elif items is None:
                t = T(kind, (K('of'), self.freeze(s, v)), TS([kind]))
                if kind == 'list' and isinstance(v, (T, Ref)):
                    t = self.freeze(s, v)
                out.append((s, t) if kind != 'list' else self.I.alloc(s, HObj(LISTT, {}, ('sym', t))))
            else:
                out.append(mk(s, items))
        return out

    def k_list(self, st, args, kw):
        if not args:
            return [self.I.new_list(st, ())]
        return self.seq_of(st, args[0], lambda s, i: self.I.new_list(s, i), 'list')

    def k_tuple(self, st, args, kw):
        if not args:
            return [(st, Tup(()))]
        if isinstance(args[0], T) and st.tset(args[0]).subset(TS(['tuple'])):
            return [(st, args[0])]
        return self.seq_of(st, args[0], lambda s, i: (s, Tup(i)), 'tuple')

    def dedupe(self, st, items):
        out = []
        for x in items:
            if not any(self.eq_const(st, x, y) for y in out):
                out.append(x)
        return out

    def mkset(self, st, items):
        out = []
        for x in items:
            rs = [self.eq3(st, x, y) for y in out]
            if True in rs:
                continue
            if None in rs:
                return st.note('set of unknown'), T('setop', (K('of'), Tup([self.freeze(st, y) for y in items])), TS(['set']))
            out.append(x)
        return self.I.new_set(st, out)

    def k_set(self, st, args, kw):
        if not args:
            return [self.I.new_set(st, ())]
        if isinstance(args[0], T) and args[0].op not in ('list', 'dict', 'set'):
            return self.seq_of(st, args[0], self.mkset, 'set')
        out = []
        for s, items in self.I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
            elif isinstance(items, (list, tuple)) and not any(isinstance(x, (T, P)) for x in items):
                out.extend(self.I.fill_set(s, items))
            elif items is not None:
                out.append(self.mkset(s, items))
            else:
                out.extend(self.seq_of(s, args[0], self.mkset, 'set'))
        return out

    k_frozenset = k_set

    def k_dict(self, st, args, kw):
        I = self.I
        st, d = I.new_dict(st, ())
        res = [(st, NONE)]
        if args:
            res = self.m_dict_update(st, d, [args[0]], {})
        for k, v in kw.items():
            res = I.bind(res, lambda s, _, k=k, v=v: self.raw_setitem(s, d, K(k), v))
        return [(s, v if israise(v) else d) for s, v in res]

    def k_range(self, st, args, kw):
        a = [self.as_int(st, x) for x in args]
        if any(x is None for x in a):
            return self.I.exc(st, TypeError, 'object cannot be interpreted as an integer')
        lo, hi, step = (K(0), a[0], K(1)) if len(a) == 1 else (a[0], a[1], K(1)) if len(a) == 2 else a
        if step is K(0):
            return self.I.exc(st, ValueError, 'range() arg 3 must not be zero')
        if not isinstance(step, K):
            return [(st.note('range with unknown step'), T('range?', (lo, hi, step), TS(['range'])))]
        return [(st, T('range', (lo, hi, step), TS(['range'])))]

    def k_enumerate(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', K(0))
        out = []
        for s, items in self.I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
            elif items is None:
                out.append((s, T('enumerate', (self.freeze(s, args[0]), start), TS(['enumerate']))))
            else:
                out.append(self.I.new_list(s, [Tup((padd(start, K(i)), x)) for i, x in enumerate(items)]))
        return out

    def lists(self, st, vs):
        """all items of several iterables -> [(st, [items...]|None|Raise)]"""
        res = [(st, [])]
        for v in vs:
            nxt = []
            for s, acc in res:
                if israise(acc) or acc is None:
                    nxt.append((s, acc))
                    continue
                for s2, items in self.I.iterate_all(v, s):
                    if israise(items):
                        nxt.append((s2, items))
                    else:
                        nxt.append((s2, None if items is None else acc + [items]))
            res = nxt
        return res

    def k_zip(self, st, args, kw):
        out = []
        for s, ls in self.lists(st, args):
            if israise(ls):
                out.append((s, ls))
            elif ls is None:
                # length of the shortest is unknown; pair elementwise when one is known
                known = [self.items_of(s, a) for a in args]
                fr = [self.freeze(s, a) for a in args]
                if any(k is not None for k in known):
                    n = min(len(k) for k in known if k is not None)
                    cur = [(s, [])]
                    for i in range(n):
                        nxt = []
                        for s1, acc in cur:
                            if acc is None:
                                continue
                            conds = [self.lt(K(i), self.length(s1, f)) for f, k in zip(fr, known) if k is None]
                            ss = [(s1, True)]
                            for c in conds:
                                ss = [(b, y) for a, x in ss for b, y in (self.I.fork(a, c) if x else [(a, x)])]
                            for s2, ok in ss:
                                if ok:
                                    nxt.append((s2, acc + [Tup([k[i] if k is not None else self.elem(s2, f, K(i)) for f, k in zip(fr, known)])]))
                                else:
                                    out.append(self.I.new_list(s2, acc))
                        cur = nxt
                    for s1, acc in cur:
                        out.append(self.I.new_list(s1, acc))
                else:
                    out.append((s.note('zip of unknown'), T('zip', fr)))
            else:
                out.append(self.I.new_list(s, [Tup(x) for x in zip(*ls)]))
        return out

    def k_map(self, st, args, kw):
        I = self.I
        out = []
        for s, ls in self.lists(st, args[1:]):
            if israise(ls):
                out.append((s, ls))
                continue
            if ls is None:
                return self.lazy_map(s, args)
            res = [(s, [])]
            for tup in zip(*ls):
                nxt = []
                for s1, acc in res:
                    if israise(acc):
                        nxt.append((s1, acc))
                        continue
                    I.rootstk.append(acc)
                    for s2, v in I.call(s1, args[0], list(tup), {}):
                        nxt.append((s2, v if israise(v) else acc + [v]))
                    I.rootstk.pop()
                res = nxt
            out.extend((s1, v) if israise(v) else I.new_list(s1, v) for s1, v in res)
        return out

    def lazy_map(self, st, args):
        I = self.I
        st, acc = I.new_list(st, ())
        I.rootstk.append([acc])

        def body(s, it):
            return [(s2, v if israise(v) else None) if israise(v) else (self.list_append(s2, acc, v), None) for s2, v in I.call(s, args[0], [it], {})]
        r = [(s, v if israise(v) else acc) for s, v in I.loop_over(args[1], st, body)]
        I.rootstk.pop()
        return r

    def k_filter(self, st, args, kw):
        I = self.I
        out = []
        for s, items in I.iterate_all(args[1], st):
            if israise(items):
                out.append((s, items))
                continue
            if items is None:
                out.append((s.note('filter of unknown'), T('filter', (self.freeze(s, args[1]),))))
                continue
            res = [(s, [])]
            for x in items:
                nxt = []
                for s1, acc in res:
                    if israise(acc):
                        nxt.append((s1, acc))
                        continue
                    I.rootstk.append(acc + items)
                    r = [(s1, x)] if args[0] is NONE else I.call(s1, args[0], [x], {})
                    for s2, b in I.bind(r, lambda s3, v: I.truth(s3, v)):
                        nxt.append((s2, b if israise(b) else acc + [x] if b else acc))
                    I.rootstk.pop()
                res = nxt
            out.extend((s1, v) if israise(v) else I.new_list(s1, v) for s1, v in res)
        return out

    def k_reversed(self, st, args, kw):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
            f = self.class_lookup(st, st.get(v).cls, '__reversed__')
            if f is not None:
                return self.I.call(st, BM(f, v), [], {})
        if isinstance(v, T) and v.op == 'range' and abs(v.args[2].v) == 1:
            lo, hi, step = v.args
            return [(st, T('range', (padd(hi, step, -1), padd(lo, step, -1), K(-step.v)), TS(['range'])))]
        return self.seq_of(st, v, lambda s, i: self.I.new_list(s, list(reversed(i))), 'list')

    def k_property(self, st, args, kw):
        f = dict(zip(('fget', 'fset', 'fdel'), args))
        f.update({k: v for k, v in kw.items() if k in ('fget', 'fset', 'fdel')})
        return [self.I.alloc(st, HObj(PROPT, f))]

    def k_classmethod(self, st, args, kw):
        return [self.I.alloc(st, HObj(CMT, {'f': args[0]}))]

    def k_staticmethod(self, st, args, kw):
        return [self.I.alloc(st, HObj(SMT, {'f': args[0]}))]

    def k_super(self, st, args, kw):
        return [(st, T('super', tuple(args)))]

    def k_slice(self, st, args, kw):
        a = ([NONE] + args + [NONE])[:3] if len(args) == 1 else (args + [NONE])[:3]
        return [(st, T('sliceobj', a, TS(['slice'])))]

    # ------------------------------------------------------------------ functions
    def b_len(self, st, fn, args, kw):
        v = args[0]
        I = self.I
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__len__')
                if f is not None:
                    return I.call(st, BM(f, v), [], {})
                if self.is_class(st, v) and self.is_enum_class(st, v):
                    return [(st, K(len(self.enum_members(st, v))))]
            if self.is_class(st, v) and self.is_enum_class(st, v):
                return [(st, K(len(self.enum_members(st, v))))]
            if not isinstance(o.data, tuple):
                return I.exc(st, TypeError, 'object has no len()')
        if isinstance(v, (P, Ty, Ext, BM, Bi, BiM)) or isinstance(v, K) and not hasattr(v.v, '__len__'):
            return I.exc(st, TypeError, 'object has no len()')
        if isinstance(v, T):
            if v.op == 'range':
                return self.range_len(st, v)
            ts = st.tset(v)
            bad = ts.inter(TS(['int', 'bool', 'NoneType', 'float']))
            if not bad.empty() and ts.subset(TS(['int', 'bool', 'NoneType', 'float'])):
                return I.exc(st, TypeError, 'object has no len()')
            if ts.neg and ts == ANY:
                out = []
                for s, g in self.split_types(st, v, [TS(['int', 'bool', 'NoneType', 'float'])]):
                    out.extend(I.exc(s, TypeError, 'object has no len()') if g == 0 else [(s, self.length(s, v))])
                return out
        return [(st, self.length(st, v))]

    def b_isinstance(self, st, fn, args, kw):
        return self.isinstance(st, args[0], args[1])

    def b_issubclass(self, st, fn, args, kw):
        a, b = args
        if not isinstance(a, (Ty, Ext)) and not self.is_class(st, a):
            if isinstance(a, T) and a.op not in ('ga', 'ut', 'fwdref'):
                return [(st, T('issub', (a, self.freeze(st, b)), BOOL))]
            return self.I.exc(st, TypeError, 'issubclass() arg 1 must be a class')
        cs = []
        todo = [b]
        while todo:
            c = todo.pop(0)
            if isinstance(c, Tup):
                todo = list(c.items) + todo
            elif isinstance(c, T) and c.op == 'ut':
                todo = list(c.args[0].items) + todo
            else:
                cs.append(c)
        for c in cs:
            if not isinstance(c, (Ty, Ext, Ref)):
                return self.I.exc(st, TypeError, 'issubclass() arg 2 must be a class')
            if self.subclass(st, a, c):
                return [(st, TRUE)]
        return [(st, FALSE)]

    def is_attr_error(self, st, r):
        return israise(r) and isinstance(r.exc, Ref) and bool(self.subclass(st, st.get(r.exc).cls, Ty(AttributeError)))

    def b_getattr(self, st, fn, args, kw):
        n = args[1]
        if not (isinstance(n, K) and isinstance(n.v, str)):
            if isinstance(n, T):
                return self.getattr_sym(st, args[0], n, args[2] if len(args) > 2 else None)
            return self.I.exc(st, TypeError, 'attribute name must be string')
        out = []
        for s, v in self.getattr(st, args[0], n.v):
            if len(args) > 2 and self.is_attr_error(s, v):
                out.append((s, args[2]))
            else:
                out.append((s, v))
        return out

    def getattr_sym(self, st, v, n, default):
        """attribute of unknown name"""
        k = st.eqk.get(n)
        if k is not None:
            return self.b_getattr(st, None, [v, k] + ([default] if default is not None else []), {})
        if st.alts and any(t is n for a, b in st.alts for side in (a, b) for kind, t, x in side[0] if kind == 'eqk'):
            out = []
            for i, s in enumerate(st.leaves()):
                if i > 64:
                    raise AnalysisError('attribute of unknown name')
                out += self.getattr_sym(s, v, n, default)
            return out
        self.I.stats['opaque'].add('attribute of unknown name at %s' % self.I.where())
        return [(st.note('effects cut: attribute of unknown name'), T('attrsym', (self.freeze(st, v), n)))]

    def b_hasattr(self, st, fn, args, kw):
        n = args[1]
        if not (isinstance(n, K) and isinstance(n.v, str)):
            return [(st.note('hasattr of unknown name'), T('hasattr', (self.freeze(st, args[0]), n), BOOL))]
        out = []
        for s, v in self.getattr(st, args[0], n.v):
            if self.is_attr_error(s, v):
                out.append((s, FALSE))
            else:
                out.append((s, v if israise(v) else TRUE))
        return out

    def b_setattr(self, st, fn, args, kw):
        n = args[1]
        if not (isinstance(n, K) and isinstance(n.v, str)):
            return [(st.note('setattr of unknown name'), NONE)]
        return self.setattr(st, args[0], n.v, args[2])

    def b_delattr(self, st, fn, args, kw):
        return self.delattr(st, args[0], args[1].v)

    def b_callable(self, st, fn, args, kw):
        v = args[0]
        if isinstance(v, (Ty, Bi, BiM, BM, Ext)):
            return [(st, TRUE)]
        if isinstance(v, Ref):
            o = st.get(v)
            if self.is_class(st, v) or self.is_fn(st, v):
                return [(st, TRUE)]
            return [(st, kb(isinstance(o.cls, Ref) and self.class_lookup(st, o.cls, '__call__') is not None))]
        if isinstance(v, T) and st.tset(v).neg:
            return [(st, T('callable', (v,), BOOL))]
        return [(st, FALSE)]

    def fold_seq(self, st, v, isall):
        I = self.I
        out = []

        def body(s, it):
            res = []
            for s2, b in I.truth(s, it):
                if israise(b):
                    res.append((s2, b))
                elif b != isall:
                    res.append((s2, kb(b)))
                else:
                    res.append((s2, None))
            return res
        for s, r in I.loop_over(v, st, lambda s, it: [(a, _Stop(b) if isinstance(b, K) else b) for a, b in body(s, it)]):
            if isinstance(r, _Stop):
                out.append((s, r.v))
            elif r is None:
                out.append((s, kb(isall)))
            else:
                out.append((s, r))
        return I.merge(out)

    def b_all(self, st, fn, args, kw):
        return self.fold_seq(st, args[0], True)

    def b_any(self, st, fn, args, kw):
        return self.fold_seq(st, args[0], False)

    def b_sum(self, st, fn, args, kw):
        I = self.I
        start = args[1] if len(args) > 1 else K(0)
        out = []
        for s, items in I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
            elif items is None:
                out.append((s, T('sum', (self.freeze(s, args[0]), start), INT)))
            else:
                res = [(s, start)]
                for x in items:
                    res = I.bind(res, lambda s1, a, x=x: self.binop(s1, 'Add', a, x))
                out.extend(res)
        return out

    def minmax(self, st, args, kw, op):
        I = self.I
        out = []
        for s, items in ([(st, args)] if len(args) > 1 else I.iterate_all(args[0], st)):
            if israise(items):
                out.append((s, items))
                continue
            if items is None:
                out.append((s, T('max' if op == 'Gt' else 'min', (self.freeze(s, args[0]),), INT)))
                continue
            if not items:
                if 'default' in kw:
                    out.append((s, kw['default']))
                else:
                    out.extend(I.exc(s, ValueError, 'empty sequence'))
                continue
            key = kw.get('key')
            res = [(s, items[0])]
            for x in items[1:]:
                nxt = []
                for s1, cur in res:
                    if israise(cur):
                        nxt.append((s1, cur))
                        continue

                    def cmp(s2, a, b):
                        return self.compare(s2, op, a, b)
                    if key is None:
                        r = cmp(s1, x, cur)
                    else:
                        r = I.bind(I.call(s1, key, [x], {}), lambda s2, a: I.bind(I.call(s2, key, [cur], {}), lambda s3, b: cmp(s3, a, b)))
                    for s2, c in r:
                        if israise(c):
                            nxt.append((s2, c))
                            continue
                        for s3, b in I.truth(s2, c):
                            nxt.append((s3, b if israise(b) else x if b else cur))
                res = nxt
            out.extend(res)
        return out

    def b_max(self, st, fn, args, kw):
        return self.minmax(st, args, kw, 'Gt')

    def b_min(self, st, fn, args, kw):
        return self.minmax(st, args, kw, 'Lt')

    def b_abs(self, st, fn, args, kw):
        x = self.as_int(st, args[0])
        if x is None:
            return [(st.note('abs'), T('abs', (self.freeze(st, args[0]),)))]
        out = []
        for s, neg in self.I.fork(st, self.lt(x, K(0))):
            out.append((s, pneg(x) if neg else x))
        return out

    def b_divmod(self, st, fn, args, kw):
        return self.I.bind(self.binop(st, 'FloorDiv', args[0], args[1]), lambda s, q: self.I.bind(
            self.binop(s, 'Mod', args[0], args[1]), lambda s2, r: [(s2, Tup((q, r)))]))

    def b_pow(self, st, fn, args, kw):
        if len(args) == 2:
            return self.binop(st, 'Pow', args[0], args[1])
        return [(st, T('powmod', [self.freeze(st, a) for a in args], INT))]

    def b_round(self, st, fn, args, kw):
        r = self.fold(st, round, args)
        return r if r is not None else [(st, T('round', [self.freeze(st, a) for a in args]))]

    def sort_items(self, st, items, kw):
        """stable insertion sort with undecided comparisons forked"""
        I = self.I
        key = kw.get('key')
        rev = kw.get('reverse', FALSE)
        keyed = [(st, [])]
        for x in items:
            nxt = []
            for s, acc in keyed:
                if israise(acc):
                    nxt.append((s, acc))
                    continue
                for s2, k in ([(s, x)] if key is None or key is NONE else I.call(s, key, [x], {})):
                    nxt.append((s2, k if israise(k) else acc + [(k, x)]))
            keyed = nxt
        out = []
        for s, kx in keyed:
            if israise(kx):
                out.append((s, kx))
                continue
            if all(isinstance(k, K) for k, _ in kx):
                try:
                    r = sorted(kx, key=lambda p: p[0].v, reverse=rev is TRUE)
                    out.append((s, [x for _, x in r]))
                    continue
                except TypeError:
                    out.extend(I.exc(s, TypeError, 'not supported between instances'))
                    continue
            if len(kx) > 5:
                out.append((s.note('sort of unknown'), None))
                continue
            res = [(s, [])]
            for p in kx:
                nxt = []
                for s1, acc in res:
                    if israise(acc):
                        nxt.append((s1, acc))
                        continue

                    def ins(s2, i):
                        if i < 0:
                            return [(s2, [p] + acc)]
                        o = []
                        for s3, c in self.compare(s2, 'Gt' if rev is TRUE else 'Lt', p[0], acc[i][0]):
                            if israise(c):
                                o.append((s3, c))
                                continue
                            for s4, b in I.truth(s3, c):
                                o.extend(ins(s4, i - 1) if b else [(s4, acc[:i + 1] + [p] + acc[i + 1:])])
                        return o
                    nxt.extend(ins(s1, len(acc) - 1))
                res = nxt
            out.extend((s1, r if israise(r) else [x for _, x in r]) for s1, r in res)
        return out

    def b_sorted(self, st, fn, args, kw):
        out = []
        for s, items in self.I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
            elif items is None:
                out.append(self.I.alloc(s, HObj(LISTT, {}, ('sym', T('sorted', (self.freeze(s, args[0]),), TS(['list']))))))
            else:
                for s2, r in self.sort_items(s, items, kw):
                    if israise(r):
                        out.append((s2, r))
                    elif r is None:
                        out.append(self.I.alloc(s2, HObj(LISTT, {}, ('sym', T('sorted', (self.freeze(s2, args[0]),), TS(['list']))))))
                    else:
                        out.append(self.I.new_list(s2, r))
        return out

    def b_iter(self, st, fn, args, kw):
        I = self.I
        v = args[0]
        if isinstance(v, Ref):
            o = st.get(v)
            from .interp import Gen
            if isinstance(o.data, Gen) or o.cls is ITERT:
                return [(st, v)]
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__iter__')
                if f is not None:
                    return I.call(st, BM(f, v), [], {})
        items = self.items_of(st, v)
        if items is not None:
            return [I.alloc(st, HObj(ITERT, {}, ('list', tuple(items))))]
        if isinstance(v, T) and st.tset(v).neg is False and not st.tset(v).s & {'list', 'tuple', 'dict', 'set', 'str', 'bytes', 'range'}:
            return I.exc(st, TypeError, 'object is not iterable')
        return [I.alloc(st, HObj(ITERT, {'$of': v, '$pos': K(0)}))]

    def b_next(self, st, fn, args, kw):
        I = self.I
        v = args[0]
        if isinstance(v, Ref):
            o = st.get(v)
            if o.cls is ITERT and isinstance(o.data, tuple):
                if o.data[1]:
                    return [(st.put(v, o.setd(('list', o.data[1][1:]))), o.data[1][0])]
                return [(st, args[1])] if len(args) > 1 else I.exc(st, StopIteration)
            if o.cls is ITERT:
                of, pos = o.fields['$of'], o.fields['$pos']
                out = []
                for s, b in I.fork(st, self.lt(pos, self.length(st, of))):
                    if b:
                        out.append((s.put(v, s.get(v).setf('$pos', padd(pos, K(1)))), self.elem(s, of, pos)))
                    else:
                        out.extend([(s, args[1])] if len(args) > 1 else I.exc(s, StopIteration))
                return out
            if isinstance(o.data, tuple) and o.data[0] == 'list':
                # a generator expression, evaluated at once
                if o.data[1]:
                    return [(st.put(v, o.setd(('list', o.data[1][1:]))), o.data[1][0])]
                return [(st, args[1])] if len(args) > 1 else I.exc(st, StopIteration)
            from .interp import Gen
            if isinstance(o.data, Gen):
                out = []
                for s, items in I.iterate_all(v, st.note('generator stepped by next')):
                    if israise(items):
                        out.append((s, items))
                    elif items:
                        s = s.put(v, HObj(ITERT, {}, ('list', tuple(items[1:]))))
                        out.append((s, items[0]))
                    else:
                        out.extend([(s, args[1])] if len(args) > 1 else I.exc(s, StopIteration))
                return out
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__next__')
                if f is not None:
                    return I.call(st, BM(f, v), [], {})
        return [(st.note('next of unknown'), T('next', (self.freeze(st, v),)))]

    def b_hash(self, st, fn, args, kw):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
            if self.unhashable(st, v):
                return self.I.exc(st, TypeError, 'unhashable type')
            f = self.class_lookup(st, st.get(v).cls, '__hash__')
            if f is not None:
                return self.I.call(st, BM(f, v), [], {})
        x = self.as_int(st, v)
        return [(st, T('hash', (self.freeze(st, v) if x is None else x,), INT))]

    def b_id(self, st, fn, args, kw):
        st = self.impure(st, 'id', args)
        v = args[0]
        return [(st, T('id', (K(('object', v.id)) if isinstance(v, Ref) else self.freeze(st, v),), INT))]

    def impure(self, st, what, args):
        return st.note('impure:' + what)

    def b_repr(self, st, fn, args, kw):
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
            f = self.class_lookup(st, st.get(v).cls, '__repr__')
            if f is not None:
                return self.I.call(st, BM(f, v), [], {})
        return [(st, self.repr_term(st, v))]

    def b_format(self, st, fn, args, kw):
        if len(args) == 1:
            return self.to_str(st, args[0])
        r = self.fold(st, format, args)
        return r if r is not None else [(st, T('format', [self.freeze(st, a) for a in args], STR))]

    def b_chr(self, st, fn, args, kw):
        r = self.fold(st, chr, args)
        return r if r is not None else [(st, T('chr', (self.freeze(st, args[0]),), STR))]

    def b_ord(self, st, fn, args, kw):
        r = self.fold(st, ord, args)
        return r if r is not None else [(st, T('ord', (self.freeze(st, args[0]),), INT))]

    def b_hex(self, st, fn, args, kw):
        r = self.fold(st, hex, args)
        return r if r is not None else [(st, T('hexint', (self.freeze(st, args[0]),), STR))]

    def b_print(self, st, fn, args, kw):
        return [(st, NONE)]

    def b_vars(self, st, fn, args, kw):
        return self.getattr(st, args[0], '__dict__')

    def b_dir(self, st, fn, args, kw):
        v = args[0]
        if self.is_class(st, v):
            names = []
            for c in st.get(v).data.mro:
                if isinstance(c, Ref):
                    names += [k for k in st.get(c).fields if not k.startswith('$')]
            return [self.I.new_list(st, [K(k) for k in sorted(set(names))])]
        return [(st.note('dir'), T('dir', (self.freeze(st, v),), TS(['list'])))]

    def b_open(self, st, fn, args, kw):
        h = self.I.hooks.get('open')
        if h is not None:
            return h(self.I, st, args, kw)
        return [(st.note('open'), T('open', [self.freeze(st, a) for a in args]))]

    def b_classmethod(self, st, fn, args, kw):
        return self.k_classmethod(st, args, kw)

    # bound helpers of the object model
    def b_unbound(self, st, fn, args, kw):
        cls, name = fn.args[0], fn.args[1].v
        t = cls.t
        I = self.I
        c = getattr(self, 'c_%s_%s' % (t.__name__, name), None)
        if c is not None:
            return c(st, args, kw)
        if name == '__new__':
            return self.b_basenew(st, fn, args, kw)
        if name == '__init__':
            return self.raw_init(st, args[0], args[1:], kw)
        if not args:
            return I.exc(st, TypeError, 'unbound method needs an argument')
        return self.raw_method(st, args[0], name, args[1:], kw)

    def b_basenew(self, st, fn, args, kw):
        cls = args[0]
        if self.is_metaclass(st, cls) and len(args) >= 4:
            ent = self.dict_entries(st, args[3]) or []
            return self.type_new(st, cls, args[1].v, list(args[2].items), {k.v: v for k, v in ent})
        return self.new_instance(st, cls, args[1:])

    def b_baseinit(self, st, fn, args, kw):
        obj = fn.args[0]
        if self.is_class(st, obj):
            return [(st, NONE)]
        return self.raw_init(st, obj, args, kw)

    def b_raw(self, st, fn, args, kw):
        return self.raw_method(st, fn.args[0], fn.args[1].v, args, kw)

    def b_mixin(self, st, fn, args, kw):
        return getattr(self, 'mm_' + fn.args[1].v)(st, fn.args[0], args, kw)

    def b_unboundmixin(self, st, fn, args, kw):
        return getattr(self, 'mm_' + fn.args[0].v)(st, args[0], args[1:], kw)

    def b_extmethod(self, st, fn, args, kw):
        c, name, obj = fn.args
        h = self.I.hooks.get('%s.%s' % (c.path, name.v))
        if h is not None:
            return h(self.I, st, [obj] + args, kw)
        m = getattr(self, 'xm_%s_%s' % (c.path.replace('.', '_'), name.v), None)
        if m is not None:
            return m(st, obj, args, kw)
        self.I.stats['opaque'].add('inherited library method %s.%s at %s' % (c.path, name.v, self.I.where()))
        return [(st.note('library method'), T('extm:%s.%s' % (c.path, name.v), [self.freeze(st, a) for a in args]))]

    def b_fnget(self, st, fn, args, kw):
        if args[0] is NONE:
            return [(st, fn.args[0])]
        return [(st, BM(fn.args[0], args[0]))]

    # ------------------------------------------------------------------ methods of built-in objects
    def method(self, st, v, name, args, kw):
        return self.raw_method(st, v, name, args, kw)

    def raw_method(self, st, v, name, args, kw):
        I = self.I
        args = list(args)
        if isinstance(v, Ref):
            o = st.get(v)
            d = o.data
            if self.is_class(st, v):
                return self.class_method(st, v, name, args, kw)
            if isinstance(d, tuple) and d[0] in ('list', 'dict', 'set'):
                m = getattr(self, 'm_%s_%s' % (d[0], name), None)
                if m is not None:
                    return m(st, v, args, kw)
            if isinstance(d, tuple) and d[0] == 'sym':
                kd = st.tset(d[1]).single() if isinstance(d[1], T) else None
                m = getattr(self, 's_%s_%s' % (kd or 'list', name), None)
                if m is not None:
                    return m(st, v, args, kw)
                I.stats['opaque'].add('method %s of unknown container at %s' % (name, I.where()))
                return [(st.note('method of unknown container'), T('symm:' + name, [d[1]] + [self.freeze(st, a) for a in args]))]
            if o.cls in (PROPT,):
                if name in ('getter', 'setter', 'deleter'):
                    f = dict(o.fields)
                    f['f' + name[:3]] = args[0]
                    return [I.alloc(st, HObj(PROPT, f))]
            if isinstance(o.cls, Ext):
                h = I.hooks.get('%s.%s' % (o.cls.path, name))
                if h is not None:
                    return h(I, st, [v] + args, kw)
                m = getattr(self, 'xm_%s_%s' % (o.cls.path.replace('.', '_'), name), None)
                if m is not None:
                    return m(st, v, args, kw)
                I.stats['opaque'].add('library method %s.%s at %s' % (o.cls.path, name, I.where()))
                return [(st.note('library method %s.%s' % (o.cls.path, name)), T('xm:' + name, [self.freeze(st, v)] + [self.freeze(st, a) for a in args]))]
            if self.is_exception(st, v) and name in ('with_traceback', 'add_note'):
                return [(st, v if name == 'with_traceback' else NONE)]
            if name in ('__str__', '__repr__'):
                return self.to_str(st, v) if self.class_lookup(st, o.cls, '__str__') is None or not isinstance(o.cls, Ref) else [(st, T('str', (self.freeze(st, v),), STR))]
            if name == '__hash__':
                return [(st, T('hash', (T('oid', (K(v.id),)),), INT))]
            if name == '__eq__':
                return [(st, TRUE if args[0] is v else Ext('NotImplemented'))]
            if name == '__ne__':
                return [(st, FALSE if args[0] is v else Ext('NotImplemented'))]
            if name in ('__setattr__',):
                return [(st.put(v, o.setf(args[0].v, args[1])), NONE)]
            if name == '__getattribute__':
                return self.getattr(st, v, args[0].v)
            if name in ('__init__', '__init_subclass__', '__enter__', '__exit__', '__del__'):
                return [(st, NONE)]
            if isinstance(o.cls, Ty) and o.cls is GENT:
                return [(st, NONE)]
        if isinstance(v, Tup):
            m = getattr(self, 'm_tuple_' + name, None)
            if m is not None:
                return m(st, v, args, kw)
            r = self.fold(st, lambda a, *x, **k: getattr(a, name)(*x, **k), [v] + args, kw)
            if r is not None:
                return r
        if isinstance(v, K) and not (isinstance(v.v, str) and name in ('join', 'format')) and not (isinstance(v.v, bytes) and name == 'join'):
            r = self.fold(st, lambda a, *x, **k: getattr(a, name)(*x, **k), [v] + args, kw)
            if r is not None:
                return r
        if isinstance(v, (T, K, P, Tup)):
            if name in DUNDERS:
                return self.dunder(st, v, name, args)
            kd = self.kindof(st, v)
            kd = 'int' if kd == 'bool' else kd
            if kd in ('dict', 'list', 'set') and isinstance(v, T):
                m = getattr(self, 't_%s_%s' % (kd, name), None)
            else:
                m = getattr(self, 'm_%s_%s' % (kd, name), None)
            if m is not None:
                return m(st, v, args, kw)
            if kd in ('str', 'bytes'):
                fa = [v] + [self.freeze(st, a) for a in args] + [Tup((K(k), self.freeze(st, a))) for k, a in sorted(kw.items())]
                ty = BOOL if name in BOOLRES else INT if name in INTRES else (STR if kd == 'str' else BYTES) if name in STRRES else None
                if ty is not None:
                    t = T(name, fa, ty)
                    return [(st, self.dec(st, t) if ty is BOOL else t)]
                if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
                    t = T(name, fa, TS(['list']))
                    if name.endswith('partition'):
                        return [(st, Tup([T('idx', (t, K(i)), STR if kd == 'str' else BYTES) for i in range(3)]))]
                    return [(st, T(name, fa, TS(['list'])))]
        I.stats['opaque'].add('method %s of %r at %s' % (name, self.kindof(st, v) if not isinstance(v, (BM, Bi, BiM)) else '?', I.where()))
        return [(st.note('method ' + name), T('m:' + name, [self.freeze(st, v)] + [self.freeze(st, a) for a in args]))]

    def dunder(self, st, v, name, args):
        op = DUNDERS[name]
        I = self.I
        if op in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
            return self.compare(st, op, v, args[0])
        if op == 'len':
            return self.b_len(st, None, [v], {})
        if op == 'str':
            return self.to_str(st, v)
        if op == 'repr':
            return [(st, self.repr_term(st, v))]
        if op == 'hash':
            return self.b_hash(st, None, [v], {})
        if op == 'getitem':
            return self.getitem(st, v, args[0])
        if op == 'contains':
            return self.contains(st, v, args[0])
        if op == 'iter':
            return self.b_iter(st, None, [v], {})
        if op == 'bool':
            return self.k_bool(st, [v], {})
        if op == 'int':
            return self.k_int(st, [v], {})
        return self.binop(st, op, v, args[0])

    def class_method(self, st, v, name, args, kw):
        I = self.I
        if name == 'mro':
            return [I.new_list(st, self.mro(st, v))]
        if name == '__call__':
            return self.instantiate(st, v, args, kw)
        if name == '__subclasses__':
            return [I.new_list(st, ())]
        if name == 'register':
            return [(st, args[0])]
        if name in ('__instancecheck__', '__subclasscheck__'):
            return self.isinstance(st, args[0], v)
        b = self.builtin_base(st, v)
        if b is not None:
            return self.b_unbound(st, Bi('unbound', (Ty(b), K(name))), args, kw)
        I.stats['opaque'].add('class method %s at %s' % (name, I.where()))
        return [(st.note('class method ' + name), T('cm:' + name, [self.freeze(st, a) for a in args]))]

    # int
    def m_int_bit_length(self, st, v, args, kw):
        x = self.as_int(st, v)
        if isinstance(x, K):
            return [(st, K(x.v.bit_length()))]
        return [(st, T('bit_length', (x,), INT))]

    def m_int_conjugate(self, st, v, args, kw):
        return [(st, self.as_int(st, v))]

    def order(self, v):
        return v is not None and isinstance(v, K) and v.v == 'big'

    def m_int_to_bytes(self, st, v, args, kw):
        I = self.I
        x = self.as_int(st, v)
        L = args[0] if args else kw.get('length', K(1))
        order = args[1] if len(args) > 1 else kw.get('byteorder', K('big'))
        signed = kw.get('signed', FALSE)
        if isinstance(x, K) and isinstance(L, K):
            r = self.fold(st, lambda a, b, c, d: a.to_bytes(b, c, signed=d), [x, L, order, signed])
            if r is not None:
                return r
        if isinstance(order, K) and isinstance(signed, K):
            Li = self.as_int(st, L)
            if Li is None:
                return I.exc(st, TypeError, 'length must be an integer')
            if order.v == 'big' and signed.v:
                if self.is_minlen(st, Li, x):
                    return [(st, K(x.v.to_bytes(minlen(x.v), 'big', signed=True)) if isinstance(x, K) else T('i2b', (x,), BYTES))]
            if not signed.v:
                if Li is K(1):
                    out = []
                    for s, neg in I.fork(st, self.lt(x, K(0))):
                        if neg:
                            out.extend(I.exc(s, OverflowError, "can't convert negative int to unsigned"))
                            continue
                        for s2, big in I.fork(s, self.lt(K(255), x)):
                            if big:
                                out.extend(I.exc(s2, OverflowError, 'int too big to convert'))
                            else:
                                out.append((s2, self.mkbyte(x)))
                    return out
                if order.v == 'big':
                    # minimal unsigned length?
                    b2 = T('u2b', (x, Li), BYTES)
                    out = []
                    for s, neg in I.fork(st, self.lt(x, K(0))):
                        if neg:
                            out.extend(I.exc(s, OverflowError, "can't convert negative int to unsigned"))
                        else:
                            for s2, ok in I.fork(s, self.fits(x, Li, False)):
                                if ok:
                                    s3 = s2.assume_eq0(padd(T('len', (b2,), INT), Li, -1))
                                    out.append((s3 if s3 is not None else s2, b2))
                                else:
                                    out.extend(I.exc(s2, OverflowError, 'int too big to convert'))
                    return out
            t = T('tobytes', (x, Li, order, signed), BYTES)
            out = []
            for s, ok in I.fork(st, self.fits(x, Li, bool(signed.v))):
                if ok:
                    s3 = s.assume_eq0(padd(T('len', (t,), INT), Li, -1))
                    out.append((s3 if s3 is not None else s, t))
                else:
                    out.extend(I.exc(s, OverflowError, 'int too big to convert'))
            return out
        return [(st.note('to_bytes'), T('tobytes', (x, L, self.freeze(st, order), self.freeze(st, signed)), BYTES))]

    def fits(self, x, L, signed):
        # a length computed from the number's own bit length always fits
        acc = []
        if not signed and not isinstance(L, K) and self.bl_atoms(L, acc) and acc and all(a is x for a in acc):
            try:
                if all(evalint(L, {a: n for a in (x,)}) * 8 >= n.bit_length() for n in SAMPLES if n >= 0):
                    return TRUE
            except EvalError:
                pass
        return T('fits', (x, L, kb(signed)), BOOL)

    def c_int_from_bytes(self, st, args, kw):
        I = self.I
        b = args[0] if args else kw.get('bytes')
        order = args[1] if len(args) > 1 else kw.get('byteorder', K('big'))
        signed = kw.get('signed', FALSE)
        if isinstance(b, K) or isinstance(b, Tup):
            r = self.fold(st, lambda a, c, d: int.from_bytes(a, c, signed=d), [b, order, signed])
            if r is not None:
                return r
        if isinstance(b, T):
            out = []
            for s, g in self.split_types(st, b, [BYTES]):
                if g is None:
                    if s.tset(b).inter(TS(['list', 'tuple'])).empty():
                        out.extend(I.exc(s, TypeError, 'cannot convert object to bytes'))
                    else:
                        out.append((s.note('from_bytes of unknown'), T('b2x', (b, order, signed), INT)))
                    continue
                if isinstance(order, K) and order.v == 'big' and isinstance(signed, K):
                    out.append((s, self.b2i(s, b) if signed.v else self.b2u(s, b)))
                else:
                    out.append((s, T('b2x', (b, order, signed), INT)))
            return out
        if isinstance(b, Ref):
            return I.bind(self.k_bytes(st, [b], {}), lambda s, v: self.c_int_from_bytes(s, [v, order], kw))
        return I.exc(st, TypeError, 'cannot convert object to bytes')

    def b2i(self, st, b):
        if isinstance(b, T) and b.op == 'i2b':
            return b.args[0]
        k = st.eqk.get(b)
        if k is not None:
            return K(int.from_bytes(k.v, 'big', signed=True))
        return T('b2i', (b,), INT)

    def b2u(self, st, b):
        if isinstance(b, T) and b.op == 'u2b':
            return b.args[0]
        if isinstance(b, T) and b.op == 'byte':
            return b.args[0]
        if isinstance(b, T) and b.op == 'slice' and len(b.args) == 3 and isinstance(b.args[1], K) and isinstance(b.args[2], K) \
                and isinstance(b.args[1].v, int) and isinstance(b.args[2].v, int) and b.args[1].v >= 0 and b.args[2].v == b.args[1].v + 1:
            lo = st.bounds(self.length(st, b.args[0]))[0]
            if lo is not None and lo >= b.args[2].v:
                return T('byteat', (b.args[0], K(b.args[1].v)), INT)
        k = st.eqk.get(b)
        if k is not None:
            return K(int.from_bytes(k.v, 'big'))
        return T('b2u', (b,), INT)

    # str / bytes
    def m_str_encode(self, st, v, args, kw):
        if isinstance(v, T) and v.op == 'decode':
            return [(st, v.args[0])]
        enc = args[0] if args else kw.get('encoding', K('utf-8'))
        if isinstance(enc, K) and enc.v.lower().replace('-', '').replace('_', '') == 'utf8' and len(args) < 2 and 'errors' not in kw:
            return [(st, T('encode', (v,), BYTES))]
        if isinstance(enc, K) and isinstance(v, T) and v.op in ('hex',):
            return [(st, T('encode', (v,), BYTES))]
        return [(st, T('encodeas', (v, enc) + tuple(args[1:]), BYTES))]

    def m_bytes_decode(self, st, v, args, kw):
        enc = args[0] if args else kw.get('encoding', K('utf-8'))
        if isinstance(v, T) and v.op == 'encode':
            return [(st, v.args[0])]
        if isinstance(v, T) and v.op == 'encodeas' and v.args[1] is enc:
            return [(st, T('utf8able', (v.args[0],), STR))]
        if isinstance(enc, K) and enc.v.lower().replace('-', '').replace('_', '') == 'utf8' and len(args) < 2 and 'errors' not in kw:
            out = []
            for s, ok in self.I.fork(st, T('isutf8', (v,), BOOL)):
                if ok:
                    out.append((s, T('decode', (v,), STR)))
                else:
                    st2, e = self.I.alloc(s, HObj(Ty(UnicodeDecodeError), {'args': Tup((K('utf-8'), v))}))
                    out.append((st2, R(e, self.I.where())))
            return out
        return [(st, T('decodeas', (v, enc) + tuple(args[1:]), STR))]

    def m_bytes_hex(self, st, v, args, kw):
        if isinstance(v, T) and v.op == 'fromhex':
            return [(st, T('hex', (v,), STR))]
        return [(st, T('hex', (v,), STR))]

    def c_bytes_fromhex(self, st, args, kw):
        v = args[0]
        I = self.I
        if isinstance(v, K):
            r = self.fold(st, bytes.fromhex, [v])
            if r is not None:
                return r
        if isinstance(v, T) and v.op == 'hex':
            return [(st, v.args[0])]
        if isinstance(v, T):
            out = []
            for s, g in self.split_types(st, v, [STR]):
                if g is None:
                    out.extend(I.exc(s, TypeError, 'fromhex() argument must be str'))
                    continue
                for s2, ok in I.fork(s, T('ishex', (v,), BOOL)):
                    if ok:
                        out.append((s2, T('fromhex', (v,), BYTES)))
                    else:
                        out.extend(I.exc(s2, ValueError, 'non-hexadecimal number found in fromhex() arg'))
            return out
        return I.exc(st, TypeError, 'fromhex() argument must be str')

    def m_str_join(self, st, v, args, kw):
        return self.joinseq(st, v, args, str)

    def m_bytes_join(self, st, v, args, kw):
        return self.joinseq(st, v, args, bytes)

    def joinseq(self, st, v, args, kind):
        out = []
        for s, items in self.I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
            elif items is None:
                out.append((s, T('join', (v, self.freeze(s, args[0])), STR if kind is str else BYTES)))
            else:
                parts = []
                bad = False
                for i, x in enumerate(items):
                    if i:
                        parts.append(v)
                    k = self.kindof(s, x)
                    if k not in (kind.__name__, None):
                        bad = True
                    parts.append(x)
                if bad:
                    out.extend(self.I.exc(s, TypeError, 'sequence item: wrong type'))
                else:
                    out.append((s, self.cat(parts, kind, s)))
        return out

    def m_str_format(self, st, v, args, kw):
        return [(st, T('format', [v] + [self.freeze(st, a) for a in args] + [Tup((K(k), self.freeze(st, a))) for k, a in sorted(kw.items())], STR))]

    # tuple
    def m_tuple_index(self, st, v, args, kw):
        for i, x in enumerate(v.items):
            if self.eq_const(st, x, args[0]):
                return [(st, K(i))]
        return self.I.exc(st, ValueError, 'not in tuple')

    def m_tuple_count(self, st, v, args, kw):
        return [(st, K(sum(1 for x in v.items if self.eq_const(st, x, args[0]))))]

    # list
    def m_list_append(self, st, v, args, kw):
        return [(self.list_append(st, v, args[0]), NONE)]

    def m_list_extend(self, st, v, args, kw):
        out = []
        for s, items in self.I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
                continue
            o = s.get(v)
            if items is None or o.data[0] != 'list':
                out.append((s.put(v, o.setd(('sym', T('lcat', (self.freeze(s, v), self.freeze(s, args[0])), TS(['list']))))), NONE))
            else:
                out.append((s.put(v, o.setd(('list', o.data[1] + tuple(items)))), NONE))
        return out

    def m_list_pop(self, st, v, args, kw):
        o = st.get(v)
        it = o.data[1]
        i = self.as_int(st, args[0]) if args else K(-1)
        if not isinstance(i, K):
            return [(self.forget(st, v), T('popped', (self.freeze(st, v), self.freeze(st, args[0]))))]
        if not -len(it) <= i.v < len(it):
            return self.I.exc(st, IndexError, 'pop from empty list' if not it else 'pop index out of range')
        l = list(it)
        x = l.pop(i.v)
        return [(st.put(v, o.setd(('list', tuple(l)))), x)]

    def m_list_insert(self, st, v, args, kw):
        o = st.get(v)
        i = self.as_int(st, args[0])
        if not isinstance(i, K):
            return [(self.forget(st, v), NONE)]
        l = list(o.data[1])
        l.insert(i.v, args[1])
        return [(st.put(v, o.setd(('list', tuple(l)))), NONE)]

    def m_list_clear(self, st, v, args, kw):
        o = st.get(v)
        return [(st.put(v, o.setd((o.data[0], ()))), NONE)]

    m_dict_clear = m_list_clear
    m_set_clear = m_list_clear

    def m_list_copy(self, st, v, args, kw):
        o = st.get(v)
        return [self.I.alloc(st, HObj(Ty({'list': list, 'dict': dict, 'set': set}[o.data[0]]), {}, o.data))]

    m_dict_copy = m_list_copy
    m_set_copy = m_list_copy

    def m_list_reverse(self, st, v, args, kw):
        o = st.get(v)
        return [(st.put(v, o.setd(('list', tuple(reversed(o.data[1]))))), NONE)]

    def m_list_sort(self, st, v, args, kw):
        out = []
        for s, r in self.sort_items(st, list(st.get(v).data[1]), kw):
            if israise(r):
                out.append((s, r))
            elif r is None:
                out.append((self.forget(s, v), NONE))
            else:
                out.append((s.put(v, s.get(v).setd(('list', tuple(r)))), NONE))
        return out

    def m_list_index(self, st, v, args, kw):
        out = []
        cur = [st]
        for i, x in enumerate(st.get(v).data[1]):
            nxt = []
            for s in cur:
                for s2, c in self.eq(s, x, args[0]):
                    if israise(c):
                        out.append((s2, c))
                        continue
                    for s3, b in self.I.truth(s2, c):
                        if b is True:
                            out.append((s3, K(i)))
                        else:
                            nxt.append(s3)
            cur = nxt
        for s in cur:
            out.extend(self.I.exc(s, ValueError, 'not in list'))
        return out

    def m_list_remove(self, st, v, args, kw):
        def f(s, i):
            o = s.get(v)
            return [(s.put(v, o.setd(('list', o.data[1][:i.v] + o.data[1][i.v + 1:]))), NONE)]
        return self.I.bind(self.m_list_index(st, v, args, kw), f)

    def m_list_count(self, st, v, args, kw):
        n = 0
        for x in st.get(v).data[1]:
            if self.eq_const(st, x, args[0]):
                n += 1
            elif isinstance(x, T) or isinstance(args[0], T):
                return [(st.note('count of unknown'), T('count', (self.freeze(st, v), self.freeze(st, args[0])), INT))]
        return [(st, K(n))]

    def m_list___len__(self, st, v, args, kw):
        return [(st, self.length(st, v))]

    m_dict___len__ = m_set___len__ = m_list___len__

    def m_list___iter__(self, st, v, args, kw):
        return [self.I.alloc(st, HObj(ITERT, {}, ('list', tuple(self.items_of(st, v)))))]

    m_dict___iter__ = m_set___iter__ = m_list___iter__

    def m_list___getitem__(self, st, v, args, kw):
        return self.raw_getitem(st, v, args[0])

    def m_list___setitem__(self, st, v, args, kw):
        return self.raw_setitem(st, v, args[0], args[1])

    def m_list___delitem__(self, st, v, args, kw):
        return self.raw_delitem(st, v, args[0])

    m_dict___getitem__, m_dict___setitem__, m_dict___delitem__ = m_list___getitem__, m_list___setitem__, m_list___delitem__

    def m_list___contains__(self, st, v, args, kw):
        return self.in_items(st, self.items_of(st, v), args[0])

    m_dict___contains__ = m_set___contains__ = m_list___contains__

    # unknown lists
    def s_list_append(self, st, v, args, kw):
        return [(self.list_append(st, v, args[0]), NONE)]

    def s_list_extend(self, st, v, args, kw):
        o = st.get(v)
        return [(st.put(v, o.setd(('sym', T('lcat', (o.data[1], self.freeze(st, args[0])), TS(['list']))))), NONE)]

    def s_list_pop(self, st, v, args, kw):
        o = st.get(v)
        out = []
        ln = self.length(st, v)
        i = args[0] if args else K(-1)
        for s, b in self.I.fork(st, self.eq0(ln)):
            if b:
                out.extend(self.I.exc(s, IndexError, 'pop from empty list'))
                continue
            src = o.data[1]
            if not args and isinstance(src, T) and src.op == 'appended':
                out.append((s.put(v, o.setd(('sym', src.args[0]))), src.args[1]))
                continue
            x = T('popped', (src, self.freeze(s, i)))
            n = T('after_pop', (src, self.freeze(s, i)), TS(['list']))
            s = s.put(v, o.setd(('sym', n)))
            s2 = s.assume_eq0(padd(padd(T('len', (n,), INT), ln, -1), K(1)))
            out.append((s2 if s2 is not None else s, x))
        return out

    def s_list_clear(self, st, v, args, kw):
        o = st.get(v)
        return [(st.put(v, o.setd((st.tset(o.data[1]).single() or 'list', ()))), NONE)]

    s_dict_clear = s_list_clear

    def s_list_copy(self, st, v, args, kw):
        o = st.get(v)
        return [self.I.alloc(st, HObj(o.cls, {}, o.data))]

    s_dict_copy = s_list_copy

    def s_dict_get(self, st, v, args, kw):
        return self.t_dict_get(st, st.get(v).data[1], args, kw)

    def s_dict_items(self, st, v, args, kw):
        return [(st, T('items', (st.get(v).data[1],), TS(['list'])))]

    def s_dict_keys(self, st, v, args, kw):
        return [(st, T('keys', (st.get(v).data[1],), TS(['list'])))]

    def s_dict_values(self, st, v, args, kw):
        return [(st, T('values', (st.get(v).data[1],), TS(['list'])))]

    def t_dict_get(self, st, v, args, kw):
        d = args[1] if len(args) > 1 else NONE
        fk = self.freeze(st, args[0])
        out = []
        for s, b in self.I.fork(st, T('member', (v, fk), BOOL)):
            out.append((s, T('idx', (v, fk)) if b else d))
        return out

    def t_dict_items(self, st, v, args, kw):
        return [(st, T('items', (v,), TS(['list'])))]

    def t_dict_keys(self, st, v, args, kw):
        return [(st, T('keys', (v,), TS(['list'])))]

    def t_dict_values(self, st, v, args, kw):
        return [(st, T('values', (v,), TS(['list'])))]

    # dict
    def m_dict_get(self, st, v, args, kw):
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        if self.unhashable(st, args[0]):
            return self.I.exc(st, TypeError, 'unhashable type')
        pairs = st.get(v).data[1]
        return [(s, i if israise(i) else d if i is None else pairs[i][1]) for s, i in self.find_key(st, pairs, args[0])]

    def m_dict_items(self, st, v, args, kw):
        return [self.I.new_list(st, [Tup(p) for p in st.get(v).data[1]])]

    def m_dict_keys(self, st, v, args, kw):
        return [self.I.new_list(st, [p[0] for p in st.get(v).data[1]])]

    def m_dict_values(self, st, v, args, kw):
        return [self.I.new_list(st, [p[1] for p in st.get(v).data[1]])]

    def m_dict_pop(self, st, v, args, kw):
        out = []
        pairs = st.get(v).data[1]
        for s, i in self.find_key(st, pairs, args[0]):
            if israise(i):
                out.append((s, i))
            elif i is None:
                out.extend([(s, args[1])] if len(args) > 1 else self.I.exc(s, KeyError, args[0]))
            else:
                o = s.get(v)
                out.append((s.put(v, o.setd(('dict', pairs[:i] + pairs[i + 1:]))), pairs[i][1]))
        return out

    def m_dict_popitem(self, st, v, args, kw):
        o = st.get(v)
        if not o.data[1]:
            return self.I.exc(st, KeyError, 'popitem(): dictionary is empty')
        last = kw.get('last', args[0] if args else TRUE)
        p = o.data[1]
        if last is FALSE:
            return [(st.put(v, o.setd(('dict', p[1:]))), Tup(p[0]))]
        return [(st.put(v, o.setd(('dict', p[:-1]))), Tup(p[-1]))]

    def m_dict_setdefault(self, st, v, args, kw):
        d = args[1] if len(args) > 1 else NONE
        out = []
        pairs = st.get(v).data[1]
        for s, i in self.find_key(st, pairs, args[0]):
            if israise(i):
                out.append((s, i))
            elif i is None:
                o = s.get(v)
                out.append((s.put(v, o.setd(('dict', pairs + ((args[0], d),)))), d))
            else:
                out.append((s, pairs[i][1]))
        return out

    def m_dict_update(self, st, v, args, kw):
        I = self.I
        res = [(st, NONE)]
        if args:
            src = args[0]
            ent = self.dict_entries(st, src)
            if ent is None and isinstance(src, Ref) and isinstance(st.get(src).cls, Ref):
                f = self.class_lookup(st, st.get(src).cls, 'keys')
                if f is not None:
                    def g(s, ks):
                        def body(s2, k):
                            return I.bind(self.getitem(s2, src, k), lambda s3, x: [(s4, y if israise(y) else None) for s4, y in self.raw_setitem(s3, v, k, x)])
                        return [(s2, x if israise(x) else NONE) for s2, x in I.loop_over(ks, s, body)]
                    return I.bind(I.call(st, BM(f, src), [], {}), g)
            if ent is not None:
                for k, x in ent:
                    res = I.bind(res, lambda s, _, k=k, x=x: self.raw_setitem(s, v, k, x))
            elif isinstance(src, T) and st.tset(src).subset(TS(['dict'])):
                o = st.get(v)
                if not o.data[1]:
                    return [(st.put(v, o.setd(('sym', src))), NONE)]
                return [(st.put(v, o.setd(('sym', T('dupdate', (self.freeze(st, v), src), TS(['dict']))))), NONE)]
            elif isinstance(src, Ref) and isinstance(st.get(src).data, tuple) and st.get(src).data[0] == 'sym' and st.tset(st.get(src).data[1]).subset(TS(['dict'])):
                return self.m_dict_update(st, v, [st.get(src).data[1]], kw)
            else:
                out = []
                for s, items in I.iterate_all(src, st):
                    if israise(items):
                        out.append((s, items))
                        continue
                    if items is None:
                        out.append((s.put(v, s.get(v).setd(('sym', T('dictof', (self.freeze(s, src),), TS(['dict']))))), NONE))
                        continue
                    cur = [(s, NONE)]
                    for it in items:
                        def one(s1, _, it=it):
                            o2 = []
                            for s2, kv in I.iterate_all(it, s1, 2):
                                if israise(kv):
                                    o2.append((s2, kv))
                                elif kv is None or len(kv) != 2:
                                    o2.extend(I.exc(s2, ValueError, 'dictionary update sequence element'))
                                else:
                                    o2.extend(self.raw_setitem(s2, v, kv[0], kv[1]))
                            return o2
                        cur = I.bind(cur, one)
                    out.extend(cur)
                res = out
        for k, x in kw.items():
            res = I.bind(res, lambda s, _, k=k, x=x: self.raw_setitem(s, v, K(k), x))
        return [(s, r if israise(r) else NONE) for s, r in res]

    def m_dict_move_to_end(self, st, v, args, kw):
        return [(st, NONE)]

    def c_dict_fromkeys(self, st, args, kw):
        out = []
        for s, items in self.I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
            else:
                out.append(self.I.new_dict(s, [(k, args[1] if len(args) > 1 else NONE) for k in self.dedupe(s, items or [])]))
        return out

    # set
    def m_set_add(self, st, v, args, kw):
        out = []
        if self.unhashable(st, args[0]):
            return self.I.exc(st, TypeError, 'unhashable type')
        for s, b in self.I.bind(self.in_items(st, list(st.get(v).data[1]), args[0]), lambda s, x: self.I.truth(s, x)):
            if israise(b) or b:
                out.append((s, b if israise(b) else NONE))
            else:
                o = s.get(v)
                out.append((s.put(v, o.setd(('set', o.data[1] + (args[0],)))), NONE))
        return out

    def m_set_discard(self, st, v, args, kw):
        o = st.get(v)
        return [(st.put(v, o.setd(('set', tuple(x for x in o.data[1] if not self.eq_const(st, x, args[0]))))), NONE)]

    def m_set_remove(self, st, v, args, kw):
        o = st.get(v)
        if any(self.eq_const(st, x, args[0]) for x in o.data[1]):
            return self.m_set_discard(st, v, args, kw)
        return self.I.exc(st, KeyError, args[0])

    def m_set_update(self, st, v, args, kw):
        out = []
        for s, items in self.I.iterate_all(args[0], st):
            if israise(items):
                out.append((s, items))
                continue
            o = s.get(v)
            out.append((s.put(v, o.setd(('set', tuple(self.dedupe(s, list(o.data[1]) + list(items or [])))))), NONE))
        return out

    def m_set_union(self, st, v, args, kw):
        r = self.setop(st, 'BitOr', v, args[0], 'set')
        return r if r is not None else [(st.note('set of unknown'), T('setop', (self.freeze(st, v), self.freeze(st, args[0])), TS(['set'])))]

    def m_set_intersection(self, st, v, args, kw):
        r = self.setop(st, 'BitAnd', v, args[0], 'set')
        return r if r is not None else [(st.note('set of unknown'), T('setop', (self.freeze(st, v), self.freeze(st, args[0])), TS(['set'])))]

    def m_set_difference(self, st, v, args, kw):
        r = self.setop(st, 'Sub', v, args[0], 'set')
        return r if r is not None else [(st.note('set of unknown'), T('setop', (self.freeze(st, v), self.freeze(st, args[0])), TS(['set'])))]

    def m_set_issubset(self, st, v, args, kw):
        a, b = self.items_of(st, v), self.items_of(st, args[0])
        if a is None or b is None:
            return [(st, T('issubset', (self.freeze(st, v), self.freeze(st, args[0])), BOOL))]
        return [(st, kb(all(any(self.eq_const(st, x, y) for y in b) for x in a)))]


class _Stop:
    def __init__(self, v):
        self.v = v


DUNDERS = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__floordiv__': 'FloorDiv', '__mod__': 'Mod', '__and__': 'BitAnd',
           '__or__': 'BitOr', '__xor__': 'BitXor', '__lshift__': 'LShift', '__rshift__': 'RShift', '__lt__': 'Lt', '__le__': 'LtE',
           '__gt__': 'Gt', '__ge__': 'GtE', '__eq__': 'Eq', '__ne__': 'NotEq', '__len__': 'len', '__str__': 'str', '__repr__': 'repr',
           '__hash__': 'hash', '__getitem__': 'getitem', '__contains__': 'contains', '__iter__': 'iter', '__bool__': 'bool', '__int__': 'int'}
