"""Models of the library functions the repository uses."""
import hashlib
import json
import os
from .values import *
from .state import *
from .mcore import *
from .mobj import FUNC, GENT, TYPET, OBJT, PROPT, CMT, SMT, METHT, NONETY

EMPTY = Ext('inspect._empty')
PARAMT, SIGT = Ext('inspect.Parameter'), Ext('inspect.Signature')
KINDS = {'POSITIONAL_ONLY': 0, 'POSITIONAL_OR_KEYWORD': 1, 'VAR_POSITIONAL': 2, 'KEYWORD_ONLY': 3, 'VAR_KEYWORD': 4}


class Library:
    def init_lib(self):
        self.extmap = {
            'typing.TYPE_CHECKING': FALSE,
            'collections.OrderedDict': Ty(dict),
            'inspect.Parameter.empty': EMPTY,
            'inspect.Signature.empty': EMPTY,
            'inspect._empty': EMPTY,
            'types.FunctionType': FUNC,
            'types.MethodType': METHT,
            'types.GeneratorType': GENT,
            'typing_extensions.TypedDict': Ext('typing.TypedDict'),
        }
        for k in KINDS:
            self.extmap['inspect.Parameter.' + k] = Ext('inspect.Parameter.' + k)
            self.extmap['inspect._ParameterKind.' + k] = Ext('inspect.Parameter.' + k)

    # ------------------------------------------------------------------ enum / abc / functools
    def x_enum_auto(self, st, args, kw):
        self.I.nextid[0] += 1
        return [(st, T('enumauto', (K(self.I.nextid[0]),)))]

    def x_enum_unique(self, st, args, kw):
        c = args[0]
        ms = self.enum_members(st, c)
        names = st.get(c).fields['$members'].items
        if len({st.get(c).fields[n.v] for n in names}) != len(names):
            return self.I.exc(st, ValueError, 'duplicate values found')
        return [(st, c)]

    def x_abc_abstractmethod(self, st, args, kw):
        f = args[0]
        if isinstance(f, Ref):
            return [(st.put(f, st.get(f).setf('__isabstractmethod__', TRUE)), f)]
        return [(st, f)]

    def x_functools_wraps(self, st, args, kw):
        return [(st, Bi('wrapsdec', (args[0],)))]

    def b_wrapsdec(self, st, fn, args, kw):
        w, f = fn.args[0], args[0]
        while isinstance(w, BM):
            w = w.f
        if isinstance(w, Ref) and self.is_fn(st, w) and self.is_fn(st, f):
            o, t = st.get(w), st.get(f)
            fields = dict(t.fields)
            fields.update({k: v for k, v in o.fields.items() if k != '__isabstractmethod__'})
            fields['__wrapped__'] = fn.args[0]
            return [(st.put(f, HObj(t.cls, fields, t.data)), f)]
        return [(st.note('wraps of unknown'), f)]

    def x_functools_update_wrapper(self, st, args, kw):
        return self.b_wrapsdec(st, Bi('wrapsdec', (args[1],)), [args[0]], kw)

    def x_functools_partial(self, st, args, kw):
        return [(st, Bi('partial', (args[0], Tup(args[1:]), Tup([Tup((K(k), v)) for k, v in kw.items()]))))]

    def b_partial(self, st, fn, args, kw):
        f, a, k = fn.args
        d = {p.items[0].v: p.items[1] for p in k.items}
        d.update(kw)
        return self.I.call(st, f, list(a.items) + args, d)

    def x_functools_reduce(self, st, args, kw):
        I = self.I
        out = []
        for s, items in I.iterate_all(args[1], st):
            if israise(items) or items is None:
                out.append((s, items if items is not None else T('reduce', (self.freeze(s, args[1]),))))
                continue
            items = ([args[2]] if len(args) > 2 else []) + items
            if not items:
                out.extend(I.exc(s, TypeError, 'reduce() of empty iterable'))
                continue
            res = [(s, items[0])]
            for x in items[1:]:
                res = I.bind(res, lambda s1, a, x=x: I.call(s1, args[0], [a, x], {}))
            out.extend(res)
        return out

    def x_functools_lru_cache(self, st, args, kw):
        if args and (self.is_fn(st, args[0]) or isinstance(args[0], BM)):
            return [(st, args[0])]
        return [(st, Bi('identity'))]

    x_functools_cache = x_functools_lru_cache

    def b_identity(self, st, fn, args, kw):
        return [(st, args[0])]

    def x_contextlib_contextmanager(self, st, args, kw):
        return [(st, args[0])]

    def x_contextlib_suppress(self, st, args, kw):
        return [(st, Bi('suppress', args))]

    # ------------------------------------------------------------------ typing
    def x_typing_TypeVar(self, st, args, kw):
        return [(st, T('typevar', (args[0], Tup(args[1:]), kw.get('bound', NONE))))]

    def attr_typevar(self, st, v, name):
        return [(st, {'__constraints__': v.args[1], '__bound__': v.args[2], '__name__': v.args[0]}.get(name, NONE))]

    def x_typing_cast(self, st, args, kw):
        return [(st, args[1])]

    def x_typing_get_origin(self, st, args, kw):
        v = args[0]
        if isinstance(v, T) and v.op == 'ga':
            return [(st, v.args[0])]
        if isinstance(v, T) and v.op == 'ut':
            return [(st, Ext('types.UnionType'))]
        if isinstance(v, Ext) and v.path.startswith('typing.'):
            h = self.host(v.path)
            o = getattr(h, '__origin__', None)
            if isinstance(o, type):
                return [(st, self.ext_value('%s.%s' % (o.__module__, o.__qualname__)) if o.__module__ != 'builtins' else Ty(o))]
        return [(st, NONE)]

    def x_typing_get_args(self, st, args, kw):
        v = args[0]
        if isinstance(v, T) and v.op == 'ga':
            return [(st, v.args[1])]
        if isinstance(v, T) and v.op == 'ut':
            return [(st, v.args[0])]
        return [(st, Tup(()))]

    def resolve_hint(self, st, v, mod, local=None):
        """string annotations become what they name"""
        if isinstance(v, T) and v.op == 'fwdref':
            v = v.args[0]
        if isinstance(v, K) and isinstance(v.v, str):
            import ast
            try:
                e = ast.parse(v.v, mode='eval').body
            except SyntaxError:
                return self.I.exc(st, SyntaxError, v.v)
            m = self.I.module(st, mod)
            if m is None:
                return self.I.exc(st, NameError, v.v)
            return self.I.bind(self.I.ev(e, m, st), lambda s, x: self.resolve_hint(s, x, mod, local))
        if isinstance(v, K) and v.v is None:
            return [(st, NONETY)]
        if isinstance(v, T) and v.op == 'ga':
            res = [(st, [])]
            for a in v.args[1].items:
                nxt = []
                for s, acc in res:
                    if israise(acc):
                        nxt.append((s, acc))
                        continue
                    for s2, x in self.resolve_hint(s, a, mod) if isinstance(a, T) else [(s, a)]:
                        nxt.append((s2, x if israise(x) else acc + [x]))
                res = nxt
            return [(s, x if israise(x) else T('ga', (v.args[0], Tup(x)))) for s, x in res]
        return [(st, v)]

    def x_typing_get_type_hints(self, st, args, kw):
        I = self.I
        f = args[0]
        while isinstance(f, BM):
            f = f.f
        mod = None
        anns = []
        if isinstance(f, Ref) and self.is_class(st, f):
            for c in reversed(st.get(f).data.mro):
                if isinstance(c, Ref):
                    a = st.get(c).fields.get('__annotations__')
                    if a is not None:
                        anns += list(st.get(a).data[1])
                        mod = st.get(c).data.module
        elif isinstance(f, Ref):
            g = f
            a = st.get(f).fields.get('__annotations__')
            while '__wrapped__' in st.get(g).fields:
                g = st.get(g).fields['__wrapped__']
                while isinstance(g, BM):
                    g = g.f
            if isinstance(st.get(g).fields.get('__module__'), K):
                mod = st.get(g).fields['__module__'].v
            anns = list(st.get(a).data[1]) if a is not None else []
        else:
            return I.exc(st, TypeError, 'not a module, class, method, or function')
        res = [(st, [])]
        for k, v in anns:
            nxt = []
            for s, acc in res:
                if israise(acc):
                    nxt.append((s, acc))
                    continue
                for s2, x in self.resolve_hint(s, v, mod):
                    nxt.append((s2, x if israise(x) else acc + [(k, x)]))
            res = nxt
        return [(s, x) if israise(x) else I.new_dict(s, x) for s, x in res]

    # ------------------------------------------------------------------ inspect
    def x_inspect_isclass(self, st, args, kw):
        v = args[0]
        if isinstance(v, Ty) or self.is_class(st, v):
            return [(st, TRUE)]
        if isinstance(v, Ext):
            return [(st, kb(isinstance(self.host(v.path), type)))]
        return [(st, FALSE)]

    def x_inspect_isfunction(self, st, args, kw):
        return [(st, kb(self.is_fn(st, args[0])))]

    def x_inspect_ismethod(self, st, args, kw):
        return [(st, kb(isinstance(args[0], BM)))]

    def x_inspect_isroutine(self, st, args, kw):
        return [(st, kb(self.is_fn(st, args[0]) or isinstance(args[0], (BM, Bi, BiM))))]

    def x_inspect_isabstract(self, st, args, kw):
        return [(st, kb(self.is_class(st, args[0]) and bool(self.abstract_names(st, args[0]))))]

    def x_inspect_getmembers(self, st, args, kw):
        I = self.I
        v = args[0]
        pred = args[1] if len(args) > 1 else kw.get('predicate')
        names = set()
        cls = v if self.is_class(st, v) else st.get(v).cls
        for c in self.mro(st, cls):
            if isinstance(c, Ref):
                names |= {k for k in st.get(c).fields if not k.startswith('$')}
            elif isinstance(c, Ty):
                names |= set(dir(c.t))
        if not self.is_class(st, v):
            names |= {k for k in st.get(v).fields if not k.startswith('$')}
        res = [(st, [])]
        for n in sorted(names):
            nxt = []
            for s, acc in res:
                if israise(acc):
                    nxt.append((s, acc))
                    continue
                for s2, x in self.getattr(s, v, n):
                    if israise(x):
                        nxt.append((s2, acc if self.is_attr_error(s2, x) else x))
                        continue
                    if pred is None or pred is NONE:
                        nxt.append((s2, acc + [Tup((K(n), x))]))
                        continue
                    for s3, b in I.bind(I.call(s2, pred, [x], {}), lambda q, y: I.truth(q, y)):
                        nxt.append((s3, b if israise(b) else acc + [Tup((K(n), x))] if b else acc))
            res = nxt
        return [(s, x) if israise(x) else I.new_list(s, x) for s, x in res]

    def mkparam(self, st, name, kind, default, ann):
        return self.I.alloc(st, HObj(PARAMT, {'name': name, 'kind': kind, 'default': default, 'annotation': ann}))

    def x_inspect_Parameter(self, st, args, kw):
        d = dict(zip(('name', 'kind'), args))
        d.update(kw)
        return [self.mkparam(st, d['name'], d['kind'], d.get('default', EMPTY), d.get('annotation', EMPTY))]

    def x_inspect_Signature(self, st, args, kw):
        ps = args[0] if args else kw.get('parameters', NONE)
        ra = kw.get('return_annotation', EMPTY)
        out = []
        for s, items in ([(st, [])] if ps is NONE else self.I.iterate_all(ps, st)):
            if israise(items):
                out.append((s, items))
            else:
                out.append(self.mksig(s, items, ra))
        return out

    def mksig(self, st, params, ret):
        st, d = self.I.new_dict(st, [(st.get(p).fields['name'], p) for p in params])
        return self.I.alloc(st, HObj(SIGT, {'parameters': d, 'return_annotation': ret}))

    def x_inspect_signature(self, st, args, kw):
        I = self.I
        f = args[0]
        drop = 0
        while True:
            if isinstance(f, BM):
                f = f.f
                drop += 1
                continue
            if self.is_class(st, f):
                g = self.class_lookup(st, f, '__init__')
                if g is None:
                    return [self.mksig(st, [], EMPTY)]
                f = g
                drop += 1
                continue
            if isinstance(f, Ref) and '__wrapped__' in st.get(f).fields:
                f = st.get(f).fields['__wrapped__']
                continue
            if self.is_obj(st, f, CMT) or self.is_obj(st, f, SMT):
                f = st.get(f).fields['f']
                continue
            break
        if not self.is_fn(st, f):
            if isinstance(f, (Bi, BiM, Ty)):
                return I.exc(st, ValueError, 'no signature found')
            return I.exc(st, TypeError, 'is not a callable object')
        o = st.get(f)
        fn = o.data
        a = fn.node.args
        anns = dict(st.get(o.fields['__annotations__']).data[1]) if '__annotations__' in o.fields else {}
        ps = []
        pos = a.posonlyargs + a.args
        nd = len(fn.defaults)

        def add(st, x, kind, default):
            ps_ann = anns.get(K(I.mangle(x.arg, fn.scope.mangle)), EMPTY)
            st, p = self.mkparam(st, K(I.mangle(x.arg, fn.scope.mangle)), Ext('inspect.Parameter.' + kind), default, ps_ann)
            ps.append(p)
            return st
        for i, x in enumerate(pos):
            j = i - (len(pos) - nd)
            st = add(st, x, 'POSITIONAL_ONLY' if i < len(a.posonlyargs) else 'POSITIONAL_OR_KEYWORD', fn.defaults[j] if j >= 0 else EMPTY)
        if a.vararg:
            st = add(st, a.vararg, 'VAR_POSITIONAL', EMPTY)
        for x in a.kwonlyargs:
            st = add(st, x, 'KEYWORD_ONLY', fn.kwdefaults.get(x.arg, EMPTY))
        if a.kwarg:
            st = add(st, a.kwarg, 'VAR_KEYWORD', EMPTY)
        return [self.mksig(st, ps[drop:], anns.get(K('return'), EMPTY))]

    def x_inspect_getfullargspec(self, st, args, kw):
        return [(st.note('getfullargspec'), T('argspec', (self.freeze(st, args[0]),)))]

    def replaced(self, st, v, kw):
        o = st.get(v)
        f = dict(o.fields)
        f.update(kw)
        return [self.I.alloc(st, HObj(o.cls, f))]

    def xm_inspect_Parameter_replace(self, st, v, args, kw):
        return self.replaced(st, v, kw)

    def xm_inspect_Signature_replace(self, st, v, args, kw):
        kw = dict(kw)
        if 'parameters' in kw:
            out = []
            for s, items in self.I.iterate_all(kw['parameters'], st):
                if israise(items):
                    out.append((s, items))
                    continue
                s, d = self.I.new_dict(s, [(s.get(p).fields['name'], p) for p in items])
                out.extend(self.replaced(s, v, dict(kw, parameters=d)))
            return out
        return self.replaced(st, v, kw)

    def sigbind(self, st, v, args, kw, partial=False):
        I = self.I
        ps = [p for _, p in st.get(st.get(v).fields['parameters']).data[1]]
        res = []
        kw = dict(kw)
        args = list(args)
        for p in ps:
            f = st.get(p).fields
            n = f['name'].v
            k = f['kind'].path.split('.')[-1]
            if k == 'VAR_POSITIONAL':
                if args:
                    res.append((K(n), Tup(args)))
                args = []
            elif k == 'VAR_KEYWORD':
                if kw:
                    st, d = I.new_dict(st, [(K(a), b) for a, b in kw.items()])
                    res.append((K(n), d))
                kw = {}
            elif args and k != 'KEYWORD_ONLY':
                if n in kw:
                    return I.exc(st, TypeError, 'multiple values for argument')
                res.append((K(n), args.pop(0)))
            elif n in kw:
                res.append((K(n), kw.pop(n)))
            elif f['default'] is EMPTY and not partial:
                return I.exc(st, TypeError, "missing a required argument: '%s'" % n)
        if args:
            return I.exc(st, TypeError, 'too many positional arguments')
        if kw:
            return I.exc(st, TypeError, 'got an unexpected keyword argument')
        st, d = I.new_dict(st, res)
        return [I.alloc(st, HObj(Ext('inspect.BoundArguments'), {'arguments': d, 'signature': v}))]

    def xm_inspect_Signature_bind(self, st, v, args, kw):
        return self.sigbind(st, v, args, kw)

    def xm_inspect_Signature_bind_partial(self, st, v, args, kw):
        return self.sigbind(st, v, args, kw, True)

    def xm_inspect_BoundArguments_apply_defaults(self, st, v, args, kw):
        o = st.get(v)
        d = dict(st.get(o.fields['arguments']).data[1])
        out = []
        for _, p in st.get(st.get(o.fields['signature']).fields['parameters']).data[1]:
            f = st.get(p).fields
            if f['name'] in d:
                out.append((f['name'], d[f['name']]))
            elif f['default'] is not EMPTY:
                out.append((f['name'], f['default']))
            elif f['kind'].path.endswith('VAR_POSITIONAL'):
                out.append((f['name'], Tup(())))
        a = o.fields['arguments']
        return [(st.put(a, st.get(a).setd(('dict', tuple(out)))), NONE)]

    def xattr_inspect_BoundArguments(self, st, v, name):
        o = st.get(v)
        if name in ('args', 'kwargs'):
            d = dict(st.get(o.fields['arguments']).data[1])
            pos, kws = [], []
            for _, p in st.get(st.get(o.fields['signature']).fields['parameters']).data[1]:
                f = st.get(p).fields
                k = f['kind'].path.split('.')[-1]
                if f['name'] not in d:
                    continue
                if k == 'VAR_POSITIONAL':
                    pos += list(d[f['name']].items)
                elif k == 'VAR_KEYWORD':
                    kws += list(self.dict_entries(st, d[f['name']]) or [])
                elif k == 'KEYWORD_ONLY':
                    kws.append((f['name'], d[f['name']]))
                else:
                    pos.append(d[f['name']])
            if name == 'args':
                return [(st, Tup(pos))]
            return [self.I.new_dict(st, kws)]
        return [(st, BiM(v, name))]

    # ------------------------------------------------------------------ mapping mixins
    def mm_get(self, st, v, args, kw):
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        out = []
        for s, x in self.getitem(st, v, args[0]):
            if israise(x) and isinstance(x.exc, Ref) and self.subclass(s, s.get(x.exc).cls, Ty(KeyError)):
                out.append((s, d))
            else:
                out.append((s, x))
        return out

    def mm_keys(self, st, v, args, kw):
        return [(s, x) if israise(x) else self.I.new_list(s, x) if x is not None else (s, T('keys', (self.freeze(s, v),), TS(['list'])))
                for s, x in self.I.iterate_all(v, st)]

    def mm_items(self, st, v, args, kw):
        out = []
        for s, ks in self.I.iterate_all(v, st):
            if israise(ks):
                out.append((s, ks))
                continue
            res = [(s, [])]
            for k in ks or []:
                nxt = []
                for s1, acc in res:
                    if israise(acc):
                        nxt.append((s1, acc))
                        continue
                    for s2, x in self.getitem(s1, v, k):
                        nxt.append((s2, x if israise(x) else acc + [Tup((k, x))]))
                res = nxt
            out.extend((s1, a) if israise(a) else self.I.new_list(s1, a) for s1, a in res)
        return out

    def mm_values(self, st, v, args, kw):
        out = []
        for s, l in self.mm_items(st, v, [], {}):
            out.append((s, l) if israise(l) else self.I.new_list(s, [p.items[1] for p in s.get(l).data[1]]))
        return out

    def mm___contains__(self, st, v, args, kw):
        out = []
        for s, x in self.getitem(st, v, args[0]):
            if israise(x) and isinstance(x.exc, Ref) and self.subclass(s, s.get(x.exc).cls, Ty(KeyError)):
                out.append((s, FALSE))
            else:
                out.append((s, x if israise(x) else TRUE))
        return out

    def mm_pop(self, st, v, args, kw):
        I = self.I
        out = []
        for s, x in self.getitem(st, v, args[0]):
            if israise(x) and len(args) > 1 and isinstance(x.exc, Ref) and self.subclass(s, s.get(x.exc).cls, Ty(KeyError)):
                out.append((s, args[1]))
            elif israise(x):
                out.append((s, x))
            else:
                out.extend(I.bind(self.delitem(s, v, args[0]), lambda s2, _, x=x: [(s2, x)]))
        return out

    def mm_clear(self, st, v, args, kw):
        I = self.I
        res = [(st, NONE)]
        out = []
        for s, ks in I.iterate_all(v, st):
            if israise(ks):
                out.append((s, ks))
                continue
            r = [(s, NONE)]
            for k in ks or []:
                r = I.bind(r, lambda s1, _, k=k: self.delitem(s1, v, k))
            out.extend((s1, x if israise(x) else NONE) for s1, x in r)
        return out

    def mm_update(self, st, v, args, kw):
        I = self.I
        ent = self.dict_entries(st, args[0]) if args else []
        if ent is None:
            return [(st.note('update of unknown'), NONE)]
        r = [(st, NONE)]
        for k, x in list(ent) + [(K(a), b) for a, b in kw.items()]:
            r = I.bind(r, lambda s, _, k=k, x=x: self.setitem(s, v, k, x))
        return [(s, x if israise(x) else NONE) for s, x in r]

    # ------------------------------------------------------------------ copy
    def copyval(self, st, v, deep, memo):
        """-> (st, value); containers only"""
        if isinstance(v, Ref):
            if v in memo:
                return st, memo[v]
            o = st.get(v)
            d = o.data
            if isinstance(d, tuple) and d[0] in ('list', 'dict', 'set', 'sym') and not isinstance(o.cls, Ref):
                st, r = self.I.alloc(st, HObj(o.cls, o.fields, d))
                memo[v] = r
                if deep and d[0] in ('list', 'set'):
                    items = []
                    for x in d[1]:
                        st, y = self.copyval(st, x, True, memo)
                        items.append(y)
                    st = st.put(r, HObj(o.cls, o.fields, (d[0], tuple(items))))
                elif deep and d[0] == 'dict':
                    items = []
                    for k, x in d[1]:
                        st, y = self.copyval(st, x, True, memo)
                        items.append((k, y))
                    st = st.put(r, HObj(o.cls, o.fields, ('dict', tuple(items))))
                return st, r
            if self.is_class(st, v) or self.is_fn(st, v) or self.is_enum_member(st, v) or (isinstance(d, tuple) and d[0] == 'module'):
                return st, v
            if isinstance(o.cls, Ref):
                st, r = self.I.alloc(st, HObj(o.cls, o.fields, d))
                memo[v] = r
                if deep:
                    f = {}
                    for k, x in o.fields.items():
                        st, y = self.copyval(st, x, True, memo)
                        f[k] = y
                    st = st.put(r, HObj(o.cls, f, d))
                return st, r
            return st, v
        if isinstance(v, Tup) and deep:
            items = []
            for x in v.items:
                st, y = self.copyval(st, x, True, memo)
                items.append(y)
            return st, Tup(items)
        return st, v

    def x_copy_deepcopy(self, st, args, kw):
        return [self.copyval(st, args[0], True, {})]

    def x_copy_copy(self, st, args, kw):
        return [self.copyval(st, args[0], False, {})]

    # ------------------------------------------------------------------ hashing, json, struct
    def mkhash(self, st, alg, args):
        out = []
        res = [(st, args[0])] if args else [(st, K(b''))]
        for s, v in res:
            if self.kindof(s, v) not in ('bytes', 'bytearray', None):
                out.extend(self.I.exc(s, TypeError, 'object supporting the buffer API required'))
                continue
            if isinstance(v, T) and self.kindof(s, v) is None:
                for s2, g in self.split_types(s, v, [BYTES]):
                    if g == 0:
                        out.append(self.I.alloc(s2, HObj(Ext('hashlib._hash'), {'$alg': K(alg), '$data': v})))
                    else:
                        out.extend(self.I.exc(s2, TypeError, 'object supporting the buffer API required'))
                continue
            out.append(self.I.alloc(s, HObj(Ext('hashlib._hash'), {'$alg': K(alg), '$data': v})))
        return out

    def x_hashlib_sha3_256(self, st, args, kw):
        return self.mkhash(st, 'sha3_256', args)

    def x_hashlib_sha256(self, st, args, kw):
        return self.mkhash(st, 'sha256', args)

    def x_hashlib_new(self, st, args, kw):
        return self.mkhash(st, args[0].v, args[1:])

    def xm_hashlib__hash_update(self, st, v, args, kw):
        o = st.get(v)
        return [(st.put(v, o.setf('$data', self.cat([o.fields['$data'], args[0]], bytes, st))), NONE)]

    def hashterm(self, alg, data):
        if isinstance(data, K):
            return K(hashlib.new(alg, data.v).digest())
        return T(alg, (data,), BYTES)

    def xm_hashlib__hash_digest(self, st, v, args, kw):
        o = st.get(v)
        return [(st, self.hashterm(o.fields['$alg'].v, o.fields['$data']))]

    def xm_hashlib__hash_hexdigest(self, st, v, args, kw):
        return self.I.bind(self.xm_hashlib__hash_digest(st, v, args, kw), lambda s, d: self.raw_method(s, d, 'hex', [], {}))

    def x_json_dumps(self, st, args, kw):
        r = self.fold(st, json.dumps, args, kw)
        if r is not None:
            return r
        v = self.freeze(st, args[0])
        out = []
        for s, ok in self.I.fork(st, T('jsonable', (v,), BOOL)):
            if ok:
                out.append((s, T('json.dumps', [v] + [Tup((K(k), self.freeze(s, x))) for k, x in sorted(kw.items())], STR)))
            else:
                out.extend(self.I.exc(s, TypeError, 'Object is not JSON serializable'))
        return out

    def x_json_loads(self, st, args, kw):
        r = self.fold(st, json.loads, args, kw)
        if r is not None:
            return r
        v = self.freeze(st, args[0])
        out = []
        for s, ok in self.I.fork(st, T('isjson', (v,), BOOL)):
            if ok:
                out.append((s, T('json.loads', (v,))))
            else:
                s2, e = self.I.alloc(s, HObj(Ext('json.JSONDecodeError'), {'args': Tup(())}))
                out.append((s2, R(e, self.I.where())))
        return out

    def x_struct_Struct(self, st, args, kw):
        return [self.I.alloc(st, HObj(Ext('struct.Struct'), {'$fmt': args[0]}))]

    def xm_struct_Struct_pack(self, st, v, args, kw):
        f = st.get(v).fields['$fmt']
        if f is K('>B') or f is K('B') or f is K('!B'):
            return self.m_int_to_bytes(st, args[0], [K(1)], {})
        return [(st, T('pack', [f] + [self.freeze(st, a) for a in args], BYTES))]

    # ------------------------------------------------------------------ misc
    def x_traceback_format_exc(self, st, args, kw):
        return [(st, T('traceback', (), STR))]

    def x_traceback_print_exc(self, st, args, kw):
        return [(st, NONE)]

    def x_warnings_warn(self, st, args, kw):
        return [(st, NONE)]

    def x_warnings_simplefilter(self, st, args, kw):
        return [(st, NONE)]

    x_warnings_filterwarnings = x_warnings_simplefilter

    def xm_threading_Lock_acquire(self, st, v, args, kw):
        return [(st, TRUE)]

    def xm_threading_Lock_release(self, st, v, args, kw):
        return [(st, NONE)]

    def x_os_path_join(self, st, args, kw):
        r = self.fold(st, os.path.join, args, kw)
        if r is not None:
            return r
        return [(st, T('os.path.join', [self.freeze(st, a) for a in args], STR))]

    def pure(self, st, name, f, args, ty, kw=None):
        r = self.fold(st, f, args, kw)
        if r is not None:
            return r
        return [(st, T(name, [self.freeze(st, a) for a in args] + [Tup((K(k), self.freeze(st, v))) for k, v in sorted((kw or {}).items())], ty))]

    def x_os_path_dirname(self, st, args, kw):
        return self.pure(st, 'os.path.dirname', os.path.dirname, args, STR)

    def x_os_path_basename(self, st, args, kw):
        return self.pure(st, 'os.path.basename', os.path.basename, args, STR)

    def x_os_path_split(self, st, args, kw):
        r = self.fold(st, os.path.split, args)
        if r is not None:
            return r
        a = self.freeze(st, args[0])
        return [(st, Tup((T('os.path.dirname', (a,), STR), T('os.path.basename', (a,), STR))))]

    def x_os_path_abspath(self, st, args, kw):
        return [(st, T('os.path.abspath', (self.freeze(st, args[0]),), STR))]

    def x_os_path_normpath(self, st, args, kw):
        return self.pure(st, 'os.path.normpath', os.path.normpath, args, STR)

    def x_os_path_splitext(self, st, args, kw):
        r = self.fold(st, os.path.splitext, args)
        if r is not None:
            return r
        a = self.freeze(st, args[0])
        return [(st, Tup((T('os.path.root', (a,), STR), T('os.path.ext', (a,), STR))))]

    def x_os_path_relpath(self, st, args, kw):
        return [(st, T('os.path.relpath', [self.freeze(st, a) for a in args], STR))]

    def fsquery(self, st, name, args):
        st = st.note('reads file system')
        return [(st, self.dec(st, T(name, [self.freeze(st, a) for a in args], BOOL)))]

    def x_os_path_exists(self, st, args, kw):
        return self.fsquery(st, 'os.path.exists', args)

    def x_os_path_isfile(self, st, args, kw):
        return self.fsquery(st, 'os.path.isfile', args)

    def x_os_path_isdir(self, st, args, kw):
        return self.fsquery(st, 'os.path.isdir', args)

    def x_re_compile(self, st, args, kw):
        return [self.I.alloc(st, HObj(Ext('re.Pattern'), {'pattern': args[0], 'flags': Tup(args[1:])}))]

    def rematch(self, st, fn, pat, s, flags=()):
        """a match object remembers the pattern and the text; facts about what matched are terms over these"""
        import re
        fl = tuple(int(f.v) if isinstance(f, K) else f for f in flags)
        if isinstance(pat, Ref):
            h = st.get(pat)
            pat, fl = h.fields['pattern'], h.fields['flags'].items
            fl = tuple(int(f.v) if isinstance(f, K) else f for f in fl)
        if isinstance(pat, K) and isinstance(s, K) and all(isinstance(f, int) for f in fl):
            try:
                m = getattr(re, fn)(pat.v, s.v, *fl)
            except Exception as e:
                return self.I.exc(st, type(e), str(e))
            if m is None:
                return [(st, NONE)]
            return [self.I.alloc(st, HObj(Ext('re.Match'), {'$m': Tup((K(fn), pat, s, Tup([K(f) for f in fl]))), 'string': s}))]
        out = []
        for q, g in self.split_types(st, s, [TS(['str', 'bytes'])]) if isinstance(s, T) else [(st, None if not isinstance(s, K) else 0)]:
            if g is None:
                out.extend(self.I.exc(q, TypeError, 'expected string or bytes-like object'))
                continue
            key = Tup((K(fn), self.freeze(q, pat), s, Tup([K(f) if isinstance(f, int) else f for f in fl])))
            for s2, b in self.I.fork(q, T('re.' + fn, (key,), BOOL)):
                if b:
                    n = T('relen', (key,), INT)
                    s2 = s2.assume_le0(pneg(n))
                    for s3 in self.model_len(s2, n, s):
                        out.append(self.I.alloc(s3, HObj(Ext('re.Match'), {'$m': key, 'string': s})))
                else:
                    out.append((s2, NONE))
        return out

    def model_len(self, st, n, s):
        st = st.assume_le0(padd(n, self.length(st, s), -1))
        return [] if st is None else [st]

    def xm_re_Match_group(self, st, v, args, kw):
        key = st.get(v).fields['$m']
        fn, pat, s, fl = key.items
        if all(isinstance(a, K) for a in args) and isinstance(s, K) and isinstance(pat, K):
            m = self.real_match(key)
            try:
                r = m.group(*[a.v for a in args])
            except Exception as e:
                return self.I.exc(st, type(e), str(e))
            return [(st, K(r) if not isinstance(r, tuple) else Tup([K(x) for x in r]))]
        if (not args or args == [K(0)]) and fn.v != 'search':
            return [(st, self.regroup(st, key, s, fn))]
        self.I.stats['opaque'].add('group of a match at %s' % self.I.where())
        return [(st.note('library method re.Match.group'), T('xm:group', [key] + [self.freeze(st, a) for a in args]))]

    def regroup(self, st, key, s, fn):
        if fn.v == 'fullmatch':
            return s
        return T('regroup', (key,), st.tset(s))

    def real_match(self, key):
        import re
        fn, pat, s, fl = key.items
        return getattr(re, fn.v)(pat.v, s.v, *[f.v for f in fl.items])

    def xm_re_Match___getitem__(self, st, v, args, kw):
        return self.xm_re_Match_group(st, v, args, kw)

    def rematch_pos(self, st, v, args, which):
        key = st.get(v).fields['$m']
        fn, pat, s, fl = key.items
        if isinstance(s, K) and isinstance(pat, K) and all(isinstance(a, K) for a in args):
            m = self.real_match(key)
            r = getattr(m, which)(*[a.v for a in args])
            return [(st, K(r) if not isinstance(r, tuple) else Tup([K(x) for x in r]))]
        n = self.length(st, s) if fn.v == 'fullmatch' else T('relen', (key,), INT)
        if fn.v != 'search' and (not args or args == [K(0)]):
            return [(st, K(0) if which == 'start' else n if which == 'end' else Tup((K(0), n)))]
        return [(st.note('library method re.Match.' + which), T('xm:' + which, [key] + [self.freeze(st, a) for a in args]))]

    def xm_re_Match_start(self, st, v, args, kw):
        return self.rematch_pos(st, v, args, 'start')

    def xm_re_Match_end(self, st, v, args, kw):
        return self.rematch_pos(st, v, args, 'end')

    def xm_re_Match_span(self, st, v, args, kw):
        return self.rematch_pos(st, v, args, 'span')

    def x_re_match(self, st, args, kw):
        return self.rematch(st, 'match', args[0], args[1], tuple(args[2:]))

    def x_re_fullmatch(self, st, args, kw):
        return self.rematch(st, 'fullmatch', args[0], args[1], tuple(args[2:]))

    def x_re_search(self, st, args, kw):
        return self.rematch(st, 'search', args[0], args[1], tuple(args[2:]))

    def xm_re_Pattern_match(self, st, v, args, kw):
        return self.rematch(st, 'match', v, args[0])

    def xm_re_Pattern_fullmatch(self, st, v, args, kw):
        return self.rematch(st, 'fullmatch', v, args[0])

    def xm_re_Pattern_search(self, st, v, args, kw):
        return self.rematch(st, 'search', v, args[0])

    def x_itertools_chain(self, st, args, kw):
        out = []
        for s, ls in self.lists(st, args):
            if israise(ls):
                out.append((s, ls))
            elif ls is None:
                out.append((s.note('chain of unknown'), T('chain', [self.freeze(s, a) for a in args])))
            else:
                out.append(self.I.new_list(s, [x for l in ls for x in l]))
        return out

    def x_operator_attrgetter(self, st, args, kw):
        return [(st, Bi('attrgetter', args))]

    def b_attrgetter(self, st, fn, args, kw):
        return self.getattr(st, args[0], fn.args[0].v)

    def x_operator_itemgetter(self, st, args, kw):
        return [(st, Bi('itemgetter', args))]

    def b_itemgetter(self, st, fn, args, kw):
        return self.getitem(st, args[0], fn.args[0])

    def x_math_ceil(self, st, args, kw):
        return self.pure(st, 'ceil', __import__('math').ceil, args, INT)

    def x_math_floor(self, st, args, kw):
        return self.pure(st, 'floor', __import__('math').floor, args, INT)

    # sources of nondeterminism
    def clock(self, st, name):
        st = self.impure(st, name, [])
        return [(st, T('impure', (K(name), K(self.I.where()))))]

    def x_time_time(self, st, args, kw):
        return self.clock(st, 'time.time')

    # ------------------------------------------------------------------ operator module
    def opx(self, st, op, args):
        return self.binop(st, op, args[0], args[1])


def _mk():
    for n, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor')):
        setattr(Library, 'x_operator_' + n, lambda self, st, args, kw, op=op: self.binop(st, op, args[0], args[1]))
    for n, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
        setattr(Library, 'x_operator_' + n, lambda self, st, args, kw, op=op: self.compare(st, op, args[0], args[1]))


_mk()
