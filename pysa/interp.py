"""The abstract interpreter: evaluates syntax trees over abstract states.

Every evaluation returns a list of (state, value) pairs; a value may be a Raise (exceptional outcome) or Halt (the
analysed run ends here).  Branches on undecided conditions partition the state; states that agree on everything but
facts are joined again at calls' ends and after conditionals; loops whose exit stays undecided are widened."""
import ast
import os
import sys

from .values import *
from .state import *


class Raise:
    __slots__ = ('exc', 'where')

    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where

    def __repr__(self):
        return 'Raise(%r)' % (self.exc,)


class Halt(Raise):
    __slots__ = ('reason',)

    def __init__(self, reason):
        self.exc = None
        self.where = None
        self.reason = reason

    def __repr__(self):
        return 'Halt(%s)' % self.reason


class GenExit(Raise):
    """unwinding of a generator whose consumer left its loop"""
    __slots__ = ('sig',)

    def __init__(self, sig):
        self.exc = None
        self.where = None
        self.sig = sig


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class _Sig:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


BRK = _Sig('break')
CNT = _Sig('continue')


class AnalysisError(Exception):
    pass


class Scope:
    __slots__ = ('kind', 'names', 'globs', 'nonlocs', 'mangle', 'module', 'qual', 'file', 'isgen')

    def __init__(self, kind):
        self.kind = kind
        self.names = set()
        self.globs = set()
        self.nonlocs = set()
        self.mangle = None
        self.module = None
        self.qual = ''
        self.file = None
        self.isgen = False


class Fn:
    """payload of a function object"""
    __slots__ = ('node', 'env', 'scope', 'defaults', 'kwdefaults', 'name', 'module')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class ClassInfo:
    __slots__ = ('name', 'bases', 'mro', 'meta', 'qual', 'module')


class Gen:
    __slots__ = ('fn', 'env', 'done')

    def __init__(self, fn, env):
        self.fn = fn
        self.env = env
        self.done = False


FUNC = Ty(type(lambda: 0))
MODT = Ty(type(os))
GENT = Ty(type((i for i in ())))
LISTT, DICTT, SETT, TUPT = Ty(list), Ty(dict), Ty(set), Ty(tuple)
TYPET = Ty(type)
OBJT = Ty(object)


class _PropT(property):
    pass


PROPT, CMT, SMT = Ty(property), Ty(classmethod), Ty(staticmethod)


class Interp:
    def __init__(self, roots, peel=3, depth=140, recursion=24):
        self.search = list(roots)       # directories modules are looked up in
        self.modules = {}               # name -> [Ref] (module objects; a state uses the one its heap has)
        self.nextid = [0]
        self.peel = peel
        self.maxdepth = depth
        self.maxrec = recursion
        self.scopes = {}
        self.rootstk = []               # values alive in the evaluator (for merging)
        self.stack = []                 # call stack: (qualname, file, line)
        self.excstk = []
        self.recs = {}
        self.curline = 0
        self.impure = False         # whether what the host provides is told apart
        self.backwards = False      # sets are iterated in the other order
        self.virtual = {}           # module name -> text of a contract that is in no file
        self.asts = {}
        self.hooks = {}                 # ext path -> callable(interp, st, args, kw) -> results
        self.stats = {'calls': 0, 'functions': set(), 'branches': 0, 'merged': 0, 'widened': set(), 'cut': set(),
                      'stmts': 0, 'opaque': set(), 'files': set()}
        self.maystates = 200000
        self.lowmem = 0
        self._refs = {}
        self.yieldstk = []
        self.crash = None
        from . import model
        self.model = model.Model(self)

    # ------------------------------------------------------------------ heap helpers
    def alloc(self, st, obj):
        self.nextid[0] += 1
        r = Ref(self.nextid[0])
        return st.put(r, obj), r

    def new_list(self, st, items):
        return self.alloc(st, HObj(LISTT, {}, ('list', tuple(items))))

    def new_dict(self, st, pairs):
        return self.alloc(st, HObj(DICTT, {}, ('dict', tuple(pairs))))

    def new_set(self, st, items):
        return self.alloc(st, HObj(SETT, {}, ('set', tuple(items))))

    def where(self):
        if self.stack:
            q, f, _ = self.stack[-1]
            return '%s:%d (%s)' % (f, self.curline, q)
        return '?:%d' % self.curline

    def path(self):
        return ' > '.join('%s:%d' % (q, l) for q, f, l in self.stack)

    def emit(self, st, kind, *args):
        return st.with_trace(Ev(kind, args, self.where() + ' via ' + self.path()))

    # exceptions
    def exc(self, st, cls, *args):
        """raise an instance of a builtin exception class"""
        args = tuple(K(a) if not isinstance(a, Val) else a for a in args)
        st, r = self.alloc(st, HObj(Ty(cls), {'args': Tup(args)}))
        return [(st, Raise(r, self.where()))]

    # ------------------------------------------------------------------ modules
    def find(self, name):
        if name in self.virtual:
            return '/virtual/' + name, name + '.main' in self.virtual
        rel = name.replace('.', '/')
        for root in self.search:
            p = os.path.join(root, rel, '__init__.py')
            if os.path.isfile(p):
                return p, True
            p = os.path.join(root, rel + '.py')
            if os.path.isfile(p):
                return p, False
        return None, None

    def parse(self, path):
        if path not in self.asts:
            if path.startswith('/virtual/'):
                self.asts[path] = ast.parse(self.virtual[path[9:]], path)
                return self.asts[path]
            with open(path, encoding='utf-8') as f:
                src = f.read()
            self.asts[path] = ast.parse(src, path)
            self.stats['files'].add(path)
        return self.asts[path]

    def module(self, st, name):
        """the module object of that name which exists in this state"""
        for r in reversed(self.modules.get(name, ())):
            if st.has(r):
                return r
        return None

    def import_module(self, st, name):
        """-> (st, Val)"""
        m = self.module(st, name)
        if m is not None:
            return st, m
        path, ispkg = self.find(name)
        if path is None:
            return st, Ext(name)
        if '.' in name:
            st, parent = self.import_module(st, name.rpartition('.')[0])
        m = self.module(st, name)
        if m is not None:
            return st, m
        tree = self.parse(path)
        sc = Scope('module')
        sc.module = name
        sc.qual = ''
        sc.file = path
        fields = {'__name__': K(name), '__file__': K(path), '__package__': K(name if ispkg else name.rpartition('.')[0]),
                  '__doc__': NONE}
        st, r = self.alloc(st, HObj(MODT, fields, ('module', name, sc)))
        self.modules.setdefault(name, []).append(r)
        self.stack.append((name, path, 0))
        res = self.block(tree.body, r, st)
        self.stack.pop()
        oks = [(s, v) for s, v in res if not isinstance(v, Raise)]
        if not oks:
            ex = res[0][1]
            self.modules[name].remove(r)
            return res[0][0], ex
        if len(oks) > 1:
            oks = oks[:1]
            self.stats['opaque'].add('module body forks: ' + name)
        st = oks[0][0]
        if '.' in name:
            pn, _, an = name.rpartition('.')
            pr = self.module(st, pn)
            if isinstance(pr, Ref):
                st = st.put(pr, st.get(pr).setf(an, r))
        return st, r

    # ------------------------------------------------------------------ scopes and names
    def scope_of(self, node, qual, mangle, module, file):
        key = id(node)
        if key in self.scopes:
            return self.scopes[key]
        sc = Scope('func')
        sc.qual, sc.mangle, sc.module, sc.file = qual, mangle, module, file
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            sc.names.add(self.mangle(x.arg, mangle))
        body = node.body if isinstance(node.body, list) else [node.body]
        self.collect(body, sc)
        sc.names -= sc.globs
        sc.names -= sc.nonlocs
        self.scopes[key] = sc
        return sc

    def collect(self, body, sc):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                sc.names.add(self.mangle(n.name, sc.mangle))
                todo.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # own scope, except walrus targets and the first iterable
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        sc.names.add(self.mangle(w.target.id, sc.mangle))
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                sc.isgen = True
            if isinstance(n, ast.Global):
                sc.globs.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                sc.nonlocs.update(self.mangle(x, sc.mangle) for x in n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                sc.names.add(self.mangle(n.id, sc.mangle))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    sc.names.add(al.asname or al.name.split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                sc.names.add(self.mangle(n.name, sc.mangle))
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                sc.names.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                sc.names.add(n.rest)
            todo.extend(ast.iter_child_nodes(n))

    @staticmethod
    def mangle(name, cls):
        if cls and name.startswith('__') and not name.endswith('__') and '.' not in name:
            return '_%s%s' % (cls.lstrip('_'), name)
        return name

    def sc(self, env, st):
        return st.get(env).data[2]

    def parent_env(self, o):
        return o.data[1] if o.data[0] == 'env' else None

    def lookup(self, name, env, st):
        o = st.get(env)
        sc = o.data[2]
        name = self.mangle(name, sc.mangle)
        first = True
        e = env
        while True:
            if name in o.fields and not (sc.kind == 'class' and not first):
                if not (first and name in sc.globs):
                    return [(st, o.fields[name])]
            elif sc.kind == 'func' and name in sc.names and first:
                return self.exc(st, UnboundLocalError, name)
            if o.data[0] == 'module':
                break
            e = o.data[1]
            o = st.get(e)
            sc = o.data[2]
            first = False
        v = self.model.builtin(name)
        if v is not None:
            return [(st, v)]
        return self.exc(st, NameError, name)

    def store(self, name, v, env, st):
        o = st.get(env)
        sc = o.data[2]
        name = self.mangle(name, sc.mangle)
        e = env
        if sc.kind != 'module':
            if name in sc.globs:
                while o.data[0] != 'module':
                    e = o.data[1]
                    o = st.get(e)
            elif name in sc.nonlocs or (sc.kind == 'comp' and name in sc.nonlocs):
                e = o.data[1]
                o = st.get(e)
                while name not in o.fields and o.data[0] != 'module':
                    e = o.data[1]
                    o = st.get(e)
        return st.put(e, o.setf(name, v))

    # ------------------------------------------------------------------ sequencing helpers
    def bind(self, res, f):
        out = []
        for st, v in res:
            if isinstance(v, Raise):
                out.append((st, v))
            else:
                out.extend(f(st, v))
        return out

    def evs(self, nodes, env, st):
        """evaluate expressions left to right -> [(st, [vals]) | (st, Raise)]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                self.rootstk.append(acc)
                star = isinstance(n, ast.Starred)
                r = self.ev(n.value if star else n, env, s)
                self.rootstk.pop()
                for s2, v in r:
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                    elif star:
                        for s3, items in self.iterate_all(v, s2):
                            if isinstance(items, Raise):
                                nxt.append((s3, items))
                            elif items is None:
                                nxt.append((s3, acc + [T('star', (v,))]))
                            else:
                                nxt.append((s3, acc + list(items)))
                    else:
                        nxt.append((s2, acc + [v]))
            res = nxt
        return res

    # ------------------------------------------------------------------ expressions
    def ev(self, n, env, st):
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if hasattr(n, 'lineno'):
            self.curline = n.lineno
        if m is None:
            return self.unsupported(n, st)
        return m(n, env, st)

    def unsupported(self, n, st):
        self.stats['opaque'].add('unsupported syntax %s at %s' % (n.__class__.__name__, self.where()))
        return [(st.note('unsupported ' + n.__class__.__name__), T('unk', (K(n.__class__.__name__), K(getattr(n, 'lineno', 0)))))]

    def e_Constant(self, n, env, st):
        return [(st, K(n.value))]

    def e_Name(self, n, env, st):
        return self.lookup(n.id, env, st)

    def e_NamedExpr(self, n, env, st):
        def f(s, v):
            e = env
            while s.get(e).data[2].kind == 'comp':
                e = s.get(e).data[1]
            return [(self.store(n.target.id, v, e, s), v)]
        return self.bind(self.ev(n.value, env, st), f)

    def e_Attribute(self, n, env, st):
        def f(s, v):
            self.curline = n.lineno
            return self.getattr(s, v, self.mangle(n.attr, self.sc(env, s).mangle))
        return self.bind(self.ev(n.value, env, st), f)

    def e_Tuple(self, n, env, st):
        return [(s, v if isinstance(v, Raise) else Tup(v)) for s, v in self.evs(n.elts, env, st)]

    def e_List(self, n, env, st):
        return [(s, v) if isinstance(v, Raise) else self.new_list(s, v) for s, v in self.evs(n.elts, env, st)]

    def e_Set(self, n, env, st):
        return self.bind(self.evs(n.elts, env, st), self.fill_set)

    def e_Dict(self, n, env, st):
        res = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, acc in res:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                self.rootstk.append([x for p in acc for x in p])
                if k is None:
                    for s2, d in self.ev(v, env, s):
                        if isinstance(d, Raise):
                            nxt.append((s2, d))
                        else:
                            ent = self.model.dict_entries(s2, d)
                            if ent is None:
                                nxt.append((s2.note('dict ** of unknown'), acc))
                            else:
                                nxt.append((s2, [p for p in acc if p[0] not in dict(ent)] + list(ent)))
                else:
                    for s2, kv in self.evs([k, v], env, s):
                        if isinstance(kv, Raise):
                            nxt.append((s2, kv))
                        else:
                            nxt.append((s2, [p for p in acc if p[0] is not kv[0]] + [tuple(kv)]))
                self.rootstk.pop()
            res = nxt
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, v))
            elif all(isinstance(k, K) for k, _ in v) or len(v) == 1 and not self.model.unhashable(s, v[0][0]):
                out.append(self.new_dict(s, v))
            else:
                s, d = self.new_dict(s, ())
                r = [(s, NONE)]
                self.rootstk.append([d] + [x for p in v for x in p])
                for k, x in v:
                    r = self.bind(r, lambda s2, _, k=k, x=x: self.model.raw_setitem(s2, d, k, x))
                self.rootstk.pop()
                out.extend((s2, y if isinstance(y, Raise) else d) for s2, y in r)
        return out

    def fill_set(self, st, items):
        """a set of the items -> results"""
        if all(isinstance(x, K) for x in items):
            return [self.new_set(st, self.model.dedupe(st, items))]
        st, d = self.new_set(st, ())
        r = [(st, NONE)]
        self.rootstk.append([d] + list(items))
        for x in items:
            r = self.bind(r, lambda s2, _, x=x: self.model.m_set_add(s2, d, [x], {}))
        self.rootstk.pop()
        return [(s2, y if isinstance(y, Raise) else d) for s2, y in r]

    def e_JoinedStr(self, n, env, st):
        parts = []
        for x in n.values:
            parts.append(x.value if isinstance(x, ast.FormattedValue) else x)

        def f(s, vals):
            res = [(s, [])]
            for x, v in zip(n.values, vals):
                nxt = []
                for s1, acc in res:
                    if isinstance(acc, Raise):
                        nxt.append((s1, acc))
                        continue
                    if isinstance(x, ast.FormattedValue):
                        if x.conversion == 114 or x.format_spec is not None:
                            r = [(s1, self.model.repr_term(s1, v) if x.format_spec is None else T('format', (self.model.freeze(s1, v), K(ast.dump(x.format_spec))), STR))]
                        else:
                            r = self.model.to_str(s1, v)
                    else:
                        r = [(s1, v)]
                    for s2, t in r:
                        nxt.append((s2, t if isinstance(t, Raise) else acc + [t]))
                res = nxt
            return [(s1, a if isinstance(a, Raise) else self.model.cat(a, str)) for s1, a in res]
        return self.bind(self.evs(parts, env, st), f)

    def e_FormattedValue(self, n, env, st):
        return self.ev(n.value, env, st)

    def e_Lambda(self, n, env, st):
        return self.mkfunc(n, env, st, '<lambda>')

    def e_IfExp(self, n, env, st):
        out = []
        for s, b in self.cond(n.test, env, st):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, env, s))
        return out

    def e_BoolOp(self, n, env, st):
        isand = isinstance(n.op, ast.And)
        res = []
        cur = [(st, None)]
        for i, x in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(x, env, s):
                    if isinstance(v, Raise) or i == len(n.values) - 1:
                        res.append((s2, v))
                        continue
                    self.rootstk.append([v])
                    for s3, b in self.truth(s2, v):
                        if isinstance(b, Raise):
                            res.append((s3, b))
                        elif b == isand:
                            nxt.append((s3, None))
                        else:
                            # the deciding value itself; a boolean literal is now known
                            res.append((s3, kb(b) if isinstance(v, T) and v.ty is not None and v.ty.subset(BOOL) else v))
                    self.rootstk.pop()
            cur = nxt
        return res

    def e_UnaryOp(self, n, env, st):
        def f(s, v):
            if isinstance(n.op, ast.Not):
                b = self.truth_term(s, v)
                if b is not None:
                    d = s.decide(b)
                    return [(s, kb(not d) if d is not None else self.model.neg(b))]
                return [(s2, b if isinstance(b, Raise) else kb(not b)) for s2, b in self.truth(s, v)]
            x = self.model.as_int(s, v)
            if x is None:
                if isinstance(n.op, ast.USub) and isinstance(v, K) and isinstance(v.v, float):
                    return [(s, K(-v.v))]
                return [(s, T('unary' + n.op.__class__.__name__, (v,)))]
            if isinstance(n.op, ast.USub):
                return [(s, pneg(x))]
            if isinstance(n.op, ast.UAdd):
                return [(s, x)]
            if isinstance(x, K):
                return [(s, K(~x.v))]
            return [(s, padd(K(-1), pneg(x)))]
        return self.bind(self.ev(n.operand, env, st), f)

    def e_BinOp(self, n, env, st):
        def f(s, vs):
            self.curline = n.lineno
            return self.model.binop(s, n.op.__class__.__name__, vs[0], vs[1])
        return self.bind(self.evs([n.left, n.right], env, st), f)

    def e_Compare(self, n, env, st):
        if len(n.ops) == 1:
            def f(s, vs):
                self.curline = n.lineno
                return self.model.compare(s, n.ops[0].__class__.__name__, vs[0], vs[1])
            return self.bind(self.evs([n.left, n.comparators[0]], env, st), f)
        # chained: a op b and b op c ...
        out = []

        def step(s, left, i):
            def g(s2, right):
                self.rootstk.append([right])
                res = []
                for s3, c in self.model.compare(s2, n.ops[i].__class__.__name__, left, right):
                    if isinstance(c, Raise) or i == len(n.ops) - 1:
                        res.append((s3, c))
                        continue
                    for s4, b in self.truth(s3, c):
                        if isinstance(b, Raise):
                            res.append((s4, b))
                        elif b:
                            res.extend(step(s4, right, i + 1))
                        else:
                            res.append((s4, FALSE))
                self.rootstk.pop()
                return res
            self.rootstk.append([left])
            r = self.bind(self.ev(n.comparators[i], env, s), g)
            self.rootstk.pop()
            return r
        return self.bind(self.ev(n.left, env, st), lambda s, v: step(s, v, 0))

    def e_Subscript(self, n, env, st):
        if isinstance(n.slice, ast.Slice):
            parts = [n.value] + [x if x is not None else ast.Constant(None, lineno=n.lineno, col_offset=0)
                                 for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return self.bind(self.evs(parts, env, st),
                             lambda s, vs: self.model.slice(s, vs[0], vs[1], vs[2], vs[3]))

        def f(s, vs):
            self.curline = n.lineno
            return self.model.getitem(s, vs[0], vs[1])
        return self.bind(self.evs([n.value, n.slice], env, st), f)

    def e_Starred(self, n, env, st):
        return self.ev(n.value, env, st)

    def e_Call(self, n, env, st):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.mksuper(env, st)

        def f(s, fn):
            self.rootstk.append([fn])
            res = self.evs(n.args, env, s)
            out = []
            for s1, args in res:
                if isinstance(args, Raise):
                    out.append((s1, args))
                    continue
                kws = [(s1, {})]
                self.rootstk.append(args)
                for kw in n.keywords:
                    nk = []
                    for s2, acc in kws:
                        if isinstance(acc, Raise):
                            nk.append((s2, acc))
                            continue
                        self.rootstk.append(list(acc.values()))
                        for s3, v in self.ev(kw.value, env, s2):
                            if isinstance(v, Raise):
                                nk.append((s3, v))
                                continue
                            d = dict(acc)
                            if kw.arg is None:
                                ent = self.model.dict_entries(s3, v)
                                if ent is None:
                                    d['**'] = v
                                else:
                                    for k, x in ent:
                                        if isinstance(k, K):
                                            d[k.v] = x
                                        else:
                                            d['**'] = v
                            else:
                                d[kw.arg] = v
                            nk.append((s3, d))
                        self.rootstk.pop()
                    kws = nk
                self.rootstk.pop()
                for s2, kw in kws:
                    if isinstance(kw, Raise):
                        out.append((s2, kw))
                    else:
                        self.curline = n.lineno
                        out.extend(self.call(s2, fn, args, kw, env))
            self.rootstk.pop()
            return out
        return self.bind(self.ev(n.func, env, st), f)

    def e_Yield(self, n, env, st):
        def f(s, v):
            if not self.yieldstk:
                return [(s.note('yield outside of a driven generator'), NONE)]
            h = self.yieldstk[-1]
            return h(s, v)
        if n.value is None:
            return f(st, NONE)
        return self.bind(self.ev(n.value, env, st), f)

    def e_YieldFrom(self, n, env, st):
        def f(s, v):
            h = self.yieldstk[-1] if self.yieldstk else None

            def body(s2, item):
                r = h(s2, item)
                return [(a, None if not isinstance(b, Raise) else b) for a, b in r]
            return [(a, NONE if b is None else b) for a, b in self.loop_over(v, s, body)]
        return self.bind(self.ev(n.value, env, st), f)

    def e_Await(self, n, env, st):
        return self.unsupported(n, st)

    # comprehensions
    def comp(self, n, env, st, add, init):
        sc = Scope('comp')
        psc = self.sc(env, st)
        sc.mangle, sc.module, sc.qual, sc.file = psc.mangle, psc.module, psc.qual, psc.file
        st, acc = init(st)
        st, cenv = self.alloc(st, HObj(OBJT, {}, ('env', env, sc)))
        self.rootstk.append([acc, cenv])

        def gen(i, s):
            if i == len(n.generators):
                return add(s, cenv, acc)
            g = n.generators[i]

            def overit(s1, itv):
                def body(s2, item):
                    res = []
                    for s3, r in self.assign(g.target, item, cenv, s2):
                        if isinstance(r, Raise):
                            res.append((s3, r))
                            continue
                        cur = [s3]
                        for c in g.ifs:
                            nxt = []
                            for s4 in cur:
                                for s5, b in self.cond(c, cenv, s4):
                                    if isinstance(b, Raise):
                                        res.append((s5, b))
                                    elif b:
                                        nxt.append(s5)
                                    else:
                                        res.append((s5, None))
                            cur = nxt
                        for s4 in cur:
                            res.extend(gen(i + 1, s4))
                    return res
                return self.loop_over(itv, s1, body)
            return self.bind(self.ev(g.iter, env if i == 0 else cenv, s), overit)
        res = gen(0, st)
        self.rootstk.pop()
        return [(s, v if isinstance(v, Raise) else acc) for s, v in res]

    def e_ListComp(self, n, env, st):
        def add(s, cenv, acc):
            def f(s2, v):
                return [(self.model.list_append(s2, acc, v), None)]
            return self.bind(self.ev(n.elt, cenv, s), f)
        return self.comp(n, env, st, add, lambda s: self.new_list(s, ()))

    def e_SetComp(self, n, env, st):
        def add(s, cenv, acc):
            def f(s2, v):
                o = s2.get(acc)
                if o.data[0] != 'set':
                    return [(s2, None)]
                return [(s3, x if isinstance(x, Raise) else None) for s3, x in self.model.m_set_add(s2, acc, [v], {})]
            return self.bind(self.ev(n.elt, cenv, s), f)
        return self.comp(n, env, st, add, lambda s: self.new_set(s, ()))

    def e_GeneratorExp(self, n, env, st):
        # evaluated eagerly (effects inside generator expressions are not reordered with their consumer's in this code)
        return self.e_ListComp(n, env, st)

    def e_DictComp(self, n, env, st):
        def add(s, cenv, acc):
            def f(s2, kv):
                return [(s3, v if isinstance(v, Raise) else None) for s3, v in self.model.setitem(s2, acc, kv[0], kv[1])]
            return self.bind(self.evs([n.key, n.value], cenv, s), f)
        return self.comp(n, env, st, add, lambda s: self.new_dict(s, ()))

    # ------------------------------------------------------------------ truth
    def truth_term(self, st, v):
        """boolean term for v's truth when it is a single literal, else None"""
        if isinstance(v, K):
            return kb(bool(v.v))
        if isinstance(v, P):
            return self.model.neg(self.model.eq0(v))
        if isinstance(v, Tup):
            return kb(len(v.items) > 0)
        if isinstance(v, T):
            ts = st.tset(v)
            if ts.subset(BOOL):
                return v
            if ts.subset(INTS):
                return self.model.neg(self.model.eq0(v))
            if ts.subset(TS(['str', 'bytes', 'list', 'tuple', 'dict', 'set'])):
                return self.model.neg(self.model.eq0(self.model.length(st, v)))
            if v.op == 'range':
                return self.model.before(*v.args)
            return None
        if isinstance(v, (Ext, BM, Bi, BiM, Ty)):
            return TRUE
        return None

    def truth(self, st, v):
        """-> [(st, bool|Raise)]"""
        b = self.truth_term(st, v)
        if b is not None:
            return self.fork(st, b)
        if isinstance(v, T):
            ts = st.tset(v)
            # None / other
            out = []
            s1 = st.restrict(v, NONET)
            if s1 is not None:
                out.append((s1, False))
            rest = ts.inter(NONET.comp())
            if not rest.neg:
                for leaf in sorted(rest.s, key=str):
                    s2 = st.restrict(v, TS([leaf]))
                    b = self.truth_term(s2, v)
                    if b is None:
                        out.append((s2, True))
                    else:
                        out.extend(self.fork(s2, b))
                return out
            s2 = st.restrict(v, NONET.comp())
            if s2 is not None:
                out.extend(self.fork(s2, T('truth', (v,), BOOL)))
            return out
        if isinstance(v, Ref):
            o = st.get(v)
            if o.data is not None and o.data[0] in ('list', 'dict', 'set') if isinstance(o.data, tuple) else False:
                return [(st, len(o.data[1]) > 0)]
            if isinstance(o.data, tuple) and o.data[0] == 'sym':
                return self.fork(st, self.model.neg(self.model.eq0(T('len', (o.data[1],), INT))))
            if self.model.is_enum_member(st, v):
                x = o.fields.get('_value_')
                if self.model.enum_kind(st, o.cls) in ('IntEnum', 'IntFlag', 'Flag'):
                    return self.truth(st, x)
                return [(st, True)]
            if isinstance(o.cls, Ref):
                f = self.model.class_lookup(st, o.cls, '__bool__')
                if f is not None:
                    return self.bind(self.call(st, BM(f, v), [], {}), lambda s, x: self.truth(s, x))
                f = self.model.class_lookup(st, o.cls, '__len__')
                if f is not None:
                    return self.bind(self.call(st, BM(f, v), [], {}), lambda s, x: self.truth(s, x))
            return [(st, True)]
        raise AnalysisError('truth of %r' % (v,))

    def fork(self, st, lit):
        d = st.decide(lit)
        if d is not None:
            return [(st, d)]
        self.stats['branches'] += 1
        out = []
        for val in (True, False):
            s = st.assume(lit, val)
            if s is not None:
                out.append((s, val))
        return out

    def cond(self, n, env, st):
        return self.bind(self.ev(n, env, st), lambda s, v: self.truth(s, v))

    # ------------------------------------------------------------------ attribute access
    def getattr(self, st, v, name, default=None):
        return self.model.getattr(st, v, name, default)

    def mksuper(self, env, st):
        e = env
        o = st.get(e)
        while o.data[0] == 'env' and o.data[2].kind == 'comp':
            e = o.data[1]
            o = st.get(e)
        fenv = e
        selfv = None
        node = o.fields.get('$first')
        if node is not None:
            selfv = node
        e = fenv
        while o.data[0] == 'env':
            if '__class__' in o.fields:
                break
            e = o.data[1]
            o = st.get(e)
        cls = o.fields.get('__class__')
        if cls is None or selfv is None:
            return self.exc(st, RuntimeError, 'super(): no arguments')
        return [(st, T('super', (cls, selfv)))]

    # ------------------------------------------------------------------ functions
    def mkfunc(self, n, env, st, name):
        psc = self.sc(env, st)
        islambda = isinstance(n, ast.Lambda)
        qual = (psc.qual + ('.<locals>.' if psc.kind == 'func' else '.') if psc.qual else '') + name
        sc = self.scope_of(n, qual, psc.mangle, psc.module, psc.file)
        cenv = env
        o = st.get(env)
        if psc.kind == 'class':
            cenv = o.fields['$cell']
        a = n.args
        dnodes = list(a.defaults)
        kwn = [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]

        def f(s, dv):
            nd = len(dnodes)
            res = [(s, [])]
            anns = []
            if not islambda:
                for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else []):
                    if x.annotation is not None:
                        anns.append((x.arg, x.annotation))
                if n.returns is not None:
                    anns.append(('return', n.returns))
            out = []
            self.rootstk.append(dv)
            for s1, av in self.evs([x for _, x in anns], env, s):
                if isinstance(av, Raise):
                    out.append((s1, av))
                    continue
                s1, ad = self.new_dict(s1, [(K(self.mangle(k, sc.mangle)), v) for (k, _), v in zip(anns, av)])
                fn = Fn(node=n, env=cenv, scope=sc, defaults=tuple(dv[:nd]),
                        kwdefaults=dict(zip([k for k, _ in kwn], dv[nd:])), name=name, module=psc.module)
                fields = {'__name__': K(name), '__qualname__': K(qual), '__module__': K(psc.module), '__annotations__': ad,
                          '__doc__': NONE}
                out.append(self.alloc(s1, HObj(FUNC, fields, fn)))
            self.rootstk.pop()
            return out
        return self.bind(self.evs(dnodes + [d for _, d in kwn], env, st), f)

    def fname(self, st, f):
        o = st.get(f)
        return '%s.%s' % (o.data.module, o.data.scope.qual)

    def bind_args(self, st, fref, args, kw):
        """-> (st, fields) or list of results (error)"""
        o = st.get(fref)
        fn = o.data
        a = fn.node.args
        mang = fn.scope.mangle
        pos = a.posonlyargs + a.args
        fields = {}
        args = list(args)
        symstar = None
        for i, x in enumerate(args):
            if isinstance(x, T) and x.op == 'star':
                symstar = x
                break
        if symstar is not None:
            i = args.index(symstar)
            fixed, rest = args[:i], args[i:]
        else:
            fixed, rest = args, None
        extra = []
        for i, v in enumerate(fixed):
            if i < len(pos):
                fields[self.mangle(pos[i].arg, mang)] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            return None, self.exc(st, TypeError, '%s() takes %d positional arguments but %d were given' % (fn.name, len(pos), len(fixed)))
        if a.vararg:
            if rest is not None and len(fixed) >= len(pos):
                fields[self.mangle(a.vararg.arg, mang)] = Tup(extra + rest) if rest[1:] or extra else T('tuple', (rest[0].args[0],), TS(['tuple']))
            else:
                fields[self.mangle(a.vararg.arg, mang)] = Tup(extra)
        kwx = {}
        names = {x.arg for x in a.args + a.kwonlyargs}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in names:
                m = self.mangle(k, mang)
                if m in fields:
                    return None, self.exc(st, TypeError, "%s() got multiple values for argument '%s'" % (fn.name, k))
                fields[m] = v
            elif a.kwarg:
                kwx[k] = v
            else:
                return None, self.exc(st, TypeError, "%s() got an unexpected keyword argument '%s'" % (fn.name, k))
        nd = len(fn.defaults)
        missing = []
        for i, x in enumerate(pos):
            m = self.mangle(x.arg, mang)
            if m in fields:
                continue
            j = i - (len(pos) - nd)
            if rest is not None or '**' in kw:
                fields[m] = T('argof', (rest[0] if rest else kw['**'], K(x.arg)))
            elif j >= 0:
                fields[m] = fn.defaults[j]
            else:
                missing.append(x.arg)
        for x in a.kwonlyargs:
            m = self.mangle(x.arg, mang)
            if m in fields:
                continue
            if x.arg in fn.kwdefaults:
                fields[m] = fn.kwdefaults[x.arg]
            else:
                missing.append(x.arg)
        if missing:
            return None, self.exc(st, TypeError, "%s() missing arguments: %s" % (fn.name, missing))
        if a.kwarg:
            if '**' in kw and not kwx:
                fields[self.mangle(a.kwarg.arg, mang)] = kw['**']
            else:
                st, d = self.new_dict(st, [(K(k), v) for k, v in kwx.items()])
                fields[self.mangle(a.kwarg.arg, mang)] = d
        if pos:
            fields['$first'] = fields[self.mangle(pos[0].arg, mang)]
        elif a.vararg:
            va = fields[self.mangle(a.vararg.arg, mang)]
            if isinstance(va, Tup) and va.items:
                fields['$first'] = va.items[0]
        return st, fields

    def call_func(self, st, fref, args, kw):
        o = st.get(fref)
        fn = o.data
        name = '%s.%s' % (fn.module, fn.scope.qual)
        hook = self.hooks.get('fn:' + name)
        if hook is not None:
            r = hook(self, st, fref, args, kw)
            if r is not None:
                return r
        key = id(fn.node)
        n = self.recs.get(key, 0)
        if n >= self.maxrec or n >= 3 and any(self.unstructured(st, a) for a in args) or len(self.stack) > self.maxdepth:
            self.stats['cut'].add(name)
            if __import__('os').environ.get('VP_CUT'): print('CUT', name, self.path()[-900:], file=__import__('sys').stderr)
            fr = tuple(self.model.freeze(st, a) for a in args)
            pure = not any(isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield))
                           or isinstance(x, ast.Call) and not isinstance(x.func, ast.Name) for x in ast.walk(fn.node))
            return [(st.note(('recursion cut ' if pure else 'effects cut ') + name), T('rec:' + fn.name, fr))]
        st, fields = self.bind_args(st, fref, args, kw)
        if st is None:
            return fields
        st, env = self.alloc(st, HObj(OBJT, fields, ('env', fn.env, fn.scope)))
        if fn.scope.isgen:
            return [self.alloc(st, HObj(GENT, {}, Gen(fn, env)))]
        self.stats['calls'] += 1
        self.stats['functions'].add((fn.scope.file, fn.scope.qual))
        return self.run_body(st, fn, env)

    def unstructured(self, st, v):
        """a value of unknown structure (recursion on it is not bounded by the analysed input)"""
        if isinstance(v, Ref):
            d = st.get(v).data
            return isinstance(d, tuple) and d[0] == 'sym'
        if isinstance(v, T) and v.op not in ('ga', 'ut', 'fwdref'):
            ts = st.tset(v)
            return not ts.subset(SCALARS)
        return False

    def run_body(self, st, fn, env):
        key = id(fn.node)
        self.recs[key] = self.recs.get(key, 0) + 1
        line = self.curline
        self.stack.append(('%s.%s' % (fn.module, fn.scope.qual), fn.scope.file, line))
        ys, self.yieldstk = self.yieldstk, [] if not fn.scope.isgen else self.yieldstk
        n = len(self.rootstk)
        self.rootstk.append([env])
        try:
            if isinstance(fn.node, ast.Lambda):
                res = self.ev(fn.node.body, env, st)
            else:
                res = []
                for s, sig in self.block(fn.node.body, env, st):
                    if sig is None:
                        res.append((s, NONE))
                    elif isinstance(sig, Ret):
                        res.append((s, sig.v))
                    else:
                        res.append((s, sig))
        except Exception:
            if self.crash is None:
                self.crash = self.path() + ' line %d' % self.curline
            raise
        finally:
            self.rootstk.pop()
            del self.rootstk[n:]
            self.yieldstk = ys
            self.stack.pop()
            self.recs[key] -= 1
            self.curline = line
        return self.merge(res)

    def call(self, st, fn, args, kw, env=None):
        self.rootstk.append([fn] + list(args) + list(kw.values()))
        try:
            return self._call(st, fn, args, kw, env)
        finally:
            self.rootstk.pop()

    def _call(self, st, fn, args, kw, env=None):
        if isinstance(fn, Ref):
            o = st.get(fn)
            if isinstance(o.data, Fn):
                return self.call_func(st, fn, args, kw)
            if isinstance(o.data, ClassInfo):
                return self.model.instantiate(st, fn, args, kw)
            if isinstance(o.cls, Ref):
                f = self.model.class_lookup(st, o.cls, '__call__')
                if f is not None:
                    return self.call(st, BM(f, fn), args, kw)
            if isinstance(o.cls, Ty) and o.cls in (CMT, SMT):
                return self.call(st, o.fields['f'], args, kw)
            return self.exc(st, TypeError, 'object is not callable')
        if isinstance(fn, BM):
            return self.call(st, fn.f, [fn.self] + list(args), kw)
        return self.model.call(st, fn, args, kw, env)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env, st):
        """-> [(st, sig)]; sig None = fell through"""
        cur = [st]
        out = []
        for n in stmts:
            nxt = []
            for s in cur:
                for s2, sig in self.ex(n, env, s):
                    if sig is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, sig))
            if not nxt:
                return out
            if len(nxt) > 1:
                nxt = [s for s, _ in self.merge([(s, None) for s in nxt])]
            cur = nxt
            if len(cur) > self.maystates:
                raise AnalysisError('too many states at ' + self.where())
        return out + [(s, None) for s in cur]

    def ex(self, n, env, st):
        self.stats['stmts'] += 1
        self.curline = n.lineno
        m = getattr(self, 's_' + n.__class__.__name__, None)
        if m is None:
            self.stats['opaque'].add('unsupported statement %s at %s' % (n.__class__.__name__, self.where()))
            return [(st.note('unsupported ' + n.__class__.__name__), None)]
        return m(n, env, st)

    def drop(self, res):
        return [(s, v if isinstance(v, Raise) else None) for s, v in res]

    def s_Expr(self, n, env, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return self.drop(self.ev(n.value, env, st))

    def s_Pass(self, n, env, st):
        return [(st, None)]

    def s_Return(self, n, env, st):
        if n.value is None:
            return [(st, Ret(NONE))]
        return [(s, v if isinstance(v, Raise) else Ret(v)) for s, v in self.ev(n.value, env, st)]

    def s_Break(self, n, env, st):
        return [(st, BRK)]

    def s_Continue(self, n, env, st):
        return [(st, CNT)]

    def s_Global(self, n, env, st):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_If(self, n, env, st):
        out = []
        for s, b in self.cond(n.test, env, st):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.block(n.body if b else n.orelse, env, s))
        return self.merge(out) if len(out) > 1 else out

    def s_Assert(self, n, env, st):
        out = []
        for s, b in self.cond(n.test, env, st):
            if isinstance(b, Raise):
                out.append((s, b))
            elif b:
                out.append((s, None))
            else:
                out.extend(self.exc(s, AssertionError))
        return out

    def s_Assign(self, n, env, st):
        def f(s, v):
            res = [(s, None)]
            for t in n.targets:
                res = self.bindsig(res, lambda s2: self.assign(t, v, env, s2))
            return res
        return self.bind(self.ev(n.value, env, st), f)

    def bindsig(self, res, f):
        out = []
        for s, sig in res:
            if sig is None:
                out.extend(f(s))
            else:
                out.append((s, sig))
        return out

    def s_AnnAssign(self, n, env, st):
        sc = self.sc(env, st)
        res = [(st, None)]
        if sc.kind in ('class', 'module') and isinstance(n.target, ast.Name):
            def g(s, ann):
                o = s.get(env)
                d = o.fields.get('__annotations__')
                if d is None:
                    s, d = self.new_dict(s, ())
                    s = s.put(env, s.get(env).setf('__annotations__', d))
                return [(s2, x if isinstance(x, Raise) else None) for s2, x in self.model.setitem(s, d, K(n.target.id), ann)]
            res = self.bind(self.ev(n.annotation, env, st), g)
        if n.value is None:
            return res

        def f(s):
            return self.bind(self.ev(n.value, env, s), lambda s2, v: self.assign(n.target, v, env, s2))
        return self.bindsig(res, f)

    def s_AugAssign(self, n, env, st):
        t = n.target
        op = n.op.__class__.__name__
        if isinstance(t, ast.Name):
            def f(s, vs):
                return self.bind(self.model.augop(s, op, vs[0], vs[1]), lambda s2, r: [(self.store(t.id, r, env, s2), None)])
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            return self.bind(self.evs([load, n.value], env, st), f)
        if isinstance(t, ast.Attribute):
            name = self.mangle(t.attr, self.sc(env, st).mangle)

            def f(s, obj):
                def g(s2, old):
                    self.rootstk.append([obj, old])

                    def h(s3, rv):
                        return self.bind(self.model.augop(s3, op, old, rv),
                                         lambda s4, r: self.drop(self.model.setattr(s4, obj, name, r)))
                    r = self.bind(self.ev(n.value, env, s2), h)
                    self.rootstk.pop()
                    return r
                return self.bind(self.getattr(s, obj, name), g)
            return self.bind(self.ev(t.value, env, st), f)
        if isinstance(t, ast.Subscript):
            def f(s, vs):
                obj, idx = vs

                def g(s2, old):
                    self.rootstk.append([obj, idx, old])

                    def h(s3, rv):
                        return self.bind(self.model.augop(s3, op, old, rv),
                                         lambda s4, r: self.drop(self.model.setitem(s4, obj, idx, r)))
                    r = self.bind(self.ev(n.value, env, s2), h)
                    self.rootstk.pop()
                    return r
                return self.bind(self.model.getitem(s, obj, idx), g)
            return self.bind(self.evs([t.value, t.slice], env, st), f)
        return self.unsup_stmt(n, st)

    def unsup_stmt(self, n, st):
        self.stats['opaque'].add('unsupported statement form at ' + self.where())
        return [(st.note('unsupported statement'), None)]

    def assign(self, t, v, env, st):
        """-> [(st, sig)]"""
        if isinstance(t, ast.Name):
            return [(self.store(t.id, v, env, st), None)]
        if isinstance(t, ast.Attribute):
            name = self.mangle(t.attr, self.sc(env, st).mangle)
            self.rootstk.append([v])
            r = self.bind(self.ev(t.value, env, st), lambda s, o: self.drop(self.model.setattr(s, o, name, v)))
            self.rootstk.pop()
            return r
        if isinstance(t, ast.Subscript):
            self.rootstk.append([v])
            if isinstance(t.slice, ast.Slice):
                r = self.bind(self.ev(t.value, env, st), lambda s, o: [(self.model.forget(s, o), None)])
            else:
                r = self.bind(self.evs([t.value, t.slice], env, st),
                              lambda s, vs: self.drop(self.model.setitem(s, vs[0], vs[1], v)))
            self.rootstk.pop()
            return r
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for s, items in self.iterate_all(v, st, want=len(t.elts)):
                if isinstance(items, Raise):
                    out.append((s, items))
                    continue
                if items is None:
                    items = [T('idx', (v, K(i))) for i in range(len(t.elts))]
                    s = s.note('unpacked unknown')
                items = list(items)
                if star:
                    i = star[0]
                    k = len(t.elts) - 1 - i
                    if len(items) < len(t.elts) - 1:
                        out.extend(self.exc(s, ValueError, 'not enough values to unpack'))
                        continue
                    mid = items[i:len(items) - k]
                    s, lst = self.new_list(s, mid)
                    items = items[:i] + [lst] + (items[len(items) - k:] if k else [])
                elif len(items) != len(t.elts):
                    out.extend(self.exc(s, ValueError, 'wrong number of values to unpack'))
                    continue
                res = [(s, None)]
                for x, it in zip(t.elts, items):
                    x = x.value if isinstance(x, ast.Starred) else x
                    res = self.bindsig(res, lambda s2, x=x, it=it: self.assign(x, it, env, s2))
                out.extend(res)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, env, st)
        return self.unsup_stmt(t, st)

    def s_Delete(self, n, env, st):
        res = [(st, None)]
        for t in n.targets:
            def f(s, t=t):
                if isinstance(t, ast.Name):
                    o = s.get(env)
                    nm = self.mangle(t.id, o.data[2].mangle)
                    if nm in o.fields:
                        return [(s.put(env, o.delf(nm)), None)]
                    return self.exc(s, UnboundLocalError, nm)
                if isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        return self.bind(self.ev(t.value, env, s), lambda s2, o: [(self.model.forget(s2, o), None)])
                    return self.bind(self.evs([t.value, t.slice], env, s),
                                     lambda s2, vs: self.drop(self.model.delitem(s2, vs[0], vs[1])))
                if isinstance(t, ast.Attribute):
                    nm = self.mangle(t.attr, self.sc(env, s).mangle)
                    return self.bind(self.ev(t.value, env, s), lambda s2, o: self.drop(self.model.delattr(s2, o, nm)))
                return self.unsup_stmt(t, s)
            res = self.bindsig(res, f)
        return res

    def s_Raise(self, n, env, st):
        if n.exc is None:
            if self.excstk:
                return [(st, Raise(self.excstk[-1], self.where()))]
            return self.exc(st, RuntimeError, 'No active exception to reraise')

        def f(s, v):
            return self.raise_val(s, v)
        res = self.bind(self.ev(n.exc, env, st), f)
        return res

    def raise_val(self, s, v):
        w = self.where()
        if isinstance(v, Ty):
            return self.bind(self.call(s, v, [], {}), lambda s2, e: [(s2, Raise(e, w))])
        if isinstance(v, Ref):
            o = s.get(v)
            if isinstance(o.data, ClassInfo):
                return self.bind(self.call(s, v, [], {}), lambda s2, e: [(s2, Raise(e, w))])
            return [(s, Raise(v, w))]
        if isinstance(v, Ext):
            # exception class of a library: its own kind, below Exception
            s, r = self.alloc(s, HObj(Ty(Exception), {'args': Tup(())}))
            return [(s, Raise(r, w))]
        s, r = self.alloc(s.note('raise of unknown value'), HObj(Ty(Exception), {'args': Tup((v,))}))
        return [(s, Raise(r, w))]

    def s_Try(self, n, env, st):
        out = []
        res = self.block(n.body, env, st)
        after = []
        for s, sig in res:
            if isinstance(sig, Raise) and sig.exc is not None:
                after.extend(self.handle(n.handlers, env, s, sig))
            elif sig is None and n.orelse:
                after.extend(self.block(n.orelse, env, s))
            else:
                after.append((s, sig))
        if len(after) > 1:
            after = self.merge(after)
        if not n.finalbody:
            return after
        for s, sig in after:
            if isinstance(sig, Halt):
                out.append((s, sig))
                continue
            pushed = False
            if isinstance(sig, Raise) and sig.exc is not None:
                self.excstk.append(sig.exc)
                pushed = True
            v = sig.v if isinstance(sig, Ret) else sig.exc if isinstance(sig, Raise) else None
            self.rootstk.append([v] if v is not None else [])
            for s2, sig2 in self.block(n.finalbody, env, s):
                out.append((s2, sig if sig2 is None else sig2))
            self.rootstk.pop()
            if pushed:
                self.excstk.pop()
        return self.merge(out) if len(out) > 1 else out

    s_TryStar = s_Try

    def handle(self, handlers, env, st, sig):
        cur = [st]
        out = []
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    matches = [(s, True)]
                else:
                    matches = self.bind(self.ev(h.type, env, s), lambda s2, t: self.model.exc_match(s2, sig.exc, t))
                for s2, b in matches:
                    if isinstance(b, Raise):
                        out.append((s2, b))
                    elif not b:
                        nxt.append(s2)
                    else:
                        if h.name:
                            s2 = self.store(h.name, sig.exc, env, s2)
                        self.excstk.append(sig.exc)
                        self.rootstk.append([sig.exc])
                        r = self.block(h.body, env, s2)
                        self.rootstk.pop()
                        self.excstk.pop()
                        if h.name:
                            nm = self.mangle(h.name, self.sc(env, s2).mangle)
                            r = [(s3.put(env, s3.get(env).delf(nm)) if nm in s3.get(env).fields else s3, x) for s3, x in r]
                        out.extend(r)
            cur = nxt
        return out + [(s, sig) for s in cur]

    def s_With(self, n, env, st):
        return self.with_items(n, 0, env, st)

    def with_items(self, n, i, env, st):
        if i == len(n.items):
            return self.block(n.body, env, st)
        item = n.items[i]

        def inner(s, v):
            """bind target and run the rest -> [(st, sig)]"""
            if item.optional_vars is not None:
                return self.bindsig(self.assign(item.optional_vars, v, env, s), lambda s2: self.with_items(n, i + 1, env, s2))
            return self.with_items(n, i + 1, env, s)

        def f(s, cm):
            # generator based context managers
            if isinstance(cm, Ref):
                o = s.get(cm)
                if isinstance(o.data, Gen):
                    exits = []

                    def h(s2, v):
                        res = []
                        for s3, sig in inner(s2, v):
                            if sig is None:
                                res.append((s3, NONE))
                            elif isinstance(sig, Raise):
                                res.append((s3, sig))
                            else:
                                res.append((s3, GenExit(sig)))
                        return res
                    out = []
                    for s2, v in self.drive(s, o.data, h):
                        if isinstance(v, GenExit):
                            out.append((s2, v.sig))
                        elif isinstance(v, Raise):
                            out.append((s2, v))
                        else:
                            out.append((s2, None))
                    return out
                if isinstance(o.cls, Ref) and self.model.class_lookup(s, o.cls, '__enter__') is not None:
                    en = self.model.class_lookup(s, o.cls, '__enter__')
                    exf = self.model.class_lookup(s, o.cls, '__exit__')

                    def g(s2, v):
                        out = []
                        for s3, sig in inner(s2, v):
                            if isinstance(sig, Halt):
                                out.append((s3, sig))
                                continue
                            ea = [NONE, NONE, NONE]
                            if isinstance(sig, Raise) and sig.exc is not None:
                                ea = [self.model.typeof(s3, sig.exc), sig.exc, NONE]
                            sv = sig.v if isinstance(sig, Ret) else NONE
                            self.rootstk.append([sv])
                            for s4, r in self.call(s3, BM(exf, cm), ea, {}):
                                if isinstance(r, Raise):
                                    out.append((s4, r))
                                elif isinstance(sig, Raise):
                                    for s5, b in self.truth(s4, r):
                                        out.append((s5, None if b is True else sig if b is False else b))
                                else:
                                    out.append((s4, sig))
                            self.rootstk.pop()
                        return out
                    return self.bind(self.call(s, BM(en, cm), [], {}), g)
            if isinstance(cm, Bi) and cm.name == 'suppress':
                out = []
                for s2, sig in inner(s, NONE):
                    if isinstance(sig, Raise) and sig.exc is not None:
                        for s3, b in self.model.exc_match(s2, sig.exc, Tup(cm.args)):
                            out.append((s3, None if b else sig))
                    else:
                        out.append((s2, sig))
                return out
            # opaque library context manager: enters to a value, does not swallow exceptions
            return inner(s, T('enter', (cm,)) if isinstance(cm, (T, Ext)) else cm)
        return self.bind(self.ev(item.context_expr, env, st), f)

    def s_Import(self, n, env, st):
        for al in n.names:
            st, v = self.import_module(st, al.name)
            if isinstance(v, Raise):
                return [(st, v)]
            if al.asname:
                st = self.store(al.asname, v, env, st)
            else:
                top = al.name.split('.')[0]
                st, v = self.import_module(st, top)
                st = self.store(top, v, env, st)
        return [(st, None)]

    def s_ImportFrom(self, n, env, st):
        mod = n.module or ''
        if n.level:
            e = env
            o = st.get(e)
            while o.data[0] != 'module':
                e = o.data[1]
                o = st.get(e)
            base = o.fields['__package__'].v.split('.')
            base = base[:len(base) - (n.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        st, m = self.import_module(st, mod)
        if isinstance(m, Raise):
            return [(st, m)]
        for al in n.names:
            if al.name == '*':
                if isinstance(m, Ref):
                    o = st.get(m)
                    allv = o.fields.get('__all__')
                    if allv is not None and not (isinstance(allv, K)):
                        names = [x.v for x in self.model.items_of(st, allv)]
                    else:
                        names = [k for k in o.fields if not k.startswith('_') or k == '__all__' and False]
                    for k in names:
                        st, v = self.from_mod(st, m, mod, k)
                        if v is not None:
                            st = self.store(k, v, env, st)
                else:
                    st = st.note('import * of ' + mod)
                continue
            st, v = self.from_mod(st, m, mod, al.name)
            if v is None:
                return self.exc(st, ImportError, al.name)
            if isinstance(v, Raise):
                return [(st, v)]
            st = self.store(al.asname or al.name, v, env, st)
        return [(st, None)]

    def from_mod(self, st, m, mod, name):
        if isinstance(m, Ext):
            return st, self.model.ext_value(m.path + '.' + name)
        o = st.get(m)
        if name in o.fields:
            return st, o.fields[name]
        p, _ = self.find(mod + '.' + name)
        if p:
            return self.import_module(st, mod + '.' + name)
        return st, None

    def decorate(self, n, env, st, mk):
        def f(s, decs):
            self.rootstk.append(decs)
            res = mk(s)
            for d in reversed(decs):
                res = self.bind(res, lambda s2, v, d=d: self.call(s2, d, [v], {}))
            self.rootstk.pop()
            return res
        res = self.bind(self.evs(n.decorator_list, env, st), f)
        return self.bind(res, lambda s, v: [(self.store(n.name, v, env, s), None)])

    def s_FunctionDef(self, n, env, st):
        return self.decorate(n, env, st, lambda s: self.mkfunc(n, env, s, n.name))

    def s_ClassDef(self, n, env, st):
        return self.decorate(n, env, st, lambda s: self.mkclass(n, env, s))

    def mkclass(self, n, env, st):
        psc = self.sc(env, st)
        kwn = [k.value for k in n.keywords if k.arg]
        kwnames = [k.arg for k in n.keywords if k.arg]

        def f(s, vals):
            bases = vals[:len(n.bases)]
            kws = dict(zip(kwnames, vals[len(n.bases):]))
            meta = kws.pop('metaclass', None)
            sc = Scope('class')
            sc.mangle, sc.module, sc.file = n.name, psc.module, psc.file
            sc.qual = (psc.qual + ('.<locals>.' if psc.kind == 'func' else '.') if psc.qual else '') + n.name
            csc = Scope('cell')
            csc.module, csc.file, csc.mangle, csc.qual = psc.module, psc.file, n.name, sc.qual
            penv = env
            if psc.kind == 'class':
                penv = s.get(env).fields['$cell']
            s, cell = self.alloc(s, HObj(OBJT, {}, ('env', penv, csc)))
            fields = {'__module__': K(psc.module), '__qualname__': K(sc.qual), '$cell': cell}
            s, benv = self.alloc(s, HObj(OBJT, fields, ('env', env if psc.kind != 'class' else penv, sc)))
            out = []
            self.rootstk.append([benv, cell] + bases)
            self.stack.append((psc.module + '.' + sc.qual, psc.file, n.lineno))
            body = self.block(n.body, benv, s)
            self.stack.pop()
            for s2, sig in body:
                if sig is not None:
                    out.append((s2, sig))
                    continue
                ns = {k: v for k, v in s2.get(benv).fields.items() if k != '$cell'}
                for s3, c in self.model.make_class(s2, n.name, bases, ns, meta, kws, sc.qual, psc.module):
                    if not isinstance(c, Raise) and isinstance(c, Ref):
                        s3 = s3.put(cell, s3.get(cell).setf('__class__', c))
                    out.append((s3, c))
            self.rootstk.pop()
            return out
        return self.bind(self.evs(n.bases + kwn, env, st), f)

    # ------------------------------------------------------------------ loops
    def s_For(self, n, env, st):
        def f(s, itv):
            brk = []

            def body(s2, item):
                res = []
                for s3, sig in self.assign(n.target, item, env, s2):
                    if sig is not None:
                        res.append((s3, sig))
                        continue
                    res.extend(self.block(n.body, env, s3))
                return res
            out = []
            self.rootstk.append([itv])
            for s2, sig in self.loop_over(itv, s, body, loopkey=n, env=env):
                if sig is BRK:
                    out.append((s2, None))
                elif sig is None and n.orelse:
                    out.extend(self.block(n.orelse, env, s2))
                else:
                    out.append((s2, sig))
            self.rootstk.pop()
            return self.merge(out) if len(out) > 1 else out
        return self.bind(self.ev(n.iter, env, st), f)

    def loop_over(self, itv, st, body, loopkey=None, env=None):
        """drive body(st,item) -> [(st,sig)] over an iterable; sig None/CNT continue. -> [(st, sig)], None = exhausted"""
        out = []
        # generators: the body runs inside
        if isinstance(itv, Ref) and isinstance(st.get(itv).data, Gen):
            g = st.get(itv).data

            def h(s, v):
                res = []
                for s2, sig in body(s, v):
                    if sig is None or sig is CNT:
                        res.append((s2, NONE))
                    elif isinstance(sig, Raise) and not isinstance(sig, Halt):
                        # an exception in the consumer does not go through the generator
                        res.append((s2, GenExit(sig)))
                    elif isinstance(sig, Halt):
                        res.append((s2, sig))
                    else:
                        res.append((s2, GenExit(sig)))
                return res
            for s2, v in self.drive(st, g, h):
                if isinstance(v, GenExit):
                    out.append((s2, v.sig))
                elif isinstance(v, Raise):
                    out.append((s2, v))
                else:
                    out.append((s2, None))
            return out
        if isinstance(itv, Ref):
            o = st.get(itv)
            if isinstance(o.cls, Ref) and not isinstance(o.data, (tuple, ClassInfo)):
                f = self.model.class_lookup(st, o.cls, '__iter__')
                if f is not None:
                    return self.bindx(self.call(st, BM(f, itv), [], {}), lambda s, v: self.loop_over(v, s, body, loopkey, env))
                return self.exc(st, TypeError, 'object is not iterable')
        items = self.model.items_of(st, itv)
        if items is not None:
            cur = [st]
            for it in items:
                nxt = []
                self.rootstk.append([x for x in items])
                for s in cur:
                    for s2, sig in body(s, it):
                        if sig is None or sig is CNT:
                            nxt.append(s2)
                        else:
                            out.append((s2, sig))
                if len(nxt) > 1:
                    nxt = [s for s, _ in self.merge([(s, None) for s in nxt])]
                self.rootstk.pop()
                cur = nxt
                if not cur:
                    return out
            return out + [(s, None) for s in cur]
        # unknown iterable: peel, then widen
        if isinstance(itv, T) and itv.op == 'range':
            lo, hi, step = itv.args

            def guard(s, k):
                return self.model.before(padd(lo, pmul(step, K(k))), hi, step)

            def elem(s, k):
                return padd(lo, pmul(step, K(k)))
        elif isinstance(itv, T) and itv.op in ('enumerate',):
            inner, start = itv.args
            ln = self.model.length(st, inner)

            def guard(s, k):
                return self.model.lt(K(k), ln)

            def elem(s, k):
                return Tup((padd(start, K(k)), self.model.elem(s, inner, K(k))))
        else:
            if isinstance(itv, (K, Ty, Ext)) or (isinstance(itv, T) and st.tset(itv).subset(TS(['int', 'bool', 'NoneType', 'float']))) or isinstance(itv, P):
                return self.exc(st, TypeError, 'object is not iterable')
            ln = self.model.length(st, itv)

            def guard(s, k):
                return self.model.lt(K(k), ln)

            def elem(s, k):
                return self.model.elem(s, itv, K(k))
        cur = [st]
        for k in range(self.peel):
            nxt = []
            for s in cur:
                for s2, b in self.fork(s, guard(s, k)):
                    if not b:
                        out.append((s2, None))
                        continue
                    for s3, sig in body(s2, elem(s2, k)):
                        if sig is None or sig is CNT:
                            nxt.append(s3)
                        else:
                            out.append((s3, sig))
            if len(nxt) > 1:
                nxt = [s for s, _ in self.merge([(s, None) for s in nxt])]
            prev, cur = cur, nxt
            if not cur:
                return out
        # widening
        key = (loopkey.lineno if loopkey is not None else 0, self.stack[-1][0] if self.stack else '')
        self.stats['widened'].add('%s:%d' % (key[1], key[0]))
        for s in cur:
            for s2, b in self.fork(s, guard(s, self.peel)):
                if not b:
                    out.append((s2, None))
                    continue
                w = self.widen(prev[0], s2, env, key)
                i = T('hvidx', (K(key[1]), K(key[0])), INT)
                w2 = w.assume_le0(padd(K(self.peel), pneg(i)))
                if w2 is None:
                    w2 = w
                if isinstance(itv, T) and itv.op == 'range':
                    it = padd(lo, pmul(step, i))
                    w3 = w2.assume(self.model.before(it, hi, step), True)
                elif isinstance(itv, T) and itv.op == 'enumerate':
                    it = Tup((padd(start, i), self.model.elem(w2, inner, i)))
                    w3 = w2.assume(self.model.lt(i, ln), True)
                else:
                    it = self.model.elem(w2, itv, i)
                    w3 = w2.assume(self.model.lt(i, ln), True)
                w3 = w3 if w3 is not None else w2
                for s3, sig in body(w3, it):
                    if sig is None or sig is CNT:
                        out.append((s3, None))
                    else:
                        out.append((s3, sig))
        return out

    def bindx(self, res, f):
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                self.rootstk.append([v])
                out.extend(f(s, v))
                self.rootstk.pop()
        return out

    def drive(self, st, g, h):
        """run generator g with yield handler h -> [(st, value|Raise)]"""
        self.yieldstk = self.yieldstk + [self.outer_yield(h, self.yieldstk)]
        try:
            self.stats['functions'].add((g.fn.scope.file, g.fn.scope.qual))
            return self.run_body(st, g.fn, g.env)
        finally:
            self.yieldstk = self.yieldstk[:-1]

    def outer_yield(self, h, saved):
        def hh(s, v):
            ys, self.yieldstk = self.yieldstk, saved
            stk = self.stack
            try:
                return h(s, v)
            finally:
                self.yieldstk = ys
        return hh

    def widen(self, a, b, env, key):
        """forget whatever changed between two loop-head states"""
        s = b.copy()
        s.notes = b.notes | {'widened at %s:%d' % (key[1], key[0])}
        for id_, ob in b.over.items():
            oa = a.over.get(id_, a.base.get(id_))
            if oa is None or oa is ob:
                continue
            fields = dict(ob.fields)
            for f, v in ob.fields.items():
                va = oa.fields.get(f)
                if va is not v:
                    ts = None
                    tb, ta = b.tset(v) if not isinstance(v, (Ref, Ext, BM, Bi, BiM, Ty)) else None, \
                        a.tset(va) if va is not None and not isinstance(va, (Ref, Ext, BM, Bi, BiM, Ty)) else None
                    if tb is not None and ta is not None:
                        ts = ta.union(tb)
                    fields[f] = T('hv', (K(key[1]), K(key[0]), K(id_), K(f)), ts)
            data = ob.data
            if isinstance(data, tuple) and data[0] in ('list', 'dict', 'set', 'sym') and oa.data != data:
                data = ('sym', T('hvc', (K(key[1]), K(key[0]), K(id_)), TS([{'sym': 'list'}.get(data[0], data[0])])))
            s.over[id_] = HObj(ob.cls, fields, data)
        return s

    def s_While(self, n, env, st):
        out = []
        cur = [st]
        prev = None
        sym = 0
        count = 0
        key = (n.lineno, self.stack[-1][0] if self.stack else '')
        while cur:
            count += 1
            if count > (20000 if not sym else 400):
                self.stats['opaque'].add('loop bound reached at %s' % self.where())
                out.extend((s.note('loop bound'), None) for s in cur)
                break
            bodies = []
            forked = False
            for s in cur:
                r = self.cond(n.test, env, s)
                if len(r) > 1:
                    forked = True
                for s2, b in r:
                    if isinstance(b, Raise):
                        out.append((s2, b))
                    elif not b:
                        if n.orelse:
                            out.extend(self.block(n.orelse, env, s2))
                        else:
                            out.append((s2, None))
                    else:
                        bodies.append(s2)
            if forked:
                sym += 1
            final = False
            if sym > self.peel and prev and bodies:
                self.stats['widened'].add('%s:%d' % (key[1], key[0]))
                nb = []
                for s in bodies:
                    w = self.widen(prev[0], s, env, key)
                    for w2, b in self.cond(n.test, env, w):
                        if b is True:
                            nb.append(w2)
                        elif b is False:
                            out.append((w2, None))
                        else:
                            out.append((w2, b))
                bodies = nb
                final = True
            nxt = []
            for s in bodies:
                for s2, sig in self.block(n.body, env, s):
                    if sig is None or sig is CNT:
                        nxt.append(s2)
                    elif sig is BRK:
                        out.append((s2, None))
                    else:
                        out.append((s2, sig))
            if len(nxt) > 1:
                nxt = [s for s, _ in self.merge([(s, None) for s in nxt])]
            if final:
                out.extend((s, None) for s in nxt)
                break
            prev, cur = cur, nxt
        return self.merge(out) if len(out) > 1 else out

    def s_Match(self, n, env, st):
        out = []

        def f(s, v):
            cur = [s]
            res = []
            for case in n.cases:
                nxt = []
                for s1 in cur:
                    for s2, b in self.match(case.pattern, v, env, s1):
                        if isinstance(b, Raise):
                            res.append((s2, b))
                            continue
                        if b and case.guard is not None:
                            for s3, g in self.cond(case.guard, env, s2):
                                if isinstance(g, Raise):
                                    res.append((s3, g))
                                elif g:
                                    res.extend(self.block(case.body, env, s3))
                                else:
                                    nxt.append(s3)
                        elif b:
                            res.extend(self.block(case.body, env, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s1, None) for s1 in cur]
        return self.bind(self.ev(n.subject, env, st), f)

    def match(self, p, v, env, st):
        if isinstance(p, ast.MatchValue):
            return self.bind(self.bind(self.ev(p.value, env, st), lambda s, k: self.model.compare(s, 'Eq', v, k)),
                             lambda s, c: self.truth(s, c))
        if isinstance(p, ast.MatchSingleton):
            return self.bind(self.model.compare(st, 'Is', v, K(p.value)), lambda s, c: self.truth(s, c))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return [(self.store(p.name, v, env, st) if p.name else st, True)]
            return [(self.store(p.name, v, env, s) if b is True and p.name else s, b) for s, b in self.match(p.pattern, v, env, st)]
        if isinstance(p, ast.MatchOr):
            cur, out = [st], []
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, b in self.match(q, v, env, s):
                        (nxt if b is False else out).append(s2 if b is False else (s2, b))
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            def f(s, c):
                return self.bind(self.model.isinstance(s, v, c), lambda s2, b: self.truth(s2, b))
            return self.bind(self.ev(p.cls, env, st), f)
        self.stats['opaque'].add('unsupported pattern at ' + self.where())
        return [(st.note('unsupported pattern'), True), (st.note('unsupported pattern'), False)]

    def iterate_all(self, v, st, want=None):
        """[(st, list of items | None if unknown | Raise)]"""
        if isinstance(v, Ref) and (isinstance(st.get(v).data, Gen) or (isinstance(st.get(v).cls, Ref) and not isinstance(st.get(v).data, (tuple, ClassInfo)))):
            st, acc = self.new_list(st, ())
            self.rootstk.append([acc])

            def body(s, it):
                return [(self.model.list_append(s, acc, it), None)]
            res = []
            for s, sig in self.loop_over(v, st, body):
                if sig is None:
                    d = s.get(acc).data
                    res.append((s, list(d[1]) if d[0] == 'list' else None))
                else:
                    res.append((s, sig))
            self.rootstk.pop()
            return res
        items = self.model.items_of(st, v)
        if items is None and isinstance(v, T):
            ts = st.tset(v)
            if ts.subset(TS(['int', 'bool', 'float', 'NoneType'])):
                return self.exc(st, TypeError, 'not iterable')
            if want is not None and v.op in ('in',) or want is not None:
                # unpacking an unknown sequence
                return [(st, [self.model.elem(st, v, K(i)) for i in range(want)])] if True else None
        if items is None and isinstance(v, (K, P, Ext, Ty)):
            return self.exc(st, TypeError, 'not iterable')
        return [(st, items)]

    # ------------------------------------------------------------------ joining states
    def hasrefs(self, v):
        r = self._refs.get(v.uid)
        if r is None:
            if isinstance(v, Ref):
                r = True
            elif isinstance(v, T):
                r = any(self._hr(a) for a in v.args)
            elif isinstance(v, Tup):
                r = any(self.hasrefs(a) for a in v.items)
            elif isinstance(v, BM):
                r = True
            elif isinstance(v, BiM):
                r = self.hasrefs(v.recv)
            elif isinstance(v, Bi):
                r = any(self._hr(a) for a in v.args)
            else:
                r = False
            self._refs[v.uid] = r
        return r

    def _hr(self, a):
        if isinstance(a, Val):
            return self.hasrefs(a)
        if isinstance(a, tuple):
            return any(self._hr(x) for x in a)
        return False

    def statekey(self, st, extra):
        num = {}
        parts = []
        queue = []
        base = st.base

        def enc(v):
            if not isinstance(v, Val):
                if isinstance(v, tuple):
                    return tuple(enc(x) for x in v)
                if isinstance(v, (list,)):
                    return tuple(enc(x) for x in v)
                if isinstance(v, dict):
                    return tuple((k, enc(x)) for k, x in v.items())
                return v
            if not self.hasrefs(v):
                return v.uid
            if isinstance(v, Ref):
                if v.id in base:
                    return ('b', v.id)
                n = num.get(v.id)
                if n is None:
                    n = num[v.id] = len(num)
                    queue.append(v.id)
                return ('r', n)
            if isinstance(v, T):
                return (v.op,) + tuple(enc(a) for a in v.args)
            if isinstance(v, Tup):
                return ('t',) + tuple(enc(a) for a in v.items)
            if isinstance(v, BM):
                return ('bm', enc(v.f), enc(v.self))
            if isinstance(v, BiM):
                return ('bim', enc(v.recv), v.name)
            if isinstance(v, Bi):
                return ('bi', v.name) + tuple(enc(a) for a in v.args)
            return v.uid

        def encobj(id_, o):
            d = o.data
            if isinstance(d, tuple):
                if d[0] in ('list', 'dict', 'set', 'sym'):
                    dk = (d[0], enc(d[1]))
                elif d[0] == 'env':
                    dk = ('env', enc(d[1]) if d[1] is not None else None, id(d[2]))
                else:
                    dk = (d[0], id(d[-1]))
            elif isinstance(d, Gen):
                dk = ('gen', id(d.fn.node), enc(d.env))
            elif isinstance(d, Fn):
                dk = ('fn', id(d.node), enc(d.env), enc(d.defaults))
            elif d is None:
                dk = None
            else:
                dk = id(d)
            return (enc(o.cls), tuple((k, enc(v)) for k, v in sorted(o.fields.items(), key=lambda x: x[0])), dk)

        for id_ in sorted(i for i in st.over if i in base):
            parts.append((id_, encobj(id_, st.over[id_])))
        parts.append(enc(extra))
        for r in self.rootstk:
            parts.append(enc(r))
        i = 0
        while i < len(queue):
            id_ = queue[i]
            i += 1
            parts.append(encobj(id_, st.over[id_]))
        parts.append(tuple((e.kind, enc(e.args)) for e in st.trace))
        parts.append(enc(st.node) if st.node is not None else None)
        return tuple(parts)

    def merge(self, res):
        if len(res) < 2:
            return res
        groups = {}
        order = []
        for st, sig in res:
            if sig is None or isinstance(sig, _Sig):
                sk = ('s', repr(sig))
            elif isinstance(sig, Halt):
                sk = ('h', sig.reason)
            elif isinstance(sig, GenExit):
                sk = ('g', id(sig))
            elif isinstance(sig, Raise):
                sk = ('x', sig.exc)
            elif isinstance(sig, Ret):
                sk = ('ret', sig.v)
            elif isinstance(sig, Val):
                sk = ('v', sig)
            elif isinstance(sig, list):
                sk = ('l', tuple(sig))
            else:
                sk = ('o', repr(sig))
            k = self.statekey(st, sk)
            if k in groups:
                o = groups[k]
                o[0] = o[0].join_facts(st)
                self.stats['merged'] += 1
            else:
                groups[k] = [st, sig]
                order.append(k)
        return [tuple(groups[k]) for k in order]
