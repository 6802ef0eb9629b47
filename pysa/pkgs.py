"""Contract packages as a file system of source texts: what the executor's loader and validator see of them.

Files are never run; reading one's code object compiles its text. Running a file (importing it, or importing a parent
package of a module that is only looked up) is an effect the trace records as `runs <path>`."""
import os
import types

from .values import *
from .state import *
from .interp import Raise, AnalysisError

ROOT = '/pkgs'
SPEC, LOADER, CODE, FILE = Ext('env.spec'), Ext('env.loader'), Ext('types.CodeType'), Ext('env.pkgfile')


class Files:
    """{package: {relative path: text}}"""
    def __init__(self, W, packages, stand_in='basic', code=None):
        self.W = W
        self.stand_in = stand_in        # the schematic contract an imported main module stands for
        self.code = code or {}          # path -> callable(I, st) -> (st, code object)
        self.texts = {}
        for p, files in packages.items():
            for f, t in files.items():
                self.texts['%s/%s/%s' % (ROOT, p, f)] = t
        self.cache = {}
        h = W.I.hooks
        self.old = {}
        for n, f in (('os.walk', self.walk), ('os.listdir', self.listdir), ('os.path.exists', self.q(self.exists)), ('os.path.isdir', self.q(self.isdir)),
                     ('os.path.isfile', self.q(self.isfile)), ('os.path.relpath', self.relpath), ('importlib.util.find_spec', self.find_spec),
                     ('importlib.util.spec_from_file_location', self.spec_from), ('importlib.machinery.SourceFileLoader', self.loader),
                     ('env.loader.get_code', self.get_code), ('env.loader.get_source', self.get_source), ('env.loader.get_data', self.get_data),
                     ('env.loader.source_to_code', self.source_to_code), ('env.loader.get_filename', lambda I, st, a, k: [(st, self.field(st, a[0], 'path'))]),
                     ('compile', self.compile), ('open', self.open), ('env.pkgfile.__enter__', lambda I, st, a, k: [(st, a[0])]),
                     ('env.pkgfile.__exit__', lambda I, st, a, k: [(st, NONE)]), ('env.pkgfile.close', lambda I, st, a, k: [(st, NONE)]),
                     ('env.pkgfile.read', self.read), ('importlib.import_module', self.import_module)):
            self.old[n] = h.get(n)
            h[n] = f

    def undo(self):
        for n, f in self.old.items():
            if f is None:
                self.W.I.hooks.pop(n, None)
            else:
                self.W.I.hooks[n] = f

    # ---- the tree
    def exists(self, p):
        return p in self.texts or self.isdir(p)

    def isdir(self, p):
        return any(x.startswith(p.rstrip('/') + '/') for x in self.texts)

    def isfile(self, p):
        return p in self.texts

    def names(self, d):
        d = d.rstrip('/') + '/'
        return sorted({x[len(d):].split('/')[0] for x in self.texts if x.startswith(d)})

    def mine(self, v):
        return isinstance(v, K) and isinstance(v.v, str) and (v.v + '/').startswith(ROOT + '/')

    def q(self, f):
        def h(I, st, a, k):
            if isinstance(a[0], K) and isinstance(a[0].v, str):
                return [(st, kb(f(a[0].v)))]
            return I.fork(st, T('exists', (I.model.freeze(st, a[0]),), BOOL))
        return h

    def strings(self, I, st, ns):
        return I.new_list(st, [K(n) for n in ns])

    def walk(self, I, st, a, k):
        if not isinstance(a[0], K):
            raise AnalysisError('walk of an unknown path')
        out = []

        def rec(st, d):
            ns = self.names(d)
            dirs = [n for n in ns if self.isdir(d + '/' + n)]
            st, dl = self.strings(I, st, dirs)
            st, fl = self.strings(I, st, [n for n in ns if d + '/' + n in self.texts])
            out.append(Tup((K(d), dl, fl)))
            for n in dirs:
                st = rec(st, d + '/' + n)
            return st
        st = rec(st, a[0].v.rstrip('/') or '/')
        st, l = I.new_list(st, out)
        return [(st, l)]

    def listdir(self, I, st, a, k):
        st, l = self.strings(I, st, self.names(a[0].v))
        return [(st, l)]

    def relpath(self, I, st, a, k):
        if all(isinstance(x, K) for x in a) and len(a) == 2:
            return [(st, K(os.path.relpath(a[0].v, a[1].v)))]
        raise AnalysisError('relative path')

    # ---- looking up and running
    def find(self, name):
        p = ROOT + '/' + name.replace('.', '/')
        if p + '/__init__.py' in self.texts:
            return p + '/__init__.py'
        if p + '.py' in self.texts:
            return p + '.py'
        return p if self.isdir(p) else None

    def runs(self, I, st, name):
        """importing `name` runs its package's __init__, and so on outwards"""
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            p = self.find('.'.join(parts[:i]))
            if p is None:
                return st, False
            if p in self.texts:
                st = I.emit(st, 'runs', p)
        return st, True

    def spec(self, I, st, name, path):
        st, ld = I.alloc(st, HObj(LOADER, {'name': K(name), 'path': K(path)}))
        return I.alloc(st, HObj(SPEC, {'name': K(name), 'loader': ld, 'origin': K(path), 'has_location': TRUE, 'submodule_search_locations': NONE}))

    def find_spec(self, I, st, a, k):
        name = a[0]
        if not isinstance(name, K):
            raise AnalysisError('look-up of an unknown name')
        name = name.v
        if len(a) > 1 and isinstance(a[1], K) and isinstance(a[1].v, str) and name.startswith('.'):
            name = a[1].v + name
        top = name.split('.')[0]
        if not self.isdir(ROOT + '/' + top):
            src = I.find(name)[0]
            if src is None:
                return [(st, NONE)]
            return [self.spec(I, st, name, src)]
        if '.' in name:
            st, ok = self.runs(I, st, name.rpartition('.')[0])
            if not ok:
                return I.exc(st, ModuleNotFoundError, K("No module named '%s'" % name))
        # a module named __init__ is found as a file of the package
        p = self.find(name)
        if p is None:
            return [(st, NONE)]
        return [self.spec(I, st, name, p)]

    def spec_from(self, I, st, a, k):
        path = a[1] if len(a) > 1 else k.get('location')
        if not isinstance(path, K):
            raise AnalysisError('specification of an unknown path')
        return [self.spec(I, st, a[0].v, path.v)]

    def loader(self, I, st, a, k):
        a = list(a) + [k[n] for n in ('fullname', 'path') if n in k]
        if not all(isinstance(x, K) for x in a):
            raise AnalysisError('loader of an unknown path')
        return [I.alloc(st, HObj(LOADER, {'name': a[0], 'path': a[1]}))]

    def import_module(self, I, st, a, k):
        name, pk = a[0], a[1] if len(a) > 1 else k.get('package', NONE)
        if not isinstance(name, K) or not isinstance(pk, K):
            raise AnalysisError('import of an unknown name')
        full = pk.v + name.v if name.v.startswith('.') else name.v
        if not self.isdir(ROOT + '/' + full.split('.')[0]):
            st, m = I.import_module(st, full)
            return [(st, m)]
        st, ok = self.runs(I, st, full)
        if not ok:
            return I.exc(st, ModuleNotFoundError, K("No module named '%s'" % full))
        st, m = I.import_module(st, self.stand_in + '.main')
        return [(st, m)]

    # ---- reading
    def field(self, st, o, n):
        return st.get(o).fields[n]

    def text(self, path):
        if path in self.texts:
            return self.texts[path]
        if os.path.isfile(path) and path.endswith('.py'):
            with open(path) as f:
                return f.read()
        return None

    def missing(self, I, st, path):
        return I.exc(st, FileNotFoundError, K("No such file or directory: '%s'" % path))

    def get_code(self, I, st, a, k):
        path = self.field(st, a[0], 'path').v
        return self.code_at(I, st, path)

    def code_at(self, I, st, path):
        if path in self.code:
            return [self.code[path](I, st)]
        t = self.text(path)
        if t is None:
            return self.missing(I, st, path)
        return self.compiled(I, st, t, path)

    def compiled(self, I, st, t, path):
        key = (path, t)
        if key not in self.cache:
            try:
                self.cache[key] = compile(t, path, 'exec', dont_inherit=True)
            except SyntaxError as e:
                self.cache[key] = e
        co = self.cache[key]
        if isinstance(co, SyntaxError):
            return I.exc(st, SyntaxError, K(str(co)))
        return [self.codeobj(I, st, co)]

    def codeobj(self, I, st, co):
        consts = []
        for x in co.co_consts:
            if isinstance(x, types.CodeType):
                st, x = self.codeobj(I, st, x)
                consts.append(x)
            else:
                consts.append(const(x))
        return I.alloc(st, HObj(CODE, {'co_code': K(co.co_code), 'co_names': Tup(tuple(K(n) for n in co.co_names)), 'co_consts': Tup(tuple(consts)),
                                       'co_varnames': Tup(tuple(K(n) for n in co.co_varnames)), 'co_name': K(co.co_name), 'co_flags': K(co.co_flags),
                                       'co_freevars': Tup(tuple(K(n) for n in co.co_freevars)), 'co_cellvars': Tup(tuple(K(n) for n in co.co_cellvars)),
                                       'co_filename': K(co.co_filename), 'co_qualname': K(co.co_qualname)}))

    def get_source(self, I, st, a, k):
        t = self.text(self.field(st, a[0], 'path').v)
        return self.missing(I, st, self.field(st, a[0], 'path').v) if t is None else [(st, K(t))]

    def get_data(self, I, st, a, k):
        t = self.text(a[1].v)
        return self.missing(I, st, a[1].v) if t is None else [(st, K(t.encode()))]

    def source_to_code(self, I, st, a, k):
        return self.compile(I, st, a[1:], k)

    def compile(self, I, st, a, k):
        if not isinstance(a[0], K):
            raise AnalysisError('compilation of an unknown text')
        t = a[0].v if isinstance(a[0].v, str) else a[0].v.decode()
        path = a[1].v if len(a) > 1 and isinstance(a[1], K) else '?'
        if path in self.code:
            return [self.code[path](I, st)]
        return self.compiled(I, st, t, path)

    def open(self, I, st, a, k):
        p = a[0]
        if self.mine(p) and not p.v.endswith('package.json') and p.v not in self.texts:
            return self.missing(I, st, p.v)
        binary = len(a) > 1 and isinstance(a[1], K) and 'b' in a[1].v
        return [I.alloc(st, HObj(FILE, {'path': p, 'binary': kb(binary)}))]

    def read(self, I, st, a, k):
        o = st.get(a[0])
        t = self.text(o.fields['path'].v)
        if t is None:
            raise AnalysisError('reading ' + o.fields['path'].v)
        return [(st, K(t.encode() if o.fields['binary'] is TRUE else t))]


def const(x):
    if isinstance(x, tuple):
        return Tup(tuple(const(y) for y in x))
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return NONE if x is None else kb(x) if isinstance(x, bool) else K(x)
    return T('const', (K(repr(x)),))
