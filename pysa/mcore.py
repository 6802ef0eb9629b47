"""Terms: numbers, text, bytes, comparisons; containers."""
import builtins
import hashlib
import importlib
import types
from .values import *
from .state import *

BUILTIN_TYPES = {n: t for n, t in vars(builtins).items() if isinstance(t, type)}
LEAVES = {'NoneType': type(None), 'bool': bool, 'int': int, 'float': float, 'str': str, 'bytes': bytes, 'list': list,
          'dict': dict, 'tuple': tuple, 'set': set, 'bytearray': bytearray, 'frozenset': frozenset}
LISTT, DICTT, SETT = Ty(list), Ty(dict), Ty(set)
FLOAT = TS(['float'])
STDLIB = {'abc', 'enum', 'typing', 'typing_extensions', 'inspect', 'functools', 'collections', 'json', 'os', 'sys', 'logging',
          'threading', 'copy', 'hashlib', 'struct', 'socket', 'argparse', 'traceback', 'warnings', 're', 'importlib',
          'contextlib', 'types', 'math', 'operator', 'itertools', 'string', 'time', 'io'}


IMPURE = ('time.', 'random.', 'uuid.', 'secrets.', 'datetime.', 'os.environ', 'os.getenv', 'os.getpid', 'os.getppid', 'os.urandom', 'os.times', 'os.getcwd', 'os.uname',
          'os.cpu_count', 'os.getloadavg', 'os.name', 'os.stat', 'os.scandir', 'platform.', 'socket.gethostname', 'socket.getfqdn', 'sys.flags', 'sys.platform', 'sys.version',
          'sys.hexversion', 'sys.argv', 'sys.getrefcount', 'sys.getsizeof', 'sys.maxsize', 'sys.byteorder', 'sys.executable', 'sys.getrecursionlimit',
          'threading.get_ident', 'threading.get_native_id', 'threading.current_thread', 'threading.active_count', 'gc.', 'resource.', 'locale.', 'getpass.', 'tempfile.',
          'multiprocessing.', 'weakref.')


IMPURE_TYPES = {n: FLOAT for n in ('time', 'perf_counter', 'monotonic', 'process_time', 'random', 'uniform', 'times')}
IMPURE_TYPES.update({n: INT for n in ('time_ns', 'perf_counter_ns', 'monotonic_ns', 'randint', 'randrange', 'getrandbits', 'randbelow', 'getpid', 'getppid', 'get_ident', 'get_native_id',
                                      'getrefcount', 'getsizeof', 'cpu_count', 'active_count')})
IMPURE_TYPES.update({n: BYTES for n in ('urandom', 'randbytes', 'token_bytes')})
IMPURE_TYPES.update({n: STR for n in ('gethostname', 'getcwd', 'token_hex', 'node', 'system', 'machine', 'python_version', 'ctime', 'strftime')})


def impure_name(path):
    return any(path.startswith(p) if p.endswith('.') else path == p or path.startswith(p + '.') for p in IMPURE)


def R(*x):
    from .interp import Raise
    return Raise(*x)


def israise(v):
    from .interp import Raise
    return isinstance(v, Raise)


def samples():
    out = set(range(-300, 301))
    for k in range(6, 300):
        for d in (-1, 0, 1):
            out.add((1 << k) + d)
            out.add(-(1 << k) + d)
    for k in (1023, 1024, 2047, 2048):
        for d in (-1, 0, 1):
            out.add((1 << k) + d)
            out.add(-(1 << k) + d)
    return sorted(out)


SAMPLES = samples()


def minlen(n):
    return ((n + (n < 0)).bit_length() + 8) // 8


class EvalError(Exception):
    pass


def evalint(v, env):
    """value of an integer term at a point (used on extracted terms only)"""
    if isinstance(v, K):
        if isinstance(v.v, int):
            return int(v.v)
        raise EvalError
    if v in env:
        return env[v]
    if isinstance(v, P):
        t = 0
        for m, c in v.terms:
            x = c
            for a in m:
                x *= evalint(a, env)
            t += x
        return t
    if isinstance(v, T):
        a = v.args
        if v.op == 'bit_length':
            return evalint(a[0], env).bit_length()
        if v.op == 'floordiv':
            return evalint(a[0], env) // evalint(a[1], env)
        if v.op == 'mod':
            return evalint(a[0], env) % evalint(a[1], env)
        if v.op == 'le0':
            return int(evalint(a[0], env) <= 0)
        if v.op == 'eq0':
            return int(evalint(a[0], env) == 0)
        if v.op == 'not':
            return int(not evalint(a[0], env))
        if v.op == 'and':
            return evalint(a[0], env) & evalint(a[1], env)
        if v.op == 'or':
            return evalint(a[0], env) | evalint(a[1], env)
        if v.op == 'xor':
            return evalint(a[0], env) ^ evalint(a[1], env)
        if v.op == 'rshift':
            return evalint(a[0], env) >> evalint(a[1], env)
        if v.op == 'lshift':
            return evalint(a[0], env) << evalint(a[1], env)
        if v.op == 'abs':
            return abs(evalint(a[0], env))
        if v.op == 'max':
            return max(evalint(x, env) for x in a)
        if v.op == 'min':
            return min(evalint(x, env) for x in a)
        if v.op == 'len' and isinstance(a[0], T) and a[0].op == 'i2b':
            return minlen(evalint(a[0].args[0], env))
    raise EvalError


class Core:
    def init_core(self):
        self.flagids = {}
        self._ml = {}

    # ------------------------------------------------------------------ names
    def builtin(self, name):
        if name in BUILTIN_TYPES:
            return Ty(BUILTIN_TYPES[name])
        if name in ('True', 'False', 'None'):
            return K(getattr(builtins, name))
        if name == 'NotImplemented':
            return Ext('NotImplemented')
        if name == '__debug__':
            return TRUE
        if name == 'Ellipsis':
            return K(Ellipsis)
        if hasattr(builtins, name):
            return Bi(name)
        return None

    def ext_value(self, path):
        if path in self.extmap:
            return self.extmap[path]
        mod, _, name = path.rpartition('.')
        top = path.split('.')[0]
        if self.I.impure and impure_name(path):
            return self.hosted(path)
        if top in STDLIB and mod:
            o = self.host(path)
            if isinstance(o, type) and o.__module__ == 'builtins' and getattr(builtins, o.__name__, None) is o:
                return Ty(o)
            if isinstance(o, (int, str, bytes, float, type(None))) and not hasattr(o, '_value_'):
                return K(o)
            if isinstance(o, types.BuiltinFunctionType) and o.__module__ == 'builtins':
                return Bi(o.__name__)
        return Ext(path)

    def hosted(self, path):
        """something of the host's: its value differs from run to run"""
        o = self.host(path)
        if isinstance(o, (bool, int, str, bytes, float)):
            return T('impure', (K(path),), TS([type(o).__name__]))
        return Ext(path)

    def host(self, path):
        """the standard library object a path denotes, for facts about the library itself"""
        parts = path.split('.')
        for i in range(len(parts), 0, -1):
            try:
                o = importlib.import_module('.'.join(parts[:i]))
            except Exception:
                continue
            try:
                for p in parts[i:]:
                    o = getattr(o, p)
                return o
            except AttributeError:
                return None
        return None

    # ------------------------------------------------------------------ concrete <-> abstract
    def conc(self, st, v, depth=6):
        """python value of v, or raise EvalError"""
        if isinstance(v, K):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.conc(st, x, depth - 1) for x in v.items)
        if isinstance(v, Ref) and depth > 0:
            o = st.get(v)
            if isinstance(o.data, tuple) and o.data[0] in ('list', 'set') and o.cls in (LISTT, SETT):
                return [self.conc(st, x, depth - 1) for x in o.data[1]]
            if isinstance(o.data, tuple) and o.data[0] == 'dict' and o.cls is DICTT:
                return {self.conc(st, k, depth - 1): self.conc(st, x, depth - 1) for k, x in o.data[1]}
            if self.is_enum_member(st, v) and self.enum_kind(st, o.cls) in ('IntEnum', 'IntFlag'):
                return o.fields['_value_'].v
        raise EvalError

    def absv(self, st, x):
        """abstract value of a python value"""
        if x is None or isinstance(x, (bool, int, str, bytes, float)) or x is Ellipsis:
            return st, K(x)
        if isinstance(x, tuple):
            out = []
            for y in x:
                st, v = self.absv(st, y)
                out.append(v)
            return st, Tup(out)
        if isinstance(x, (list, range)):
            out = []
            for y in x:
                st, v = self.absv(st, y)
                out.append(v)
            return self.I.new_list(st, out)
        if isinstance(x, (set, frozenset)):
            out = []
            for y in sorted(x, key=repr):
                st, v = self.absv(st, y)
                out.append(v)
            return self.I.new_set(st, out)
        if isinstance(x, dict):
            out = []
            for a, b in x.items():
                st, k = self.absv(st, a)
                st, v = self.absv(st, b)
                out.append((k, v))
            return self.I.new_dict(st, out)
        if isinstance(x, type) and getattr(builtins, x.__name__, None) is x:
            return st, Ty(x)
        raise EvalError

    def fold(self, st, f, args, kw=None):
        """apply a pure built-in to constants; None when some argument is not constant"""
        try:
            a = [self.conc(st, x) for x in args]
            k = {n: self.conc(st, x) for n, x in (kw or {}).items()}
        except EvalError:
            return None
        if len(repr(a)) > 100000:
            return None
        try:
            r = f(*a, **k)
        except Exception as e:
            return self.I.exc(st, type(e), *[str(x) for x in e.args])
        try:
            s, v = self.absv(st, r)
        except EvalError:
            return None
        return [(s, v)]

    def freeze(self, st, v, depth=8, seen=()):
        """a pure term for v (heap contents included)"""
        if isinstance(v, (K, P, Ty, Ext)):
            return v
        if isinstance(v, T):
            if v.op in ('super',):
                return T('super')
            return v
        if depth <= 0:
            return T('deep')
        if isinstance(v, Tup):
            return Tup([self.freeze(st, x, depth - 1, seen) for x in v.items])
        if isinstance(v, Ref):
            if v in seen:
                return T('cycle')
            seen = seen + (v,)
            o = st.get(v)
            d = o.data
            if isinstance(d, tuple) and isinstance(d[0], str):
                if d[0] in ('list', 'set'):
                    return T(d[0], [self.freeze(st, x, depth - 1, seen) for x in d[1]], TS([d[0]]))
                if d[0] == 'dict':
                    return T('dict', [Tup([self.freeze(st, a, depth - 1, seen), self.freeze(st, b, depth - 1, seen)]) for a, b in d[1]], TS(['dict']))
                if d[0] == 'sym':
                    return d[1]
                if d[0] == 'module':
                    return T('module', (K(d[1]),))
            from .interp import Fn, ClassInfo
            if isinstance(d, Fn):
                return T('function', (K('%s.%s' % (d.module, d.scope.qual)),))
            if isinstance(d, ClassInfo):
                return T('class', (K('%s.%s' % (d.module, d.qual)),))
            if self.is_enum_member(st, v):
                return T('enum', (K(self.clsname(st, o.cls)), o.fields['_value_']))
            fs = []
            for k in sorted(o.fields):
                if k.startswith('$'):
                    continue
                fs.append(Tup([K(k), self.freeze(st, o.fields[k], depth - 1, seen)]))
            return T('obj', [K(self.clsname(st, o.cls))] + fs)
        if isinstance(v, BM):
            return T('method', (self.freeze(st, v.f, depth - 1, seen), self.freeze(st, v.self, depth - 1, seen)))
        if isinstance(v, BiM):
            return T('bmethod', (self.freeze(st, v.recv, depth - 1, seen), K(v.name)))
        if isinstance(v, Bi):
            return T('bi', [K(v.name)] + [self.freeze(st, a, depth - 1, seen) for a in v.args if isinstance(a, Val)])
        return T('unknown')

    def clsname(self, st, c):
        if isinstance(c, Ty):
            return c.t.__name__
        if isinstance(c, Ext):
            return c.path
        if isinstance(c, Ref):
            d = st.get(c).data
            return '%s.%s' % (d.module, d.qual)
        return '?'

    # ------------------------------------------------------------------ integers
    def as_int(self, st, v):
        """integer value (K / P / T), or None"""
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return K(int(v.v))
            return v if isinstance(v.v, int) else None
        if isinstance(v, P):
            return v
        if isinstance(v, T):
            ts = st.tset(v)
            if ts.subset(INTS):
                return pnorm({(v,): 1})
            return None
        if isinstance(v, Ref) and self.is_enum_member(st, v):
            if self.enum_kind(st, st.get(v).cls) in ('IntEnum', 'IntFlag'):
                return self.as_int(st, st.get(v).fields['_value_'])
        return None

    def neg(self, b):
        if isinstance(b, K):
            return kb(not b.v)
        if b.op == 'not':
            return b.args[0]
        return T('not', (b,), BOOL)

    def eq0(self, p):
        form, c, sign, g = split_const(p)
        if form is None:
            return kb(c == 0)
        if c % g:
            return FALSE
        # canonical sign
        if sign < 0:
            p = pneg(p)
        d = dict(P_terms(p))
        if g > 1:
            d = {m: k // g for m, k in d.items()}
        if len(d) == 1:
            (m, k), = d.items()
            if len(m) == 1 and isinstance(m[0], T) and m[0].ty is not None and m[0].ty.subset(BOOL):
                return self.neg(m[0])
        if len(d) == 2 and () in d:
            (m,) = [x for x in d if x]
            if len(m) == 1 and isinstance(m[0], T) and m[0].ty is not None and m[0].ty.subset(BOOL):
                if d[()] == -d[m]:
                    return m[0]
        return T('eq0', (pnorm(d),), BOOL)

    def le0(self, p):
        form, c, sign, g = split_const(p)
        if form is None:
            return kb(c <= 0)
        if g > 1:
            # form*g*sign + c <= 0  ->  sign*form <= floor(-c/g)
            d = {m: sign * k for m, k in form}
            d[()] = -((-c) // g)
            p = pnorm(d)
        return T('le0', (p,), BOOL)

    def le(self, a, b):
        return self.le0(padd(a, b, -1))

    def lt(self, a, b):
        return self.le0(padd(padd(a, b, -1), K(1)))

    def before(self, a, b, step):
        """a comes before the end b of a range with this step"""
        return self.lt(a, b) if step.v > 0 else self.lt(b, a)

    def range_len(self, st, v):
        """length of a range with symbolic ends -> [(st, int)]"""
        lo, hi, step = v.args
        out = []
        for s, b in self.I.fork(st, self.before(lo, hi, step)):
            if not b:
                out.append((s, K(0)))
                continue
            d = padd(hi, lo, -1) if step.v > 0 else padd(lo, hi, -1)
            if abs(step.v) == 1:
                out.append((s, d))
            else:
                t = T('len', (v,), INT)
                s2 = s.note('length of a range with a step').assume_le0(padd(K(1), pneg(pnorm({(t,): 1}))))
                out.append((s2 or s, t))
        return out

    def dec(self, st, lit):
        d = st.decide(lit)
        return lit if d is None else kb(d)

    def is_minlen(self, st, L, n):
        """L is the minimal two's complement byte length of n (sampled evaluation of the extracted term)"""
        if isinstance(L, T) and L.op == 'len' and L.args[0] is T('i2b', (n,), BYTES):
            return True
        if isinstance(n, P):
            L, n, st = self.poly_atom(st, L, n)
        lo, hi = st.bounds(n)
        key = (L, n, lo, hi)
        r = self._ml.get(key)
        if r is None:
            r = True
            at = n if isinstance(n, T) else None
            if at is None and isinstance(n, P):
                # an affine use of one atom
                ats = {a for m, c in n.terms for a in m}
                if len(ats) == 1:
                    at = ats.pop()
            if at is None:
                r = False
            else:
                cnt = 0
                try:
                    for x in SAMPLES:
                        env = {at: x}
                        nv = evalint(n, env)
                        if lo is not None and nv < lo or hi is not None and nv > hi:
                            continue
                        if at.ty is not None and at.ty.subset(BOOL) and x not in (0, 1):
                            continue
                        cnt += 1
                        if evalint(L, env) != minlen(nv):
                            r = False
                            break
                except (EvalError, ZeroDivisionError, ValueError):
                    r = False
                if not cnt:
                    r = False
            self._ml[key] = r
        return r

    def poly_atom(self, st, L, n):
        """regard the linear form of n as one unknown"""
        form, c, sign, g = split_const(n)
        if form is None or len(form) == 1 and len(form[0][0]) == 1:
            return L, n, st
        z = T('in', ('~z', form), INT)

        def sub(v):
            if isinstance(v, P):
                r = K(0)
                # multiples of the whole form are multiples of the unknown
                d = dict(v.terms)
                if all(m in d for m, k in form) and d[form[0][0]] % form[0][1] == 0:
                    q = d[form[0][0]] // form[0][1]
                    if all(d[m] == q * k for m, k in form):
                        for m, k in form:
                            del d[m]
                        r = pmul(z, K(q))
                for m, k in d.items():
                    x = K(k)
                    for a in m:
                        x = pmul(x, sub(a))
                    r = padd(r, x)
                return r
            if isinstance(v, T) and v.op in ('bit_length', 'floordiv', 'mod', 'le0', 'eq0', 'not', 'rshift', 'abs', 'xor'):
                return T(v.op, [sub(a) if isinstance(a, Val) else a for a in v.args], v.ty)
            return v
        b = st.form_bounds(form)
        st2 = State()
        if b != (None, None):
            st2.iv = {(((z,), 1),): b}
        return sub(L), padd(pmul(z, K(sign * g)), K(c)), st2

    def bl_atoms(self, v, acc):
        """integers whose bit_length occurs in v; False if anything else symbolic occurs"""
        if isinstance(v, K):
            return True
        if isinstance(v, P):
            return all(self.bl_atoms(a, acc) for m, c in v.terms for a in m)
        if isinstance(v, T):
            if v.op == 'bit_length':
                acc.append(v.args[0])
                return True
            if v.op in ('floordiv', 'mod', 'le0', 'eq0', 'not', 'rshift'):
                return all(self.bl_atoms(a, acc) for a in v.args)
        return False

    def canon_len(self, st, t):
        """a byte-length expression of an integer -> len(i2b(n))"""
        acc = []
        if not self.bl_atoms(t, acc) or not acc:
            return t
        if isinstance(acc[0], P):
            form, c, sign, g = split_const(acc[0])
            if form is not None and (len(form) > 1 or len(form[0][0]) > 1):
                for n in (padd(acc[0], K(d)) for d in (0, 1)):
                    if self.is_minlen(st, t, n):
                        return T('len', (T('i2b', (n,), BYTES),), INT)
        base = set()
        for p in acc:
            for a in atoms_of(p):
                if isinstance(a, T) and a.op not in ('le0', 'eq0', 'not', 'abs', 'xor'):
                    base.add(a)
        if len(base) != 1:
            return t
        n = base.pop()
        n = pnorm({(n,): 1})
        if self.is_minlen(st, t, n):
            return T('len', (T('i2b', (n,), BYTES),), INT)
        return t

    def floordiv(self, st, a, b):
        if isinstance(b, K):
            k = b.v
            if isinstance(a, K):
                return K(a.v // k)
            if k == 1:
                return a
            d = P_terms(a)
            if all(c % k == 0 for c in d.values()):
                return pnorm({m: c // k for m, c in d.items()})
            lo, hi = st.bounds(a)
            if lo is not None and hi is not None and lo // k == hi // k:
                return K(lo // k)
            c0 = d.get((), 0)
            if c0 // k and k > 0:
                # (x + qk + r)//k = (x+r)//k + q
                q = c0 // k
                r = self.floordiv(st, padd(a, K(-q * k)), b)
                return self.canon_len(st, padd(r, K(q)))
            if 0 < c0 < k:
                # (x + r)//k = x//k, or one more if x % k >= k - r
                x = padd(a, K(-c0))
                more = st.decide(T('le0', (padd(self.mod(st, x, b), K(c0 + 1 - k)),), BOOL))
                if more is not None:
                    q = self.floordiv(st, x, b)
                    return q if more else padd(q, K(1))
            return self.canon_len(st, T('floordiv', (a, b), INT))
        return T('floordiv', (a, b), INT)

    def mod(self, st, a, b):
        if isinstance(b, K):
            k = b.v
            if isinstance(a, K):
                return K(a.v % k)
            d = P_terms(a)
            d2 = {m: (c % k if k > 0 else c) for m, c in d.items()}
            a2 = pnorm(d2)
            if isinstance(a2, K):
                return K(a2.v % k)
            lo, hi = st.bounds(a)
            if k > 0 and lo is not None and hi is not None and lo // k == hi // k:
                return padd(a, K(-(lo // k) * k))
            return T('mod', (a2, b), INT)
        return T('mod', (a, b), INT)

    # ------------------------------------------------------------------ length and elements
    def length(self, st, v):
        if isinstance(v, K):
            return K(len(v.v)) if hasattr(v.v, '__len__') else T('len', (v,), INT)
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, Ref):
            d = st.get(v).data
            if isinstance(d, tuple) and d[0] in ('list', 'dict', 'set'):
                return K(len(d[1]))
            if isinstance(d, tuple) and d[0] == 'sym':
                return T('len', (d[1],), INT)
            return T('len', (v,), INT)
        if isinstance(v, T):
            op, a = v.op, v.args
            if op in ('cat', 'scat'):
                r = K(0)
                for x in a:
                    r = padd(r, self.length(st, x))
                return r
            if op in ('sha3_256', 'sha256'):
                return K(32)
            if op in ('list', 'set', 'dict'):
                return K(len(a))
            if op == 'byte':
                return K(1)
            if op == 'regroup':
                return T('relen', a, INT)
            if op == 'hex':
                return pmul(K(2), self.length(st, a[0]))
            if op == 'slice' and len(a) == 3:
                b, lo, hi = a
                n = self.length(st, b)
                l = lo.v if isinstance(lo, K) and lo.v is not None else 0
                h = hi.v if isinstance(hi, K) else 0
                nl, nh = st.bounds(n)
                if isinstance(lo, K) and isinstance(hi, K):
                    if hi.v is None:
                        if l >= 0:
                            if nl is not None and nl >= l:
                                return padd(n, K(-l))
                        elif nl is not None and nl >= -l:
                            return K(-l)
                        elif nh is not None and nh <= -l:
                            return n
                    elif h >= 0 and l >= 0:
                        if h <= l:
                            return K(0)
                        if nl is not None and nl >= h:
                            return K(h - l)
                    elif h < 0 and l >= 0 and nl is not None and nl >= l - h:
                        return padd(n, K(h - l))
                    elif h < 0 and l < 0 and nl is not None and nl >= -l:
                        return K(max(0, h - l))
            if op == 'range':
                pass
            k = st.eqk.get(v)
            if k is not None:
                return K(len(k.v))
            return T('len', (v,), INT)
        return T('len', (v,), INT)

    def elem(self, st, v, i):
        """i-th element of an unknown sequence"""
        if isinstance(v, Ref):
            d = st.get(v).data
            if isinstance(d, tuple) and d[0] == 'sym':
                v = d[1]
        if isinstance(v, Tup) and isinstance(i, K) and i.v < len(v.items):
            return v.items[i.v]
        if isinstance(v, T):
            ts = st.tset(v)
            if ts.subset(BYTES):
                return T('byteat', (v, i), INT)
            if ts.subset(STR):
                return T('charat', (v, i), STR)
            if v.op == 'enumerate':
                return Tup((padd(v.args[1], i), self.elem(st, v.args[0], i)))
        return T('idx', (v, i))

    def items_of(self, st, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, K):
            if isinstance(v.v, str):
                return [K(c) for c in v.v]
            if isinstance(v.v, bytes):
                return [K(c) for c in v.v]
            return None
        if isinstance(v, Ref):
            o = st.get(v)
            d = o.data
            if isinstance(d, tuple):
                if d[0] in ('list', 'set'):
                    if d[0] == 'set' and self.I.backwards:
                        return list(d[1])[::-1]
                    return list(d[1])
                if d[0] == 'dict':
                    return [k for k, _ in d[1]]
            if self.is_class(st, v) and self.is_enum_class(st, v):
                return self.enum_members(st, v)
            return None
        if isinstance(v, T):
            if v.op == 'range' and all(isinstance(a, K) for a in v.args):
                r = range(*[a.v for a in v.args])
                if len(r) > 100000:
                    return None
                return [K(i) for i in r]
            if v.op in ('list', 'set'):
                if v.op == 'set' and self.I.backwards:
                    return list(v.args)[::-1]
                return list(v.args)
            if v.op == 'enumerate':
                it = self.items_of(st, v.args[0])
                if it is not None:
                    return [Tup((padd(v.args[1], K(i)), x)) for i, x in enumerate(it)]
            if st.tset(v).subset(TS(['str', 'bytes', 'list', 'tuple', 'dict'])):
                lo, hi = st.bounds(self.length(st, v))
                if lo is not None and lo == hi and lo <= 64 and not st.tset(v).subset(TS(['dict'])):
                    return [self.elem(st, v, K(i)) for i in range(lo)]
        return None

    def dict_entries(self, st, v):
        if isinstance(v, Ref):
            d = st.get(v).data
            if isinstance(d, tuple) and d[0] == 'dict':
                return list(d[1])
        if isinstance(v, T) and v.op == 'dict':
            return [tuple(x.items) for x in v.args]
        return None

    def list_append(self, st, ref, v):
        o = st.get(ref)
        if o.data[0] == 'list':
            return st.put(ref, o.setd(('list', o.data[1] + (v,))))
        if o.data[0] == 'sym':
            return st.put(ref, o.setd(('sym', T('appended', (o.data[1], self.freeze(st, v)), TS(['list'])))))
        return st

    def forget(self, st, o):
        if isinstance(o, Ref):
            h = st.get(o)
            if isinstance(h.data, tuple) and h.data[0] in ('list', 'dict', 'set'):
                self.I.stats['opaque'].add('slice assignment at ' + self.I.where())
                return st.put(o, h.setd(('sym', T('hvf', (K(o.id), K(self.I.where())), TS([h.data[0]]))))).note('slice assignment')
        return st

    # ------------------------------------------------------------------ text and bytes
    def repr_term(self, st, v):
        if isinstance(v, K):
            return K(repr(v.v))
        return T('repr', (self.freeze(st, v),), STR)

    def to_str(self, st, v):
        if isinstance(v, K):
            return [(st, K(str(v.v)))]
        if isinstance(v, Ty):
            return [(st, K(str(v.t)))]
        if isinstance(v, T) and st.tset(v).subset(STR):
            return [(st, v)]
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o.cls, Ref):
                f = self.class_lookup(st, o.cls, '__str__')
                if f is None:
                    f = self.class_lookup(st, o.cls, '__repr__')
                if f is not None:
                    return self.I.call(st, BM(f, v), [], {})
                if self.is_enum_member(st, v):
                    if self.enum_kind(st, o.cls) in ('IntEnum', 'IntFlag'):
                        return self.to_str(st, o.fields['_value_'])
                    return [(st, K('%s.%s' % (st.get(o.cls).data.name, o.fields['_name_'].v)))]
            a = o.fields.get('args')
            if self.is_exception(st, v) and isinstance(a, Tup):
                if not a.items:
                    return [(st, K(''))]
                if len(a.items) == 1:
                    return self.to_str(st, a.items[0])
        return [(st, T('str', (self.freeze(st, v),), STR))]

    def cat(self, parts, kind, st=None):
        out = []
        op = 'scat' if kind is str else 'cat'
        for p in parts:
            if isinstance(p, T) and p.op == op:
                out.extend(p.args)
            else:
                out.append(p)
        res = []
        for p in out:
            if isinstance(p, K):
                if len(p.v) == 0:
                    continue
                if res and isinstance(res[-1], K):
                    res[-1] = K(res[-1].v + p.v)
                    continue
            res.append(p)
        if kind is bytes:
            res = self.join_slices(res, st)
        if not res:
            return K(kind())
        if len(res) == 1:
            return res[0]
        return T(op, res, STR if kind is str else BYTES)

    def join_slices(self, res, st):
        out = []
        for p in res:
            if out and isinstance(p, T) and p.op == 'slice' and len(p.args) == 3:
                b, lo, hi = p.args
                q = out[-1]
                if isinstance(lo, K) and isinstance(lo.v, int) and lo.v > 0:
                    # q covers b[:lo] ?
                    if isinstance(q, T) and q.op == 'slice' and q.args[0] is b and q.args[2] is lo:
                        out[-1] = self.mkslice(st, b, q.args[1], hi)
                        continue
                    if lo.v == 1 and isinstance(q, T) and q.op == 'byte' and q.args[0] is T('byteat', (b, K(0)), INT):
                        out[-1] = self.mkslice(st, b, K(0), hi)
                        continue
                    if st is not None and lo.v == 1 and isinstance(q, K) and len(q.v) >= 1:
                        d = st.decide_eq0(padd(T('byteat', (b, K(0)), INT), K(-q.v[-1])))
                        if d is True:
                            whole = self.mkslice(st, b, K(0), hi)
                            if len(q.v) > 1:
                                out[-1] = K(q.v[:-1])
                                out.append(whole)
                            else:
                                out[-1] = whole
                            continue
            out.append(p)
        return out

    def mkslice(self, st, b, lo, hi):
        """b[lo:hi] of bytes/str term with constant bounds"""
        kind = STR if st is not None and st.tset(b) is not None and st.tset(b).subset(STR) else BYTES
        if isinstance(lo, K) and lo.v in (0, None):
            lo = K(0)
            if isinstance(hi, K) and hi.v is None:
                return b
            if st is not None and isinstance(hi, K) and hi.v is not None and hi.v >= 0:
                n = self.length(st, b)
                if st.bounds(n)[1] is not None and st.bounds(n)[1] <= hi.v:
                    return b
        if isinstance(b, T) and b.op == 'slice' and isinstance(lo, K) and isinstance(hi, K) and isinstance(b.args[1], K) \
                and isinstance(b.args[1].v, int) and b.args[1].v >= 0 and lo.v is not None and lo.v >= 0 \
                and isinstance(b.args[2], K) and b.args[2].v is None and (hi.v is None or hi.v >= 0):
            o = b.args[1].v
            return self.mkslice(st, b.args[0], K(lo.v + o), K(None if hi.v is None else hi.v + o))
        if st is not None and isinstance(b, T) and b.op in ('cat', 'scat') and isinstance(lo, K) and isinstance(hi, K) \
                and (lo.v or 0) >= 0 and (hi.v is None or hi.v >= 0):
            l, h = lo.v or 0, hi.v
            parts = []
            pos = 0
            ok = True
            for i, x in enumerate(b.args):
                n = self.length(st, x)
                lo_, hi_ = st.bounds(n)
                if lo_ is None or lo_ != hi_:
                    if pos >= l and h is None:
                        parts.append(x)
                        pos = None
                        if i + 1 < len(b.args):
                            parts.extend(b.args[i + 1:])
                        break
                    if pos <= l and i == len(b.args) - 1:
                        parts.append(self.mkslice(st, x, K(l - pos), K(None if h is None else h - pos)) if l - pos or h is not None else x)
                        break
                    ok = False
                    break
                s, e = max(l, pos), pos + lo_ if h is None else min(h, pos + lo_)
                if s < e:
                    if s == pos and e == pos + lo_:
                        parts.append(x)
                    elif isinstance(x, K):
                        parts.append(K(x.v[s - pos:e - pos]))
                    else:
                        parts.append(self.mkslice(st, x, K(s - pos), K(e - pos)))
                pos += lo_
            if ok:
                return self.cat(parts, str if b.op == 'scat' else bytes, st)
        k = st.eqk.get(b) if st is not None else None
        if k is not None and isinstance(lo, K) and isinstance(hi, K):
            return K(k.v[lo.v:hi.v])
        return T('slice', (b, lo, hi), kind)

    def slice(self, st, v, lo, hi, step):
        if isinstance(v, Ref) and self.is_enum_member(st, lo):
            lo = self.as_int(st, lo)
        if isinstance(step, K) and step.v is None:
            items = None
            if isinstance(v, (Tup, Ref)) and not (isinstance(v, Ref) and isinstance(st.get(v).cls, Ref)):
                items = self.items_of(st, v)
            if isinstance(v, K) and isinstance(lo, K) and isinstance(hi, K):
                r = self.fold(st, lambda a, b, c: a[b:c], [v, lo, hi])
                if r is not None:
                    return r
            if items is not None and isinstance(lo, K) and isinstance(hi, K):
                sub = items[lo.v:hi.v]
                if isinstance(v, Tup):
                    return [(st, Tup(sub))]
                return [self.I.new_list(st, sub)]
            if isinstance(v, T) and isinstance(lo, K) and isinstance(hi, K):
                ts = st.tset(v)
                if ts.subset(TS(['str', 'bytes'])):
                    return [(st, self.mkslice(st, v, lo, hi))]
                return [(st, T('slice', (v, lo, hi), v.ty))]
        else:
            r = self.fold(st, lambda a, b, c, d: a[b:c:d], [v, lo, hi, step])
            if r is not None:
                return r
        if isinstance(v, Ref) and isinstance(st.get(v).cls, Ref):
            f = self.class_lookup(st, st.get(v).cls, '__getitem__')
            if f is not None:
                return self.I.call(st, BM(f, v), [T('sliceobj', (lo, hi, step), TS(['slice']))], {})
        fv = self.freeze(st, v)
        ts = st.tset(v) if isinstance(v, (T, K, P, Tup)) else fv.ty if isinstance(fv, T) else None
        t = T('slice', (fv, self.freeze(st, lo), self.freeze(st, hi), self.freeze(st, step)), ts if ts is not None and not ts.neg else None)
        if isinstance(v, Ref):
            st, r = self.I.alloc(st, HObj(LISTT, {}, ('sym', t)))
            return [(st, r)]
        return [(st, t)]


def P_terms(v):
    if isinstance(v, K):
        c = int(v.v)
        return {(): c} if c else {}
    if isinstance(v, P):
        return dict(v.terms)
    return {(v,): 1}
