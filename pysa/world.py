"""The environment of the executor: an abstract node at the other end of the socket, and schematic contracts.

The executor's own start-up code (pyexec.__main__.main) is analysed; the only things replaced are what lies outside the
repository: argument parsing, the socket, MessagePack, the log sink and the file system behind the contract loader."""
import hashlib
import os
import sys
import threading

from .values import *
from .state import *
from .interp import Interp, Raise, Halt, AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
SCORES = os.path.join(HERE, 'scores')
REPO = os.environ.get('VP_REPO', '/repo')

SOCK = Ext('env.socket')
UNPK = Ext('env.unpacker')

# message numbers of the node (service/eeproxy/proxy.go); C13 compares them with the Go source
VERSION, INVOKE, RESULT, GETVALUE, SETVALUE, CALL, EVENT, GETINFO, GETBALANCE, GETAPI, LOG, CLOSE = range(12)
SETFEEPCT, CONTAINS = 15, 16
F_DELETE, F_OLDVALUE = 1, 2
NIL, DICT, LIST, TBYTES, STRING, TBOOL, ADDRESS, TINT = 0, 1, 2, 3, 4, 5, 10, 11


def sym(ty, *name):
    return T('in', name, ty)


def isym(*name):
    return sym(INT, *name)


def bsym(*name):
    return sym(BYTES, *name)


def i2b(x):
    """the node's encoding of an integer"""
    if isinstance(x, K):
        n = ((x.v + (x.v < 0)).bit_length() + 8) // 8
        return K(x.v.to_bytes(n, 'big', signed=True))
    return T('i2b', (x,), BYTES)


class L:
    """message template: list"""
    def __init__(self, *items):
        self.items = items


class D:
    """message template: map"""
    def __init__(self, *pairs):
        self.pairs = pairs


class World:
    def __init__(self, scores=(), verify=False, roots=None, memory=False):
        self.I = Interp((roots or [os.path.join(REPO, 'pyee')]) + [SCORES])
        self.verify = verify
        self.problems = []              # protocol violations seen by the abstract node: (what, state)
        self.on_send = None             # callback(st, msg, data) -> None
        self.memory = memory
        self.reply = {}                 # kind -> callable(world, st, n, args) -> template
        self.replyfacts = {}
        self.start = {}                 # request name -> number of its first message
        self.base = None
        self.hooks()
        self.scores = scores

    # ------------------------------------------------------------------ outside world
    def hooks(self):
        h = self.I.hooks
        h['argparse.ArgumentParser'] = lambda I, st, a, k: [I.alloc(st, HObj(Ext('argparse.ArgumentParser'), {}))]
        h['argparse.ArgumentParser.add_argument'] = self.h_none
        h['argparse.ArgumentParser.add_mutually_exclusive_group'] = self.h_none
        h['argparse.ArgumentParser.parse_args'] = self.h_args
        h['socket.socket'] = lambda I, st, a, k: [I.alloc(st, HObj(SOCK, {}))]
        for n in ('connect', 'close', 'setblocking', 'settimeout', 'shutdown', 'setsockopt', '__enter__', '__exit__'):
            h['env.socket.' + n] = self.h_none
        h['env.socket.sendall'] = self.h_sendall
        h['env.socket.send'] = self.h_sendall
        h['env.socket.recv'] = lambda I, st, a, k: [(st, T('rawrecv', (), BYTES))]
        h['msgpack.dump'] = h['msgpack.pack'] = self.h_dump
        h['msgpack.packb'] = h['msgpack.dumps'] = self.h_packb
        h['msgpack.Packer'] = lambda I, st, a, k: [I.alloc(st, HObj(Ext('env.packer'), {}))]
        h['env.packer.pack'] = lambda I, st, a, k: self.h_packb(I, st, a[1:], k)
        h['msgpack.Unpacker'] = lambda I, st, a, k: [I.alloc(st, HObj(UNPK, {}))]
        h['env.unpacker.unpack'] = self.h_recv
        h['env.unpacker.__next__'] = self.h_recv
        h['env.unpacker.__iter__'] = lambda I, st, a, k: [(st, a[0])]
        h['importlib.invalidate_caches'] = self.h_none
        h['importlib.import_module'] = self.h_import
        h['json.load'] = self.h_jsonload
        h['open'] = self.h_open
        h['env.file.__enter__'] = lambda I, st, a, k: [(st, a[0])]
        h['env.file.__exit__'] = self.h_none
        h['env.file.close'] = self.h_none
        h['os.path.exists'] = self.h_exists
        h['os.path.isdir'] = self.h_exists
        h['os.path.normcase'] = lambda I, st, a, k: [(st, a[0])]

    def h_none(self, I, st, a, k):
        return [(st, NONE)]

    def h_args(self, I, st, a, k):
        cls = Ext('env.args')
        return [I.alloc(st, HObj(cls, {'verbose': FALSE, 'log_level': NONE, 'socket': K('/tmp/env.socket'), 'uuid': K('uuid'),
                                       'verify_package': kb(self.verify)}))]

    def h_packb(self, I, st, a, k):
        return [(st, T('packb', (I.model.freeze(st, a[0], 24),), BYTES))]

    def h_dump(self, I, st, a, k):
        stream = a[1] if len(a) > 1 else k['stream']
        v = T('packb', (I.model.freeze(st, a[0], 24),), BYTES)
        return I.bind(I.getattr(st, stream, 'write'), lambda s, w: I.call(s, w, [v], {}))

    def h_sendall(self, I, st, a, k):
        v = a[1]
        if not (isinstance(v, T) and v.op == 'packb'):
            self.problem(st, 'bytes that are not a packed message are sent')
            return [(st, NONE)]
        m = v.args[0]
        items = m.args if isinstance(m, T) and m.op == 'list' else m.items if isinstance(m, Tup) else None
        if items is None or len(items) != 2:
            self.problem(st, 'a message is not a pair of number and data')
            return [(st, NONE)]
        return self.send(st, items[0], items[1])

    def h_open(self, I, st, a, k):
        return [I.alloc(st, HObj(Ext('env.file'), {'path': a[0]}))]

    def h_jsonload(self, I, st, a, k):
        st, d = I.new_dict(st, [(K('version'), K('0.0.1')), (K('main_module'), K('main')), (K('main_score'), K('Score'))])
        return [(st, d)]

    def h_exists(self, I, st, a, k):
        p = a[0]
        if isinstance(p, K):
            return [(st, kb(os.path.exists(p.v) if not p.v.startswith('/scores') else os.path.basename(p.v) in I.virtual or
                            os.path.exists(os.path.join(SCORES, os.path.basename(p.v)))))]
        return I.fork(st, T('exists', (p,), BOOL))

    def h_import(self, I, st, a, k):
        name = a[0]
        pk = a[1] if len(a) > 1 else k.get('package', NONE)
        if isinstance(name, K) and isinstance(pk, K):
            full = (pk.v + name.v) if name.v.startswith('.') else name.v
            st, m = I.import_module(st, full)
            return [(st, m)]
        return [(st, T('module', (I.model.freeze(st, name), I.model.freeze(st, pk))))]

    # ------------------------------------------------------------------ boot
    def preload(self):
        I = self.I
        st = State()
        for n in ('pyexec.logger', 'pyexec.__main__'):
            st, m = I.import_module(st, n)
            if isinstance(m, Raise):
                raise AnalysisError('module %s fails to load: %s' % (n, self.excname(st, m)))
        st = self.quiet_log(st)
        for s in self.scores:
            st, m = I.import_module(st, s + '.main')
            if isinstance(m, Raise):
                raise AnalysisError('schematic contract %s is refused: %s' % (s, self.excname(st, m)))
        return st

    def boot(self, script, prepare=None):
        """analyse the executor's main with the given requests; -> final (state, value) list"""
        I = self.I
        if self.base is None:
            self.base = self.preload()
            self.base.freeze()
        st = self.base.copy()
        st.node = (tuple(script), (), 0, ())
        if prepare:
            st = prepare(self, st)
        st.freeze()
        st, m = I.import_module(st, 'pyexec.__main__')
        res = I.getattr(st, m, 'main')
        return [x for x in I.bind(res, lambda s, f: I.call(s, f, [], {})) if x[0].possible() and not any(n.startswith('effects cut') for n in x[0].notes)]

    def quiet_log(self, st):
        I = self.I
        pkg = st.get(I.module(st, 'pyexec.logger'))
        for cn in list(pkg.fields):
            c = pkg.fields[cn]
            if isinstance(c, Ref) and I.model.is_class(st, c):
                self.quiet_class(st, c)
        return st

    def quiet_class(self, st, c):
        I = self.I
        o = st.get(c)
        for n, f in o.fields.items():
            if n in ('debug', 'info', 'warning', 'error', 'exception', 'load_config', 'isDebugEnabled', 'print', 'critical'):
                fr = f
                if isinstance(fr, Ref) and st.get(fr).fields.get('f') is not None:
                    fr = st.get(fr).fields['f']
                try:
                    nm = I.fname(st, fr)
                except Exception:
                    continue
                if n == 'isDebugEnabled':
                    I.hooks['fn:' + nm] = lambda I, st, f, a, k: [(st, FALSE)]
                else:
                    I.hooks['fn:' + nm] = lambda I, st, f, a, k: [(st, NONE)]

    def excname(self, st, r):
        if isinstance(r, Halt):
            return str(r)
        try:
            o = st.get(r.exc)
            return '%s%s at %s' % (self.I.model.clsname(st, o.cls), o.fields.get('args', o.fields), r.where)
        except Exception:
            return repr(r)

    # ------------------------------------------------------------------ node
    def problem(self, st, what):
        self.problems.append((what, self.I.where() + ' via ' + self.I.path(), st))

    def build(self, st, t):
        I = self.I
        if isinstance(t, L):
            vs = []
            for x in t.items:
                st, v = self.build(st, x)
                vs.append(v)
            return I.new_list(st, vs)
        if isinstance(t, D):
            ps = []
            for k, x in t.pairs:
                st, v = self.build(st, x)
                ps.append((k if isinstance(k, Val) else K(k), v))
            return I.new_dict(st, ps)
        if isinstance(t, Val):
            return st, t
        return st, K(t)

    @staticmethod
    def items(v):
        if isinstance(v, T) and v.op in ('list',):
            return v.args
        if isinstance(v, Tup):
            return v.items
        return None

    def setnode(self, st, script, frames, n, mem):
        s = st.copy()
        s.node = (script, frames, n, mem)
        return s

    def send(self, st, msg, data):
        I = self.I
        if not isinstance(msg, K) or not isinstance(msg.v, int):
            self.problem(st, 'message number is not a constant')
            return [(st, NONE)]
        m = msg.v
        if m == LOG:
            return [(st, NONE)]
        st = I.emit(st, 'send', m, data)
        if self.on_send:
            self.on_send(self, st, m, data)
        script, frames, n, mem = st.node
        if m == VERSION:
            return [(st, NONE)]
        if not frames:
            self.problem(st, 'message %d is sent while no request is being served' % m)
            return [(st, NONE)]
        kind, fid, pend = frames[-1]
        its = self.items(data)
        if m in (RESULT, GETAPI):
            if kind != (INVOKE if m == RESULT else GETAPI):
                self.problem(st, 'reply %d does not match the pending request %s' % (m, kind))
                return [(st, NONE)]
            if pend:
                self.problem(st, 'final reply is sent while %d answers of the node are unread' % len(pend))
            st = I.emit(st, 'reply', m, fid)
            return [(self.setnode(st, script, frames[:-1], n, mem), NONE)]
        if m == SETVALUE:
            if its is None or len(its) != 3 or not isinstance(its[1], K):
                self.problem(st, 'malformed set request')
                return [(st, NONE)]
            mem = mem + ((its[0], its[2] if not its[1].v & F_DELETE else NONE),) if self.memory else mem
            if its[1].v & F_OLDVALUE:
                pend = pend + (('SETVALUE', n, its[0], len(mem)),)
                n += 1
        elif m == GETVALUE:
            pend = pend + (('GETVALUE', n, data, len(mem)),)
            n += 1
        elif m == CONTAINS:
            pend = pend + (('CONTAINS', n, data, len(mem)),)
            n += 1
        elif m == GETINFO:
            pend = pend + (('GETINFO', n, data, len(mem)),)
            n += 1
        elif m == GETBALANCE:
            pend = pend + (('GETBALANCE', n, data, len(mem)),)
            n += 1
        elif m == CALL:
            nested = self.nested(st, data) if hasattr(self, 'nested') else ()
            pend = pend + (('CALL', n, data, nested),)
            n += 1
        elif m in (EVENT, SETFEEPCT, CLOSE):
            pass
        else:
            self.problem(st, 'message number %d is not one the node handles' % m)
        return [(self.setnode(st, script, frames[:-1] + ((kind, fid, pend),), n, mem), NONE)]

    def deliver(self, st, m, tmpl, what, n):
        st, v = self.build(st, tmpl)
        st = self.I.emit(st, 'recv', what, n)
        st, r = self.I.new_list(st, [K(m), v])
        return [(st, r)]

    def request(self, st, req, script, frames, n, mem):
        """hand a request to the executor"""
        kind, name, tmpl, facts = REQS[req]
        for f in facts:
            st = st.assume(*f)
            if st is None:
                return []
        n = self.start.get(name, n)
        if kind in (INVOKE, GETAPI):
            frames = frames + ((kind, name, ()),)
        st = self.setnode(st, script, frames, n, mem)
        return self.deliver(st, kind, tmpl, 'request', name)

    def h_recv(self, I, st, a, k):
        script, frames, n, mem = st.node
        if not frames:
            if not script:
                return [(st, Halt('idle'))]
            return self.request(st, script[0], script[1:], frames, n, mem)
        kind, fid, pend = frames[-1]
        if not pend:
            self.problem(st, 'the executor waits for a message the node will not send')
            return [(st, Halt('deadlock'))]
        h = pend[0]
        if h[0] == 'CALL' and h[3]:
            pend = (h[:3] + (h[3][1:],),) + pend[1:]
            frames = frames[:-1] + ((kind, fid, pend),)
            return self.request(st, h[3][0], script, frames, n, mem)
        st = self.setnode(st, script, frames[:-1] + ((kind, fid, pend[1:]),), n, mem)
        return self.answer(st, h)

    def answer(self, st, h):
        """the node's answer to request h"""
        kind, n, arg = h[:3]
        if kind in self.reply:
            r = self.reply[kind](self, st, h)
            if r is not None:
                return r
        if kind == 'GETVALUE':
            if self.memory:
                got = None
                for k, v in st.node[3][:h[3]]:
                    if k is arg:
                        got = v
                if got is not None:
                    return self.deliver(st, GETVALUE, L(kb(got is not NONE), got), 'GETVALUE', n)
            out = []
            for s, has in self.I.fork(st, sym(BOOL, 'get', n, 'has')):
                out += self.deliver(s, GETVALUE, L(kb(has), bsym('get', n, 'value') if has else NONE), 'GETVALUE', n)
            return out
        if kind == 'SETVALUE':
            out = []
            size = isym('old', n, 'size')
            for s, has in self.I.fork(st, sym(BOOL, 'old', n, 'has')):
                if has:
                    s = s.assume_le0(pneg(size))
                out += self.deliver(s, SETVALUE, L(kb(has), size if has else K(0)), 'SETVALUE', n)
            return out
        if kind == 'CONTAINS':
            st = st.assume_le0(pneg(isym('cnt', n)))
            st = st.assume_le0(pneg(isym('size', n)))
            return self.deliver(st, CONTAINS, L(sym(BOOL, 'yn', n), isym('cnt', n), isym('size', n)), 'CONTAINS', n)
        if kind == 'GETBALANCE':
            return self.deliver(st, GETBALANCE, i2b(isym('balance', n)), 'GETBALANCE', n)
        if kind == 'GETINFO':
            return self.deliver(st, GETINFO, L(K(NIL), NONE), 'GETINFO', n)
        if kind == 'CALL':
            status = isym('call', n, 'status')
            used = isym('call', n, 'used')
            st = st.assume_le0(pneg(status))
            st = st.assume_le0(pneg(used))
            its = self.items(arg)
            lim = its[2] if its is not None and len(its) > 2 else None
            lim = lim.args[0] if isinstance(lim, T) and lim.op == 'i2b' else K(int.from_bytes(lim.v, 'big', signed=True)) if isinstance(lim, K) and isinstance(lim.v, bytes) else None
            if lim is not None:
                # the node charges a call no more than the limit it was given
                st = st.assume_le0(padd(used, lim, -1)) or st
            out = []
            for s, ok in self.I.fork(st, self.I.model.eq0(status)):
                res = L(K(TBYTES), bsym('call', n, 'result')) if ok else L(K(STRING), bsym('call', n, 'message'))
                if not ok:
                    s = s.assume(T('isutf8', (bsym('call', n, 'message'),), BOOL), True)
                out += self.deliver(s, RESULT, L(status, i2b(used), res), 'CALL', n)
            return out
        raise AnalysisError(kind)


# ---------------------------------------------------------------------- requests
REQS = {}
COSTS = ('default', 'contractCall', 'get', 'set', 'replace', 'delete', 'eventLog', 'apiCall', 'getBase', 'setBase', 'deleteBase',
         'logBase', 'log', 'schema')


def addr(name, prefix=1):
    b = bsym(name)
    if prefix is None:
        # an account or a contract
        x = T('byteat', (b, K(0)), INT)
        return b, [(T('eq0', (padd(T('len', (b,), INT), K(-21)),), BOOL), True), (T('le0', (pneg(x),), BOOL), True), (T('le0', (padd(x, K(-1)),), BOOL), True)]
    return b, [(T('eq0', (padd(T('len', (b,), INT), K(-21)),), BOOL), True),
               (T('eq0', (padd(T('byteat', (b, K(0)), INT), K(-prefix)),), BOOL), True)]


def not_dummy(b):
    """no contract lives at the address the inspection code uses as a placeholder"""
    body = hashlib.sha3_256(b'SCORE_API').digest()[-20:]
    return [(T('eqk', (b, K(b'\x01' + body)), BOOL), False), (T('eqk', (T('slice', (b, K(1), NONE), BYTES), K(body)), BOOL), False)]


def typed(v):
    """typed object template for a parameter value"""
    return v


def req_invoke(name, code, method, params, readonly=0, costs=None, schema=None, extra=None, sender=True, value=None, revision=None,
               limit=None, code_facts=()):
    """INVOKE request with unknown field contents (prefixed by name); params: template of the typed object"""
    facts = list(code_facts)
    frm, f = addr(name + '.from', 1 if sender == 'contract' or name[:1] == 'n' else 0 if sender == 'account' else None)
    facts += f
    to, f = addr(name + '.to', 1)
    facts += f + not_dummy(to)
    origin, f = addr(name + '.origin', 0)
    facts += f
    owner, f = addr(name + '.owner', 0)
    facts += f
    if value is None:
        value = isym(name + '.value')
        facts.append((T('le0', (pneg(value),), BOOL), True))
    if limit is None:
        limit = isym(name + '.limit')
        facts.append((T('le0', (pneg(limit),), BOOL), True))
    cp = []
    for c in (costs if costs is not None else COSTS):
        v = isym(name + '.cost.' + c)
        if c == 'schema':
            v = schema if schema is not None else v
        elif c == 'delete':
            pass
        else:
            facts.append((T('le0', (pneg(v),), BOOL), True))
        cp.append((K(c.encode()), L(K(TINT), i2b(v))))
    tx = [(b'T.hash', L(K(TBYTES), bsym(name + '.txhash'))), (b'T.index', L(K(TINT), i2b(isym(name + '.txindex')))),
          (b'T.from', L(K(ADDRESS), origin)), (b'T.timestamp', L(K(TINT), i2b(isym(name + '.txtime')))),
          (b'T.nonce', L(K(TINT), i2b(isym(name + '.nonce'))))]
    rev = revision if revision is not None else isym(name + '.revision')
    info = D(*([(b'B.timestamp', L(K(TINT), i2b(isym(name + '.btime')))), (b'B.height', L(K(TINT), i2b(isym(name + '.height'))))] + tx +
               [(b'Revision', L(K(TINT), i2b(rev))), (b'StepCosts', L(K(DICT), D(*cp))), (b'C.owner', L(K(ADDRESS), owner))]))
    flag = K(readonly) if isinstance(readonly, int) else readonly
    m = K(method.encode()) if isinstance(method, str) else method
    c = K(code.encode()) if isinstance(code, str) else code
    tmpl = L(c, flag, frm if sender else NONE, to, i2b(value), i2b(limit), m, params, L(K(DICT), info), K(b''), K(0), NONE)
    key = 'invoke:' + name
    REQS[key] = (INVOKE, name, tmpl, facts)
    return key


def req_getapi(name, code):
    key = 'getapi:' + name
    REQS[key] = (GETAPI, name, K(code.encode()) if isinstance(code, str) else code, [])
    return key


def virtual(W, name, text):
    """a contract that is in no file; -> its code path"""
    v = W.I.virtual
    assert v.get(name + '.main', text) == text
    v[name] = ''
    v[name + '.main'] = text
    return '/scores/' + name


def req_close():
    REQS['close'] = (CLOSE, 'close', NONE, [])
    return 'close'


def plist(*vals):
    return L(K(LIST), L(*vals))


def pdict(*pairs):
    return L(K(DICT), D(*pairs))


def run_thread(f):
    """run f with a deep stack"""
    sys.setrecursionlimit(200000)
    threading.stack_size(1024 * 1024 * 1024)
    box = []

    def g():
        try:
            box.append((True, f()))
        except BaseException as e:      # noqa
            box.append((False, e))
    t = threading.Thread(target=g)
    t.start()
    t.join()
    ok, v = box[0]
    if not ok:
        raise v
    return v
