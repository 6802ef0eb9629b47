"""What the checks share: schematic contracts, and the per-request reading of an effect trace."""
from .values import *
from .state import *
from .interp import Raise, Halt, AnalysisError
from . import world as w
from .world import World, L, D, K, sym, isym, bsym, i2b
from . import compare
from .compare import same, holds, seq, pairs, strip, witness

NAMES = {w.VERSION: 'VERSION', w.INVOKE: 'INVOKE', w.RESULT: 'RESULT', w.GETVALUE: 'GETVALUE', w.SETVALUE: 'SETVALUE', w.CALL: 'CALL',
         w.EVENT: 'EVENT', w.GETINFO: 'GETINFO', w.GETBALANCE: 'GETBALANCE', w.GETAPI: 'GETAPI', w.LOG: 'LOG', w.CLOSE: 'CLOSE',
         w.SETFEEPCT: 'SETFEEPCT', w.CONTAINS: 'CONTAINS'}
EFFECTS = (w.SETVALUE, w.EVENT, w.SETFEEPCT)
COMMANDS = (w.SETVALUE, w.EVENT, w.SETFEEPCT, w.CALL, w.GETVALUE, w.CONTAINS, w.GETBALANCE, w.GETINFO)

OK, SYSTEM_ERROR, CONTRACT_NOT_FOUND, METHOD_NOT_FOUND, METHOD_NOT_PAYABLE, ILLEGAL_FORMAT, INVALID_PARAMETER, INVALID_INSTANCE, \
    INVALID_CONTAINER_ACCESS, ACCESS_DENIED, OUT_OF_STEP, OUT_OF_BALANCE, TIMEOUT, STACK_OVERFLOW = range(14)


def install(W):
    """the schematic contracts' observation points"""
    h = W.I.hooks

    def mark(I, st, f, a, k):
        vs = tuple(I.model.freeze(st, x, 24) for x in a)
        if not isinstance(vs[0], K):
            raise AnalysisError('mark name')
        st = I.emit(st, 'mark', vs[0].v, *vs[1:])
        return [(st, NONE)]

    def choose(I, st, f, a, k):
        return [(s, kb(b)) for s, b in I.fork(st, sym(BOOL, 'choice', a[0].v))]

    def anyof(ty):
        return lambda I, st, f, a, k: [(st, sym(ty, 'any', a[0].v))]
    h['fn:vp.mark'] = mark
    h['fn:vp.choose'] = choose
    h['fn:vp.inspected'] = lambda I, st, f, a, k: [(st, kb(bool(st.node[1]) and st.node[1][-1][0] == w.GETAPI))]
    h['fn:vp.any_int'] = anyof(INT)
    h['fn:vp.any_bytes'] = anyof(BYTES)
    h['fn:vp.any_str'] = anyof(STR)
    h['fn:vp.any_bool'] = anyof(BOOL)
    h['fn:vp.any_value'] = anyof(ANY)
    return W


CACHE = {}


def make(scores, **kw):
    """an executor with the given schematic contracts importable; the start-up analysis is shared between uses"""
    key = (tuple(scores), tuple(sorted(kw.items())))
    W = CACHE.get(key)
    if W is None:
        W = CACHE[key] = install(World(list(scores), **kw))
    W.problems = []
    W.reply = {}
    W.on_send = None
    W.__dict__.pop('nested', None)
    return W


class Req:
    """one request as the node saw it"""
    def __init__(self, name, depth):
        self.name = name
        self.depth = depth
        self.events = []        # own events in order: Ev or Req (nested)
        self.reply = None       # Ev send of the final reply
        self.replies = 0

    def sends(self, *ms):
        return [e for e in self.events if isinstance(e, Ev) and e.kind == 'send' and (not ms or e.args[0] in ms)]

    def marks(self, name=None):
        return [e for e in self.events if isinstance(e, Ev) and e.kind == 'mark' and (name is None or e.args[0] == name)]

    def nested(self):
        return [e for e in self.events if isinstance(e, Req)]

    @property
    def data(self):
        return seq(self.reply.args[1]) if self.reply is not None else None

    @property
    def status(self):
        d = self.data
        return strip(d[0]) if d is not None and len(d) > 0 else None

    @property
    def used(self):
        d = self.data
        return d[1] if d is not None and len(d) > 1 else None

    @property
    def result(self):
        """the (tag, value) pair of a RESULT"""
        d = self.data
        return d[2] if d is not None and len(d) > 2 else None

    @property
    def ok(self):
        s = self.status
        return isinstance(s, K) and s.v == 0

    def where(self):
        return self.reply.where if self.reply is not None else 'request %s' % self.name


def requests(st):
    """trace -> (list of all Req in order of arrival, events outside any request)"""
    compare.CURRENT[0] = st
    stack, allr, outside = [], [], []
    pend = None
    for e in st.trace:
        if e.kind == 'recv' and e.args[0] == 'request':
            r = Req(e.args[1], len(stack))
            if stack:
                stack[-1].events.append(r)
            stack.append(r)
            allr.append(r)
        elif e.kind == 'reply':
            if stack:
                stack[-1].reply = pend
                stack[-1].replies += 1
                stack.pop()
        else:
            if e.kind == 'send' and e.args[0] in (w.RESULT, w.GETAPI):
                pend = e
            if stack:
                stack[-1].events.append(e)
            else:
                outside.append(e)
    return allr, outside


def place(where):
    return where.split(' via ')[0].replace('/repo/', '')


def endname(W, st, v):
    if isinstance(v, Raise):
        return 'the executor dies with ' + W.excname(st, v)
    if isinstance(v, Halt):
        return 'the executor stops: %s' % (v.reason)
    return 'the executor leaves its loop'


def show(st, limit=60):
    from .check import show_trace
    return show_trace(st, limit)


def typed_int(x):
    return L(K(w.TINT), i2b(x))


def typed_str(x):
    return L(K(w.STRING), K(x.encode()) if isinstance(x, str) else x)


def typed_bytes(x):
    return L(K(w.TBYTES), x)
