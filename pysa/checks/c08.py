"""C08: failures are reported as failures with the right status code."""
from ..kit import *
from .. import world as w
from .c05 import numeric_reply

TITLE = 'Failures are reported as failures with the right status code'
CODE = '/scores/codes'
ANYFAIL = 'any failure'
REVERT = 'revert'
EXPECT = {'ok': 0, 'none': 0, 'revert0': 32, 'revert': REVERT, 'revertstr': 44, 'revertbad': 6, 'revertnone': 6, 'score': REVERT, 'score0': 32, 'scorebad': 6,
          'index7': 39, 'zero': ANYFAIL, 'negative': ANYFAIL, 'text': ANYFAIL, 'nothing': ANYFAIL, 'yes': ANYFAIL, 'noflag': ANYFAIL, 'low': ANYFAIL, 'raising': ANYFAIL,
          'exception': 1, 'base': 1, 'value': 1, 'exit': 1, 'type': 1, 'key': 1, 'assert': 1, 'deep': 1, 'index': (6, 0), 'badindex': 6, 'container': 6, 'setodd': 6,
          'midlevel': 1, 'wrongdepth': 8, 'event': 5, 'eventtype': 5, 'hash': 6, 'unknown': 1}
CALLS = ('call', 'iface', 'transfer', 'send', 'callcaught', 'ifacecaught', 'transfercaught')


def run(c):
    def one(method, how, costs=(), ro=0, nested=()):
        name = '%s %s%s%s%s' % (method, how, ', steps may run out' if costs else '', ', read-only' if ro else '', ''.join(', callee %s' % n for n in nested))

        def f():
            W = make(['codes'])
            if how == 'index':
                W.reply['GETVALUE'] = numeric_reply
            q = w.req_invoke('q', CODE, method, w.plist(typed_str(how)) if how is not None else w.plist(), costs=costs, value=K(0), readonly=ro)
            if nested:
                keys = tuple(w.req_invoke('n%d' % i, CODE, 'run', w.plist(typed_str(n)), costs=costs, value=K(0)) for i, n in enumerate(nested))
                W.nested = lambda st, data: keys if len(st.node[1]) == 1 else ()
            res = W.boot([q])
            c.absorb(W.I)
            for st, e in res:
                judge(c, W, method, how, costs, ro, name, st)
            return len(res)
        c.scenario(name, f)
    for h in EXPECT:
        one('run', h)
        one('deferred', h)
        one('after', h)
        one('deferred', h, ('schema', 'delete', 'deleteBase'))
        if h in ('ok', 'setodd', 'revert'):
            one('run', h, (), 1)
    for h in CALLS:
        one('run', h)
        one('deferred', h)
        one('run', h, (), 1)
        one('after', h)
        for n in ('revert', 'exit', 'ok', 'zero'):
            one('run', h, (), 0, (n,))
    one('write_ro', None)
    one('write_ro', None, (), 1)
    one('give', None)
    one('give', None, (), 1)


def integer(st, s):
    return isinstance(s, K) and isinstance(s.v, int) and not isinstance(s.v, bool) or is_int(st, s)


def is_int(st, s):
    ts = st.tset(s) if isinstance(s, (T, P)) else None
    return isinstance(s, P) or ts is not None and ts.subset(INT)


def judge(c, W, method, how, costs, ro, name, st):
    I = W.I
    rs, _ = requests(st)
    top = [r for r in rs if r.depth == 0]
    for r in rs:
        if r.replies != 1 or r.status is None:
            c.ob('reported', None, r.where(), 'no result (%s)' % name, 'no result')
            continue
        s = r.status
        c.ob('status-is-a-number', integer(st, s), r.where(), lambda: 'the status reported is %r (%s)\n%s' % (s, name, show(st)), 'status of ' + str(how))
    for r in top:
        s = r.status
        if s is None or not integer(st, s):
            continue
        oos = isinstance(s, K) and s.v == OUT_OF_STEP
        if costs and oos:
            if method != 'deferred':
                c.ob('right-status', False, r.where(), 'out of steps (%s)\n%s' % (name, show(st)), 'out of steps')
            continue
        if costs and r.ok and method == 'deferred':
            # success with a settled removal: it was paid
            used = r.used
            n = isym('q.limit')
            c.ob('success-needs-settled-charges', None if used is None else failed_drain(W, st, r), r.where(),
                 lambda: 'success although a deferred charge was not settled (%s)\n%s' % (name, show(st)), 'unsettled success')
        if method == 'after':
            c.ob('success-only-on-return', r.ok, r.where(), lambda: 'status %r (%s)\n%s' % (s, name, show(st)), 'caught failure fails')
            continue
        if how in CALLS:
            call(c, W, r, s, how, name, st)
            continue
        if method == 'write_ro':
            c.ob('right-status', same(st, s, K(ACCESS_DENIED)), r.where(), lambda: 'status %r (%s)\n%s' % (s, name, show(st)), 'write in read-only method')
            continue
        if method == 'give':
            c.ob('success-only-on-return', r.ok, r.where(), lambda: 'status %r (%s)\n%s' % (s, name, show(st)), 'return fails')
            continue
        x = EXPECT[how]
        if x == ANYFAIL:
            c.ob('success-only-on-return', holds(st, I.model.le0(padd(K(1), s, -1))), r.where(),
                 lambda: 'status %r although the method raised (%s)\n%s' % (s, name, show(st)), 'raising %s succeeds' % how)
        elif x == REVERT:
            code = T('in', ('any', 'code'), INT)
            for lit, want in ((I.model.le0(padd(code, K(0))), K(32)), (I.model.le0(padd(K(967), code, -1)), K(999)), (None, padd(code, K(32)))):
                if lit is not None:
                    t = st.assume(lit, True)
                else:
                    t = st.assume(I.model.le0(pneg(code)), True)
                    t = t.assume(I.model.le0(padd(code, K(-967))), True) if t is not None else None
                if t is None or not t.possible():
                    continue
                c.ob('revert-code', same(t, s, want), r.where(), lambda: 'status %r, expected %r (%s)\n%s' % (s, want, name, show(st)), 'revert code')
        else:
            xs = x if isinstance(x, tuple) else (x,)
            rules = [same(st, s, K(y)) for y in xs]
            ok = True if True in rules else False if all(z is False for z in rules) else None
            c.ob('right-status' if 0 not in xs else 'success-only-on-return', ok, r.where(), lambda: 'status %r, expected %r (%s)\n%s' % (s, xs, name, show(st)), 'status of ' + how)


def failed_drain(W, st, r):
    """every removal the node says existed was paid within the limit"""
    from .c05 import Prices
    if not r.sends(w.SETVALUE):
        return None
    has = sym(BOOL, 'old', 0, 'has')
    t = st.assume(has, True)
    if t is None or not t.possible():
        return True
    t = t.assume(T('eq0', (isym('q.cost.schema'),), BOOL), True)
    if t is None or not t.possible():
        return True
    cost = pmul(isym('q.cost.delete'), isym('old', 0, 'size'))
    return holds(t, W.I.model.le0(padd(cost, isym('q.limit'), -1)))


def call(c, W, r, s, how, name, st):
    I = W.I
    if not r.sends(w.CALL):
        c.ob('call-outcome', None, r.where(), 'no call (%s)' % name, 'no call')
        return
    # the call's number: answers before it
    n = next((e.args[1] for e in r.events if isinstance(e, Ev) and e.kind == 'recv' and e.args[0] == 'CALL'), None)
    if n is None:
        return
    cs = isym('call', n, 'status')
    good = same(st, cs, K(0))
    if good is None:
        c.ob('call-outcome', None, r.where(), 'status of callee unknown (%s)' % name, 'status of callee')
        return
    if how.endswith('caught'):
        marks = [e for e in r.marks() if e.args[0] in ('reverted', 'other')]
        if good:
            c.ob('call-outcome', not marks and r.ok, r.where(), lambda: 'a successful call raises (%s)\n%s' % (name, show(st)), 'successful call raises')
            return
        c.ob('call-outcome', len(marks) == 1, r.where(), lambda: 'a failed call does not raise (%s)\n%s' % (name, show(st)), 'failed call returns')
        for e in marks:
            c.ob('call-code', same(st, strip(e.args[1]), cs), place(e.where), lambda: 'the caller sees code %r (%s)\n%s' % (e.args[1], name, show(st)), 'code of failed call')
            lo = I.model.le0(padd(K(32), cs, -1))
            hi = I.model.le0(padd(cs, K(-999)))
            inside, outside = (32, 33, 500, 998, 999), (1, 10, 13, 31, 1000)
            ok = True
            for v in outside if e.args[0] == 'reverted' else inside:
                t = st.assume(I.model.eq0(padd(cs, K(v), -1)), True)
                if t is not None and t.possible():
                    ok = None if t.notes - st.notes or ok is None else False
            if ok and e.args[0] == 'reverted':
                ok = three(holds(st, lo), holds(st, hi))
            c.ob('revert-error', ok, place(e.where), lambda: 'a callee status %r is raised as %s error (%s)\n%s' % (cs, e.args[0], name, show(st)), 'kind of error')
            m = bsym('call', n, 'message')
            c.ob('call-message', same(st, e.args[2], T('decode', (m,), STR)), place(e.where), lambda: 'message %r (%s)\n%s' % (e.args[2], name, show(st)), 'message of failed call')
        return
    if how == 'send':
        c.ob('call-outcome', r.ok, r.where(), lambda: 'status %r (%s)\n%s' % (s, name, show(st)), 'send raises')
        want = kb(bool(good))
        c.ob('call-result', same(st, r.result, L_tuple(W, 5, want)), r.where(), lambda: 'send returns %r (%s)\n%s' % (r.result, name, show(st)), 'result of send')
        return
    c.ob('call-outcome', same(st, s, cs), r.where(), lambda: 'the callee ends with %r, its caller with %r (%s)\n%s' % (cs, s, name, show(st)), 'status of failed call')
    if good and how in ('call', 'iface'):
        c.ob('call-result', same(st, r.result, L_tuple(W, 3, bsym('call', n, 'result'))), r.where(), lambda: 'the call returns %r (%s)\n%s' % (r.result, name, show(st)), 'result of call')


def three(*xs):
    return False if False in xs else None if None in xs else True


def L_tuple(W, tag, v):
    if v is TRUE:
        v = K(b'\x01')
    elif v is FALSE:
        v = K(b'\x00')
    return Tup((K(tag), v))
