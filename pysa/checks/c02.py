"""C02: a nested call gives the caller its own execution context back."""
from ..kit import *
from .. import world as w
from . import c27

TITLE = 'A nested call gives the caller its own execution context back'
ENDINGS = ('ok', 'fee', 'write', 'remove', 'removefail', 'writefail', 'exception', 'revert', 'exit', 'interrupt', 'genexit', 'base', 'odd', 'unprintable')
CODE = '/scores/ctx'


def run(c):
    def one(name, method, how, then, flag, nested, costs=()):
        def f():
            W = make(['ctx'])
            q = w.req_invoke('q', CODE, method, w.plist(typed_str(how), typed_str(then)), readonly=flag, costs=costs)
            keys = []
            for i, n in enumerate(nested):
                if n[0] == 'api':
                    keys.append(w.req_getapi('n%d' % i, n[1]))
                else:
                    keys.append(w.req_invoke('n%d' % i, CODE, n[1], n[2], readonly=n[3], costs=n[4] if len(n) > 4 else ()))
            # the first call of the caller runs everything; a call made by a callee runs the second request inside it
            if nested and nested[0][0] == 'deep':
                W.nested = lambda st, data: (keys[2 if len(keys) > 2 and 'near' in repr(data) else 0],) if len(st.node[1]) == 1 else (keys[1],) if len(st.node[1]) == 2 else ()
            else:
                W.nested = lambda st, data: tuple(keys) if len(st.node[1]) == 1 else ()
            res = W.boot([q])
            c.absorb(W.I)
            for st, v in res:
                judge(c, W, name, st, v, flag, method)
            return len(res)
        c.scenario(name, f)

    def inner(how, flag=0, costs=()):
        return ('run', 'enter', w.plist(typed_str(how)), flag, costs)

    for e in ENDINGS:
        one('read-only callee ends with ' + e, 'around', 'call', 'write', 0, [inner(e, 1)])
        one('callee ends with ' + e, 'around', 'call', 'write', 0, [inner(e)])
    for e in ('write', 'remove', 'removefail', 'writefail'):
        one('callee ends with %s while steps may run out' % e, 'around', 'call', 'write', 0, [inner(e, 0, ('schema', 'setBase', 'deleteBase', 'delete'))])
    for e in ('ok', 'exception', 'exit'):
        for how in ('iface', 'transfer', 'send'):
            one('callee of %s ends with %s' % (how, e), 'around', how, 'event', 0, [inner(e)])
        one('writable callee of a read-only caller ends with ' + e, 'around', 'call', 'write', 1, [inner(e, 0)])
        one('callee of a read-only method ends with ' + e, 'around_ro', 'call', 'write', 0, [inner(e, 0)])
        one('callee of a read-only method ends with %s, event' % e, 'around_ro', 'call', 'event', 0, [inner(e, 0)])
        one('writable callee of a read-only caller ends with %s, removal' % e, 'around', 'call', 'remove', 1, [inner(e, 0)])
        one('read-only callee ends with %s, event' % e, 'around', 'call', 'event', 0, [inner(e, 1)])
        one('read-only callee ends with %s, fee' % e, 'around', 'call', 'fee', 0, [inner(e, 1)])
        one('two callees, the first ends with ' + e, 'around', 'call', 'write', 0, [inner(e), inner('ok', 1)])
        one('two calls, each ending with ' + e, 'around', 'twice', 'write', 0, [inner(e)])
        one('callee calls on and its callee ends with ' + e, 'around', 'call', 'write', 0, [('deep', 'enter', w.plist(typed_str('deep')), 0), inner(e, 1)])
    # a callee which calls on, and one which does not, in turn; each may be read-only
    for how in ('mixed', 'mixed2'):
        for a, b, d in ((0, 1, 0), (1, 1, 0), (1, 1, 1), (0, 0, 1)):
            one('%s: callee (flags %d) calls on (flags %d), another (flags %d) does not' % (how, a, b, d), 'around', how, 'write', 0,
                [('deep', 'enter', w.plist(typed_str('deep')), a), inner('ok', b), inner('write' if not d else 'ok', d)])
    one('contract inspected during the call', 'around', 'call', 'write', 0, [('api', CODE)])
    one('refused contract inspected during the call', 'around', 'call', 'write', 0, [('api', '/scores/bad1')])
    one('missing contract inspected during the call', 'around', 'call', 'write', 0, [('api', '/scores/none')])
    one('contract inspected, then run, during the call', 'around', 'call', 'write', 0, [('api', CODE), inner('exit')])
    one('contract inspected during the call of a read-only caller', 'around', 'call', 'write', 1, [('api', CODE)])
    one('unknown method of the callee', 'around', 'call', 'write', 0, [('run', 'nope', w.plist(), 0)])
    one('unknown parameters of the callee', 'around', 'call', 'write', 0, [('run', 'enter', w.pdict(('x', typed_str('ok'))), 0)])
    one('read-only method of the callee', 'around', 'call', 'write', 0, [('run', 'around_ro', w.plist(typed_str('none'), typed_str('none')), 0)])


def judge(c, W, name, st, v, flag, method):
    rs, _ = requests(st)
    q = [r for r in rs if r.name == 'q'][0]
    b, a = q.marks('before'), q.marks('after')
    if q.marks('callfail') or a:
        for x in b:
            c27.snapshot(c, 'caller-context', st, x, 'q', name, False)
        for x in a:
            c27.snapshot(c, 'caller-context', st, x, 'q', name, False)
    for r in rs:
        if r.name != 'q':
            for x in r.marks('inner'):
                c27.snapshot(c, 'callee-context', st, x, r.name, name, False)
    ro = bool(flag & 1) or method == 'around_ro'
    for e in q.marks('done'):
        c.ob('caller-mode', not (ro and not (e.args[1].v == 'fee' and not flag & 1)), place(e.where), 'a read-only caller can %s after the nested request (%s)\n%s' % (e.args[1].v, name, show(st)),
             'read-only caller may %s' % e.args[1].v)
    for e in q.marks('refused'):
        # a writable caller without step costs is never refused
        c.ob('caller-mode', ro, place(e.where), 'a writable caller can no longer %s after the nested request (%s)\n%s' % (e.args[1].v, name, show(st)),
             'writable caller may not %s' % e.args[1].v)
    if q.reply is not None and a:
        own = atoms_of(q.used) if isinstance(q.used, Val) else set()
        alien = [x for x in own if isinstance(x, T) and x.op == 'in' and str(x.args[0]).startswith('n')]
        c.ob('caller-steps', not alien, q.where(), 'the steps reported for the caller depend on the callee\'s account: %r (%s)' % (q.used, name), 'used steps')
        for e in q.sends(w.SETFEEPCT):
            ok = same(st, e.args[1], K(9))
            c.ob('caller-fee', ok, place(e.where), 'the caller reports fee share %r it did not set (%s)\n%s' % (e.args[1], name, show(st)), 'fee share')
        if q.nested() and not q.sends(w.SETFEEPCT):
            c.ob('caller-fee', True, q.where(), '')
    elif q.nested() and not a:
        # the caller must resume, unless it ran out of steps itself
        if isinstance(v, Halt) and v.reason == 'idle':
            c.ob('caller-resumes', True, q.where(), '')
        else:
            c.ob('caller-resumes', False, q.where(), '%s; the caller never resumes (%s)\n%s' % (endname(W, st, v), name, show(st)), endname(W, st, v)[:80])
