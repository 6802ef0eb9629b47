"""C01: read-only executions never modify chain state."""
from ..kit import *
from .. import world as w

TITLE = 'Read-only executions never modify chain state'
OPS = ('var.set', 'var.remove', 'bin.set', 'bin.empty', 'dict.set', 'dict.remove', 'deep.set', 'deep.del', 'arr.put', 'arr.set', 'arr.pop',
       'db.put', 'db.delete', 'sub.put', 'event', 'event0', 'fee')

# operations whose step charges are left out of the quick analysis
NOCOST = ('arr.put', 'arr.set', 'arr.pop', 'on_install', 'on_update', 'fallback')


def run(c):
    readonly_methods = ('query',)

    def one(op, name, method, params, flag, ro_method, nested=(), sender='account'):
        def f():
            W = make(['ops'])
            q = w.req_invoke('q', '/scores/ops', method, params, readonly=flag, costs=() if (op in NOCOST or sender != 'account') and not c.thorough else None, sender=sender)
            if nested:
                keys = tuple(w.req_invoke('n%d' % i, '/scores/ops', m, p, readonly=fl, costs=()) for i, (m, p, fl, ro) in enumerate(nested))
                W.nested = lambda st, data: keys
            res = W.boot([q])
            c.absorb(W.I)
            for st, v in res:
                rs, _ = requests(st)
                for r in rs:
                    if r.name == 'q':
                        inv, rom = bool(flag & 1), ro_method
                    else:
                        m, p, fl, ro = nested[int(r.name[1:])]
                        inv, rom = bool(fl & 1), ro
                    judge(c, name, st, r, inv, rom)
            return len(res)
        c.scenario(name, f)

    def strp(op):
        return plist_op(op)

    for op in OPS:
        for flag in (1, 3):
            one(op, '%s in a read-only invocation (flags %d)' % (op, flag), 'write', strp(op), flag, False)
        one(op, '%s in a read-only method' % op, 'query', strp(op), 0, True)
        one(op, '%s in a read-only method, read-only invocation' % op, 'query', strp(op), 1, True)
        one(op, '%s in a read-only invocation by a contract' % op, 'write', strp(op), 1, False, sender='contract')
        one(op, '%s in a read-only method, called by a contract' % op, 'query', strp(op), 0, True, sender='contract')
        if op in ('var.set', 'var.remove', 'event', 'fee', 'bin.empty'):
            one(op, '%s in a read-only method, trace flag' % op, 'query', strp(op), 2, True)
            one(op, '%s in a payable method, read-only invocation' % op, 'pay', strp(op), 1, False)
    for m in ('on_install', 'on_update', 'fallback'):
        one(m, '%s in a read-only invocation' % m, m, w.plist(), 1, False)
        one(m, '%s in a read-only invocation by a contract' % m, m, w.plist(), 1, False, sender='contract')
    # nesting: the mode of one execution does not leak into another
    for op in ('var.set', 'var.remove', 'event', 'fee'):
        p = strp(op)
        one(op, '%s after a nested writable call, read-only invocation' % op, 'query_then', p, 1, True, (('write', strp(op), 0, False),))
        one(op, '%s after a nested writable call, read-only method' % op, 'query_then', p, 0, True, (('write', strp(op), 0, False),))
        one(op, '%s in a nested read-only invocation' % op, 'call_then', p, 0, False, (('write', p, 1, False),))
        one(op, '%s in a nested read-only method' % op, 'call_then', p, 0, False, (('query', p, 0, True),))
        one(op, '%s after a nested read-only call' % op, 'query_then', p, 1, True, (('query', p, 1, True), ))


def plist_op(op):
    return w.plist(typed_str(op))


def judge(c, name, st, r, inv, rom):
    if not inv and not rom:
        return
    kind = 'read-only invocation' if inv else 'read-only method'
    bad = [e for e in r.sends(w.SETVALUE, w.EVENT) + (r.sends(w.SETFEEPCT) if inv else [])]
    for e in bad:
        c.ob('nothing-sent', False, place(e.where), 'in a %s the executor sends %s (%s)\n%s' % (kind, NAMES[e.args[0]], name, show(st)),
             '%s from %s' % (NAMES[e.args[0]], kind))
    if not bad:
        c.ob('nothing-sent', True, r.where(), '')
    for e in r.marks():
        op = e.args[1].v if len(e.args) > 1 else ''
        if e.args[0] == 'done' and (op != 'fee' or inv):
            if op == 'arr.pop':
                # popping an empty array changes nothing
                c.ob('attempt-refused', True if empty_pop(st, r) else False, place(e.where), 'in a %s, %s succeeds (%s)\n%s' % (kind, op, name, show(st)), '%s succeeds in %s' % (op, kind))
                continue
            c.ob('attempt-refused', False, place(e.where), 'in a %s, %s succeeds (%s)\n%s' % (kind, op, name, show(st)),
                 '%s succeeds in %s' % (op, kind))
        elif e.args[0] == 'refused':
            c.ob('attempt-refused', True, place(e.where), '')


def empty_pop(st, r):
    return not r.sends(w.SETVALUE)
