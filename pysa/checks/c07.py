"""C07: only exposed methods run, and only payable ones receive value."""
from ..kit import *
from .. import world as w

TITLE = 'Only exposed methods run, and only payable ones receive value'
EXPOSED = {'gate': {'write': 0, 'read': 0, 'pay': 1, 'pay2': 1, 'inherited_external': 0, 'on_install': 0, 'on_update': 0, 'fallback': 1},
           'gate2': {'write': 0, 'on_install': 0, 'on_update': 0}}
OTHERS = ('inherited_plain', 'overridden', '_helper', 'field', 'Event', 'only_payable', 'plain', '_private', '__hidden', '_Score__hidden', 'prop', 'static',
          'klass', '__str__', '__call__', '__init__', '__class__', '__new__', '__dict__', '', 'nothing', 'fallback ', 'Fallback', 'WRITE', 'db', 'msg', 'tx', 'block',
          'address', 'owner', 'icx', 'call', 'now', 'revert', 'get_owner', 'create_interface_score', 'get_fee_sharing_proportion', 'set_fee_sharing_proportion',
          'is_score_active', '_IconScoreBase__call', '_IconScoreBase__get_api', '_context', 'deploy', 'write.x', '_get_context', 'block_height')


def run(c):
    def one(score, name, params, value, ro=0):
        tag = '%s.%s, %s params, value %s%s' % (score, name if isinstance(name, str) else 'any other name', params, value, ', read-only' if ro else '')

        def f():
            W = make([score])
            v = K(0) if value == 'none' else isym('q.value')
            facts = [] if value == 'none' else [(T('le0', (padd(K(1), pneg(v)),), BOOL), True)]
            p = w.plist() if params == 'positional' else w.pdict()
            m = name
            if not isinstance(name, str):
                m = bsym('q.method')
                d = T('decode', (m,), STR)
                facts = facts + [(T('isutf8', (m,), BOOL), True)]
            q = w.req_invoke('q', '/scores/' + score, m, p, costs=(), value=v, readonly=ro, code_facts=facts)
            res = W.boot([q])
            c.absorb(W.I)
            for st, e in res:
                judge(c, W, score, name, value, tag, st)
            return len(res)
        c.scenario(tag, f)
    for s in ('gate', 'gate2'):
        for params in ('positional', 'named'):
            for value in ('none', 'positive'):
                for n in EXPOSED[s]:
                    for ro in (0, 1) if value == 'none' else (0,):
                        one(s, n, params, value, ro)
                for n in OTHERS + (('fallback',) if s == 'gate2' else ()):
                    one(s, n, params, value)
                one(s, None, params, value)


def judge(c, W, score, name, value, tag, st):
    rs, _ = requests(st)
    for r in rs:
        ran = r.marks('ran')
        names = [e.args[1].v for e in ran]
        s = r.status
        code = s.v if isinstance(s, K) else None
        if name is None:
            # a name that is not known: whatever runs must be exposed, and be the named one
            for n, e in zip(names, ran):
                ok = bool(n in EXPOSED[score] and (value == 'none' or EXPOSED[score][n]))
                c.ob('only-exposed', ok, place(e.where), lambda: '%s runs (%s)\n%s' % (n, tag, show(st)), n + ' runs')
            if not names:
                d = T('decode', (bsym('q.method'),), STR)
                want = (METHOD_NOT_FOUND,) if value == 'none' else (METHOD_NOT_FOUND, METHOD_NOT_PAYABLE)
                c.ob('refused-with', (code in want) if code is not None else None, r.where(), lambda: 'status %r for an unknown method (%s)\n%s' % (s, tag, show(st)), 'status for unknown name')
            continue
        exposed = EXPOSED[score].get(name)
        if exposed is None:
            c.ob('only-exposed', not names, place(ran[0].where) if ran else r.where(), lambda: '%s runs (%s)\n%s' % (names, tag, show(st)), name + ' runs')
            c.ob('no-effects', not r.sends(*EFFECTS), r.where(), lambda: 'effects of a method that is not exposed (%s)\n%s' % (tag, show(st)), name + ' has effects')
            c.ob('refused-with', code == METHOD_NOT_FOUND if code is not None else None, r.where(), lambda: 'status %r (%s)\n%s' % (s, tag, show(st)), 'status for ' + name)
        elif value == 'positive' and not exposed:
            c.ob('only-payable', not names, place(ran[0].where) if ran else r.where(), lambda: '%s runs with value (%s)\n%s' % (names, tag, show(st)), name + ' gets value')
            c.ob('refused-with', code == METHOD_NOT_PAYABLE if code is not None else None, r.where(), lambda: 'status %r (%s)\n%s' % (s, tag, show(st)), 'status for paying ' + name)
        else:
            c.ob('runs-once', names == [name], r.where(), lambda: '%s run instead of %s; status %r %r (%s)\n%s' % (names, name, s, r.result, tag, show(st)), name + ' does not run')
            c.ob('succeeds', r.ok, r.where(), lambda: 'status %r (%s)\n%s' % (s, tag, show(st)), name + ' fails')
