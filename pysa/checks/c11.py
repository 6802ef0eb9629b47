"""C11: array containers keep index discipline."""
import itertools
from ..kit import *
from .. import world as w
from .c09 import hashed

TITLE = 'Array containers keep index discipline'
CODE = '/scores/array'
N = T('in', ('any', 'n'), INT)
SIZE = hashed(K(b'\x00a'))
ANY = T('in', ('any', 'i'), INT)
V = T('in', ('any', 'v'), INT)


def run(c):
    def single(how):
        def f():
            W = make(['array'], memory=True)

            def reply(W, st, h):
                for k, v in st.node[3][:h[3]]:
                    if k is h[2]:
                        return None
                if h[2] is SIZE:
                    return W.deliver(st, w.GETVALUE, L(TRUE, i2b(N)), 'GETVALUE', h[1])
                return W.deliver(st, w.GETVALUE, L(TRUE, i2b(isym('get', h[1], 'num'))), 'GETVALUE', h[1])
            W.reply['GETVALUE'] = reply
            facts = [(T('le0', (pneg(N),), BOOL), True), (T('le0', (padd(N, K(-2 ** 31)),), BOOL), True)]
            if how in ('get', 'getm', 'set'):
                # one past what any size allows, so that all of both refusals are seen
                facts += [(T('le0', (padd(ANY, K(-2 ** 31 - 1)),), BOOL), True), (T('le0', (padd(pneg(ANY), K(-2 ** 31 - 1)),), BOOL), True)]
            if how == 'intxt':
                facts.append((T('eq0', (padd(N, K(-2)),), BOOL), True))
            res = W.boot([w.req_invoke('q', CODE, 'single', w.plist(typed_str(how)), costs=(), value=K(0), code_facts=facts)])
            c.absorb(W.I)
            for st, e in res:
                judge_single(c, W, how, st)
            return len(res)
        c.scenario(how + ', any size', f)

    def many(how):
        def f():
            W = make(['array'], memory=True)

            def reply(W, st, h):
                for k, v in st.node[3][:h[3]]:
                    if k is h[2]:
                        return None
                return W.deliver(st, w.GETVALUE, L(FALSE, NONE), 'GETVALUE', h[1])
            W.reply['GETVALUE'] = reply
            res = W.boot([w.req_invoke('q', CODE, 'many', w.plist(typed_str(how)), costs=(), value=K(0))])
            c.absorb(W.I)
            for st, e in res:
                judge_many(c, W, how, st)
            return len(res)
        c.scenario(how, f)
    for how in ('get', 'getm', 'set', 'put', 'pop', 'len', 'in', 'intxt', 'text', 'float', 'none', 'slice', 'settext', 'setfloat', 'default'):
        single(how)
    # every short sequence, followed by a look at everything
    end = ',len,all,get0,get-1,get1,get-2,get2,get-3'
    ops = ('put', 'pop', 'set0', 'set-1', 'set1')
    for n in range(0, 5 if c.thorough else 4):
        for seq_ in itertools.product(ops, repeat=n):
            many(','.join(seq_ + (end[1:],)))
    for how in ('put,put,put,lst,two,odd', 'put,put,grw,len,all', 'put,odd', 'two,lst', 'put,put,put,pop,put,two', 'put,put,put,put,put,put,put,pop,pop,all,set-5,all,set4,get-6,get5',
                'put,put,put,get-3,get-4,set-3,set-4,set3,all', 'put,grw,grw,len', 'put,pop,put,pop,pop,put,len,all'):
        many(how)


def loc(m):
    return hashed(m)


def judge_single(c, W, how, st):
    rs, _ = requests(st)
    r = rs[0]
    if not r.ok or r.marks('other'):
        c.ob('index', None if st.notes & {'operator on unknown types'} else False, r.where(), lambda: 'unexpected failure (%s)\n%s' % (how, show(st)), 'failure of ' + how)
        return
    refused = [e.args[1] for e in r.marks('refused')]
    result = [e.args[1] for e in r.marks('result')]
    reads = []
    evs = [e for e in r.events if isinstance(e, Ev)]
    nums = [e.args[1] for e in evs if e.kind == 'recv' and e.args[0] == 'GETVALUE']
    gets = [e for e in evs if e.kind == 'send' and e.args[0] == w.GETVALUE]
    reads = list(zip([e.args[1] for e in gets], nums))
    writes = [seq(e.args[1]) for e in evs if e.kind == 'send' and e.args[0] == w.SETVALUE]

    def ob(rule, ok, why, key):
        c.ob(rule, ok, r.where(), lambda: '%s (%s of an array of size any.n)\n%s' % (why, how, show(st)), key)

    def read_of(l):
        """numbers of the reads at location l, with doubt"""
        out, doubt = [], False
        for k, n in reads:
            if k is SIZE:
                continue
            s = same(st, k, l)
            if s is None:
                doubt = True
            elif s:
                out.append(n)
        return out, doubt

    def only(ls, what):
        """nothing but the size and these locations is touched"""
        for k in [k for k, n in reads] + [x[0] for x in writes]:
            rules = [True if k is SIZE else same(st, k, l) for l in ls] or [k is SIZE]
            ok = True if True in rules or k is SIZE else False if all(x is False for x in rules) else None
            ob('touches-only', ok, 'touches another location %r' % k, 'other location in ' + what)

    def refusal(why):
        ok = len(refused) == 1 and same(st, strip(refused[0]), K(INVALID_PARAMETER)) and not writes
        ob('outside-refused', ok, why, how + ' accepted')
        only([], how)
    if how in ('text', 'float', 'none', 'slice', 'settext', 'setfloat'):
        refusal('an index which is no integer is not refused with invalid-parameter')
        return
    if r.marks('outside'):
        refusal('an index outside the array is not refused with invalid-parameter')
        return
    if refused:
        ob('inside-accepted', False, 'refused', how + ' refused')
        return
    if len(result) != 1:
        ob('index', None, 'no result', 'result')
        return
    res = result[0]
    ins = r.marks('inside')
    last = r.marks('last')
    if ins:
        l = loc(ins[0].args[1])
        only([l], how)
        if how == 'set':
            mine = [x for x in writes if x[0] is not SIZE]
            ok = False if len(mine) != 1 else three(same(st, mine[0][0], l), same(st, mine[0][2], i2b(V)))
            ob('element', ok, 'the element is not overwritten with the value: %r' % (writes,), 'set')
            ob('size', len(mine) == len(writes), 'the size is written', 'set writes size')
        else:
            ns, doubt = read_of(l)
            oks = [same(st, res, isym('get', n, 'num')) for n in ns]
            ob('element', True if True in oks else None if doubt or None in oks else False, 'gives %r instead of the element' % res, 'get')
            ob('size', not writes, 'a read writes', 'get writes')
    elif how == 'put':
        l, size = loc(last[0].args[1]), last[0].args[2]
        only([l], how)
        es = [x for x in writes if x[0] is not SIZE]
        ss = [x for x in writes if x[0] is SIZE]
        ob('element', False if len(es) != 1 else three(same(st, es[0][0], l), same(st, es[0][2], i2b(V))), 'put writes %r' % (es,), 'put')
        ob('size', False if not ss else same(st, ss[-1][2], i2b(size)), 'put leaves the size %r' % (ss,), 'size after put')
    elif how == 'pop':
        if r.marks('empty'):
            ob('empty-pop', three(same(st, res, NONE), not writes), 'pop of an empty array gives %r' % res, 'empty pop')
            only([], how)
            return
        l, size = loc(last[0].args[1]), last[0].args[2]
        only([l], how)
        es = [x for x in writes if x[0] is not SIZE]
        ss = [x for x in writes if x[0] is SIZE]
        ns, doubt = read_of(l)
        oks = [same(st, res, isym('get', n, 'num')) for n in ns]
        ob('element', True if True in oks else None if doubt or None in oks else False, 'pop gives %r instead of the last element' % res, 'pop')
        ob('entry-deleted', False if len(es) != 1 else three(same(st, es[0][0], l), deletes(es[0])), 'pop writes %r' % (es,), 'entry after pop')
        ob('size', False if not ss else same(st, ss[-1][2], i2b(size)), 'pop leaves the size %r' % (ss,), 'size after pop')
    elif how == 'len':
        ob('size', same(st, res, N), 'the length is %r' % res, 'len')
        only([], how)
    elif how == 'in':
        searches = [seq(e.args[1]) for e in r.sends(w.CONTAINS)]
        if r.marks('empty'):
            ob('membership', same(st, res, FALSE), 'membership in an empty array gives %r' % res, 'membership in empty')
            return
        n = [e.args[1] for e in evs if e.kind == 'recv' and e.args[0] == 'CONTAINS']
        if len(searches) == 1 and n:
            ob('membership', three(same(st, searches[0][1], i2b(V)), truth_is(st, res, sym(BOOL, 'yn', n[0]))), 'membership asks %r and gives %r' % (searches, res), 'membership')
        else:
            ob('membership', None, 'no search by the node', 'search')
    elif how == 'intxt':
        ob('membership', same(st, res, FALSE), 'a text is a member of an array of integers: %r' % res, 'membership of another type')


def truth_is(st, res, x):
    d = st.decide(x)
    return same(st, res, x) if d is None else same(st, res, K(d))


def deletes(x):
    return isinstance(x[1], K) and bool(x[1].v & w.F_DELETE)


def three(*xs):
    return False if False in xs else None if None in xs else True


def judge_many(c, W, how, st):
    rs, _ = requests(st)
    r = rs[0]
    if not r.ok or r.marks('other'):
        c.ob('sequence', None if st.notes & {'operator on unknown types'} else False, r.where(), lambda: 'unexpected failure (%s)\n%s' % (how, show(st)), 'failure')
        return
    for e in r.marks('same'):
        op = e.args[1].v
        ok = same(st, strip(e.args[2]), e.args[3])
        c.ob('sequence', ok, place(e.where), lambda: '%s gives %r, a list gives %r (%s)\n%s' % (op, e.args[2], e.args[3], how, show(st)), 'sequence: ' + op.rstrip('-0123456789'))
