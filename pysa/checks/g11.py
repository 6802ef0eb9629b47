"""G11: a transaction is verified before it is pooled or executed."""
from .. import gopaths

TITLE = 'Only transactions that verify are pooled or executed'
S = 'service:'
OPAQUE = ['TransactionPool.Add', 'transition.ensureRecordTXIDs', 'transition.validateTxs', 'transition.reportValidation', 'transition.reportExecution', 'transition.executeTxs',
          'transition.executeTxsSequential', 'transition.executeTxsConcurrent', 'transition.ensureRecordDoubleSignReports', 'transition.newWorldContext', 'transition.newContractContext',
          'transition.doExecute', 'transition.doForceSync', 'NewTimestampRange', 'NewTxTimestampRangeFor', 'TransactionTimestampThreshold', 'NewDummyTimeStampRange']
EXEC = ('executeTxs', 'executeTxsSequential', 'executeTxsConcurrent', 'OnExecutionBegin')
CALLS = ['ValidateNetwork', 'Verify', 'CheckTx', 'PreValidate', 'CheckTXForAdd', 'Add', 'ensureRecordTXIDs', 'OnValidateTransactions', 'validateTxs', 'reportValidation', 'reportExecution',
         'NewTimestampRange', 'NewTxTimestampRangeFor', 'NewDummyTimeStampRange', 'TransactionTimestampThreshold', 'doExecute', 'doForceSync', 'Get', 'Has'] + list(EXEC)
POOL = [S + x for x in ('manager.SendTransaction', 'manager.SendTransactionAndWait', 'TransactionReactor.OnReceive')]


def good(p, i, name, recv=None, arg=None):
    """a call made before event i that is known to have returned no error"""
    fs = p.facts(i)
    for j, e in p.calls(name):
        if j < i and (recv is None or e.get('recv') == recv) and (arg is None or arg in (e.get('args') or [])):
            r = e.get('res', '')
            if fs.get('eq(%s,nil)' % r) is True or fs.get('eq(%s.1,nil)' % r) is True:
                return True
    return False


def true(p, i, name, recv, arg=None):
    fs = p.facts(i)
    return any(j < i and e.get('recv') == recv and (arg is None or any(arg in a for a in e.get('args') or [])) and fs.get(e.get('res', '')) is True for j, e in p.calls(name))


def least(fs, t, bound=None):
    """the version is known not to be below the bound"""
    return any(k.startswith('lt(%s.Version(),' % t) and v is False and (bound is None or bound(k[len('lt(%s.Version(),' % t):-1])) for k, v in fs.items())


def three(b):
    return b.startswith('const:') and b[6:].isdigit() and int(b[6:]) >= 3


def known(t):
    return bool(t) and not t.startswith('?')


def run(c):
    def f():
        go = gopaths.Go()
        try:
            kw = dict(dirs=['service'], calls=CALLS, pure=['Version', 'NID', 'Group', 'Timestamp', 'canceled', 'pbi'], opaque=OPAQUE)
            A = gopaths.paths(c, go.run(entries=POOL, loops=1, limit=3000, **kw))
            V = gopaths.paths(c, go.run(entries=[S + 'transition.validateTxs'], loops=2, limit=3000, **kw))
            D = gopaths.paths(c, go.run(entries=[S + 'transition.doExecute'], loops=1, limit=6000, **kw))
            K = gopaths.paths(c, go.run(entries=[S + x for x in ('transition.startExecution', 'newTransition', 'patchTransition')], loops=1, fields=['step'], **kw))
            R = gopaths.paths(c, go.run(entries=[S + 'transition.reportValidation'], loops=1, fields=['step'], **dict(kw, opaque=[x for x in OPAQUE if 'reportV' not in x])))
            L = go.run(dirs=['service'], list=True)
        finally:
            go.close()
        consts = {d['const'].split(':')[-1].split('.')[-1]: str(d['value']) for d in L if 'const' in d}
        n = 0
        seen = set()
        for e, (info, ps) in A.items():
            for p in ps:
                n += 1
                for i, ev in p.calls('Add'):
                    a = ev.get('args') or []
                    if len(a) < 1 or 'getTxPool' not in ev.get('recv', '') and 'Pool' not in ev.get('recv', '') and 'Pool' not in ev.get('rt', ''):
                        continue
                    t = a[0]
                    fs = p.facts(i)
                    if fs.get('eq(%s,nil)' % t) is True:
                        continue
                    seen.add(e)
                    m = e.split('.')[-1]
                    c.ob('pooled-network', true(p, i, 'ValidateNetwork', t, '.nid') or true(p, i, 'ValidateNetwork', t, 'NID()'), ev['at'], 'a transaction of another network is pooled\n' + p.show(), m)
                    c.ob('pooled-version', least(fs, t, three), ev['at'], 'a transaction of an old version is pooled\n' + p.show(), m)
                    c.ob('pooled-signature', good(p, i, 'Verify', t), ev['at'], 'a transaction is pooled without its signature having been verified\n' + p.show(), m)
                    c.ob('pooled-recent', good(p, i, 'CheckTXForAdd', arg=t), ev['at'], 'a transaction is pooled although it may be out of its time or committed already\n' + p.show(), m)
        for e in POOL:
            c.ob('pool-known', True if e in seen else None, 'service', 'nothing pooled was found', e)
        # the transactions of a block
        for e, (info, ps) in V.items():
            for p in ps:
                n += 1
                if p.how != 'return' or not p.ret or not (p.ret[0] == 'nil' or p.facts().get('eq(%s,nil)' % p.ret[0]) is True):
                    continue
                fs = p.facts()
                N = len(p.events)
                for i, ev in p.calls('Get'):
                    t = ev['res'] + '.0'
                    if fs.get('eq(%s.2,nil)' % ev['res']) is not True:
                        continue
                    c.ob('block-version', least(fs, t), ev['at'], 'a block with a transaction of a version below the least is valid\n' + p.show())
                    c.ob('block-network', true(p, N, 'ValidateNetwork', t, 'NID()'), ev['at'], 'a block with a transaction of another network is valid\n' + p.show())
                    for m, w in (('Verify', 'of which the signature is not verified'), ('CheckTx', 'which may be out of its time'), ('PreValidate', 'which may not be executed on the state')):
                        r, a = (t, None) if m != 'CheckTx' else ('$3', t)
                        c.ob('block-' + m.lower(), good(p, N, m, r, a), ev['at'], 'a block with a transaction %s is valid\n%s' % (w, p.show()))
                    seen.add(e)
                # every transaction is looked at: the last answer of the iterator was that there is none
                has = [ev['res'] for j, ev in p.calls('Has')]
                if has:
                    c.ob('block-whole', fs.get(has[-1]) is False, info['at'], 'a block is valid although transactions are left\n' + p.show())
        # what is done before execution
        done = set()
        for e, (info, ps) in D.items():
            have = any(p.calls('validateTxs') for p in ps)
            for p in ps:
                n += 1
                ex = [(i, ev) for i, ev in p.calls(*EXEC)]
                if not ex:
                    continue
                i, ev = ex[0]
                fs = p.facts(i)
                v = fs.get('$1')
                rv = [(j, x) for j, x in p.calls('reportValidation') if j < i]
                c.ob('told-before', bool(rv) and all((x.get('args') or [''])[-1] == 'nil' and fs.get(x['res']) is True for j, x in rv), ev['at'], 'execution goes on although validation failed or was cancelled\n' + p.show(), 'told')
                c.ob('platform', good(p, i, 'OnValidateTransactions'), ev['at'], 'execution starts although the platform refused the transactions\n' + p.show(), 'platform')
                c.ob('recorded', good(p, i, 'ensureRecordTXIDs'), ev['at'], 'execution starts although a transaction was recorded before\n' + p.show(), 'recorded')
                if v is not False:
                    continue
                done.add('new')
                forced = [x for j, x in p.calls('ensureRecordTXIDs') if j < i and (x.get('args') or [''])[-1] != 'false']
                c.ob('recorded-strictly', not forced, ev['at'], 'transactions which were not validated yet are recorded without looking for earlier ones\n' + p.show(), 'strict')
                for g, w in (('patch', '0'), ('normal', '1')):
                    lst = '$0.%sTransactions' % g
                    calls = [x for j, x in p.calls('validateTxs') if j < i and lst in (x.get('args') or [])]
                    c.ob('validated-before', None if not have else bool(calls) and good(p, i, 'validateTxs', arg=lst), ev['at'], 'the %s transactions are executed before they are validated\n%s' % (g, p.show()), g)
                    for x in calls:
                        r = (x.get('args') or [''])[-1]
                        made = [y for j, y in p.calls('NewTimestampRange', 'NewTxTimestampRangeFor', 'NewDummyTimeStampRange') if y.get('res') == r]
                        if not made:
                            continue
                        y = made[-1]
                        ya = y.get('args') or []
                        if y['f'] == 'NewDummyTimeStampRange':
                            ok = g == 'patch' and fs.get('eq($0.pbi,nil)') is True
                        elif y['f'] == 'NewTxTimestampRangeFor':
                            ok = ya[-1:] == ['const:' + w]
                        else:
                            th = [z for j, z in p.calls('TransactionTimestampThreshold') if z.get('res') == ya[-1]]
                            ok = (not th or (th[-1].get('args') or [''])[-1] == 'const:' + w) and ('pbi' in ya[0] if g == 'patch' else '$0.bi' in ya[0])
                        c.ob('right-window', ok, x['at'], 'the %s transactions are held against %s%s\n%s' % (g, y['f'], ya, p.show()), g)
        c.ob('execution-known', True if 'new' in done else None, 'service', 'no execution of transactions not validated yet was found')
        # validation is left out only for what is said to be valid
        names = {k: consts.get(k) for k in ('stepInited', 'stepValidated', 'stepValidating', 'stepExecuting', 'stepError')}
        if all(names.values()):
            val = {k: v if v.startswith('const:') else 'const:' + v for k, v in names.items()}
            for e, (info, ps) in K.items():
                for p in ps:
                    n += 1
                    if e.endswith('startExecution'):
                        for i, ev in p.calls('doExecute'):
                            a = (ev.get('args') or [''])[-1]
                            fs = p.facts(i)
                            t = p.value(a, fs)
                            if fs.get('eq($0.step,%s)' % val['stepInited']) is True:
                                c.ob('left-out', True if t is False else False if t is True else None, ev['at'], 'a transition that was not validated is executed without validation\n' + p.show(), 'start')
                            elif fs.get('eq($0.step,%s)' % val['stepValidated']) is not True:
                                c.ob('left-out', t is False or None, ev['at'], 'a transition in another step is executed\n' + p.show(), 'start')
                    elif p.how == 'return' and p.ret and p.ret[0].lstrip('&').startswith('new#'):
                        s = p.heap.get(p.ret[0].lstrip('&') + '.step') or val['stepInited']
                        flag = '$%d' % len(info['params'])
                        fl = p.facts().get(flag)
                        if s == val['stepValidated'] or s == val['stepExecuting']:
                            c.ob('left-out', fl is True, info['at'], 'a transition counts as validated although the caller did not say so\n' + p.show(), e.split(':')[1])
                        else:
                            c.ob('left-out', True if s == val['stepInited'] else None, info['at'], 'the step is %s' % s, e.split(':')[1])
            for e, (info, ps) in R.items():
                for p in ps:
                    n += 1
                    if p.how != 'return' or not p.ret:
                        continue
                    fs = p.facts()
                    failed = fs.get('eq($1,nil)') is not True
                    st = p.heap.get('$0.step')
                    if failed and st:
                        c.ob('failed-step', st != val['stepExecuting'], info['at'], 'a failed validation leaves the transition executing\n' + p.show(), 'failed')
                    if p.value(p.ret[0]) is True:
                        c.ob('goes-on', any(fs.get('eq($0.step,%s)' % val[k]) is True for k in ('stepValidating', 'stepExecuting')) or None if not fs.get('eq($0.step,const:6)') else False,
                             info['at'], 'execution goes on in another step\n' + p.show(), 'goes')
        c.samples.extend(p.show()[:600] for e, (i, q) in list(A.items())[:2] for p in q[-1:])
        return n
    c.scenario('transactions', f)
