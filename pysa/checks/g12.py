"""G12: a transaction is recorded once, and looked up before it is recorded."""
import re

from .. import gopaths

TITLE = 'A transaction is executed at most once'
S, T = 'service:', 'common/txlocator:'


def run(c):
    def f():
        go = gopaths.Go()
        try:
            A = gopaths.paths(c, go.run(dirs=['common/txlocator'], loops=2, limit=4000,
                                        calls=['Has', 'Get', 'Commit', 'commitTracker', 'flushList', 'addListAndClearOld', 'addListAndClearOldInLock', 'pushFlushJobInLock', 'Set', 'hasLocatorInDB', 'Fetch'],
                                        fields=['locators', 'head', 'maxTSInDB', 'id'], pure=['Timestamp', 'Group', 'ID', 'Unwrap'],
                                        opaque=['tracker.Has', 'manager.Has', 'manager.hasLocatorInDB', 'manager.commitTracker', 'manager.flushList', 'manager.addListAndClearOld', 'manager.addListAndClearOldInLock',
                                                'manager.pushFlushJobInLock', 'manager.fetchFlushJob'],
                                        entries=[T + x for x in ('tracker.Has', 'tracker.Add', 'tracker.Commit', 'manager.Has', 'manager.hasLocatorInDB', 'manager.commitTracker', 'manager.flushList', 'manager.handleFlushJobs',
                                                                 'tracker.New')]))
            E = gopaths.paths(c, go.run(dirs=['common/txlocator'], loops=2, limit=4000, calls=['freeLocator'], fields=['maxTSInDB', 'head', 'locators'], opaque=['freeLocator'],
                                        entries=[T + 'manager.addListAndClearOldInLock']))
            B = gopaths.paths(c, go.run(dirs=['service'], loops=1, limit=3000,
                                        calls=['NewLogger', 'Add', 'Commit', 'TransactionTimestampThreshold', 'Contains', 'Has'], ask=['Timestamp'], fields=['ptxIDs', 'ntxIDs', 'ptxCount', 'ntxCount'],
                                        pure=['Timestamp', 'Height', 'Group', 'ID', 'TransactionThreshold', 'Threshold'], opaque=['TransactionTimestampThreshold', 'transition.newWorldContext', 'transition.ensureRecordTXIDsInLock'],
                                        entries=[S + x for x in ('transition.ensureRecordTXIDsInLock', 'transition.commitTXIDs', 'timestampRange.CheckTx', 'NewTimestampRange', 'NewTxTimestampRangeFor',
                                                                 'txIDManager.CheckTXForAdd')]))
        finally:
            go.close()
        n = 0

        def ok(p):
            return p.how == 'return' and p.ret and (p.ret[-1] == 'nil' or p.facts().get('eq(%s,nil)' % p.ret[-1]) is True)

        # the window a transaction is accepted in: whether its end belongs to it
        ends = set()
        for p in B.get(S + 'timestampRange.CheckTx', (None, []))[1]:
            n += 1
            if ok(p):
                fs = p.facts()
                ts = '$1.Timestamp()'
                info = B[S + 'timestampRange.CheckTx'][0]
                lo = fs.get('lt($0.min,%s)' % ts) is True
                hi = fs.get('lt($0.max,%s)' % ts) is False
                hx = fs.get('lt(%s,$0.max)' % ts) is True
                c.ob('window', (lo or fs.get('lt(%s,$0.min)' % ts) is False) and (hi or hx), info['at'], 'a transaction out of its window is accepted\n' + p.show(), 'CheckTx')
                ends.add('exclusive' if hx else 'inclusive')
        for e in ('NewTimestampRange', 'NewTxTimestampRangeFor'):
            info, ps = B.get(S + e, (None, []))
            for p in ps:
                n += 1
                r = (p.ret or [''])[0].lstrip('&')
                lo, hi = p.heap.get(r + '.min', ''), p.heap.get(r + '.max', '')
                m, h = re.match(r'-\((.*),(.*)\)$', lo), re.match(r'\+\((.*),(.*)\)$', hi)
                c.ob('window', None if not lo or not hi else bool(m and h) and sorted(m.groups()) == sorted(h.groups()) and ('TimeStamp' in m.group(1) or m.group(1) == '$1'), info['at'],
                     'the window is from %s to %s' % (lo, hi), e)
        inclusive = 'inclusive' in ends
        # nothing recorded is passed over
        info, ps = A.get(T + 'tracker.Has', (None, []))
        for p in ps:
            if p.how != 'return' or not p.ret:
                continue
            n += 1
            fs = p.facts()
            v = p.value(p.ret[0], fs)
            if v is True:
                continue
            asked = [ev for j, ev in p.calls('Has') if ev.get('res') and p.ret[0] == ev['res'] + '.0']
            bound = ('+($0.list.ts,$0.list.th)', '+($0.list.th,$0.list.ts)')
            if asked:
                ev = asked[-1]
                a = ev.get('args') or []
                own = fs.get('$0.locators[$1].ok') is False or fs.get('eq($0.locators,nil)') is True
                par = ev.get('recv') == '$0.parent' or (ev.get('recv') == '$0.manager' and '$0.list.group' in a and fs.get('eq($0.parent,nil)') is True)
                c.ob('looked-up', own, ev['at'], 'earlier blocks are asked although this one was not\n' + p.show(), 'own')
                c.ob('looked-up', par and '$1' in a and '$2' in a, ev['at'], '%s is asked for %s\n%s' % (ev.get('recv'), a, p.show()), 'parent')
                continue
            if any(p.ret[0] == ev.get('res', '-') for j, ev in p.calls()) or not v is False:
                c.ob('looked-up', None, info['at'], 'what is answered is not known\n' + p.show())
                continue
            beyond = any(fs.get('lt(%s,$2)' % b) is True for b in bound)
            at = any(fs.get('lt($2,%s)' % b) is False for b in bound)
            if at and not beyond:
                # the end of the window itself is passed over as well
                c.ob('window-end', not inclusive, info['at'], 'a transaction of which the timestamp is exactly the end of the window of the block is accepted in the block (CheckTxTimestamp) and not found in it\n' + p.show(), 'tracker.Has')
            else:
                c.ob('looked-up', beyond, info['at'], 'a transaction counts as new without having been looked up\n' + p.show(), 'skip')
        info, ps = A.get(T + 'manager.Has', (None, []))
        for p in ps:
            if p.how != 'return' or not p.ret:
                continue
            n += 1
            fs = p.facts()
            v = p.value(p.ret[0], fs)
            if v is True or fs.get('eq($0.locators,nil)') is True:
                continue
            asked = [ev for j, ev in p.calls('hasLocatorInDB', 'Get') if ev.get('res') and p.ret[0] == ev['res'] + '.0' and '$2' in (ev.get('args') or [])]
            own = fs.get('$0.locators[$2].ok') is False
            c.ob('looked-up', own, info['at'], 'recent transactions are not looked up\n' + p.show(), 'cache')
            if asked:
                continue
            if v is not False:
                c.ob('looked-up', None, info['at'], 'what is answered is not known\n' + p.show())
                continue
            m = '$0.cache[$1].maxTSInDB'
            k = fs.get('eq(%s,const:0)' % m) is False
            strict, at = fs.get('lt(%s,$3)' % m) is True, fs.get('lt($3,%s)' % m) is False
            if k and at and not strict:
                c.ob('window-end', not inclusive, info['at'], 'a transaction with the largest timestamp the database may hold is not looked up in the database\n' + p.show(), 'manager.Has')
            else:
                c.ob('looked-up', k and strict, info['at'], 'a transaction counts as new without having been looked up in the database\n' + p.show(), 'database')
        info, ps = A.get(T + 'manager.hasLocatorInDB', (None, []))
        for p in ps:
            if not ok(p):
                continue
            n += 1
            g = [ev for j, ev in p.calls('Get') if '$1' in (ev.get('args') or [])]
            r = p.ret[0]
            want = ['lt(const:0,len(%s.0))' % x['res'] for x in g] + ['!eq(len(%s.0),const:0)' % x['res'] for x in g] + ['!eq(%s.0,nil)' % x['res'] for x in g]
            known = r in want or (r in ('true', 'false') and any(p.facts().get(w.lstrip('!')) is ((r == 'true') != w.startswith('!')) for w in want))
            c.ob('looked-up', known or (False if r in ('true', 'false') or r.lstrip('!') in [w.lstrip('!') for w in want] else None), info['at'], 'the answer is %s\n%s' % (r, p.show()), 'row')
        # what is recorded was not there
        info, ps = A.get(T + 'tracker.Add', (None, []))
        for p in ps:
            if not ok(p):
                continue
            n += 1
            fs = p.facts()
            for i, ev in p.calls('Get'):
                g = ev['res']
                if fs.get('eq(%s.2,nil)' % g) is not True:
                    continue
                # locators under which it is stored
                put = [k for k in p.heap if k.startswith('$0.locators[') and (g + '.0') in k and k.endswith(']')]
                c.ob('recorded', bool(put), ev['at'], 'a transaction of the block is not recorded\n' + p.show(), 'all')
                for k in put:
                    key = k[len('$0.locators['):-1]
                    c.ob('recorded', fs.get(k + '.ok') is False, ev['at'], 'a transaction which is twice in a block is recorded\n' + p.show(), 'twice')
                    if fs.get('$2') is True:
                        continue
                    asked = [x for j, x in p.calls('Has') if key in (x.get('args') or []) and x.get('recv') in ('$0.parent', '$0.manager')]
                    c.ob('recorded', any(fs.get(x['res'] + '.0') is False and fs.get('eq(%s.1,nil)' % x['res']) is True for x in asked), ev['at'],
                         'a transaction is recorded without having been looked up in earlier blocks\n' + p.show(), 'earlier')
                    for x in asked:
                        c.ob('recorded', any('.Timestamp()' in y for y in x['args']), x['at'], 'looked up with %s' % x['args'], 'timestamp')
                        if x['recv'] == '$0.manager':
                            c.ob('recorded', fs.get('eq($0.parent,nil)') is True and '$0.list.group' in x['args'], x['at'], 'the blocks not committed yet are passed over\n' + p.show(), 'parent')
            has = [x['res'] for j, x in p.calls('Has') if x.get('recv', '').startswith('Iterator')]
            if has:
                c.ob('recorded', fs.get(has[-1]) is False, info['at'], 'transactions are left\n' + p.show(), 'whole')
        info, ps = A.get(T + 'tracker.New', (None, []))
        for p in ps:
            r = (p.ret or [''])[0].lstrip('&')
            if p.how != 'return' or not r.startswith('new#'):
                continue
            n += 1
            l = p.heap.get(r + '.list', '').lstrip('&')
            if not l.startswith('new#'):
                c.ob('chained', None, info['at'], 'unknown list', 'list')
                continue
            fs = p.facts()
            par = p.heap.get(r + '.parent')
            c.ob('chained', par == '$0' or (fs.get('eq($0.locators,nil)') is True and fs.get('eq($0.parent,nil)') is True), info['at'], 'a block does not know the blocks before it that are not committed yet\n' + p.show(), 'parent')
            for x, y in (('group', '$0.list.group'), ('height', '$1'), ('ts', '$2'), ('th', '$3')):
                v = p.heap.get(l + '.' + x)
                c.ob('chained', None if v is None else v == y, info['at'], '%s is %s' % (x, v), x)
            c.ob('chained', p.heap.get(r + '.manager') == '$0.manager', info['at'], 'another manager', 'manager')
        # committing keeps what was recorded, in the order of the blocks
        info, ps = A.get(T + 'tracker.Commit', (None, []))
        for p in ps:
            if not ok(p):
                continue
            n += 1
            fs = p.facts()
            if fs.get('eq($0.parent,nil)') is False:
                pc = [(j, x) for j, x in p.calls('Commit') if x.get('recv') == '$0.parent']
                own = [j for j, x in p.calls('commitTracker')]
                c.ob('committed', bool(pc) and all(fs.get('eq(%s,nil)' % x['res']) is True for j, x in pc) and all(j < k for j, x in pc for k in own), info['at'], 'a block is committed before the one it follows\n' + p.show(), 'order')
            if fs.get('eq($0.locators,nil)') is False:
                own = [x for j, x in p.calls('commitTracker') if '$0' in (x.get('args') or [])]
                c.ob('committed', any(fs.get('eq(%s,nil)' % x['res']) is True for x in own), info['at'], 'a block is not committed\n' + p.show(), 'own')
        info, ps = A.get(T + 'manager.commitTracker', (None, []))
        for p in ps:
            if not ok(p):
                continue
            n += 1
            fs = p.facts()
            keys = [k for k, v in p.heap.items() if k.startswith('$0.locators[') and k.endswith(']')]
            took = [k for k in fs if re.match(r'lt\(const:\d+,len\(\$1\.locators\)\)$', k) and fs[k] is True]
            c.ob('committed', len(keys) == len(took) and all('$1.locators[' in p.heap[k] for k in keys) if took else True, info['at'], 'not everything recorded is kept\n' + p.show(), 'kept')
            fl = [j for j, x in p.calls('flushList') if fs.get('eq(%s,nil)' % x['res']) is True and '$1.list' in x['args']]
            pu = [j for j, x in p.calls('pushFlushJobInLock') if '$1.list' in x['args']]
            c.ob('committed', bool(fl or pu), info['at'], 'what was recorded is not written\n' + p.show(), 'written')
        n += flush(c, A)
        n += evict(c, E)
        # the record of a block
        info, ps = B.get(S + 'transition.ensureRecordTXIDsInLock', (None, []))
        for p in ps:
            if not ok(p):
                continue
            n += 1
            fs = p.facts()
            for x, lst, g in (('ptxIDs', 'patchTransactions', '0'), ('ntxIDs', 'normalTransactions', '1')):
                if fs.get('eq($0.%s,nil)' % x) is not True:
                    c.ob('per-block', True if fs.get('eq($0.%s,nil)' % x) is False else None, info['at'], 'not known whether they are recorded already', x)
                    continue
                v = p.heap.get('$0.' + x)
                mk = [ev for j, ev in p.calls('NewLogger') if ev.get('res') == v]
                c.ob('per-block', bool(mk), info['at'], 'the %s are not recorded\n%s' % (lst, p.show()), x)
                for ev in mk:
                    a = ev.get('args') or []
                    c.ob('per-block', ev.get('recv') == '$0.parent.' + x, ev['at'], 'the record follows %s\n%s' % (ev.get('recv'), p.show()), x + ' parent')
                    th = [y for j, y in p.calls('TransactionTimestampThreshold') if y.get('res') == a[-1]]
                    c.ob('per-block', None if not th else (th[-1].get('args') or [''])[-1] == 'const:' + g, ev['at'], 'the window is that of %s' % (th and th[-1].get('args')), x + ' group')
                    b = '$0.pbi.' if x == 'ptxIDs' and fs.get('eq($0.pbi,nil)') is False else '$0.bi.'
                    c.ob('per-block', a[:2] == [b + 'Height()', b + 'Timestamp()'], ev['at'], 'recorded for %s' % a[:2], x + ' block')
                    ad = [y for j, y in p.calls('Add') if y.get('recv') in (v, '$0.' + x)]
                    c.ob('per-block', any((y.get('args') or [''])[0] == '$0.' + lst and (y['args'][-1] == '$2' or fs.get('$2') is (y['args'][-1] == 'true')) and fs.get('eq(%s.1,nil)' % y['res']) is True for y in ad),
                         ev['at'], 'the %s are not recorded, or without looking for earlier ones\n%s' % (lst, p.show()), x + ' add')
        info, ps = B.get(S + 'transition.commitTXIDs', (None, []))
        for p in ps:
            n += 1
            fs = p.facts()
            for i, ev in p.calls('Commit'):
                g = next((w for w in '01' if fs.get('eq($1,const:%s)' % w) is True), None)
                r = ev.get('recv', '')
                c.ob('committed', None if g is None or not r.startswith('$0.') else r.endswith({'0': '.ptxIDs', '1': '.ntxIDs'}[g]), ev['at'], 'another group is committed\n' + p.show(), 'group')
        # before it is pooled
        info, ps = B.get(S + 'txIDManager.CheckTXForAdd', (None, []))
        for p in ps:
            if not ok(p):
                continue
            n += 1
            fs = p.facts()
            c.ob('pooled', any(x.get('args') == ['$1.Group()', '$1.ID()', '$1.Timestamp()'] and fs.get(x['res'] + '.0') is False and fs.get('eq(%s.1,nil)' % x['res']) is True for j, x in p.calls('Has')),
                 info['at'], 'a transaction committed already is pooled\n' + p.show(), 'committed')
            c.ob('pooled', fs.get('eq($1.Group(),const:1)') is False or any(fs.get(x['res']) is False for j, x in p.calls('Contains')), info['at'], 'a transaction dropped before is pooled\n' + p.show(), 'dropped')
            tm = [(k, v) for k, v in fs.items() if '$1.Timestamp()' in k and k.startswith('lt(')]
            lo = any(v and k.endswith(',$1.Timestamp())') and 'commitTS' in k and 'TransactionThreshold' in k for k, v in tm)
            hi = any((not v and k.endswith(',$1.Timestamp())') or v and k.startswith('lt($1.Timestamp(),')) and 'Threshold' in k and 'commitTS' not in k for k, v in tm)
            c.ob('pooled', lo and hi, info['at'], 'a transaction out of its time is pooled\n' + p.show(), 'time')
        c.notes.append('the end of the window is ' + ', '.join(sorted(ends)))
        c.samples.extend(p.show()[:600] for e, (i, q) in list(A.items())[:2] for p in q[-1:])
        return n
    c.scenario('records', f)


def flush(c, A):
    """a list leaves the queue only when it is in the database, and the cache only after that"""
    n = 0
    info, ps = A.get(T + 'manager.handleFlushJobs', (None, []))
    for p in ps:
        n += 1
        for i, ev in p.calls('addListAndClearOld', 'addListAndClearOldInLock'):
            a = (ev.get('args') or [''])[0]
            fs = p.facts(i)
            c.ob('written-first', any(j < i and a in (x.get('args') or []) and fs.get('eq(%s,nil)' % x['res']) is True for j, x in p.calls('flushList')), ev['at'],
                 'transactions may be forgotten before they are in the database\n' + p.show(), 'queue')
    info, ps = A.get(T + 'manager.commitTracker', (None, []))
    for p in ps:
        n += 1
        for i, ev in p.calls('addListAndClearOld', 'addListAndClearOldInLock'):
            a = (ev.get('args') or [''])[0]
            fs = p.facts(i)
            c.ob('written-first', any(j < i and a in (x.get('args') or []) and fs.get('eq(%s,nil)' % x['res']) is True for j, x in p.calls('flushList')), ev['at'],
                 'transactions may be forgotten before they are in the database\n' + p.show(), 'commit')
    info, ps = A.get(T + 'manager.flushList', (None, []))
    for p in ps:
        if p.how != 'return' or not p.ret or p.ret[-1] != 'nil':
            continue
        n += 1
        fs = p.facts()
        took = [k[3:-5] for k, v in fs.items() if re.match(r'eq\(\$1\.head[.next]*,nil\)$', k) and v is False]
        for t in took:
            c.ob('written-first', any(t + '.id' in ' '.join(x.get('args') or []) and fs.get('eq(%s,nil)' % x['res']) is True for j, x in p.calls('Set')), info['at'], 'a transaction is not written\n' + p.show(), 'row')
    return n


def evict(c, E):
    """what is forgotten is too old for the block that follows, or said to be in the database"""
    n = 0
    mine = 'lt(-($1.ts,$1.th),'
    for e, (info, ps) in E.items():
        for p in ps:
            n += 1
            for i, ev in enumerate(p.events):
                a = (ev.get('args') or [''])[0]
                if ev['k'] != 'set' or ev['f'] != 'head' or not a.endswith('.next'):
                    continue
                x = a[:-5]
                fs = p.facts(i)
                win = ('+(%s.ts,%s.th)' % (x, x), '+(%s.th,%s.ts)' % (x, x))
                old = any(fs.get(mine + w + ')') is False for w in win)
                about = [k for k in fs if x + '.ts' in k and '$1.ts' in k]
                c.ob('forgotten', True if old else False if not any(x + '.th' in k and '$1.th' in k for k in about) else None, ev['at'], 'transactions are forgotten which the next block may still hold\n' + p.show(), 'old')
                said = any(fs.get('eq(%s.ts,const:0)' % x) is True for w in win) or any(y['k'] == 'set' and y['f'] == 'maxTSInDB' and y['args'][:1] == [w] for y in p.events[:i + 1] for w in win) \
                    or any(v is False and k.startswith('lt(') and k.endswith(',' + w + ')') and not k.startswith(mine) for k, v in fs.items() for w in win)
                late = any(y['k'] == 'set' and y['f'] == 'maxTSInDB' for y in p.events[i:])
                c.ob('forgotten', True if said else None if late else False, ev['at'], 'the database holds later transactions than is remembered\n' + p.show(), 'largest')
    return n
