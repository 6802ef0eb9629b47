"""G04: what a validator signs is on disk before it is on the network."""
from .. import gopaths

TITLE = 'A consensus vote is on disk before it is on the network'
PK = 'consensus'
SENDS = ['Broadcast', 'Multicast', 'Unicast']
SIGNED = ('ProtoProposal', 'ProtoVote')


def nil(p, t, fs):
    """the error `t` is known to be nil"""
    return t is not None and (t == 'nil' or p.value('eq(%s,nil)' % t, fs) is True)


def err_of(e, n):
    """the term of the error a call returned, given how many values it returns"""
    return e['res'] if n == 1 else '%s.%d' % (e['res'], n - 1)


def run(c):
    def f():
        go = gopaths.Go()
        try:
            L = go.run(dirs=[PK], list=True)
            fns = [d['entry'] for d in L if 'entry' in d]
            consts = {d['const'].split(':')[-1].split('.')[-1]: d['value'] for d in L if 'const' in d}
            roots = [PK + ':consensus.' + x for x in ('sendProposal', 'sendVote') if PK + ':consensus.' + x in fns]
            # what happens after the message is sent, and other steps of the state machine, are not part of the sending
            opaque = [e.split(':')[1] for e in fns if e.split('.')[-1].startswith(('enter', 'Receive', 'On', 'notify', 'process', 'commit'))]
            R = gopaths.paths(c, go.run(dirs=[PK], calls=SENDS + ['WriteMessageBytes', 'WriteMessage', 'Sync', 'MarshalToBytes', 'Sign'], opaque=opaque, loops=1, entries=roots))
            K = gopaths.paths(c, go.run(dirs=[PK], calls=['Assign', 'WriteMessage', 'WriteMessageBytes', 'Sync', 'sendVote'], loops=1,
                                        opaque=[x for x in opaque if x != 'consensus.enterPrecommit'] + ['consensus.sendVote'], entries=[PK + ':consensus.enterPrecommit']))
            W = gopaths.paths(c, go.run(dirs=[PK], calls=['Flush', 'Sync', 'Write', 'WriteBytes'], loops=1,
                                        entries=[PK + ':walWriter.Sync', PK + ':walWriter.WriteBytes', PK + ':walWriter.shift', PK + ':WalMessageWriter.WriteMessageBytes', PK + ':WalMessageWriter.WriteMessage']))
        finally:
            go.close()
        signed = {'const:%s' % consts[x] if not str(consts[x]).startswith('const:') else consts[x]: x for x in SIGNED if x in consts}
        n = 0
        seen = set()
        for e in roots:
            info, ps = R.get(e, (None, []))
            for p in ps:
                n += 1
                for i, ev in p.calls(*SENDS):
                    a = ev.get('args') or []
                    if len(a) < 2 or a[0] not in signed and a[0] not in ['consensus.' + x for x in SIGNED]:
                        continue
                    what = signed.get(a[0], a[0])
                    seen.add(what)
                    fs = p.facts(i)
                    before = p.calls()
                    ws = [(j, w) for j, w in before if j < i and w['f'] == 'WriteMessageBytes' and 'roundWAL' in w['recv'] and a[1] in (w.get('args') or [])]
                    key = '%s %s' % (e.split('.')[-1], what)
                    if not ws and not a[1].startswith('MarshalToBytes'):
                        c.ob('written-first', None, ev['at'], 'where the bytes sent come from is not known: %s\n%s' % (a[1], p.show()), key)
                        continue
                    c.ob('written-first', bool(ws), ev['at'], '%s sends %s which is not in the log\n%s' % (e.split(':')[1], what, p.show()), key)
                    if not ws:
                        continue
                    j, w = ws[-1]
                    ss = [(k, s) for k, s in before if j < k < i and s['f'] == 'Sync' and 'roundWAL' in s['recv']]
                    c.ob('synced-first', bool(ss), ev['at'], '%s sends %s before the log is on disk\n%s' % (e.split(':')[1], what, p.show()), key)
                    c.ob('written-well', nil(p, w.get('res'), fs), ev['at'], '%s sends %s though writing the log may have failed\n%s' % (e.split(':')[1], what, p.show()), key)
                    if ss:
                        c.ob('synced-well', any(nil(p, s.get('res'), fs) for k, s in ss), ev['at'], '%s sends %s though syncing the log may have failed\n%s' % (e.split(':')[1], what, p.show()), key)
        for x in SIGNED:
            c.ob('sending-found', True if x in seen else None, PK, 'where %s is sent was not found' % x, x)
        # the block locked on is in the lock log before the vote that tells of it
        for e, (info, ps) in K.items():
            for p in ps:
                n += 1
                cs = p.calls()
                for i, ev in cs:
                    if ev['f'] != 'Assign' or 'lockedBlockParts' not in ev['recv']:
                        continue
                    v = [j for j, w in cs if j > i and w['f'] == 'sendVote']
                    if not v:
                        continue
                    ws = [j for j, w in cs if i < j < v[0] and w['f'].startswith('WriteMessage') and 'lockWAL' in w['recv']]
                    ss = [j for j, w in cs if i < j < v[0] and w['f'] == 'Sync' and 'lockWAL' in w['recv']]
                    c.ob('lock-first', bool(ws) and bool(ss) and max(ws) < max(ss), info['at'], 'the vote for a newly locked block is sent before the lock is on disk\n' + p.show(), 'precommit')
        # the log itself
        for e, (info, ps) in W.items():
            name = e.split(':')[1]
            for p in ps:
                n += 1
                if p.how != 'return' or not p.ret:
                    continue
                fs = p.facts()
                r = p.ret[-1]
                if p.value('eq(%s,nil)' % r, fs) is False or r.startswith(('WithStack', 'Errorf', 'New#', 'Wrap')):
                    continue
                cs = p.calls()
                if name.endswith(('.Sync', '.shift')):
                    fl = [(i, x) for i, x in cs if x['f'] == 'Flush']
                    fy = [(i, x) for i, x in cs if x['f'] == 'Sync' and not x['recv'].endswith('.WALWriter') and x['recv'] != '$0']
                    ok = bool(fl) and bool(fy) and fl[-1][0] < fy[-1][0]
                    c.ob('sync-is-durable', ok, info['at'], '%s returns without flushing the buffer and then the file\n%s' % (name, p.show()), name)
                    if ok:
                        c.ob('sync-is-durable', all(nil(p, x.get('res'), fs) or r == x.get('res') for x in (fl[-1][1], fy[-1][1])), info['at'], '%s hides a failure\n%s' % (name, p.show()), name)
                else:
                    want = 'Write' if name.endswith('WriteBytes') else 'WriteBytes'
                    wr = [(i, x) for i, x in cs if x['f'] == want]
                    c.ob('write-is-whole', bool(wr), info['at'], '%s returns without writing\n%s' % (name, p.show()), name)
                    if wr:
                        t = wr[-1][1].get('res') + '.1'
                        c.ob('write-is-whole', r == t or nil(p, t, fs), info['at'], '%s hides a failure (%s)\n%s' % (name, r, p.show()), name)
        c.samples.extend(p.show()[:600] for e, (i, q) in list(R.items())[:2] for p in q[-1:])
        return n
    c.scenario('sending and log', f)
