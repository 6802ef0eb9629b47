"""G02: the node refuses state changes from read-only executions."""
from .. import gopaths

TITLE = 'The node refuses state changes from read-only executions'
PK = 'service/contract'
# what changes an account, by name, on anything declared in these packages
PREFIX = ('Set', 'Delete', 'Deploy', 'Init', 'Add', 'Withdraw', 'Accept', 'Reject', 'Activate', 'Pay', 'Clear', 'Migrate', 'Put', 'Pop', 'Reset')
WHERE = ('state.', 'containerdb.', 'scoredb.')
PURE = ['ReadOnlyMode', 'IsReadOnly']
# handlers that run below one that has asked, or outside contract calls: patches of a block, acceptance by the governance contract
BELOW = {'AcceptHandler', 'patchHandler', 'DSRHandler'}


def run(c):
    def f():
        go = gopaths.Go()
        try:
            L = go.run(dirs=[PK, 'service/eeproxy', 'service/state', 'common/containerdb', 'service/scoredb'], list=True)
            ifs = {d['iface']: d['methods'] for d in L if 'iface' in d}
            fns = [d['entry'] for d in L if 'entry' in d]
            mut = sorted({m for k, v in ifs.items() if k.split(':')[0] in ('service/state', 'common/containerdb') for m in v if m.startswith(PREFIX)}
                         | {e.split('.')[-1] for e in fns if e.split(':')[0] in ('common/containerdb', 'service/scoredb') and e.split('.')[-1].startswith(PREFIX)})
            mut = [m for m in mut if m != 'Reset' and not m.endswith('Enabled')]
            calls = mut + ['EnterReadOnlyMode', 'Invoke', 'PushBack']
            fields = ['readOnly', 'isReadOnly', 'forDeploy']
            served = ifs.get('service/eeproxy:CallContext', [])
            own = [e for e in fns if e.startswith(PK + ':') and e.split(':')[1].split('.')[0] in ('CallHandler', 'TransferAndCallHandler') and e.split('.')[-1] in served]
            sync = [e for e in fns if e.startswith(PK + ':') and e.split('.')[-1] in ('ExecuteSync', 'DoExecuteSync') and e.split(':')[1].split('.')[0] not in BELOW]
            # DoExecuteSync of a handler is analysed on its own too: transfer-and-call enters there
            top = [e for e in fns if e.startswith(PK + ':callContext.') and e.split('.')[-1][0].isupper()]
            R = gopaths.paths(c, go.run(dirs=[PK], calls=calls, fields=fields, pure=PURE, ask=PURE, loops=1, entries=own + sync + [PK + ':CallHandler.ensureMethodAndParams', PK + ':CallHandler.invokeEEMethod']))
            T = gopaths.paths(c, go.run(dirs=[PK], calls=['PushBack'], fields=fields, pure=PURE, ask=PURE, loops=1, limit=3000,
                                        entries=[e for e in top if e.split('.')[-1] in ('OnEvent', 'OnBTPMessage', 'AddBTPMessage', 'EmitEvent')]))
        finally:
            go.close()
        n = 0
        for e in own:
            info, ps = R.get(e, (None, []))
            for p in ps:
                n += 1
                for i, ev in p.calls(*mut):
                    if not ev.get('rt', '').startswith(WHERE):
                        continue
                    fs = p.facts(i)
                    ok = fs.get('$0.readOnly') is False or fs.get('$0.forDeploy') is True or any('ReadOnlyMode()' in k and v is False for k, v in fs.items())
                    c.ob('request-guarded', ok, ev['at'], '%s reaches %s.%s from an execution that may be read-only\n%s' % (e.split(':')[1], ev['rt'], ev['f'], p.show()),
                         '%s %s' % (e.split('.')[-1], ev['f']))
        for e in sync:
            info, ps = R.get(e, (None, []))
            for p in ps:
                n += 1
                for i, ev in p.calls(*mut):
                    if not ev.get('rt', '').startswith(WHERE):
                        continue
                    fs = p.facts(i)
                    ok = any('ReadOnlyMode()' in k and v is False for k, v in fs.items())
                    c.ob('handler-guarded', ok, ev['at'], '%s reaches %s.%s without having asked whether the call is read-only\n%s' % (e.split(':')[1], ev['rt'], ev['f'], p.show()),
                         '%s %s' % (e.split(':')[1], ev['f']))
        info, ps = R.get(PK + ':CallHandler.ensureMethodAndParams', (None, []))
        for p in ps:
            if p.how != 'return' or not p.ret or p.ret[0].startswith('error#') or p.ret[0].startswith(('New#', 'scoreresult.')):
                continue
            n += 1
            fs = p.facts()
            mro = [(k, v) for k, v in fs.items() if k.endswith('.IsReadOnly()')]
            cro = [(k, v) for k, v in fs.items() if k.endswith('.ReadOnlyMode()')]
            got = p.heap.get('$0.readOnly')
            err = fs.get('eq(%s,nil)' % p.ret[0])
            if p.ret[0] != 'nil' and err is False and got is None:
                continue
            if got is None and p.ret[0] != 'nil':
                continue                    # an error handed on before the method is known
            c.ob('mode-of-the-method', True if got and (got.endswith('.IsReadOnly()') or got == 'true') else None if got and got != 'false' else p.value(got) is True or any(v is False for k, v in mro),
                 info['at'], 'the handler takes the call for %s\n%s' % (got, p.show()))
            if fs.get('$0.forDeploy') is True:
                continue
            m = mro[0][1] if mro else None
            q = cro[0][1] if cro else None
            if m is not False and q is not True:
                c.ob('view-turns-read-only', bool(p.calls('EnterReadOnlyMode')), info['at'], 'a read-only method runs in a frame that may write\n' + p.show())
            if m is not True and q is not False:
                c.ob('writer-refused', False, info['at'], 'a method that may write is called from a read-only one\n' + p.show())
            c.ob('modes-compared', True, info['at'], '')
        info, ps = R.get(PK + ':CallHandler.invokeEEMethod', (None, []))
        for p in ps:
            for i, ev in p.calls('Invoke'):
                if len(ev.get('args') or []) > 6:
                    n += 1
                    fs = p.facts(i)
                    a = ev['args']
                    told = any('ReadOnlyMode()' in x for x in a) or any('.readOnly' in x for x in a)
                    if not told:
                        told = any(k.endswith('ReadOnlyMode()') for k in fs) and ('true' in a or 'false' in a)
                    c.ob('executor-told', told, ev['at'], 'the executor is not told that the call is read-only\n' + p.show())
        for e, (info, ps) in T.items():
            for p in ps:
                n += 1
                for i, ev in p.calls('PushBack'):
                    r = ev['recv'].lstrip('&')
                    if r.rsplit('.', 1)[-1] in ('eventLogs', 'btpMessages'):
                        fr = r.rsplit('.', 1)[0]
                        ok = p.value(fr + '.isReadOnly', p.facts(i)) is False
                        c.ob('frame-guarded', ok, ev['at'], '%s adds to %s of a frame that may be read-only\n%s' % (e.split(':')[1], r, p.show()), '%s %s' % (e.split('.')[-1], r.rsplit('.', 1)[-1]))
        c.notes.append('changing operations: ' + ', '.join(mut))
        c.notes.append('requests: %s; handlers: %s' % (', '.join(own), ', '.join(sync)))
        return n
    c.scenario('requests and handlers', f)
