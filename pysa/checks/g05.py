"""G05: operations of the system contract reserved to somebody ask who calls first."""
import re

from .. import gopaths

TITLE = 'Operations of the system contract reserved to a role check the caller first'
PK, HVH, ST = 'havah', 'havah/hvh', 'havah/hvh/hvhstate'
PREFIX = ('Set', 'Add', 'Remove', 'Register', 'Unregister', 'Open', 'Close', 'Withdraw', 'Start', 'Migrate', 'Put', 'Pop', 'Delete', 'Transfer', 'Burn', 'Deposit', 'Enable', 'Disable',
          'OnEvent', 'OnBTPMessage', 'Report', 'Claim', 'Issue', 'Offer', 'Init', 'HandleMessage', 'Activate', 'Deploy', 'Reset')
NOT = {'SetLogger', 'SetBaseTxInvoked', 'SetTraceLogger', 'OnBaseTx'}
GOV = ('setRevision', 'setStepPrice', 'setStepCost', 'setMaxStepLimit', 'setRoundLimitFactor', 'addDeployer', 'removeDeployer', 'setTimestampThreshold', 'grantValidator',
       'revokeValidator', 'openBTPNetwork', 'closeBTPNetwork', 'setUSDTPrice', 'startRewardIssue', 'addPlanetManager', 'removePlanetManager', 'setPrivateClaimableRate',
       'withdrawLostTo', 'setBlockVoteCheckParameters', 'registerValidator', 'setActiveValidatorCount')
NFT = ('registerPlanet', 'unregisterPlanet', 'setPlanetOwner')


def run(c):
    def f():
        go = gopaths.Go()
        try:
            L = go.run(dirs=[PK, HVH, ST, 'havah/hvhmodule', 'service/state', 'service/scoredb', 'common/containerdb'], list=True)
            fns = [d['entry'] for d in L if 'entry' in d]
            names = {m for d in L if 'iface' in d for m in d['methods']} | {e.split(':')[1].split('.')[-1] for e in fns}
            eff = sorted(m for m in names if m not in NOT and any(m.startswith(x) and not m[len(x):len(x) + 1].islower() for x in PREFIX))
            low = sorted(m for m in names if m.startswith('set') and m[3:4].isupper())
            consts = {d['const'].split(':')[-1].split('.')[-1]: d['value'] for d in L if 'const' in d}
            pure = ['Equal', 'Revision', 'Value', 'From', 'Governance', 'ContractOwner', 'Owner', 'GetPlanet']
            ex = [e for e in fns if e.startswith(PK + ':chainScore.Ex_')]
            skip = ['chainScore.getExtensionState', 'chainScore.getExtensionStateAndContext', 'chainScore.handleRevisionChange', 'chainScore.GetAPI']
            R = gopaths.paths(c, go.run(dirs=[PK], calls=eff + ['IsPlanetManager', 'handleRevisionChange'], fields=['gov', 'from'], pure=pure, ask=['Governance', 'From', 'ContractOwner', 'Owner'], opaque=skip, loops=1,
                                        entries=ex + [PK + ':newChainScore']))
            E = gopaths.paths(c, go.run(dirs=[HVH], calls=eff + low, pure=pure, ask=['Governance', 'From', 'ContractOwner', 'Owner'], loops=1, opaque=['replaceActiveValidatorAddress'],
                                        entries=[HVH + ':ExtensionStateImpl.' + x for x in ('UnregisterValidator', 'EnableValidator', 'SetValidatorInfo', 'SetNodePublicKey', 'SetBTPPublicKey', 'ClaimPlanetReward')]
                                        + [HVH + ':callContext.SetScoreOwner']))
            S = gopaths.paths(c, go.run(dirs=[ST], calls=eff + low + ['claim'], pure=pure, ask=['Governance', 'From', 'ContractOwner', 'Owner'], loops=1, entries=[ST + ':State.ClaimPlanetReward']))
        finally:
            go.close()
        n = 0
        done = set()
        early = []

        def says(fs, a, b, want=True):
            return any(v is want and a in k and b in k and '.Equal(' in k for k, v in fs.items())
        for e, (info, ps) in R.items():
            m = e.split('Ex_')[-1] if 'Ex_' in e else None
            if m not in GOV and m not in NFT and m != 'reportPlanetWork':
                continue
            for p in ps:
                n += 1
                for i, ev in p.calls(*(eff + ['handleRevisionChange'])):
                    if ev.get('rt', '').endswith('big.Int') or ev.get('rt', '').startswith('common.Hex'):
                        continue
                    done.add(m)
                    fs = p.facts(i)
                    key = '%s %s' % (m, ev['f'])
                    if m in GOV:
                        ok = fs.get('$0.gov') is True or says(fs, 'Governance()', '$0.from')
                        if m == 'setUSDTPrice' and not ok:
                            # free before the revision that closed it
                            rev = {k: v for k, v in fs.items() if 'Revision()' in k}
                            fix = re.match(r'const:(\d+)$', str(consts.get('RevisionFixAccessControl')))
                            old = [(int(x.group(1)), v) for x, v in ((re.match(r'lt\(.*\.Value\(\),const:(\d+)\)$', k), v) for k, v in rev.items()) if x]
                            # the revision is known to be below the one that closed it
                            ok = None if not fix or len(rev) > len(old) else any(v and k <= int(fix.group(1)) for k, v in old)
                        c.ob('governance-only', ok, ev['at'], '%s reaches %s for callers other than governance\n%s' % (m, ev['f'], p.show()), key)
                    elif m in NFT:
                        c.ob('planet-contract-only', says(fs, 'PlanetNFT', '$0.from'), ev['at'], '%s reaches %s for callers other than the planet contract\n%s' % (m, ev['f'], p.show()), key)
                    else:
                        asked = [x for j, x in p.calls('IsPlanetManager') if j < i and '$0.from' in (x.get('args') or [])]
                        ok = any(fs.get(x['res'] + '.0') is True for x in asked)
                        good = any(fs.get('eq(%s.1,nil)' % x['res']) is True for x in asked)
                        c.ob('planet-manager-only', ok and good, ev['at'], 'work is reported for callers who are not known to be planet managers\n' + p.show(), key)
        for m in GOV + NFT + ('reportPlanetWork',):
            c.ob('role-known', True if m in done else None, PK, 'no effect of %s was found' % m, m)
        # the flag tells whether governance calls
        info, ps = R.get(PK + ':newChainScore', (None, []))
        for p in ps:
            if p.how != 'return' or not p.ret:
                continue
            n += 1
            g = p.heap.get(p.ret[0].lstrip('&') + '.gov')
            if g is None and p.ret[0].lstrip('&').startswith('new#'):
                g = 'false'
            if g is None:
                c.ob('governance-flag', None, info['at'], 'what the flag is set to is not known\n' + p.show())
                continue
            fr = ['$%d' % (i + 1) for i, t in enumerate(info['params']) if t.endswith('Address')]
            ok = '.Equal(' in g and 'Governance()' in g and any(x in g for x in fr) and not g.startswith('!')
            if not ok and g in ('true', 'false'):
                ok = any((v is (g == 'true')) and '.Equal(' in k and 'Governance()' in k and any(x in k for x in fr) for k, v in p.facts().items())
            c.ob('governance-flag', ok, info['at'], 'the caller counts as governance if %s\n%s' % (g, p.show()))
        # what belongs to an owner
        for e, (info, ps) in list(E.items()) + list(S.items()):
            m = e.split('.')[-1]
            adr = ['$%d' % (i + 1) for i, t in enumerate(info['params']) if t.endswith('Address')]
            for p in ps:
                n += 1
                for i, ev in p.calls(*(eff + low + ['claim'])):
                    a = ev.get('args') or []
                    fs = p.facts(i)
                    key = '%s %s' % (m, ev['f'])
                    if m in ('UnregisterValidator', 'EnableValidator'):
                        ok = any(says(fs, 'From()', x) for x in adr) or says(fs, 'From()', 'Governance()')
                        c.ob('owner-only', ok, ev['at'], '%s reaches %s for callers who are neither the owner nor governance\n%s' % (m, ev['f'], p.show()), key)
                    elif m in ('SetValidatorInfo', 'SetNodePublicKey') and ev['f'] == m:
                        c.ob('own-entry', bool(a) and a[0].endswith('.From()'), ev['at'], '%s changes the entry of %s\n%s' % (m, a[:1], p.show()), key)
                    elif m == 'ClaimPlanetReward' and e.startswith(HVH) and ev['f'] == m:
                        c.ob('own-reward', any(x.endswith('.From()') for x in a), ev['at'], 'rewards of %s are claimed\n%s' % (a, p.show()), key)
                    elif m == 'ClaimPlanetReward' and e.startswith(HVH) and ev['f'] == 'Transfer':
                        c.ob('own-reward', len(a) > 1 and a[1].endswith('.From()'), ev['at'], 'the reward goes to %s\n%s' % (a[1:2], p.show()), key)
                    elif m == 'ClaimPlanetReward' and e.startswith(ST) and ev['f'] in ('claim', 'setPlanetReward'):
                        c.ob('planet-owner-only', any(says(fs, '.Owner()', x) for x in adr), ev['at'], 'the reward of a planet is taken by somebody else\n' + p.show(), key)
                    elif m == 'SetScoreOwner' and ev['f'] == 'SetContractOwner':
                        c.ob('score-owner-only', bool(adr) and says(fs, 'ContractOwner()', adr[0]), ev['at'], 'a contract is given away by somebody who does not own it\n' + p.show(), key)
        c.notes.append('changing operations: ' + ', '.join(eff))
        c.notes.append('open to everybody or to owners: ' + ', '.join(sorted(e.split('Ex_')[-1] for e in ex if e.split('Ex_')[-1] not in GOV + NFT)))
        c.samples.extend(p.show()[:600] for e, (i, q) in list(R.items())[:2] for p in q[-1:])
        return n
    c.scenario('operations', f)
