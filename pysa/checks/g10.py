"""G10: coin is moved, not made: what one account gets another one had and lost."""
from .. import gopaths

TITLE = 'Coin is moved, not made, by transfers, deposits and fees'
CT, TX, HVH, SV = 'service/contract', 'service/transaction', 'havah/hvh', 'service'
BIG = ['Add', 'Sub', 'Neg', 'Mul', 'Set', 'SetInt64', 'NewInt', 'Cmp', 'Sign']
BAL = ['GetBalance', 'SetBalance', 'AddDeposit', 'WithdrawDeposit', 'Reset', 'addTotalSupply']

PURE = ['GetAccountState', 'ID']


class Poly(dict):
    """sum of products of unknown numbers"""
    def plus(self, o, k=1):
        r = Poly(self)
        for m, c in o.items():
            r[m] = r.get(m, 0) + k * c
            if not r[m]:
                del r[m]
        return r

    def times(self, o):
        r = Poly()
        for a, x in self.items():
            for b, y in o.items():
                m = tuple(sorted(a + b))
                r[m] = r.get(m, 0) + x * y
                if not r[m]:
                    del r[m]
        return r

    def __str__(self):
        return ' + '.join(('%d·' % c if c != 1 else '') + '·'.join(m) for m, c in self.items()) or '0'


def atom(t):
    if t.startswith('const:') and t[6:].lstrip('-').isdigit():
        n = int(t[6:])
        return Poly({(): n}) if n else Poly()
    return Poly({(t,): 1})


class Money:
    """numbers and balances along one path"""
    def __init__(self, p, upto=None):
        self.p = p
        self.val, self.same = {}, {}
        self.cmps, self.signs = [], []
        self.bal = {}                   # balance read: result -> (account, position)
        self.deltas = []                # account, change, position, event, how it was read
        self.other = Poly()
        self.dirty = -1                 # position of the last change of any balance
        self.at = {}
        for i, e in enumerate(p.events[:upto]):
            if e['k'] == 'call':
                self.step(i, e)

    def obj(self, t):
        t = t.lstrip('&')
        if t.endswith('.Int'):
            t = t[:-4]
        while t in self.same:
            t = self.same[t]
        return t

    def num(self, t):
        o = self.obj(t)
        if o in self.val:
            return self.val[o]
        if o.startswith('new#'):
            return Poly()
        return atom(o)

    def step(self, i, e):
        f, a, r, res = e['f'], e.get('args') or [], e.get('recv', ''), e.get('res')
        rt = e.get('rt', '')
        number = 'big.Int' in rt or 'HexInt' in rt or f == 'NewInt'
        if f in ('Add', 'Sub', 'Mul') and len(a) == 2 and number:
            x, y = self.num(a[0]), self.num(a[1])
            v = x.plus(y) if f == 'Add' else x.plus(y, -1) if f == 'Sub' else x.times(y)
        elif f == 'Neg' and len(a) == 1 and number:
            v = Poly().plus(self.num(a[0]), -1)
        elif f == 'Set' and len(a) == 1 and number:
            v = self.num(a[0])
        elif f == 'SetInt64' and number:
            v = atom(a[0])
        elif f == 'NewInt':
            self.val[res] = atom(a[0]) if a else Poly()
            return
        elif f == 'Cmp' and number:
            self.cmps.append((i, res, self.num(r), self.num(a[0])))
            return
        elif f == 'Sign' and number:
            self.signs.append((i, res, self.num(r)))
            return
        elif f == 'GetBalance':
            old = [t for t, (x, j) in self.bal.items() if x == r and j > self.dirty]
            if old:
                self.val[res] = atom(old[0])
            else:
                self.bal[res] = (r, i)
            return
        elif f == 'SetBalance':
            new = self.num(a[0])
            reads = [(m[0], c) for m, c in new.items() if len(m) == 1 and m[0] in self.bal]
            own = [(t, c) for t, c in reads if self.bal[t][0] == r and c == 1]
            if len(own) == 1 and len(reads) == 1:
                t = own[0][0]
                d = new.plus(atom(t), -1)
                self.deltas.append((r, d, i, e, t if self.bal[t][1] > self.dirty else False, new))
            else:
                self.deltas.append((r, None, i, e, None, new))
            self.dirty = i
            return
        elif f == 'Reset':
            self.dirty = i
            return
        elif f == 'AddDeposit':
            self.other = self.other.plus(self.num(a[-1]))
            return
        elif f == 'WithdrawDeposit':
            self.other = self.other.plus(atom(res + '.0'), -1).plus(atom(res + '.1'), -1)
            return
        else:
            return
        o = self.obj(r)
        self.val[o] = v
        if res:
            self.same[res] = o

    def outcomes(self, fs, t):
        s = {-1, 0, 1}
        for k in (-1, 0, 1):
            v = fs.get('eq(%s,const:%d)' % (t, k))
            if v is not None:
                s &= {k} if v else {-1, 0, 1} - {k}
        for key, q in (('lt(%s,const:0)', {-1}), ('lt(const:0,%s)', {1}), ('lt(%s,const:1)', {-1, 0}), ('lt(const:-1,%s)', {0, 1})):
            v = fs.get(key % t)
            if v is not None:
                s &= q if v else {-1, 0, 1} - q
        return s

    def feasible(self):
        """no number is compared with two outcomes, nothing that cannot be nil is"""
        fs = self.p.facts()
        seen = {}
        for i, t, x in self.signs:
            k = tuple(sorted(x.items()))
            s = seen.setdefault(k, {-1, 0, 1})
            s &= self.outcomes(fs, t)
            if not x:
                s &= {0}
            if not s:
                return False
        for i, t, x, y in self.cmps:
            d = x.plus(y, -1)
            for k, m in ((d, 1), (Poly().plus(d, -1), -1)):
                s = seen.setdefault(tuple(sorted(k.items())), {-1, 0, 1})
                s &= {m * o for o in self.outcomes(fs, t)}
                if not k:
                    s &= {0}
                if not s:
                    return False
        return not any(v and (k.startswith(('eq(NewInt#', 'eq(new#', 'eq(scoreresult.Err', 'eq(StepUsed#', 'eq(StepPrice#', 'eq(Mul#', 'eq(Sub#', 'eq(Add#'))) and k.endswith(',nil)') for k, v in fs.items())

    def sign(self, fs, t, want):
        """is the three-way result `t` known to be `want` ('>=' or '<=')"""
        neg, pos = fs.get('lt(%s,const:0)' % t), fs.get('lt(const:0,%s)' % t)
        m1, p1, z = (fs.get('eq(%s,const:%d)' % (t, k)) for k in (-1, 1, 0))
        if want == '>=':
            return neg is False or m1 is False or pos is True or p1 is True or z is True
        return pos is False or p1 is False or neg is True or m1 is True or z is True

    def covered(self, t, amount, i, new):
        """the balance read as `t` is known to be at least `amount`, before position i"""
        fs = self.p.facts(i)
        for j, r, x, y in self.cmps:
            if j < i and x == atom(t) and y == amount and self.sign(fs, r, '>='):
                return True
            if j < i and y == atom(t) and x == amount and self.sign(fs, r, '<='):
                return True
        return any(j < i and x == new and self.sign(fs, r, '>=') for j, r, x in self.signs)

    def nonneg(self, amount, i):
        fs = self.p.facts(i)
        return any(j < i and x == amount and self.sign(fs, r, '>=') for j, r, x in self.signs)


KNOWN = ('GetBalance', 'WithdrawDeposit', 'RedeemSteps', 'NewInt', 'StepUsed', 'StepPrice', 'GetStepLimit', 'addTotalSupply', 'BigInt', 'StepsFor')


def unknown(x):
    """some of it comes from a function which was not looked into"""
    return any('#' in a and a.split('#')[0] not in KNOWN for m in x for a in m)


def unless(ok, *xs):
    """not decided where numbers are not known"""
    return ok or (None if any(unknown(x) for x in xs) else False)


def ended_well(p, k):
    r = p.ret[k] if p.ret else 'nil'
    return r == 'nil' or p.value('eq(%s,nil)' % r) is True


def run(c):
    def f():
        go = gopaths.Go()
        try:
            A = gopaths.paths(c, go.run(dirs=[CT], calls=BIG + BAL, pure=PURE, loops=1, entries=[CT + ':TransferHandler.DoExecuteSync', CT + ':DepositHandler.ExecuteSync']))
            B = gopaths.paths(c, go.run(dirs=[TX], calls=BIG + BAL, pure=PURE, loops=1, entries=[TX + ':transactionV2.Execute']))
            E = gopaths.paths(c, go.run(dirs=[TX], calls=BIG + BAL + ['RedeemSteps', 'ClearRedeemLogs', 'SetResult', 'StepUsed', 'StepPrice', 'StatusOf', 'GetEventLogs', 'GetBTPMessages', 'DoExecute'], pure=PURE + ['LegacyFeeCharge', 'Revision'],
                                        opaque=['transactionHandler.DoExecute'], loops=2, entries=[TX + ':transactionHandler.Execute']))
            H = gopaths.paths(c, go.run(dirs=[HVH], calls=BIG + BAL + ['Equal'], pure=PURE + ['Equal'], opaque=['callContext.addTotalSupply'], loops=1,
                                        entries=[HVH + ':callContext.' + x for x in ('Issue', 'Burn', 'Transfer')]))
            S = gopaths.paths(c, go.run(dirs=[HVH], calls=BIG + ['BigInt', 'Set'], loops=1, entries=[HVH + ':callContext.addTotalSupply']))
        finally:
            go.close()
        n = 0
        moved = set()
        for e, (info, ps) in [x for R in (A, B, E, H) for x in R.items()]:
            name = e.split(':')[1]
            for p in ps:
                n += 1
                m = Money(p)
                if not m.feasible():
                    continue
                for acc, d, i, ev, t, new in m.deltas:
                    moved.add(name)
                    c.ob('from-its-balance', unless(d is not None, new), ev['at'], '%s sets a balance to %s, which is not its balance and a change\n%s' % (name, new, p.show()), name)
                    if d is None:
                        continue
                    c.ob('balance-is-current', t is not False, ev['at'], '%s uses a balance read before another one was changed (both accounts may be the same)\n%s' % (name, p.show()), name)
                    out = Poly({k: -v for k, v in d.items() if v < 0})
                    inn = Poly({k: v for k, v in d.items() if v > 0})
                    if out and t:
                        c.ob('payer-has-it', unless(m.covered(t, out.plus(inn, -1), i, new), out, inn), ev['at'], '%s takes %s from a balance which may be smaller\n%s' % (name, out, p.show()), name)
                    if name.split('.')[0] in ('TransferHandler', 'DepositHandler', 'callContext') and len(d) == 1:
                        for mono, k in d.items():
                            a = Poly({mono: 1})
                            if mono and '.' in mono[0] and mono[0].startswith('WithdrawDeposit'):
                                continue
                            c.ob('amount-not-negative', unless(m.nonneg(a, i), a), ev['at'], '%s moves an amount which may be negative\n%s' % (name, p.show()), name)
                if name == 'transactionHandler.Execute' or p.how != 'return':
                    continue
                k = -1 if name.startswith(('callContext', 'transactionV2')) else 0
                if not ended_well(p, k):
                    continue
                if any(d is None for _, d, *_ in m.deltas):
                    continue
                total = m.other
                for _, d, *_ in m.deltas:
                    total = total.plus(d)
                if name == 'transactionV2.Execute':
                    # the fixed fee goes to the treasury by way of the receipt
                    ok = not m.deltas or len(m.deltas) == 2 and len(total) == 1 and all(v == -1 and 'Fee' in k[0] for k, v in total.items())
                else:
                    for j, s in p.calls('addTotalSupply'):
                        total = total.plus(m.num(s['args'][0]), -1)
                    ok = not total
                c.ob('nothing-made-or-lost', unless(ok, total), info['at'], '%s changes the sum of all balances by %s\n%s' % (name, total, p.show()), name)
                if name == 'callContext.Transfer' and not m.deltas:
                    z = any(s[2] and m.sign(p.facts(), s[1], '>=') and m.sign(p.facts(), s[1], '<=') for s in m.signs)
                    z = z or any(v and '.Equal(' in q for q, v in p.facts().items()) or any(v and q.startswith('eq(Sign#') and q.endswith('const:0)') for q, v in p.facts().items())
                    c.ob('transfer-done', z, info['at'], 'nothing is moved by a transfer which succeeds\n' + p.show(), name)
        for x in ('TransferHandler.DoExecuteSync', 'DepositHandler.ExecuteSync', 'transactionHandler.Execute', 'callContext.Transfer', 'callContext.Issue', 'callContext.Burn'):
            c.ob('moves', True if x in moved else None, x, 'no change of a balance was found in ' + x, x)
        # the fee is what the receipt says
        for e, (info, ps) in E.items():
            for p in ps:
                rs = p.calls('SetResult')
                if p.how != 'return' or not rs or not ended_well(p, -1):
                    continue
                ri, r = rs[-1]
                m = Money(p, ri)
                if not m.feasible():
                    continue
                n += 1
                fs = p.facts(ri)
                paid = Poly()
                for acc, d, *_ in m.deltas:
                    paid = paid.plus(d, -1) if d is not None else paid
                used, price = m.num(r['args'][1]), m.num(r['args'][2])
                want = used.times(price)
                red = [x for j, x in p.calls('RedeemSteps') if j < ri]
                clr = [j for j, x in p.calls('ClearRedeemLogs') if j < ri]
                if red and not clr and fs.get('eq(%s.0,nil)' % red[-1]['res']) is False:
                    want = want.plus(atom(red[-1]['res'] + '.0').times(price), -1)
                c.ob('fee-is-as-told', unless(len(m.deltas) == 1 and paid == want, paid, want), r['at'], 'the fee is %s, the receipt tells of %s\n%s' % (paid, want, p.show()))
                # steps told: what was used, or the least a transaction costs
                mins = [x for j, x in p.calls('NewInt')]
                su = [x['res'] for j, x in p.calls('StepUsed')]
                ok = not used
                for t in su:
                    least = [y for j, q, x, y in m.cmps if x == atom(t)] + [x for j, q, x, y in m.cmps if y == atom(t)]
                    if used == atom(t):
                        ok = any((x == atom(t) and y in least and m.sign(fs, q, '>=')) or (y == atom(t) and x in least and m.sign(fs, q, '<=')) for j, q, x, y in m.cmps)
                    elif used in least:
                        ok = True
                c.ob('steps-at-least-the-minimum', unless(ok, used), r['at'], 'the receipt tells of %s steps\n%s' % (used, p.show()))
                # a transaction which cannot pay leaves nothing but the fee
                st = [(j, x) for j, x in p.calls('StatusOf') if j < ri]
                de = [x for j, x in p.calls('DoExecute')]
                if st and de:
                    fin = st[-1][1]['args'][0]
                    was = p.value('eq(%s.0,nil)' % de[0]['res'])
                    if fin != de[0]['res'] + '.0' and was is not False:
                        rst = [j for j, x in p.calls('Reset') if '$2' in (x.get('args') or [])]
                        sb = [j for j, x in p.calls('SetBalance')]
                        c.ob('unpaid-undone', bool(rst) and bool(sb) and rst[-1] < sb[0], r['at'], 'a transaction is failed after it ran, and what it did stays\n' + p.show())
                    good = fin == 'nil' or p.value('eq(%s,nil)' % fin) is True
                    logs = [x for x in ('GetEventLogs', 'GetBTPMessages') if p.calls(x)]
                    c.ob('logs-of-success-only', bool(len(logs) == 2) if good else not logs, r['at'], 'the receipt of a %s transaction has %s\n%s' % ('successful' if good else 'failed', logs, p.show()))
        # the total supply follows
        for e, (info, ps) in S.items():
            for p in ps:
                if p.how != 'return' or not p.ret or p.ret[0] == 'nil':
                    continue
                st = [(i, x) for i, x in p.calls('Set') if 'big' not in x.get('rt', '')]
                n += 1
                m = Money(p)
                rd = [x['res'] for i, x in p.calls('BigInt')]
                zero = any(p.value('eq(%s,nil)' % t) is True for t in rd)
                want = atom('$1') if zero else atom(rd[-1]).plus(atom('$1')) if rd else None
                c.ob('supply-follows', len(st) == 1 and want is not None and m.num(st[0][1]['args'][0]) == want, info['at'], 'the total supply becomes %s\n%s' % (m.num(st[0][1]['args'][0]) if st else 'nothing', p.show()))
        c.samples.extend(p.show()[:800] for e, (i, q) in list(E.items())[:1] for p in q[-1:])
        return n
    c.scenario('balances', f)
