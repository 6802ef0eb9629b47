"""C24: the code that runs is the code the request names."""
from ..kit import *
from .. import world as w

TITLE = 'The code that runs is the code the request names'

TEXT = '''from iconservice import *
import vp

%(top)s
vp.mark('loaded', %(token)r)


class Unrelated(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        vp.mark('made', 'another class')

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external
    def run(self, how: str):
        vp.mark('ran', 'another class', self.address.to_bytes(), self.db.address.to_bytes(), 0)


class %(cls)s(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        vp.mark('made', %(token)r)
        super().__init__(db)
        self._count = 0
        self._seen = []

    def on_install(self) -> None:
        super().on_install()
        vp.mark('ran', %(token)r, self.address.to_bytes(), self.db.address.to_bytes(), 0)

    def on_update(self) -> None:
        super().on_update()
        vp.mark('ran', %(token)r, self.address.to_bytes(), self.db.address.to_bytes(), 0)

    @payable
    def fallback(self):
        vp.mark('ran', %(token)r, self.address.to_bytes(), self.db.address.to_bytes(), 0)

    @external
    def run(self, how: str):
        before = self._count + len(self._seen) + len(getattr(self, 'extra', ''))
        self._count += 1
        self._seen.append(how)
        self.extra = 'x'
        vp.mark('ran', %(token)r, self.address.to_bytes(), self.db.address.to_bytes(), before)
        if how == 'call':
            try:
                self.call(Address.from_string('cx' + '11' * 20), 'run', {'how': 'x'})
            finally:
                vp.mark('ran', %(token)r, self.address.to_bytes(), self.db.address.to_bytes(), self._count - 1)
        if how == 'fail':
            raise ValueError('no')
        if how == 'exit':
            raise SystemExit()

    @external(readonly=True)
    def look(self) -> int:
        vp.mark('ran', %(token)r, self.address.to_bytes(), self.db.address.to_bytes(), self._count)
        return self._count
'''
HASH = '0x' + '1f' * 32


class Package:
    """a package in the node's store; `until`: the requests before which it cannot be loaded, and why"""
    def __init__(self, name, json=None, cls='Score', module='main', top='', ok=True, until=0, why=None):
        self.name, self.cls, self.module, self.top, self.ok, self.until, self.why = name, cls, module, top, ok, until, why
        self.json = json if json is not None else {'version': '0.1.0', 'main_module': module, 'main_score': cls}
        self.path = '/scores/' + name

    @property
    def token(self):
        return self.name

    def install(self, W):
        v = W.I.virtual
        v[self.name] = ''
        parts = self.module.split('.')
        for i in range(1, len(parts)):
            v['.'.join([self.name] + parts[:i])] = ''
        v[self.name + '.' + self.module] = TEXT % {'token': self.token, 'cls': self.cls, 'top': self.top}


PACKAGES = [
    Package(HASH), Package(HASH[:-1] + 'e'), Package('0x2' + HASH[3:]), Package(HASH[:20] + '0' + HASH[21:]), Package(HASH + '00'), Package(HASH[:-2]), Package('0X' + HASH[2:]),
    Package('0x' + '1F' * 32),
    Package('sub1', module='deep.inner.entry'), Package('file1', json={'version': '1', 'main_file': 'start', 'main_score': 'Score'}, module='start'),
    Package('both1', json={'version': '1', 'main_file': 'wrong', 'main_module': 'right', 'main_score': 'Score'}, module='right'),
    Package('odd1', json={'version': '1', 'main_module': 5, 'main_file': 'start', 'main_score': 'Score'}, module='start'),
    Package('cls1', cls='Token'), Package('name1', cls='main'), Package('same_main', module='same_main'),
]
BROKEN = [
    Package('bad_raises', top="raise ValueError('no')", ok=False), Package('bad_exits', top='raise SystemExit()', ok=False),
    Package('bad_score', json={'version': '1', 'main_module': 'main', 'main_score': 'Missing'}, ok=False),
    Package('bad_noscore', json={'version': '1', 'main_module': 'main'}, ok=False), Package('bad_nomodule', json={'version': '1', 'main_score': 'Score'}, ok=False),
    Package('bad_relative', json={'version': '1', 'main_module': '.main', 'main_score': 'Score'}, ok=False),
    Package('bad_late', top="class Late(IconScoreBase):\n    @external\n    def f(self, a: float):\n        pass\n", ok=False),
]
LATE = [Package('late_' + why, until=n, why=why) for n, why in ((1, 'missing'), (2, 'missing'), (1, 'unreadable'), (1, 'json'), (1, 'score'), (1, 'module'))]
for i, p in enumerate(LATE):
    p.name += str(i)
    p.path += str(i)


def world(packages):
    W = make([])
    by = {p.path: p for p in packages}
    for p in packages:
        p.install(W)

    def early(st, p, why):
        return p.why == why and sum(1 for e in st.trace if e.kind == 'recv' and e.args[0] == 'request') <= p.until

    def of(path):
        for p in packages:
            if path == p.path or path.startswith(p.path + '/'):
                return p

    def known(v):
        return isinstance(v, K) and isinstance(v.v, str)
    h = W.I.hooks
    old = {n: h.get(n) for n in ('os.path.exists', 'os.path.isdir', 'open', 'json.load', 'importlib.import_module')}

    def exists(I, st, a, k):
        p = of(a[0].v) if known(a[0]) else None
        if p is None:
            return [(st, FALSE)] if known(a[0]) and a[0].v.startswith('/scores') else old['os.path.exists'](I, st, a, k)
        return [(st, kb(not early(st, p, 'missing')))]

    def opened(I, st, a, k):
        p = of(a[0].v) if known(a[0]) else None
        if p is None and known(a[0]) and a[0].v.startswith('/scores') or p is not None and (early(st, p, 'missing') or early(st, p, 'unreadable')):
            return I.exc(st, FileNotFoundError, K('no such file'))
        return old['open'](I, st, a, k)

    def load(I, st, a, k):
        path = st.get(a[0]).fields['path']
        p = of(path.v) if known(path) else None
        if p is None:
            raise AnalysisError('package description of an unknown package')
        if path.v != p.path + '/package.json':
            raise AnalysisError('another file')
        if early(st, p, 'json'):
            return I.exc(st, ValueError, K('not JSON'))
        d = dict(p.json)
        if early(st, p, 'score'):
            d['main_score'] = 'Missing'
        if early(st, p, 'module'):
            d['main_module'] = 'absent'
        st, v = I.new_dict(st, [(K(x), K(y)) for x, y in d.items()])
        return [(st, v)]

    def imported(I, st, a, k):
        name, pk = a[0], a[1] if len(a) > 1 else k.get('package', NONE)
        full = pk.v + name.v if known(pk) and known(name) and name.v.startswith('.') else name.v if known(name) else None
        if full is None:
            raise AnalysisError('import of an unknown name')
        if any(full.split('.')[0] == p.name for p in packages) and full not in I.virtual:
            return I.exc(st, ModuleNotFoundError, K("No module named '%s'" % full))
        return old['importlib.import_module'](I, st, a, k)
    h.update({'os.path.exists': exists, 'os.path.isdir': exists, 'open': opened, 'json.load': load, 'importlib.import_module': imported})

    def undo():
        for n, f in old.items():
            if f is None:
                h.pop(n, None)
            else:
                h[n] = f
    return W, undo


def run(c):
    def one(name, seq, nested=(), ro=0):
        """seq: (package, how) or (package, 'api'); nested: the same, handled during the first call of the first request"""
        def f():
            ps = []
            for p, how in list(seq) + list(nested):
                if p is not None and p not in ps:
                    ps.append(p)
            W, undo = world(ps)
            try:
                who = {}
                keys = []
                for i, (p, how) in enumerate(list(seq) + list(nested)):
                    r = 'r%d' % i
                    path = p.path if p is not None else '/scores/none'
                    who[r] = (p, how, i)
                    if how == 'api':
                        keys.append(w.req_getapi(r, path))
                    elif how in ('on_install', 'on_update', 'fallback', 'look'):
                        keys.append(w.req_invoke(r, path, how, w.plist(), readonly=ro, costs=(), value=K(0)))
                    else:
                        keys.append(w.req_invoke(r, path, 'run', w.plist(typed_str(how)), readonly=ro, costs=(), value=K(0)))
                ns = tuple(keys[len(seq):])
                if ns:
                    W.nested = lambda st, data: ns if len(st.node[1]) == 1 else ()
                res = W.boot(keys[:len(seq)])
                c.absorb(W.I)
            finally:
                undo()
            for st, v in res:
                judge(c, name, st, who)
            return len(res)
        c.scenario(name, f)

    def say(seq):
        return ', '.join('%s %s' % ((p.name if len(p.name) < 20 else p.name[:6] + '..' + p.name[-5:] + '(%d)' % len(p.name)) if p else 'nothing', how) for p, how in seq)
    a, b = PACKAGES[0], PACKAGES[1]
    hows = ('go', 'api', 'call', 'fail', 'exit', 'on_install', 'on_update', 'fallback', 'look')
    for p in PACKAGES:
        one('one request: ' + say([(p, 'go')]), [(p, 'go')])
        one('again: ' + say([(p, 'go')] * 2), [(p, 'go')] * 2)
    for p in PACKAGES[1:]:
        for q in (a,) + ((b,) if c.thorough else ()):
            if p is not q:
                s = [(q, 'go'), (p, 'go'), (q, 'go'), (p, 'go')]
                one('in turn: ' + say(s), s)
                one('in turn: ' + say(s[1:]), s[1:])
    for h1 in hows:
        for h2 in hows:
            for s in ([(a, h1), (a, h2), (b, 'go')], [(a, h1), (b, h2), (a, 'go')]):
                one('in turn: ' + say(s), s)
    for ro in (0, 1):
        for s in ([(a, 'go')], [(b, 'go')], [(a, 'api')], [(b, 'api')], [(b, 'fail'), (a, 'go')], [(b, 'api'), (b, 'exit')], [(a, 'go'), (b, 'go')], [(None, 'go')], [(BROKEN[0], 'go')]):
            one('during a call%s: %s' % (', read-only' if ro else '', say(s)), [(a, 'call'), (a, 'go'), (b, 'go')], s, ro)
    for p in BROKEN:
        for s in ([(p, 'go')], [(p, 'go'), (p, 'go')], [(p, 'api'), (p, 'go')], [(a, 'go'), (p, 'go'), (a, 'go')], [(p, 'go'), (a, 'go'), (p, 'go')]):
            one('cannot be loaded: ' + say(s), s)
    for p in LATE:
        for s in ([(p, 'go')] * 3, [(p, 'api')] + [(p, 'go')] * 2, [(p, 'go'), (a, 'go'), (p, 'go')], [(p, 'go'), (p, 'api'), (p, 'go'), (a, 'go'), (p, 'go')]):
            one('cannot be loaded at first: ' + say(s), s)
    for s in ([(None, 'go')], [(None, 'go'), (a, 'go'), (None, 'go')], [(a, 'go'), (None, 'go'), (a, 'go')]):
        one('no such package: ' + say(s), s)


def judge(c, name, st, who):
    rs, _ = requests(st)
    order = [r.name for r in rs]
    for r in rs:
        p, how, i = who[r.name]
        can = p is not None and p.ok and not (p.until and order.index(r.name) < p.until)
        made = [e for e in r.marks('made')]
        ran = r.marks('ran')
        for e in made + ran:
            t = e.args[1].v if isinstance(e.args[1], K) else None
            c.ob('named-code', p is not None and t == p.token, place(e.where), 'the request names %s but code of %s runs (%s)\n%s' % (p.name if p else 'no package', t, name, show(st)),
                 'other code runs')
        if not can:
            # what cannot be loaded does not run, and never succeeds
            c.ob('load-failure', not r.ok if r.reply is not None else None, r.where(), 'a package which cannot be loaded is executed or inspected with success (%s)\n%s' % (name, show(st)),
                 'success without code')
            c.ob('load-failure', not (made or ran), r.where(), 'code runs of a package which cannot be loaded (%s)\n%s' % (name, show(st)), 'code without load')
            continue
        if len(made) != 1:
            c.ob('fresh-object', False if r.reply is not None else None, r.where(), 'a request makes %d contract objects (%s)\n%s' % (len(made), name, show(st)), '%d objects' % len(made))
        else:
            c.ob('fresh-object', True, r.where(), '')
        if how == 'api':
            continue
        if not ran and r.reply is not None:
            c.ob('named-code', False, r.where(), 'the code the request names does not run (%s)\n%s' % (name, show(st)), 'code does not run')
        to = bsym(r.name + '.to')
        for e in ran:
            for j, what in ((2, 'address'), (3, 'database')):
                c.ob('own-address', same(st, e.args[j], to), place(e.where), 'the contract runs with the %s of %r, not of the contract the request names (%s)\n%s' % (what, e.args[j], name, show(st)),
                     what)
            c.ob('fresh-object', same(st, e.args[4], K(0)), place(e.where), 'the contract object was used before: %r (%s)\n%s' % (e.args[4], name, show(st)), 'used object')
