from iconservice import *
import vp


class Alike:
    def __init__(self, a):
        self.prefix = a.prefix
        self.body = a.body


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _see(self, how, a):
        if a is None:
            vp.mark('nothing', how)
        else:
            vp.mark('address', how, str(a), a.to_bytes(), a.prefix.value, a.body, a.is_contract, isinstance(a, Address), repr(a))

    @external
    def text(self):
        try:
            a = Address.from_string(vp.any_str('text'))
        except BaseException as e:
            vp.mark('refused', 'text', type(e).__name__)
            return
        self._see('text', a)

    @external
    def one(self, t: str):
        try:
            a = Address.from_string(t)
        except BaseException as e:
            vp.mark('refused', 'text', type(e).__name__)
            return
        self._see('text', a)

    @external
    def octets(self):
        try:
            a = Address.from_bytes(vp.any_bytes('octets'))
        except BaseException as e:
            vp.mark('refused', 'octets', type(e).__name__)
            return
        self._see('octets', a)

    @external
    def sized(self, n: int):
        b = vp.any_bytes('octets')
        if len(b) == n:
            try:
                a = Address.from_bytes(b)
            except BaseException as e:
                vp.mark('refused', 'octets', type(e).__name__)
                return
            self._see('octets', a)

    @external
    def other(self):
        for i, x in enumerate((None, 1, b'', 'hx', [], self.msg.sender, 1.5, self, True)):
            try:
                a = Address.from_string(x)
            except BaseException as e:
                vp.mark('other', 'refused')
            else:
                vp.mark('other', 'accepted', i)
        for i, x in enumerate((None, 1, 'a' * 20, 'a' * 21, [], self.msg.sender, 1.5, self, True, [0] * 20, [0] * 21)):
            try:
                a = Address.from_bytes(x)
            except BaseException as e:
                vp.mark('other', 'refused')
            else:
                if a is None:
                    vp.mark('other', 'refused')
                else:
                    vp.mark('other', 'accepted', i)

    @external
    def wire(self, a: Address):
        if a is None:
            vp.mark('nothing', 'wire')
        else:
            self._see('wire', a)

    @external
    def given(self):
        a = self.msg.sender
        if a is None:
            vp.mark('nothing', 'wire')
        else:
            self._see('wire', a)

    def _make(self, kind, name):
        b = vp.any_bytes(name)
        if len(b) == 20:
            return Address(AddressPrefix.CONTRACT if kind else AddressPrefix.EOA, b)

    @external
    def equal(self, k1: int, k2: int):
        a = self._make(k1, 'b1')
        b = self._make(k2, 'b2')
        if a is not None and b is not None:
            eq = a == b
            ne = a != b
            h = hash(a) == hash(b)
            vp.mark('equal', eq, ne, h)

    @external
    def looked(self, k1: int, k2: int):
        a = self._make(k1, 'b1')
        b = self._make(k2, 'b2')
        if a is not None and b is not None:
            vp.mark('looked', a in [b], a in (b,), b in [a])

    @external
    def parsed(self, t1: str, t2: str):
        a = Address.from_string(t1)
        b = Address.from_string(t2)
        vp.mark('parsed', a == b, a != b, hash(a) == hash(b), a in {b: 1}, a in {b}, {a: 1, b: 2}.get(a), {a: 1, b: 2}.get(b), len({a, b}), a in [b], a == Address.from_bytes(b.to_bytes()))

    @external
    def strange(self):
        a = self.msg.sender
        vp.mark('strange', a == None, a == 1, a == str(a), a == a.to_bytes(), a == a.body, a == a.prefix, a == [a], a == (a.prefix, a.body), a == self)
        vp.mark('strange', not (a != None), not (a != str(a)), not (a != a.to_bytes()), str(a) == a, a.to_bytes() == a, None == a, a in [None, 1, str(a)], a in (a.to_bytes(),), a == Alike(a), Alike(a) == a)
