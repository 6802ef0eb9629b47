from iconservice import *
import vp


class Base(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    @eventlog(indexed=1)
    def Inherited(self, a: int, b: str):
        pass

    @eventlog(indexed=2)
    def Overridden(self, a: int, b: str):
        pass


class Score(Base):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @eventlog
    def E0(self):
        pass

    @eventlog(indexed=0)
    def E1(self, a: int):
        pass

    @eventlog(indexed=1)
    def E1i(self, a: str):
        vp.mark('body')
        raise ValueError()

    @eventlog(indexed=0)
    def All0(self, a: int, b: str, c: bytes, d: bool, e: Address):
        pass

    @eventlog(indexed=1)
    def All1(self, a: Address, b: bool, c: bytes, d: str, e: int):
        pass

    @eventlog(indexed=2)
    def All2(self, a: bytes, b: Address, c: int, d: str, e: bool):
        pass

    @eventlog(indexed=3)
    def All3(self, a: bool, b: int, c: str, d: Address, e: bytes):
        pass

    @eventlog(indexed=3)
    def Exact(self, a: str, b: bytes, c: int):
        pass

    @eventlog(indexed=2)
    def Defaults(self, a: int, b: str = 'two', c: bytes = b'\x03', d: bool = True, e: Address = None):
        pass

    @eventlog(indexed=1)
    def AllDefaults(self, a: int = 0, b: str = '', c: bytes = None):
        pass

    @eventlog(indexed=1)
    def Quoted(self, a: 'Address', b: 'Address'):
        pass

    @eventlog(indexed=1)
    def Overridden(self, b: int, a: bytes):
        pass

    @eventlog(indexed=3)
    def ICXTransfer(self, a: Address, b: Address, c: int):
        pass

    @eventlog(indexed=3)
    def ICXTransfers(self, a: Address, b: Address, c: int):
        pass

    @eventlog(indexed=1)
    def _hidden(self, a: int):
        pass

    @eventlog(indexed=2)
    def Same(self, a: int, b: int, c: int, d: int):
        pass

    def _val(self, k):
        if k[0] == 'i':
            return vp.any_int(k)
        if k[0] == 's':
            return vp.any_str(k)
        if k[0] == 'b':
            return vp.any_bytes(k)
        if k[0] == 'o':
            return vp.any_bool(k)
        if k == 'cx':
            return Address.from_string('cx' + '11' * 20)
        if k == 'hx':
            return Address.from_string('hx' + '22' * 20)
        if k == 'none':
            return None
        if k == 'float':
            return 1.0
        if k == 'list':
            return [1]
        if k == 'tuple':
            return ()
        if k == 'dict':
            return {}
        if k == 'me':
            return self
        if k == 'type':
            return int
        if k == 'zero':
            return 0
        if k == 'minus':
            return -129
        if k == 'empty':
            return b''
        if k == 'text0':
            return ''
        if k == 'uni':
            return '\u00e9\u4e2d\U0001f600'
        if k == 'surrogate':
            return '\ud800'
        if k == 'true':
            return True
        return k

    def _event(self, name):
        if name == 'E0':
            return self.E0
        if name == 'E1':
            return self.E1
        if name == 'E1i':
            return self.E1i
        if name == 'All0':
            return self.All0
        if name == 'All1':
            return self.All1
        if name == 'All2':
            return self.All2
        if name == 'All3':
            return self.All3
        if name == 'Exact':
            return self.Exact
        if name == 'Defaults':
            return self.Defaults
        if name == 'AllDefaults':
            return self.AllDefaults
        if name == 'Quoted':
            return self.Quoted
        if name == 'Inherited':
            return self.Inherited
        if name == 'Overridden':
            return self.Overridden
        if name == 'Base.Overridden':
            return super().Overridden
        if name == 'ICXTransfer':
            return self.ICXTransfer
        if name == 'ICXTransfers':
            return self.ICXTransfers
        if name == '_hidden':
            return self._hidden
        if name == 'Same':
            return self.Same

    def _emit(self, op):
        name, given = op.split(':')
        args, kw = [], {}
        for g in given.split(','):
            if '=' in g:
                n, v = g.split('=')
                kw[n] = self._val(v)
            elif g:
                args.append(self._val(g))
        try:
            self._event(name)(*args, **kw)
        except BaseException as e:
            vp.mark('refused', op)
        else:
            vp.mark('done', op)

    @external
    def run(self, ops: str):
        for op in ops.split(';'):
            vp.mark('try', op)
            self._emit(op)
