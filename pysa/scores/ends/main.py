from iconservice import *
import vp


class HostileText(Exception):
    def __str__(self):
        raise SystemExit(3)

    def __repr__(self):
        raise KeyboardInterrupt()


class HostileText2(BaseException):
    def __str__(self):
        raise ValueError('no text')


class Surrogate(Exception):
    def __str__(self):
        return '\ud800'


class NotText(Exception):
    def __str__(self):
        return 3


class HostileDict(dict):
    def items(self):
        raise GeneratorExit()


class HostileDict2(dict):
    def items(self):
        raise SystemExit()


class OwnRevert(IconScoreException):
    pass


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._var = VarDB('v', db, value_type=int)
        self._bin = VarDB('b', db, value_type=bytes)
        self._arr = ArrayDB('a', db, value_type=int)

    def on_install(self) -> None:
        super().on_install()
        raise SystemExit(1)

    def on_update(self) -> None:
        super().on_update()
        raise GeneratorExit()

    @payable
    def fallback(self):
        raise KeyboardInterrupt()

    @eventlog
    def Plain(self):
        pass

    @external
    def end(self, how: str):
        self._before(how)
        return self._end(how)

    @external(readonly=True)
    def end_ro(self, how: str) -> dict:
        return self._end(how)

    @external
    def after(self, n: str, how: str):
        # n deferred writes are outstanding
        self._writes(n)
        return self._end(how)

    @external
    def caught(self, n: str, how: str):
        # the contract hides that a charge failed
        try:
            self._writes(n)
        except BaseException as e:
            vp.mark('hidden')
        try:
            self._bin.get()
        except BaseException as e:
            vp.mark('hidden')
        return self._end(how)

    @external
    def calls(self, n: str, how: str):
        self._writes(n)
        try:
            self.call(self.address, 'end', {'how': 'none'})
        except Exception as e:
            vp.mark('callfail')
        return self._end(how)

    def _before(self, how):
        vp.mark('ran', how)

    def _writes(self, n):
        if n == '0':
            return
        self._var.set(vp.any_int('w'))
        if n == '1':
            return
        self._bin.remove()
        if n == '2':
            return
        self._bin.set(vp.any_bytes('x'))
        if n == '3':
            return
        self._var.set(0)
        self._bin.set(b'')
        if n == '5':
            return
        self._bin.remove()
        if n == '6':
            return
        self._var.remove()
        self._bin.remove()

    def _end(self, how):
        if how == 'none':
            return None
        if how == 'int':
            return vp.any_int('r')
        if how == 'str':
            return vp.any_str('r')
        if how == 'bytes':
            return vp.any_bytes('r')
        if how == 'bool':
            return vp.any_bool('r')
        if how == 'address':
            return self.address
        if how == 'any':
            return vp.any_value('r')
        if how == 'list':
            return [1, 'a', b'b', None, True, self.address, [2], {'k': 3}, (4, 5)]
        if how == 'dict':
            return {'a': 1, 'b': [vp.any_value('s')]}
        if how == 'intkeys':
            return {1: 2}
        if how == 'nonekey':
            return {None: 2}
        if how == 'surrogate':
            return '\udc80'
        if how == 'surrogatekey':
            return {'\udc80': 1}
        if how == 'float':
            return 1.5
        if how == 'object':
            return object()
        if how == 'self':
            return self
        if how == 'type':
            return int
        if how == 'function':
            return self._end
        if how == 'set':
            return {1, 2}
        if how == 'generator':
            return (x for x in [1])
        if how == 'hostiledict':
            return HostileDict(a=1)
        if how == 'hostiledict2':
            return HostileDict2(a=1)
        if how == 'Exception':
            raise Exception('x')
        if how == 'emptyException':
            raise Exception()
        if how == 'ValueError':
            raise ValueError('x')
        if how == 'KeyError':
            return {}['x']
        if how == 'IndexError':
            return [][1]
        if how == 'ZeroDivisionError':
            return 1 // 0
        if how == 'TypeError':
            return 1 + 'a'
        if how == 'AttributeError':
            return self.nothing
        if how == 'NameError':
            return nothing
        if how == 'AssertionError':
            assert False
        if how == 'RecursionError':
            raise RecursionError('x')
        if how == 'MemoryError':
            raise MemoryError()
        if how == 'OSError':
            raise OSError(5, 'x')
        if how == 'StopIteration':
            raise StopIteration(4)
        if how == 'next':
            return next(iter([]))
        if how == 'SystemExit':
            raise SystemExit(1)
        if how == 'KeyboardInterrupt':
            raise KeyboardInterrupt()
        if how == 'GeneratorExit':
            raise GeneratorExit()
        if how == 'BaseException':
            raise BaseException('x')
        if how == 'hostiletext':
            raise HostileText('x')
        if how == 'hostiletext2':
            raise HostileText2()
        if how == 'surrogatetext':
            raise Surrogate()
        if how == 'surrogatetext2':
            raise Exception('\ud800')
        if how == 'nottext':
            raise NotText()
        if how == 'bytestext':
            raise Exception(b'\xff')
        if how == 'anytext':
            raise Exception(vp.any_str('t'))
        if how == 'anyvalue':
            raise Exception(vp.any_value('t'))
        if how == 'notexception':
            raise 3
        if how == 'revert':
            revert('no', 5)
        if how == 'revertnone':
            revert()
        if how == 'revertany':
            revert(vp.any_value('t'), vp.any_int('c'))
        if how == 'revertcode':
            revert('no', vp.any_value('c'))
        if how == 'IconScoreException':
            raise IconScoreException('x', 7)
        if how == 'ownrevert':
            raise OwnRevert('x', 7)
        if how == 'oddmessage':
            raise IconScoreException(object(), 7)
        if how == 'bytesmessage':
            raise IconScoreException(b'\xff')
        if how == 'nonemessage':
            raise IconScoreException(None)
        if how == 'finally':
            try:
                raise SystemExit(2)
            finally:
                raise GeneratorExit()
        if how == 'finallyreturn':
            try:
                raise SystemExit(2)
            finally:
                return 3
        if how == 'chained':
            try:
                raise Exception('\udc80')
            except Exception as e:
                raise SystemExit('y') from e
        raise Exception('unknown')
