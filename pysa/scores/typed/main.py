from iconservice import *
from typing import List
import vp


class OtherInterface(InterfaceScore):

    @interface
    def take(self, x: dict):
        pass

    @interface
    def give(self):
        pass


class Plain:
    def __init__(self):
        self.x = 1


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external
    def ret(self, how: str):
        return self._val(how)

    @external(readonly=True)
    def ret_ro(self, how: str) -> dict:
        return self._val(how)

    @external
    def named(self, how: str):
        vp.mark('other', self._other().to_bytes())
        self.call(self._other(), 'take', {'x': self._val(how)})

    @external
    def positional(self, how: str):
        self.create_interface_score(self._other(), OtherInterface).take(self._val(how))

    @external
    def answer(self, how: str):
        got = self.create_interface_score(self._other(), OtherInterface).give()
        self._got(got, how)

    @external
    def answer2(self, how: str):
        got = self.call(self._other(), 'give', {})
        self._got(got, how)

    @external
    def take(self, how: str, x: List[int]):
        self._got(x, how)

    def _got(self, x, how):
        want = self._val(how)
        vp.mark('same', type(x) == type(want), x, want)
        self._types(x, want)

    def _types(self, x, want):
        # nested values have the types of their own, too
        if isinstance(want, list):
            for a, b in zip(x, want):
                vp.mark('same', type(a) == type(b), a, b)
                self._types(a, b)
        elif isinstance(want, dict):
            for k in want:
                vp.mark('same', type(x[k]) == type(want[k]), x[k], want[k])
                self._types(x[k], want[k])

    def _other(self):
        return Address.from_string('cx' + '0' * 39 + '7')

    def _gen(self):
        yield 1

    def _val(self, how):
        if how == 'none':
            return None
        if how == 'int':
            return vp.any_int('xi')
        if how == 'zero':
            return 0
        if how == 'one':
            return 1
        if how == 'minus':
            return -1
        if how == 'n128':
            return -128
        if how == 'n129':
            return -129
        if how == 'p127':
            return 127
        if how == 'p128':
            return 128
        if how == 'p255':
            return 255
        if how == 'p256':
            return 256
        if how == 'p32':
            return 2 ** 32
        if how == 'n64':
            return -2 ** 63
        if how == 'p256b':
            return 2 ** 256 - 1
        if how == 'str':
            return vp.any_str('xs')
        if how == 'text0':
            return ''
        if how == 'uni':
            return '\u00e9\u4e2d\U0001f600 "\\'
        if how == 'nulltext':
            return '\x00'
        if how == 'bytes':
            return vp.any_bytes('xb')
        if how == 'empty':
            return b''
        if how == 'nonutf':
            return b'\xff\x00'
        if how == 'bool':
            return vp.any_bool('xo')
        if how == 'true':
            return True
        if how == 'false':
            return False
        if how == 'cx':
            return Address.from_string('cx' + '1' * 40)
        if how == 'hx':
            return Address.from_string('hx' + '1' * 40)
        if how == 'list0':
            return []
        if how == 'list':
            return [1, 'a', b'b', None, True, Address.from_string('hx' + '1' * 40), [2], {'k': 3}]
        if how == 'anys':
            return [vp.any_int('xi'), vp.any_str('xs'), vp.any_bytes('xb'), vp.any_bool('xo')]
        if how == 'nested':
            return [[], [[]], [[1], [[2, [True, [None, [b'']]]]]]]
        if how == 'same':
            l = [1]
            return [l, l]
        if how == 'bools':
            return [True, False, 1, 0, True]
        if how == 'tuple':
            return (1, ('a', ()), b'b')
        if how == 'dict0':
            return {}
        if how == 'dict':
            return {'a': 1, 'b': 'x', '': b'y', 'n': None, 't': True, 'f': False, 'l': [1, True], 'd': {'e': {'g': vp.any_int('xi')}},
                    'h': Address.from_string('cx' + '1' * 40)}
        if how == 'unikey':
            return {'\u00e9': 1, 'e': 2}
        if how == 'deep':
            return {'a': [{'b': [{'c': [vp.any_bool('xo'), vp.any_bytes('xb')]}]}]}
        # not to be sent
        if how == 'float':
            return 1.5
        if how == 'zerofloat':
            return 0.0
        if how == 'complex':
            return 1j
        if how == 'object':
            return object()
        if how == 'plain':
            return Plain()
        if how == 'self':
            return self
        if how == 'type':
            return int
        if how == 'module':
            return vp
        if how == 'function':
            return self._val
        if how == 'set':
            return {1, 2}
        if how == 'frozenset':
            return frozenset([1])
        if how == 'generator':
            return self._gen()
        if how == 'range':
            return range(3)
        if how == 'exception':
            return Exception('x')
        if how == 'inlist':
            return [1, [2, 1.5]]
        if how == 'intuple':
            return (1, {2})
        if how == 'indict':
            return {'a': {'b': 1.5}}
        if how == 'intkeys':
            return {1: 2}
        if how == 'boolkeys':
            return {True: 2}
        if how == 'byteskeys':
            return {b'a': 2}
        if how == 'nonekeys':
            return {None: 2}
        if how == 'tuplekeys':
            return {('a',): 2}
        if how == 'addrkeys':
            return {self.address: 2}
        if how == 'somekeys':
            return {'a': 1, 2: 'b'}
        if how == 'deepkeys':
            return [{'a': [{1: 2}]}]
        raise Exception('unknown')
