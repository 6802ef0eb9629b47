from iconservice import *
import vp

TYPES = {'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'addr': Address}


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._db = db

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _val(self, kind):
        if kind == 'int':
            return vp.any_int('int')
        if kind == 'str':
            return vp.any_str('str')
        if kind == 'bytes':
            return vp.any_bytes('bytes')
        if kind == 'bool':
            return vp.any_bool('bool')
        if kind == 'addr':
            return self.msg.sender
        if kind == 'cx':
            return self.address
        if kind == 'zero':
            return 0
        if kind == 'minus':
            return -1
        if kind == 'big':
            return 2 ** 255
        if kind == 'low':
            return -2 ** 255
        if kind == 'n128':
            return -128
        if kind == 'p128':
            return 128
        if kind == 'nul':
            return b'\x00'
        if kind == 'none8':
            return b'\x80\x00'
        if kind == 'empty':
            return b''
        if kind == 'text0':
            return ''
        if kind == 'uni':
            return '\u00e9\u4e2d\U0001f600 '
        if kind == 'false':
            return False
        if kind == 'true':
            return True
        if kind == 'none':
            return None
        if kind == 'float':
            return 1.5
        if kind == 'list':
            return [1]
        if kind == 'tuple':
            return (1, 2)
        if kind == 'dict':
            return {'a': 1}
        if kind == 'barray':
            return bytearray(b'xy')
        if kind == 'object':
            return self
        if kind == 'type':
            return int

    def _read(self, v, what):
        if isinstance(v, Address):
            vp.mark(what, 'addr', v.to_bytes())
        else:
            vp.mark(what, 'plain', v)

    @external
    def run(self, how: str):
        c, t, *ops = how.split(',')
        ty = TYPES[t]
        if c == 'var':
            box = VarDB('v', self._db, value_type=ty)
        elif c == 'arr':
            box = ArrayDB('a', self._db, value_type=ty)
        elif c == 'deep':
            box = DictDB('e', self._db, value_type=ty, depth=2)['x']
        else:
            box = DictDB('d', self._db, value_type=ty)
        for op in ops:
            try:
                self._op(c, box, op)
            except IconScoreException as e:
                vp.mark('other', op)
            except BaseException as e:
                if isinstance(e, Exception):
                    vp.mark('other', op)
                else:
                    vp.mark('refused', e.code)

    def _op(self, c, box, op):
        if op == 'get':
            if c == 'var':
                v = box.get()
            elif c == 'arr':
                v = box[0]
            else:
                v = box['k']
            self._read(v, 'got')
        elif op == 'in':
            vp.mark('in', 'k' in box)
        elif op == 'pop':
            self._read(box.pop(), 'got')
        elif op == 'remove':
            if c == 'var':
                box.remove()
            else:
                del box['k']
            vp.mark('removed')
        else:
            v = self._val(op)
            if c == 'var':
                box.set(v)
            elif c == 'arr':
                box[0] = v
            else:
                box['k'] = v
            self._read(v, 'put')
