from iconservice import *
import vp


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._var = VarDB('v', db, value_type=int)
        self._bin = VarDB('b', db, value_type=bytes)
        self._dict = DictDB('d', db, value_type=bytes)
        self._deep = DictDB('e', db, value_type=int, depth=2)
        self._arr = ArrayDB('a', db, value_type=int)

    def on_install(self) -> None:
        super().on_install()
        self._every()

    def on_update(self) -> None:
        super().on_update()
        self._every()

    @eventlog(indexed=1)
    def Happened(self, x: int, y: str):
        pass

    @eventlog
    def Plain(self):
        pass

    @payable
    def fallback(self):
        self._every()

    def _op(self, name, f):
        try:
            f()
        except Exception as e:
            vp.mark('refused', name)
        except BaseException as e:
            vp.mark('refused', name)
        else:
            vp.mark('done', name)

    def _fee(self):
        self.set_fee_sharing_proportion(vp.any_int('fee'))

    def _setdict(self):
        self._dict[b'k'] = vp.any_bytes('val')

    def _setdeep(self):
        self._deep['k']['l'] = vp.any_int('num')

    def _deldeep(self):
        del self._deep['k']['l']

    def _setarr(self):
        self._arr[0] = vp.any_int('num')

    def _which(self, n):
        if n == 'var.set':
            self._op(n, lambda: self._var.set(vp.any_int('num')))
        elif n == 'var.remove':
            self._op(n, lambda: self._var.remove())
        elif n == 'bin.set':
            self._op(n, lambda: self._bin.set(vp.any_bytes('val')))
        elif n == 'bin.empty':
            self._op(n, lambda: self._bin.set(b''))
        elif n == 'dict.set':
            self._op(n, self._setdict)
        elif n == 'dict.remove':
            self._op(n, lambda: self._dict.remove('x'))
        elif n == 'deep.set':
            self._op(n, self._setdeep)
        elif n == 'deep.del':
            self._op(n, self._deldeep)
        elif n == 'arr.put':
            self._op(n, lambda: self._arr.put(vp.any_int('num')))
        elif n == 'arr.set':
            self._op(n, self._setarr)
        elif n == 'arr.pop':
            self._op(n, lambda: self._arr.pop())
        elif n == 'db.put':
            self._op(n, lambda: self.db.put(b'k', vp.any_bytes('val')))
        elif n == 'db.delete':
            self._op(n, lambda: self.db.delete(b'k'))
        elif n == 'sub.put':
            self._op(n, lambda: self.db.get_sub_db(b's').put(b'k', vp.any_bytes('val')))
        elif n == 'event':
            self._op(n, lambda: self.Happened(vp.any_int('num'), 'y'))
        elif n == 'event0':
            self._op(n, lambda: self.Plain())
        elif n == 'fee':
            self._op(n, self._fee)
        else:
            raise Exception('unknown operation')

    def _every(self):
        for n in ('var.set', 'var.remove', 'dict.set', 'event', 'fee'):
            self._which(n)

    @external
    def write(self, op: str):
        self._which(op)

    @external(readonly=True)
    def query(self, op: str) -> int:
        self._which(op)
        return 1

    @payable
    @external
    def pay(self, op: str):
        self._which(op)

    @external
    def call_then(self, op: str):
        try:
            self.call(self.address, 'query', {'op': 'var.set'})
        except BaseException as e:
            vp.mark('callfail')
        self._which(op)

    @external(readonly=True)
    def query_then(self, op: str) -> int:
        try:
            self.call(self.address, 'write', {'op': 'var.set'})
        except BaseException as e:
            vp.mark('callfail')
        self._which(op)
        return 1
