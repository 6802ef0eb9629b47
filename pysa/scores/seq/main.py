from iconservice import *
import vp


class Peer(InterfaceScore):

    @interface
    def run(self, ops: str):
        pass


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._one = VarDB('v', db, value_type=bytes)
        self._two = VarDB('w', db, value_type=bytes)
        self._arr = ArrayDB('a', db, value_type=bytes)
        self._dict = DictDB('d', db, value_type=bytes)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @payable
    def fallback(self):
        pass

    @eventlog(indexed=1)
    def Happened(self, x: int, y: bytes):
        pass

    @eventlog
    def Plain(self):
        pass

    def _which(self, op, i):
        if op == 'set':
            return self._one.set(vp.any_bytes('set' + i))
        if op == 'rem':
            return self._two.remove()
        if op == 'empty':
            return self._two.set(b'')
        if op == 'dset':
            self._dict[b'k'] = vp.any_bytes('set' + i)
            return
        if op == 'ddel':
            del self._dict[b'k']
            return
        if op == 'get':
            return self._one.get()
        if op == 'dget':
            return self._dict[b'k']
        if op == 'dhas':
            return b'k' in self._dict
        if op == 'bal':
            return self.icx.get_balance(self.address)
        if op == 'in':
            return vp.any_bytes('el') in self._arr
        if op == 'len':
            return len(self._arr)
        if op == 'event':
            return self.Happened(vp.any_int('num'), vp.any_bytes('val'))
        if op == 'plain':
            return self.Plain()
        if op == 'call':
            return self.call(self.address, 'run', {'ops': 'get'})
        if op == 'send':
            return self.icx.send(self.address, 1)
        if op == 'transfer':
            return self.icx.transfer(self.address, 1)
        if op == 'iface':
            return self.create_interface_score(self.address, Peer).run('get')
        if op == 'put':
            return self._arr.put(vp.any_bytes('set' + i))
        if op == 'pop':
            return self._arr.pop()
        if op == 'fee':
            return self.set_fee_sharing_proportion(7)
        if op == 'fail':
            raise Exception('x')
        if op == 'revert':
            revert('x', 2)
        raise Exception('unknown operation ' + op)

    def _run(self, ops):
        i = 0
        for op in ops.split(','):
            vp.mark('begin', op)
            vp.mark('saw', op, self._which(op, str(i)))
            i += 1

    def _run_caught(self, ops):
        i = 0
        for op in ops.split(','):
            vp.mark('begin', op)
            try:
                r = self._which(op, str(i))
            except BaseException as e:
                if hasattr(e, 'code'):
                    vp.mark('failed', op, e.code, e.message)
                else:
                    vp.mark('broken', op, str(e))
            else:
                vp.mark('saw', op, r)
            i += 1

    @payable
    @external
    def run(self, ops: str):
        self._run(ops)

    @payable
    @external
    def caught(self, ops: str):
        self._run_caught(ops)

    @external(readonly=True)
    def ask(self, ops: str) -> int:
        self._run(ops)
        return 1

    @external(readonly=True)
    def ask_caught(self, ops: str) -> int:
        self._run_caught(ops)
        return 1
