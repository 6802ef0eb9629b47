from iconservice import *
import vp


class Unprintable:
    def __repr__(self):
        raise ValueError()


class Peer(InterfaceScore):

    @interface
    def enter(self, how: str):
        pass


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._var = VarDB('v', db, value_type=int)
        self._bin = VarDB('b', db, value_type=bytes)

    def on_install(self) -> None:
        super().on_install()
        self._snap('install')

    def on_update(self) -> None:
        super().on_update()
        self._snap('update')

    @payable
    def fallback(self):
        self._snap('fallback')

    @eventlog
    def Plain(self):
        pass

    def _bytes(self, a):
        return None if a is None else a.to_bytes()

    def _snap(self, tag):
        vp.mark(tag, self._bytes(self.msg.sender), self.msg.value, self.tx.hash, self.tx.index, self._bytes(self.tx.origin), self.tx.timestamp,
                self.tx.nonce, self.block_height, self.now(), self._bytes(self.owner), self._bytes(self.address), self.block.height,
                self.block.timestamp, self.get_fee_sharing_proportion())

    def _call(self, how):
        if how == 'call':
            return self.call(self.address, 'enter', {'how': 'x'})
        if how == 'iface':
            return self.create_interface_score(self.address, Peer).icx(3).enter('x')
        if how == 'transfer':
            return self.icx.transfer(self.address, 5)
        if how == 'send':
            return self.icx.send(self.address, 5)
        if how == 'twice':
            self.call(self.address, 'enter', {'how': 'x'})
            return self.call(self.address, 'enter', {'how': 'x'})
        if how == 'mixed':
            self.call(self.address, 'enter', {'how': 'far'})
            return self.call(self.address, 'enter', {'how': 'near'})
        if how == 'mixed2':
            self.call(self.address, 'enter', {'how': 'near'})
            self.call(self.address, 'enter', {'how': 'far'})
            return self.call(self.address, 'enter', {'how': 'near'})
        raise Exception('unknown')

    def _around(self, how, then):
        self._snap('before')
        try:
            self._call(how)
        except BaseException as e:
            vp.mark('callfail')
        self._snap('after')
        self._then(then)

    def _then(self, then):
        if then == 'write':
            try:
                self._var.set(7)
            except BaseException as e:
                vp.mark('refused', 'write')
            else:
                vp.mark('done', 'write')
        elif then == 'remove':
            try:
                self._var.remove()
            except BaseException as e:
                vp.mark('refused', 'remove')
            else:
                vp.mark('done', 'remove')
        elif then == 'event':
            try:
                self.Plain()
            except BaseException as e:
                vp.mark('refused', 'event')
            else:
                vp.mark('done', 'event')
        elif then == 'fee':
            try:
                self.set_fee_sharing_proportion(9)
            except BaseException as e:
                vp.mark('refused', 'fee')
            else:
                vp.mark('done', 'fee')

    @payable
    @external
    def around(self, how: str, then: str):
        self._around(how, then)

    @external(readonly=True)
    def around_ro(self, how: str, then: str) -> int:
        self._around(how, then)
        return 1

    @external
    def show(self):
        self._snap('show')

    @payable
    @external
    def enter(self, how: str) -> int:
        self._snap('inner')
        if how == 'ok':
            return 1
        if how == 'fee':
            self.set_fee_sharing_proportion(33)
            return 1
        if how == 'write':
            self._var.set(8)
            self._bin.set(vp.any_bytes('val'))
            return 1
        if how == 'remove':
            self._bin.remove()
            return 1
        if how == 'removefail':
            self._bin.remove()
            raise Exception('x')
        if how == 'writefail':
            self._bin.set(vp.any_bytes('val'))
            revert('no', 4)
        if how == 'exception':
            raise ValueError('x')
        if how == 'revert':
            revert('no', 3)
        if how == 'exit':
            raise SystemExit(1)
        if how == 'interrupt':
            raise KeyboardInterrupt()
        if how == 'genexit':
            raise GeneratorExit()
        if how == 'base':
            raise BaseException('x')
        if how == 'odd':
            return object()
        if how == 'unprintable':
            return Unprintable()
        if how == 'deep':
            self.call(self.address, 'enter', {'how': 'y'})
            return 1
        return 2
