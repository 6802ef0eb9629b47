from iconservice import *
import vp

KEPT = []


class Peer(InterfaceScore):

    @interface
    def run(self, ops: str):
        pass


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._var = VarDB('v', db, value_type=bytes)

    def on_install(self) -> None:
        super().on_install()
        self._go('set f')

    def on_update(self) -> None:
        super().on_update()
        self._go('set f,set g')

    @payable
    def fallback(self):
        self._go('set f')

    def _set(self, v):
        vp.mark('try', v)
        try:
            self.set_fee_sharing_proportion(v)
        except BaseException as e:
            vp.mark('refused', v)
        else:
            vp.mark('set', v)

    def _go(self, ops):
        for op in ops.split(','):
            k, *rest = op.split(' ')
            if k == 'set':
                self._set(vp.any_int(rest[0]))
            elif k == 'const':
                self._set(int(rest[0]))
            elif k == 'bool':
                self._set(True)
            elif k == 'odd':
                self._set({'float': 50.5, 'text': '50', 'none': None, 'bytes': b'2', 'list': [50], 'big': 2 ** 64}[rest[0]])
            elif k == 'maybe':
                if vp.choose('maybe'):
                    self._set(vp.any_int(rest[0]))
            elif k == 'get':
                vp.mark('get', self.get_fee_sharing_proportion())
            elif k == 'call':
                vp.mark('calling')
                try:
                    if rest[0] == 'call':
                        self.call(self.address, 'run', {'ops': 'x'})
                    elif rest[0] == 'send':
                        self.icx.send(self.address, 1)
                    else:
                        self.create_interface_score(self.address, Peer).run('x')
                except BaseException as e:
                    vp.mark('failed')
            elif k == 'write':
                self._var.set(vp.any_bytes('w'))
            elif k == 'rem':
                self._var.remove()
            elif k == 'fail':
                raise Exception('x')
            elif k == 'revert':
                revert('x')
            elif k == 'exit':
                raise SystemExit(0)

    @payable
    @external
    def run(self, ops: str):
        self._go(ops)

    @external(readonly=True)
    def ask(self, ops: str) -> int:
        self._go(ops)
        return 1
