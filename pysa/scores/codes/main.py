from iconservice import *
import vp


class Zero(IconScoreException):
    code = 0


class Negative(IconScoreException):
    code = -5


class Text(IconScoreException):
    code = 'x'


class Nothing(IconScoreException):
    code = None


class Yes(IconScoreException):
    code = True


class NoFlag(IconScoreException):
    code = False


class Low(IconScoreException):
    code = 10


class Raising(IconScoreException):
    @property
    def code(self):
        raise ValueError('x')


class Index7(IconScoreException):
    def __init__(self):
        super().__init__('seven', 7)


class Peer(InterfaceScore):

    @interface
    def run(self, how: str):
        pass


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._var = VarDB('v', db, value_type=int)
        self._arr = ArrayDB('a', db, value_type=int)
        self._dict = DictDB('d', db, value_type=int)
        self._deep = DictDB('e', db, value_type=int, depth=2)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @eventlog(indexed=1)
    def Happened(self, x: int, y: str):
        pass

    @external
    def give(self):
        return vp.any_int('r')

    @external(readonly=True)
    def write_ro(self) -> int:
        self._var.set(1)
        return 1

    @payable
    @external
    def run(self, how: str):
        return self._how(how)

    @external
    def deferred(self, how: str):
        self._var.remove()
        return self._how(how)

    @external
    def after(self, how: str):
        # a failure that is caught is no failure
        try:
            self._how(how)
        except BaseException as e:
            vp.mark('caught')
        return 5

    def _how(self, how):
        if how == 'ok':
            return 5
        if how == 'none':
            return
        if how == 'revert0':
            revert('m')
        if how == 'revert':
            revert('m', vp.any_int('code'))
        if how == 'revertstr':
            revert('m', '12')
        if how == 'revertbad':
            revert('m', 'twelve')
        if how == 'revertnone':
            revert(None, None)
        if how == 'score':
            raise IconScoreException('m', vp.any_int('code'))
        if how == 'score0':
            raise IconScoreException('m')
        if how == 'scorebad':
            raise IconScoreException('m', 'x')
        if how == 'index7':
            raise Index7()
        if how == 'zero':
            raise Zero('m')
        if how == 'negative':
            raise Negative('m')
        if how == 'text':
            raise Text('m')
        if how == 'nothing':
            raise Nothing('m')
        if how == 'yes':
            raise Yes('m')
        if how == 'noflag':
            raise NoFlag('m')
        if how == 'low':
            raise Low('m')
        if how == 'raising':
            raise Raising('m')
        if how == 'exception':
            raise Exception('m')
        if how == 'base':
            raise BaseException('m')
        if how == 'value':
            raise ValueError('m')
        if how == 'exit':
            raise SystemExit(0)
        if how == 'type':
            return 1 + 'x'
        if how == 'key':
            return {}['x']
        if how == 'assert':
            assert False
        if how == 'deep':
            raise RecursionError('x')
        if how == 'index':
            return self._arr[5]
        if how == 'badindex':
            return self._arr['x']
        if how == 'container':
            return self._dict[1.5]
        if how == 'setodd':
            self._var.set(1.5)
        if how == 'midlevel':
            return self._deep['x']['y']['z']
        if how == 'wrongdepth':
            self._deep['x'] = 1
        if how == 'event':
            self.Happened(1)
        if how == 'eventtype':
            self.Happened('x', 1)
        if how == 'hash':
            return sha3_256('x')
        if how == 'newdb':
            return VarDB('x', self.db, value_type=float)
        if how == 'call':
            return self.call(self.address, 'run', {'how': 'ok'})
        if how == 'iface':
            return self.create_interface_score(self.address, Peer).run('ok')
        if how == 'transfer':
            return self.icx.transfer(self.address, 1)
        if how == 'send':
            return self.icx.send(self.address, 1)
        if how == 'callcaught':
            try:
                return self.call(self.address, 'run', {'how': 'ok'})
            except IconScoreException as e:
                vp.mark('reverted', e.code, e.message)
            except BaseException as e:
                vp.mark('other', e.code, e.message)
            return
        if how == 'ifacecaught':
            try:
                return self.create_interface_score(self.address, Peer).run('ok')
            except IconScoreException as e:
                vp.mark('reverted', e.code, e.message)
            except BaseException as e:
                vp.mark('other', e.code, e.message)
            return
        if how == 'transfercaught':
            try:
                return self.icx.transfer(self.address, 1)
            except IconScoreException as e:
                vp.mark('reverted', e.code, e.message)
            except BaseException as e:
                vp.mark('other', e.code, e.message)
            return
        raise Exception('unknown')
