from iconservice import *
import vp


class Base(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._var = VarDB('v', db, value_type=int)
        self.field = self._helper

    def on_install(self) -> None:
        super().on_install()
        vp.mark('ran', 'on_install')

    def on_update(self) -> None:
        super().on_update()
        vp.mark('ran', 'on_update')

    def inherited_plain(self):
        vp.mark('ran', 'inherited_plain')

    @external
    def inherited_external(self):
        vp.mark('ran', 'inherited_external')

    @external
    def overridden(self):
        vp.mark('ran', 'overridden')

    def _helper(self):
        vp.mark('ran', '_helper')


class Score(Base):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    @eventlog
    def Event(self):
        vp.mark('ran', 'Event')

    @payable
    def fallback(self):
        vp.mark('ran', 'fallback')

    @external
    def write(self):
        vp.mark('ran', 'write')

    @external(readonly=True)
    def read(self) -> int:
        vp.mark('ran', 'read')
        return 1

    @payable
    @external
    def pay(self):
        vp.mark('ran', 'pay')

    @external
    @payable
    def pay2(self):
        vp.mark('ran', 'pay2')

    @payable
    def only_payable(self):
        vp.mark('ran', 'only_payable')

    def plain(self):
        vp.mark('ran', 'plain')

    def _private(self):
        vp.mark('ran', '_private')

    def __hidden(self):
        vp.mark('ran', '__hidden')

    def overridden(self):
        vp.mark('ran', 'overridden')

    @property
    def prop(self):
        vp.mark('ran', 'prop')
        self._var.set(1)
        return 1

    @staticmethod
    def static():
        vp.mark('ran', 'static')

    @classmethod
    def klass(cls):
        vp.mark('ran', 'klass')

    def __str__(self):
        vp.mark('ran', '__str__')
        return ''

    def __call__(self):
        vp.mark('ran', '__call__')
