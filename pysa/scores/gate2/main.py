from iconservice import *
import vp


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()
        vp.mark('ran', 'on_install')

    def on_update(self) -> None:
        super().on_update()
        vp.mark('ran', 'on_update')

    def fallback(self):
        vp.mark('ran', 'fallback')

    @external
    def write(self):
        vp.mark('ran', 'write')
