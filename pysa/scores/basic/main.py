from iconservice import *


class Score(IconScoreBase):
    @eventlog(indexed=1)
    def Ev(self, a: int, b: str):
        pass

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self.v = VarDB('v', db, value_type=int)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external
    def put(self, x: int):
        self.v.set(x)

    @external(readonly=True)
    def get(self) -> int:
        return self.v.get()

    @external
    def both(self, x: int):
        self.v.set(x)
        self.v.remove()
        self.Ev(x, 'b')
        return self.v.get()
