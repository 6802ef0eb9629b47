from iconservice import *


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        raise KeyboardInterrupt()

    @external
    def end(self, how: str):
        pass
