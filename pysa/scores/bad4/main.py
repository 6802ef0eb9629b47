from iconservice import *


class Score(object):
    pass
