"""Model of the Python object system, built-ins and the libraries the repository uses."""
from .values import *
from .state import *
from .mcore import Core
from .mops import Ops
from .mobj import Objects
from .mbuiltin import Builtins
from .mlib import Library


class Model(Core, Ops, Objects, Builtins, Library):
    def __init__(self, interp):
        self.I = interp
        self.init_core()
        self.init_lib()
