PROP = 'C16'
EDITS = [('pyee/pyexec/pyexec.py', "        if 'default' in param:\n            default = param.get('default')\n", "        if param.get('default') is not None:\n            default = param.get('default')\n")]
NEEDS = 'a parameter whose default is None'
BREAKS = 'it is published as required, and as the last of the required ones when a parameter with another default precedes it'
DEMO = '''
from node import *
def text(v):
    return v.decode() if isinstance(v, bytes) else v
SRC = score("", """
@external
def f(self, a: int, b: int = 7, c: Address = None):
    pass
@external
def g(self, a: str = None):
    pass
""")
with Node({'s': SRC}) as n:
    st, api = n.getapi('s')
    assert st == 0, st
    by = {text(m[1]): m for m in api}
    assert by['f'][3] == 1 and [i[2] for i in by['f'][4]] == [None, b'\\x07', None], by['f']
    assert by['g'][3] == 0, by['g']
'''
