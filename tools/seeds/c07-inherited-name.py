PROP = 'C07'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', "        return isinstance(func, FunctionMetadata) and func.is_external\n",
          "        return func is not None and (func.is_external if isinstance(func, FunctionMetadata) else True)\n")]
NEEDS = 'a request naming an event declaration of the contract'
BREAKS = 'an outsider can make the contract record its events directly although the method is not external'
DEMO = '''
from node import *
SRC = score("", """
@eventlog
def Paid(self, to: str): pass

@external
def run(self):
    self.Paid('x')
""")
with Node({'s': SRC}) as n:
    st, used, r = n.invoke(n.code('s'), 'run')
    assert st == 0 and len(n.events) == 1
    st, used, r = n.invoke(n.code('s'), 'Paid', ['y'])
    assert st == 3 and len(n.events) == 1, (st, n.events)
'''
