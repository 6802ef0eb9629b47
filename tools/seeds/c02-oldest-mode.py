PROP = 'C02'
EDITS = [('pyee/pyexec/ipc/proxy.py', "self.__readonly = self.__readonly_stack.pop(-1)", "self.__readonly = self.__readonly_stack.pop(0)")]
NEEDS = 'a read-only callee which itself calls on, followed by a second call which does not'
BREAKS = 'after the second call the caller is taken for read-only and its writes fail'
DEMO = '''
from node import *
SRC = score("self.a = VarDB('a', db, int)", """
@external
def run(self):
    self.call(self.msg.sender, 'far', {})
    self.call(self.msg.sender, 'near', {})
    self.a.set(3)
    return 1

@external(readonly=True)
def look(self) -> int:
    return self.call(self.msg.sender, 'near', {})

@external(readonly=True)
def flat(self) -> int:
    return 5
""")
def on_call(node, to, value, limit, method, params):
    st, used, r = node.invoke(node.code('s'), 'look' if method == 'far' else 'flat', flag=1)
    assert st == 0, r
    return st, 0, r
with Node({'s': SRC}) as n:
    n.on_call = on_call
    st, used, r = n.invoke(n.code('s'), 'run')
    assert (st, r) == (0, 1), (st, r)
'''
