PROP = 'C02'
EDITS = [('pyee/pyexec/ipc/proxy.py', """            status, step_used, result = self.__invoke(
                code, is_query, _from, _to, value, limit, method, params, info)
""", """            status, step_used, result = self.__invoke(
                code, is_query, _from, _to, value, limit, method, params, info)
            is_query = self.__readonly_stack[-1]
"""), ('pyee/pyexec/ipc/proxy.py', "            self.__readonly = self.__readonly_stack.pop(-1)\n",
       "            self.__readonly_stack.pop(-1)\n            self.__readonly = is_query\n")]
NEEDS = 'a read-only callee in the same executor whose invocation itself raises (its result cannot be printed)'
BREAKS = 'the caller is left read-only after the nested request failed, so its later writes fail'
DEMO = '''
from node import *
SRC = score("self.a = VarDB('a', db, int)", """
@external
def run(self):
    try:
        self.call(self.msg.sender, 'x', {})
    except BaseException:
        pass
    self.a.set(3)
    return 1

@external(readonly=True)
def look(self) -> int:
    class Odd:
        def __repr__(self):
            raise ValueError()
    return Odd()
""")
def on_call(node, to, value, limit, method, params):
    st, used, r = node.invoke(node.code('s'), 'look', flag=1)
    assert st != 0
    return st, 0, r
with Node({'s': SRC}) as n:
    n.on_call = on_call
    st, used, r = n.invoke(n.code('s'), 'run')
    assert (st, r) == (0, 1), (st, r)
'''
