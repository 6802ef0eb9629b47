PROP = 'C05'
EDITS = [('pyee/pyexec/database/db.py', "count = new_size if context.step_counter.schema == 0 else old_size", "count = new_size if new_size else old_size")]
NEEDS = 'price schedule 1 and a replacement by a value of another length through the deferred path'
BREAKS = 'a replacement refunds by the size of the new value instead of the old one, so the steps used differ from the price table'
DEMO = '''
from node import *
SRC = score("self.a = VarDB('a', db, str)", """
@external
def run(self, v: str):
    self.a.set(v)
""")
COSTS = {'schema': 1, 'set': 320, 'setBase': 1000, 'delete': -240, 'deleteBase': 200, 'get': 25, 'getBase': 300}
with Node({'s': SRC}) as n:
    st, used, r = n.invoke(n.code('s'), 'run', ['a' * 10], costs=COSTS)
    assert (st, used) == (0, 1000 + 3200), (st, used)
    st, used, r = n.invoke(n.code('s'), 'run', ['b' * 3], costs=COSTS)
    assert (st, used) == (0, 1000 + 320 * 3 + (600 - 1000) - 240 * 10), (st, used)
'''
