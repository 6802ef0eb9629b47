PROP = 'C04'
EDITS = [('pyee/pyexec/iconscore/internal_call.py', "        new_limit = context.step_counter.step_remained\n",
          "        new_limit = context.step_counter.step_limit - context.step_counter.step_used\n")]
NEEDS = 'a nested call made while replies to earlier writes are outstanding'
BREAKS = 'the reply to the write is read (and thrown away) in place of the reply to the call, the pending refund is never applied and later replies are matched with the wrong requests'
DEMO = '''
from node import *
SRC = score("self.a = VarDB('a', db, int)\\nself.b = VarDB('b', db, str)", """
@external
def run(self):
    self.a.set(7)
    self.call(self.msg.sender, 'x', {})
    return self.b.get()
""")
with Node({'s': SRC}, timeout=5) as n:
    for i in range(2):
        st, used, r = n.invoke(n.code('s'), 'run')
        assert (st, r) == (0, ''), (st, r)
'''
