PROP = 'C06'
EDITS = [('pyee/pyexec/iconscore/internal_call.py', """        context.step_counter.add_step(step_used)

        if status == ExceptionCode.OK:
            return result
""", """        if status == ExceptionCode.OK:
            context.step_counter.add_step(step_used)
            return result
""")]
NEEDS = 'a nested call which fails and whose error the caller catches'
BREAKS = 'the steps a failed callee used are not added to the caller, who can spend them again: the limit passed on and the steps reported are wrong'
DEMO = '''
from node import *
SRC = score("", """
@external
def run(self):
    for i in range(2):
        try:
            self.call(self.msg.sender, 'x', {})
        except BaseException:
            pass
""")
limits = []
def on_call(node, to, value, limit, method, params):
    limits.append(limit)
    return 33, 400, 'no'
with Node({'s': SRC}) as n:
    n.on_call = on_call
    st, used, r = n.invoke(n.code('s'), 'run', limit=1000)
    assert (st, used, limits) == (0, 800, [1000, 600]), (st, used, limits)
'''
