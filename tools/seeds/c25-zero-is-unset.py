PROP = 'C25'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', "        self._context.fee_sharing_proportion = proportion\n", "        self._context.fee_sharing_proportion = proportion or self._context.fee_sharing_proportion\n")]
NEEDS = 'a contract that sets a fee share and then sets it back to 0 in the same execution'
BREAKS = 'the earlier fee share is sent although the last value set is 0'
DEMO = '''
from node import *
SRC = score("", """
@external
def run(self, a: int, b: int):
    self.set_fee_sharing_proportion(a)
    self.set_fee_sharing_proportion(b)
    return self.get_fee_sharing_proportion()
""")
with Node({'s': SRC}) as n:
    for a, b in ((0, 5), (5, 100), (5, 1), (0, 0), (5, 0)):
        st, used, r = n.invoke(n.code('s'), 'run', [a, b])
        assert (st, r) == (0, b), (a, b, st, r)
'''
