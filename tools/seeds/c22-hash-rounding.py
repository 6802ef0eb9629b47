PROP = 'C22'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', """        step: int = step_cost + step_cost * chunks // 10
""", """        step: int = int(step_cost * (1 + chunks / 10))
""")]
NEEDS = 'hashing data of certain sizes, where the product is just below a whole number'
BREAKS = 'the steps charged depend on floating point rounding'
DEMO = r"""
from node import *
SRC = score("", '''
@external
def run(self, n: int) -> bytes:
    return sha3_256(b'x' * n)
''')
with Node({'s': SRC}) as n:
    for cost in (10, 1000, 50, 90, 170, 10 ** 15 + 7):
        for k in (0, 1, 33, 97, 128, 416, 576, 992, 2304):
            st, used, r = n.invoke('s', 'run', [k], costs={'apiCall': cost}, limit=10 ** 20)
            chunks = (k + 31) // 32
            assert (st, used) == (0, cost + cost * chunks // 10), (cost, k, st, used)
"""
