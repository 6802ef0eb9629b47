PROP = 'C20'
EDITS = [('pyee/pyexec/base/address.py', "        return not self.__eq__(other)\n", "        return not (isinstance(other, Address) and self.__body == other.body)\n")]
NEEDS = 'an account and a contract with the same body, compared with !='
BREAKS = 'neither == nor != holds between them'
DEMO = '''
from node import *
SRC = score("", """
@external
def run(self, s: str, t: str):
    a = Address.from_string(s)
    b = Address.from_string(t)
    return str(a == b) + str(a != b)
""")
A, B = '01' * 20, '01' * 19 + '02'
with Node({'s': SRC}) as n:
    for s in ('hx' + A, 'cx' + A, 'hx' + B):
        for t in ('hx' + A, 'cx' + A, 'hx' + B):
            st, used, r = n.invoke(n.code('s'), 'run', [s, t])
            assert r == str(s == t) + str(s != t), (s, t, r)
'''
