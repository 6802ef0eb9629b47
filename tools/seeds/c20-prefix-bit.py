PROP = 'C20'
EDITS = [('pyee/pyexec/base/address.py', "            prefix = AddressPrefix(prefix_int)\n", "            prefix = AddressPrefix(prefix_int & 1)\n")]
NEEDS = '21 bytes whose first byte is neither 0 nor 1'
BREAKS = 'they are accepted as an address, which serializes back to other bytes'
DEMO = '''
from node import *
SRC = score("", """
@external
def run(self, b: bytes):
    try:
        a = Address.from_bytes(b)
    except BaseException:
        return 'refused'
    return 'nothing' if a is None else str(a)
""")
B = bytes(range(20))
with Node({'s': SRC}) as n:
    for b, ok in ((B, 'hx'), (b'\\x00' + B, 'hx'), (b'\\x01' + B, 'cx'), (b'\\x02' + B, None), (b'\\x03' + B, None), (b'\\xff' + B, None), (b'', None), (B[1:], None), (B + B[:2], None)):
        st, used, r = n.invoke(n.code('s'), 'run', [b])
        assert st == 0 and (r == ok + B.hex() if ok else r in ('refused', 'nothing')), (b, st, r)
'''
