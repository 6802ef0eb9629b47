PROP = 'C09'
EDITS = [('pyee/pyexec/utils/__init__.py', "    return ((n + (n < 0)).bit_length() + 8) // 8\n", "    return (n.bit_length() + 8) // 8\n")]
NEEDS = 'an integer key or index that is minus a power of two filling its bytes (-128, -32768, ...)'
BREAKS = 'the key is encoded one byte too long, so the entry is not where native node code looks for it'
DEMO = '''
from node import *
import hashlib
SRC = score("self.a = DictDB('d', db, int)", """
@external
def run(self, k: int):
    self.a[k] = 1
""")
def rlp(b):
    if len(b) == 1 and b[0] < 0x80:
        return b
    return bytes([0x80 + len(b)]) + b
with Node({'s': SRC}) as n:
    for k, e in ((0, '00'), (127, '7f'), (128, '0080'), (-1, 'ff'), (-129, 'ff7f'), (-128, '80'), (-32768, '8000')):
        n.state.clear()
        st, used, r = n.invoke(n.code('s'), 'run', [k])
        assert st == 0, st
        assert list(n.state) == [hashlib.sha3_256(b'\\x01' + rlp(b'd') + rlp(bytes.fromhex(e))).digest()], k
'''
