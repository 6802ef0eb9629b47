PROP = 'C09'
EDITS = [('pyee/pyexec/database/db.py', "    elif blen <= 55:\n", "    elif blen < 55:\n")]
NEEDS = 'a container name or key whose encoding is exactly 55 bytes long'
BREAKS = 'the key is encoded in the long RLP form, so the entry is stored where native node code does not look for it'
DEMO = '''
from node import *
import hashlib
SRC = score("self.a = DictDB('d', db, int)", """
@external
def run(self, k: str):
    self.a[k] = 1
""")
def rlp(b):
    if len(b) == 1 and b[0] < 0x80:
        return b
    assert len(b) <= 55
    return bytes([0x80 + len(b)]) + b
with Node({'s': SRC}) as n:
    for size in (1, 2, 54, 55):
        n.state.clear()
        st, used, r = n.invoke(n.code('s'), 'run', ['k' * size])
        assert st == 0, st
        assert list(n.state) == [hashlib.sha3_256(b'\\x01' + rlp(b'd') + rlp(b'k' * size)).digest()], size
'''
