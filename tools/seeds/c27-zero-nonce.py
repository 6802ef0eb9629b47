PROP = 'C27'
EDITS = [('pyee/pyexec/base/transaction.py', """        self._nonce = nonce
""", """        self._nonce = nonce or None
""")]
NEEDS = 'a transaction with nonce 0'
BREAKS = 'the contract is told the transaction has no nonce'
DEMO = r"""
from node import *
SRC = score("", '''
@external
def run(self) -> list:
    return [self.tx.nonce, self.tx.index, self.tx.timestamp, self.block_height, self.now(), self.msg.value]
''')
with Node({'s': SRC}) as n:
    for k in (5, 0, 1, -1, None):
        got = n.invoke('s', 'run', **{'T.nonce': k, 'T.index': 0, 'T.timestamp': 0, 'B.height': 0, 'B.timestamp': 0})
        assert got == (0, 0, [k, 0, 0, 0, 0, 0]), (k, got)
"""
