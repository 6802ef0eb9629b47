PROP = 'C08'
EDITS = [('pyee/pyexec/base/exception.py', "        if ExceptionCode.SCORE_ERROR <= code <= ExceptionCode.END:\n", "        if ExceptionCode.SCORE_ERROR <= code < ExceptionCode.END:\n")]
NEEDS = 'a nested call that reverts with the largest status code'
BREAKS = 'the caller gets a plain system exception instead of a revert error, so a contract catching revert errors does not catch it'
DEMO = '''
from node import *
SRC = score("", """
@external
def run(self):
    try:
        self.call(self.msg.sender, 'x', {})
    except IconScoreException as e:
        return int(e.code)
""")
with Node({'s': SRC}) as n:
    for code in (32, 500, 998, 999):
        n.on_call = lambda *a: (code, 0, 'm')
        st, used, r = n.invoke(n.code('s'), 'run')
        assert (st, r) == (0, code), (st, r)
'''
