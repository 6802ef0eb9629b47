PROP = 'C12'
EDITS = [('pyee/pyexec/ipc/proxy.py', """        if tag == TypeTag.NIL:
            return None
        elif tag == TypeTag.DICT:
            obj = {}
            for k, v in val.items():
                if isinstance(k, bytes):
                    k = k.decode('utf-8')
                obj[k] = self.decode_any(v)
""", """        if tag == TypeTag.NIL:
            return None
        elif tag == TypeTag.DICT:
            obj = {}
            for k, v in val.items():
                if isinstance(k, bytes):
                    k = k.decode('utf-8')
                item = self.decode_any(v)
                if item is not None:
                    obj[k] = item
""")]
NEEDS = 'a nested call whose result is a dictionary with an entry that is nothing'
BREAKS = 'the entry disappears when the value is decoded, so the value the caller sees is not the one the callee returned'
DEMO = '''
from node import *
SRC = score("", """
@external
def run(self):
    return sorted(self.call(self.msg.sender, 'x', {}))
""")
with Node({'s': SRC}) as n:
    n.on_call = lambda *a: (0, 0, {'a': 1, 'b': None, 'c': ''})
    st, used, r = n.invoke(n.code('s'), 'run')
    assert (st, r) == (0, ['a', 'b', 'c']), (st, r)
'''
