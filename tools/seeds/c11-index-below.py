PROP = 'C11'
EDITS = [('pyee/pyexec/iconscore/icon_container_db.py', """        if index < 0:
            index += size
        if 0 <= index < size:
            key: bytes = ContainerUtil.encode_key(index)
            return""", """        if index < 0:
            index += size
        if index < size:
            key: bytes = ContainerUtil.encode_key(index)
            return""")]
NEEDS = 'reading an array at an index below -size'
BREAKS = 'the read succeeds with the default value instead of raising invalid-parameter'
DEMO = '''
from node import *
SRC = score("self.a = ArrayDB('a', db, int)", """
@external
def run(self, i: int):
    self.a.put(5)
    return self.a[i]
""")
with Node({'s': SRC}) as n:
    for i, want in ((0, (0, 5)), (-1, (0, 5)), (1, 6), (-2, 6), (-300, 6)):
        n.state.clear()
        st, used, r = n.invoke(n.code('s'), 'run', [i])
        assert (st, r) == want or st == want, (i, st, r)
'''
