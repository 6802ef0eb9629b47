PROP = 'C10'
EDITS = [('pyee/pyexec/iconscore/icon_container_db.py', "        if value is None:\n            return get_default_value(value_type)\n", "        if not value:\n            return get_default_value(value_type)\n")]
NEEDS = 'empty bytes stored in a bytes container'
BREAKS = 'the stored empty bytes read back as nothing'
DEMO = '''
from node import *
SRC = score("self.a = VarDB('a', db, bytes)", """
@external
def run(self, v: bytes):
    self.a.set(v)
    return self.a.get()
""")
with Node({'s': SRC}) as n:
    for v in (b'x', b'\\\\x00', b''):
        st, used, r = n.invoke(n.code('s'), 'run', [v])
        assert (st, r) == (0, v), (v, st, r)
'''
