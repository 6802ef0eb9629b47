PROP = 'C01'
EDITS = [('pyee/pyexec/database/db.py', """        if not _is_db_writable_on_context(context):
            raise DatabaseException('No permission to write')

        if value:
""", """        if value:
            if not _is_db_writable_on_context(context):
                raise DatabaseException('No permission to write')

""")]
NEEDS = 'a read-only method of an ordinary invocation stores empty bytes'
BREAKS = 'the method declared read-only empties the stored value'
DEMO = r"""
from node import *
SRC = score("", '''
@external
def put(self, t: bytes):
    VarDB('v', self.db, value_type=bytes).set(t)

@external(readonly=True)
def see(self, t: bytes) -> bytes:
    VarDB('v', self.db, value_type=bytes).set(t)
    return t
''')
with Node({'s': SRC}) as n:
    assert n.invoke('s', 'put', [b'abc'])[0] == 0
    before = dict(n.state)
    for v in (b'x', b'', b'abc'):
        for flag in (0, 1):
            st, used, r = n.invoke('s', 'see', [v], flag=flag)
            assert st != 0 and n.state == before, (v, flag, st, n.state)
"""
