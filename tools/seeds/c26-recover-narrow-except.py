PROP = 'C26'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', """    try:
        return _recover_key(msg_hash, signature, compressed)
    except:
        return None
""", """    try:
        return _recover_key(msg_hash, signature, compressed)
    except (ValueError, TypeError):
        return None
""")]
NEEDS = 'a well-formed signature for which the library fails with a plain Exception (no key can be recovered)'
BREAKS = 'the failure of the library is raised to the contract instead of nothing being returned'
DEMO = '''
import os, sys, types
from node import *
SRC = score("", """
@external
def run(self, h: bytes, s: bytes):
    try:
        r = recover_key(h, s)
    except BaseException as e:
        return 'raised ' + type(e).__name__
    return 'none' if r is None else 'key'
""")
with Node({'s': SRC}) as n:
    st, used, r = n.invoke(n.code('s'), 'run', [b'1' * 32, b'2' * 64], costs={'apiCall': 100})
    assert (st, r) == (0, 'none'), (st, r)
    st, used, r = n.invoke(n.code('s'), 'run', [b'1' * 32, b'\\x05' * 64 + bytes(1)], costs={'apiCall': 100})
    assert (st, r) == (0, 'none'), (st, r)
'''
