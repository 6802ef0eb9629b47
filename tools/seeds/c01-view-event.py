PROP = 'C01'
EDITS = [('pyee/pyexec/iconscore/icon_score_eventlog.py', """        if context.readonly:
""", """        if context.readonly and context.msg.sender != score_address:
""")]
NEEDS = 'a contract calls its own read-only method, which records an event'
BREAKS = 'the event is recorded although the method is declared read-only'
DEMO = r"""
from node import *
SRC = score("", '''
@eventlog
def Ev(self, a: int):
    pass

@external(readonly=True)
def see(self, t: int) -> int:
    self.Ev(t)
    return t

@external
def do(self, t: int) -> int:
    self.Ev(t)
    return t
''')
with Node({'s': SRC}) as n:
    assert n.invoke('s', 'do', [3], sender=SELF)[0] == 0 and len(n.events) == 1
    for sender in (EOA, SELF):
        for flag in (0, 1):
            st, used, r = n.invoke('s', 'see', [3], flag=flag, sender=sender)
            assert st != 0 and len(n.events) == 1, (sender, flag, st, n.events)
"""
