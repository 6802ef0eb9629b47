PROP = 'C18'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', """            try:
                value = kwargs[name]
            except KeyError:
                if not parameter.default == Parameter.empty:
                    value = parameter.default
                else:
                    raise IllegalFormatException(
""", """            value = kwargs.get(name) or parameter.default
            if value == Parameter.empty:
                value = kwargs.get(name)
                if name not in kwargs:
                    raise IllegalFormatException(
""")]
NEEDS = 'an event parameter with a default, given by keyword with a value that is false (0, empty text, False)'
BREAKS = 'the default is recorded instead of the given value'
DEMO = '''
from node import *
SRC = score("", """
@eventlog(indexed=1)
def Sent(self, a: int, b: int = 7, c: str = 'x'):
    pass

@external
def run(self):
    self.Sent(0, 1, '')
    self.Sent(a=0, b=2, c='y')
    self.Sent(1)
    self.Sent(1, b=0, c='')
""")
with Node({'s': SRC}) as n:
    st, used, r = n.invoke(n.code('s'), 'run')
    assert st == 0, (st, r)
    got = [[bytes(x) for x in e[1]] for e in n.events]
    assert got == [[b'\\x01', b''], [b'\\x02', b'y'], [b'\\x07', b'x'], [b'\\x00', b'']], got
'''
