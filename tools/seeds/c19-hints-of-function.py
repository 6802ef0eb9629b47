PROP = 'C19'
EDITS = [('pyee/pyexec/base/type_converter.py', """        hints = get_type_hints(func)
        if hints.get('return') is not None:
            del hints['return']
        return hints""", """        return {k: v for k, v in func.__annotations__.items() if k != 'return'}""")]
NEEDS = "a parameter annotated with the text 'Address' given by name"
BREAKS = 'the parameter reaches the method as text instead of an address, malformed or not'
DEMO = '''
from node import *
SRC = score("", """
@external
def who(self, v: 'Address', w: Address = None):
    return str(isinstance(v, Address)) + str(v) + str(w)
""")
HX = 'hx' + '01' * 20
with Node({'s': SRC}) as n:
    assert n.invoke(n.code('s'), 'who', {'v': HX})[2] == 'True' + HX + 'None'
    assert n.invoke(n.code('s'), 'who', {'v': HX, 'w': HX})[2] == 'True' + HX + HX
    assert n.invoke(n.code('s'), 'who', {'v': 'no address'})[0] != 0
    assert n.invoke(n.code('s'), 'who', {'v': HX, 'w': 'no address'})[0] != 0
'''
