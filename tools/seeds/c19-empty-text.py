PROP = 'C19'
EDITS = [('pyee/pyexec/base/type_converter.py', """            kw_param = kw_params.get(key)
            if kw_param is None:
                continue
""", """            kw_param = kw_params.get(key)
            if not kw_param:
                continue
""")]
NEEDS = 'a parameter given by name that is empty or false: the empty text for an integer, 0 or an empty list for a text'
BREAKS = 'the method runs with a value of another type than declared instead of the call failing'
DEMO = '''
from node import *
SRC = score("", """
@external
def num(self, v: int):
    return str(type(v).__name__) + ':' + str(v)

@external
def text(self, v: str):
    return str(type(v).__name__) + ':' + str(v)

@external
def data(self, v: bytes = None):
    return str(type(v).__name__) + ':' + str(v)
""")
with Node({'s': SRC}) as n:
    for m, v, want in (('num', '0x10', 'int:16'), ('num', '-3', 'int:-3'), ('num', '', None), ('num', 0, None), ('num', 5, None), ('text', '', 'str:'),
                       ('text', 0, None), ('text', [], None), ('text', [1], None), ('data', '0x', "bytes:b''"), ('data', '', "bytes:b''"), ('data', {}, None)):
        st, used, r = n.invoke(n.code('s'), m, {'v': v})
        assert r == want if want is not None else st != 0, (m, v, st, r)
    assert n.invoke(n.code('s'), 'data', {})[2] == 'NoneType:None'
'''
