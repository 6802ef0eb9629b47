PROP = 'C16'
EDITS = [('pyee/pyexec/iconscore/typing/definition.py', "    last_type_hint: type = type_hints[-1]\n\n    if is_struct(last_type_hint):\n        inp", "    last_type_hint: type = type_hints[0]\n\n    if is_struct(last_type_hint):\n        inp")]
NEEDS = 'a parameter that is a list of structures, or an optional structure'
BREAKS = 'its fields are not published, so the node refuses or empties every value for it'
DEMO = '''
from node import *
def text(v):
    return v.decode() if isinstance(v, bytes) else v
SRC = score("", """
@external
def f(self, x: P, y: List[P]):
    pass
""").replace("class Score", "class P(TypedDict):\\n    a: int\\n    b: Address\\n\\n\\nclass Score")
with Node({'s': SRC}) as n:
    st, api = n.getapi('s')
    assert st == 0, st
    f = [m for m in api if text(m[1]) == 'f'][0]
    F = [['a', 1, None], ['b', 5, None]]
    got = [[text(i[0]), i[1], i[2], [[text(y[0])] + y[1:] for y in i[3]] if len(i) > 3 and i[3] else None] for i in f[4]]
    assert got == [['x', 8, None, F], ['y', 0x18, None, F]], got
'''
