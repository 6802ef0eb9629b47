PROP = 'C17'
EDITS = [('pyee/pyexec/iconscore/typing/element.py', "        if is_base_type(origin):\n            continue\n\n        if origin is list:\n            normalize_list_type_hint(type_hint)\n", "        if is_base_type(origin):\n            continue\n\n        if origin is list:\n            get_origin(*get_args(type_hint))\n")]
NEEDS = 'a structure with a field that is a list of something not allowed'
BREAKS = 'the structure is taken for valid'
DEMO = '''
from node import *
def src(d):
    return score("", """
@external
def f(self, a: P):
    pass
@external
def g(self):
    pass
""").replace("class Score", "class P(TypedDict):\\n    n: int\\n    x: %s\\n\\n\\nclass Score" % d)
with Node({'a': src('List[int]'), 'b': src('List[float]'), 'c': src('List[dict]'), 'd': src('float'), 'e': src('List[List[bytes]]')}) as n:
    got = [n.invoke(x, 'g', [])[0] == 0 for x in 'abcde']
    assert got == [True, False, False, False, True], got
'''
