PROP = 'C17'
EDITS = [('pyee/pyexec/iconscore/typing/element.py', "    if not isinstance_ex(default, default_type):\n", "    if not isinstance(default, default_type):\n")]
NEEDS = 'an integer parameter with a boolean as its default'
BREAKS = 'the contract is accepted although the default is of another type'
DEMO = '''
from node import *
def src(d):
    return score("", """
@external
def f(self, a: int = %s):
    pass
""" % d)
with Node({'a': src('1'), 'b': src('True'), 'c': src("'x'")}) as n:
    assert n.getapi('a')[0] == 0
    assert n.getapi('b')[0] != 0
    assert n.getapi('c')[0] != 0
'''
