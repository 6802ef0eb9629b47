PROP = 'C14'
NODEMO = False
EDITS = [('pyee/pyexec/iconscore/score_package_validator.py', """            cls._validate_import_from_code(co_const)
            cls._validate_import_from_const(co_const.co_consts)
            if hasattr(co_const, CODE_NAMES_ATTR):
""", """            cls._validate_import_from_code(co_const)
            if hasattr(co_const, CODE_NAMES_ATTR):
""")]
NEEDS = 'a forbidden import in a function nested in another function or in a method'
BREAKS = 'code objects nested more than one level deep (every method of a contract class) are not examined, so the package is loaded'
DEMO = '''
from node import *
HEAD = "import iconservice\\n\\nclass Score(iconservice.IconScoreBase):\\n    def __init__(self, db):\\n        super().__init__(db)\\n    def on_install(self): pass\\n    def on_update(self): pass\\n    @iconservice.external\\n    def f(self):\\n        %s\\n"
with Node({'good': HEAD % 'pass', 'one': HEAD % 'import os', 'two': HEAD % 'eval("1")', 'three': 'import os\\n' + HEAD % 'pass'}, verify=True) as n:
    assert n.getapi(n.code('good'))[0] == 0
    for s in ('three', 'one', 'two'):
        assert n.getapi(n.code(s))[0] != 0, s
'''
