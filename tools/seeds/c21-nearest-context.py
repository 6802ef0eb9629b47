PROP = 'C21'
EDITS = [('pyee/pyexec/iconscore/icon_score_context.py', """        if context_stack is not None and len(context_stack) > 0:
            # pylint: disable=unsubscriptable-object
            return context_stack[-1]
        else:
            return None
""", """        if context_stack is not None:
            # the innermost one which is set
            for context in reversed(context_stack):
                if context is not None:
                    return context
        return None
""")]
NEEDS = 'an inspect request arrives while a contract waits for its call, and the constructor of the inspected contract uses the API'
BREAKS = 'the interrupted contract is charged for what the inspected contract does and its fee share is changed'
DEMO = r"""
from node import *
OUTER = score("", '''
@external
def run(self, a: Address) -> int:
    self.call(a, 'f', {})
    return self.get_fee_sharing_proportion()
''')
INNER = '''
from iconservice import *

class Score(IconScoreBase):
    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        for f in (lambda: sha3_256(b'x' * 320), lambda: self.set_fee_sharing_proportion(9)):
            try:
                f()
            except BaseException:
                pass

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    @external
    def f(self):
        pass
'''
with Node({'o': OUTER, 'i': INNER}) as n:
    a = Raw(ADDRESS, b"\x01" + b"\x11" * 20)
    want = n.invoke('o', 'run', [a], costs={'apiCall': 1000})
    assert want == (0, 0, 0), want

    def inspect(*d):
        assert n.getapi('i')[0] == 0
        return 0, 0, None
    n.on_call = inspect
    got = n.invoke('o', 'run', [a], costs={'apiCall': 1000})
    assert got == want and n.fees == [], (got, want, n.fees)
"""
