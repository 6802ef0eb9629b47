PROP = 'C03'
EDITS = [('pyee/pyexec/ipc/proxy.py', """        except BaseException:
            e_str = traceback.format_exc()
            self.debug(f"Exception in GETAPI:\\n{e_str}", TAG)
""", """        except Exception:
            e_str = traceback.format_exc()
            self.debug(f"Exception in GETAPI:\\n{e_str}", TAG)
""")]
NEEDS = 'inspecting a contract whose class leaves the interpreter while its failure is being reported'
BREAKS = 'the inspect request is never answered and the executor ends'
DEMO = r"""
from node import *
BAD = '''
from iconservice import *

class Odd(Exception):
    def __str__(self):
        raise %s

class Score(IconScoreBase):
    def __init__(self, db):
        raise Odd()

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass
'''
GOOD = score("", '''
@external
def run(self) -> int:
    return 4
''')
with Node({'a': BAD % 'SystemExit()', 'b': BAD % 'KeyError(3)', 'c': BAD % 'KeyboardInterrupt()', 's': GOOD}) as n:
    for x in 'bac':
        r = n.getapi(x)
        assert r[0] != 0, (x, r)
        assert n.invoke('s', 'run')[2] == 4, x
"""
