PROP = 'C24'
EDITS = [('pyee/pyexec/iconscore/icon_score_mapper.py', """            if score_class is None:
                return None
            self.put_score_info(key, score_class, code_path)
        else:
            score_class = score_info.score_class
""", """            self.put_score_info(key, score_class, code_path)
        else:
            score_class = score_info.score_class

        if score_class is None:
            return None
""")]
NEEDS = 'a request for code which is not there yet, then another after it was stored'
BREAKS = 'the executor keeps answering that there is no contract'
DEMO = r"""
from node import *
SRC = score("", '''
@external
def run(self) -> int:
    return 4
''')
with Node({'s': SRC}) as n:
    assert n.invoke('s', 'run') == (0, 0, 4)
    assert n.invoke('later', 'run')[0] != 0
    n.package('later', SRC.replace('return 4', 'return 5'))
    assert n.invoke('later', 'run') == (0, 0, 5)
    assert n.getapi('later2')[0] != 0
    n.package('later2', SRC.replace('return 4', 'return 6'))
    assert n.getapi('later2')[0] == 0
    assert n.invoke('later2', 'run') == (0, 0, 6)
"""
