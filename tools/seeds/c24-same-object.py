PROP = 'C24'
EDITS = [('pyee/pyexec/iconscore/icon_score_mapper.py', """        score_db = self._create_icon_score_database(address)
        return score_class(score_db)
""", """        if score_info is not None and getattr(score_info, 'score', None) is not None and score_info.score.address == address:
            return score_info.score
        score_db = self._create_icon_score_database(address)
        score = score_class(score_db)
        if score_info is not None:
            score_info.score = score
        return score
""")]
NEEDS = 'three executions of one contract, which keeps something in an attribute of its object'
BREAKS = 'an execution sees what an earlier one left in the object of the contract'
DEMO = r"""
from node import *
SRC = score("self.seen = 0", '''
@external
def run(self) -> int:
    self.seen = self.seen + 1
    return self.seen
''')
with Node({'s': SRC}) as n:
    for i in range(5):
        assert n.invoke('s', 'run') == (0, 0, 1), i
    for to in (b"\x01" + b"\x55" * 20, SELF, b"\x01" + b"\x55" * 20):
        assert n.invoke('s', 'run', to=to) == (0, 0, 1), to
"""
