PROP = 'C26'
EDITS = [('pyee/pyexec/iconscore/icon_score_base2.py', """    if context and (context.revision & REVISION_COMPACT_JSON) != 0:
        step_cost""", """    if context and context.revision >= REVISION_COMPACT_JSON:
        step_cost""")]
NEEDS = 'a revision with a flag above that of compact JSON but without that flag'
BREAKS = 'parsing JSON is charged although the node did not enable the charge'
DEMO = '''
from node import *
SRC = score("", """
@external
def run(self, t: str):
    return json_loads(t)[0]
""")
with Node({'s': SRC}) as n:
    for rev, cost in ((0, 0), (256, 4000 + 4000 * 4 // 100), (255, 0), (512, 0), (768, 4160), (1024 + 3, 0)):
        st, used, r = n.invoke(n.code('s'), 'run', ['[17]'], costs={'apiCall': 1000}, revision=rev)
        assert (st, used, r) == (0, cost, 17), (rev, st, used, r)
'''
