PROP = 'C23'
EDITS = [('pyee/pyexec/iconscore/icon_score_base.py', '''        getattr(calling_obj, "_InterfaceScore__reset_icx")()

        if addr_to is None:
            raise InvalidInterfaceException('Cannot create an interface SCORE with a None address')

        return InternalCall.message_call(context, addr_from, addr_to, amount, func_name, args, kwargs)
''', '''
        if addr_to is None:
            raise InvalidInterfaceException('Cannot create an interface SCORE with a None address')

        ret = InternalCall.message_call(context, addr_from, addr_to, amount, func_name, args, kwargs)
        getattr(calling_obj, "_InterfaceScore__reset_icx")()
        return ret
''')]
NEEDS = 'a call through an interface object with coin attached fails and is caught, then the same object is used again'
BREAKS = 'the coin attached for the failed call is sent again with the next call'
DEMO = '''
from node import *
SRC = "from iconservice import *\\n\\nclass Peer(InterfaceScore):\\n    @interface\\n    def f(self):\\n        pass\\n" + score("", """
@external
def run(self, a: Address):
    p = self.create_interface_score(a, Peer)
    for i in range(3):
        try:
            if i == 0:
                p.icx(7).f()
            else:
                p.f()
        except BaseException:
            pass
""").replace('from iconservice import *', '')
with Node({'s': SRC}) as n:
    for status in (0, 32, 1):
        amounts = []
        n.on_call = lambda *d: (amounts.append(d[2]), (status, 0, None if status == 0 else 'no'))[1]
        st, used, r = n.invoke(n.code('s'), 'run', [Raw(ADDRESS, b"\\x01" + b"\\x11" * 20)])
        assert st == 0 and amounts == [7, 0, 0], (status, st, amounts)
'''
