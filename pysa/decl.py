"""Contract declarations as data: their source text, and the interface that ought to be published for them."""
INT, STR, BYTES, BOOL, ADDRESS, LIST, DICT, STRUCT = 1, 2, 3, 4, 5, 6, 7, 8
BASE = {'int': INT, 'str': STR, 'bytes': BYTES, 'bool': BOOL, 'Address': ADDRESS, "'Address'": ADDRESS}
FUNCTION, FALLBACK, EVENT = 0, 1, 2
READONLY, EXTERNAL, PAYABLE, ISOLATED = 1, 2, 4, 8

# structured types: name -> fields
STRUCTS = {'Flat': (('a', 'int'), ('b', 'str'), ('c', 'bytes'), ('d', 'bool'), ('e', 'Address')),
           'One': (('x', 'int'),),
           'Deep': (('f', ('struct', 'Flat')), ('n', 'int')),
           'Deeper': (('n', 'int'), ('d', ('struct', 'Deep')), ('s', 'str')),
           'Lists': (('i', ('list', 'int')), ('f', ('list', ('struct', 'Flat'))), ('ll', ('list', ('list', 'str')))),
           'Opts': (('i', ('opt', 'int')), ('s', ('opt2', 'str')), ('f', ('opt', ('list', 'bytes')))),
           'Names': (('name', 'str'), ('type', 'int'), ('fields', 'bytes'), ('default', 'bool')),
           'Full': tuple(('f%d' % i, ('int', 'str', 'bytes', 'bool', 'Address')[i % 5]) for i in range(16))}


def text(t):
    if isinstance(t, str):
        return t
    k, x = t
    return {'list': 'List[%s]', 'opt': 'Optional[%s]', 'opt2': 'Union[None, %s]', 'opt3': 'Union[%s, None]', 'struct': '%s'}[k] % text(x)


def structs(t):
    while not isinstance(t, str):
        if t[0] == 'struct':
            return [s for f in STRUCTS[t[1]] for s in structs(f[1])] + [t[1]]
        t = t[1]
    return []


def number(t):
    """the published number of a type, and of its innermost structure the fields"""
    if t is None:
        return STR, None
    if isinstance(t, str):
        return BASE[t], None
    k, x = t
    if k == 'struct':
        return STRUCT, x
    n, s = number(x)
    return (n + 0x10 if k == 'list' else n), s


def fields(s):
    """the published fields of a structure: name, number and, for a structure, its fields again"""
    out = []
    for name, t in STRUCTS[s]:
        n, x = number(t)
        out.append((name, n, fields(x) if x else None))
    return tuple(out)


class Param:
    def __init__(self, name, type=None, default=None, wire=None):
        """default: its text; wire: the bytes it is published as"""
        self.name, self.type, self.default, self.wire = name, type, default, wire

    def text(self):
        s = self.name
        if self.type is not None:
            s += ': ' + text(self.type)
        if self.default is not None:
            s += (' = ' if self.type is not None else '=') + self.default
        return s


class Method:
    def __init__(self, name, decos, params=(), ret=None, out=None, body='pass', first='self'):
        """ret: text of the result annotation; out: the number it is published as for a read-only method"""
        self.name, self.decos, self.params, self.ret, self.out, self.body, self.first = name, decos, list(params), ret, out, body, first

    def text(self):
        ps = ', '.join(([self.first] if self.first else []) + [p.text() for p in self.params])
        return ''.join('    @%s\n' % d for d in self.decos) + '    def %s(%s)%s:\n        %s\n' % (self.name, ps, ' -> ' + self.ret if self.ret else '', self.body)

    def entry(self):
        """what is published: (kind, name, flags, required or indexed, inputs, outputs), or None"""
        flags, ev, indexed = 0, False, 0
        for d in self.decos:
            head = d.split('(')[0]
            if head == 'external':
                flags |= EXTERNAL
                if 'readonly=True' in d:
                    flags |= READONLY
            elif head == 'payable':
                flags |= PAYABLE
            elif head == 'eventlog':
                ev = True
                if 'indexed=' in d:
                    indexed = int(d.split('indexed=')[1].rstrip(')'))
        ins = []
        for p in self.params:
            n, s = number(p.type)
            ins.append((p.name, n, None if ev else p.wire, fields(s) if s else None))
        ins = tuple(ins)
        if ev:
            return (EVENT, self.name, 0, indexed, ins, ())
        if self.name == 'fallback':
            return (FALLBACK, 'fallback', PAYABLE, 0, (), ()) if flags == PAYABLE else None
        required = sum(1 for p in self.params if p.default is None)
        if self.name in ('on_install', 'on_update'):
            return (FUNCTION, self.name, 0, required, ins, ())
        if not flags & EXTERNAL:
            return None
        return (FUNCTION, self.name, flags, required, ins, (self.out,) if flags & READONLY and self.out else ())


ON_INSTALL = Method('on_install', (), (), 'None', body='super().on_install()')
ON_UPDATE = Method('on_update', (), (), 'None', body='super().on_update()')


class Contract:
    def __init__(self, methods, base=None, hooks=True, extra='', plain=False):
        """base: methods of a base class of the contract; extra: further text before the classes"""
        self.methods, self.base, self.extra = list(methods), base, extra
        if hooks:
            self.methods += [h for h in (ON_INSTALL, ON_UPDATE) if h.name not in [m.name for m in self.methods]]

    def text(self):
        out = ['from typing import List, Dict, Optional, Union, Any, Tuple\nfrom iconservice import *\n']
        need = []
        for m in self.methods + list(self.base or ()):
            for p in m.params:
                if p.type is not None:
                    need += structs(p.type)
        done = set()
        for s in need:
            if s not in done:
                done.add(s)
                out.append('\nclass %s(TypedDict):\n%s' % (s, ''.join('    %s: %s\n' % (n, text(t)) for n, t in STRUCTS[s])))
        out.append(self.extra)
        b = 'IconScoreBase'
        if self.base is not None:
            out.append('\nclass Base(IconScoreBase):\n' + '\n'.join(m.text() for m in self.base))
            b = 'Base'
        out.append('\nclass Score(%s):\n    def __init__(self, db: IconScoreDatabase) -> None:\n        super().__init__(db)\n\n%s' % (
            b, '\n'.join(m.text() for m in self.methods)))
        return '\n'.join(out)

    def api(self):
        """the interface, by name"""
        seen, out = {}, {}
        for m in list(self.base or ()) + self.methods:
            seen[m.name] = m
        for n, m in seen.items():
            e = m.entry()
            if e is not None:
                out[n] = e
        return out
