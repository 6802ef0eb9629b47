"""Reading the constants of the node's Go sources (lexed, not executed)."""
import os
import re
from .world import REPO

TOKEN = re.compile(r'''
    (?P<ws>[ \t\r]+) | (?P<nl>\n) | (?P<lc>//[^\n]*) | (?P<bc>/\*.*?\*/) |
    (?P<str>"(?:\\.|[^"\\\n])*"|`[^`]*`) | (?P<chr>'(?:\\.|[^'\\\n])+') |
    (?P<num>0[xX][0-9a-fA-F_]+|\d[\d_]*(?:\.\d+)?) | (?P<id>[A-Za-z_]\w*) |
    (?P<op><<=|>>=|&\^=|\.\.\.|&&|\|\||<-|\+\+|--|==|!=|<=|>=|:=|<<|>>|&\^|[-+*/%&|^<>=!]=?|[()\[\]{},;.:~])
''', re.X | re.S)


MODULE = 'github.com/icon-project/goloop/'


def lex(text):
    """[(kind, text, line)] with automatic semicolons"""
    out, pos, line = [], 0, 1
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if m is None:
            pos += 1
            continue
        k, t = m.lastgroup, m.group()
        pos = m.end()
        if k in ('nl', 'lc') or k == 'bc' and '\n' in t:
            if k != 'lc' and out and (out[-1][0] in ('str', 'chr', 'num', 'id') and out[-1][1] not in
                                      ('if', 'for', 'func', 'const', 'var', 'type', 'struct', 'interface', 'switch', 'select', 'case', 'go', 'defer', 'map', 'chan', 'else', 'import', 'package', 'range')
                                      or out[-1][1] in (')', ']', '}', '++', '--')):
                out.append(('op', ';', line))
        elif k not in ('ws', 'bc'):
            out.append((k, t, line))
        line += t.count('\n')
    return out


def path(rel):
    return os.path.join(REPO, rel)


def tokens(rel):
    with open(path(rel), encoding='utf-8') as f:
        return lex(f.read())


class Undecided(Exception):
    pass


def evaluate(toks, env, iota):
    """constant expression -> int or text"""
    import ast
    src = []
    toks = list(toks)
    for i, (k, t, _) in enumerate(toks):
        if i and toks[i - 1][1] == '.' or t == '.':
            continue
        if k == 'id' and i + 2 < len(toks) and toks[i + 1][1] == '.' and toks[i + 2][0] == 'id':
            p = env.get('import ' + t)
            e = consts(p) if p and os.path.isdir(path(p)) else {}
            if toks[i + 2][1] not in e:
                raise Undecided(t)
            src.append(repr(e[toks[i + 2][1]]))
            continue
        if k == 'id':
            if t == 'iota':
                src.append(str(iota))
            elif t in env:
                src.append(repr(env[t]))
            elif t in ('int', 'int64', 'uint', 'uint64', 'byte', 'uint8', 'string'):
                continue
            else:
                raise Undecided(t)
        elif k in ('num', 'str'):
            src.append(t.replace('`', '"') if k == 'str' else t)
        elif k == 'chr':
            src.append(str(ord(ast.literal_eval(t))))
        elif t in ('+', '-', '*', '<<', '>>', '|', '&', '(', ')', '/'):
            src.append('//' if t == '/' else t)
        else:
            raise Undecided(t)
    tree = ast.parse(' '.join(src), mode='eval')
    return fold(tree.body)


def fold(n):
    import ast
    import operator as o
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.BinOp):
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.FloorDiv: o.floordiv}.get(type(n.op))
        if f:
            return f(fold(n.left), fold(n.right))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -fold(n.operand)
    raise Undecided(repr(n))


def consts_of(rel, env=None):
    """constants declared at package level in one file: name -> value"""
    env = {} if env is None else env
    toks = tokens(rel)
    i, depth = 0, 0
    for j, (k, t, _) in enumerate(toks):
        # imported packages of this module
        if k == 'str' and t.strip('"').startswith(MODULE):
            q = t.strip('"')[len(MODULE):]
            env['import ' + (toks[j - 1][1] if toks[j - 1][0] == 'id' and toks[j - 1][1] != 'import' else q.rpartition('/')[2])] = q
    while i < len(toks):
        k, t, _ = toks[i]
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
        elif depth == 0 and k == 'id' and t == 'const':
            i += 1
            if toks[i][1] == '(':
                i += 1
                iota, last = 0, None
                while toks[i][1] != ')':
                    spec = []
                    par = 0
                    while i < len(toks) and (par or toks[i][1] not in (';', ')')):
                        par += {'(': 1, ')': -1}.get(toks[i][1], 0)
                        spec.append(toks[i])
                        i += 1
                    if toks[i][1] == ';':
                        i += 1
                    if spec:
                        last = one(spec, last, env, iota)
                        iota += 1
            else:
                spec = []
                while toks[i][1] != ';':
                    spec.append(toks[i])
                    i += 1
                one(spec, None, env, 0)
            continue
        i += 1
    return env


def one(spec, last, env, iota):
    names, i = [spec[0][1]], 1
    while i < len(spec) and spec[i][1] == ',':
        names.append(spec[i + 1][1])
        i += 2
    eq = next((j for j, x in enumerate(spec) if x[1] == '='), None)
    exprs = last
    if eq is not None:
        exprs, cur, par = [], [], 0
        for x in spec[eq + 1:]:
            par += {'(': 1, ')': -1}.get(x[1], 0)
            if x[1] == ',' and not par:
                exprs.append(cur)
                cur = []
            else:
                cur.append(x)
        exprs.append(cur)
    for n, e in zip(names, exprs or []):
        if n != '_':
            try:
                env[n] = evaluate(e, env, iota)
            except (Undecided, SyntaxError):
                env.pop(n, None)
    return exprs


def consts(rel):
    """constants of a package directory or file"""
    p = path(rel)
    if os.path.isfile(p):
        return consts_of(rel)
    env = {}
    for n in sorted(os.listdir(p)):
        if n.endswith('.go') and not n.endswith('_test.go'):
            consts_of(os.path.join(rel, n), env)
    return env


# ---------------------------------------------------------------------- declarations
def structs(rel):
    """struct types of a file: name -> [(field, type)]; embedded fields have the field name ''"""
    toks = tokens(rel)
    out = {}
    for i in range(len(toks) - 3):
        if toks[i][1] == 'type' and toks[i][0] == 'id' and toks[i + 1][0] == 'id' and toks[i + 2][1] == 'struct' and toks[i + 3][1] == '{':
            j, cur, fields, depth = i + 4, [], [], 0
            while depth or toks[j][1] != '}':
                t = toks[j]
                depth += {'{': 1, '(': 1, '[': 1, '}': -1, ')': -1, ']': -1}.get(t[1], 0)
                if t[1] == ';' and not depth:
                    fields += field(cur)
                    cur = []
                else:
                    cur.append(t)
                j += 1
            fields += field(cur)
            out[toks[i + 1][1]] = fields
    return out


def field(ts):
    if ts and ts[-1][0] == 'str':
        ts = ts[:-1]
    if not ts:
        return []
    names, i = [], 0
    while i + 1 < len(ts) and ts[i][0] == 'id' and ts[i + 1][1] == ',':
        names.append(ts[i][1])
        i += 2
    if len(ts) - i == 1 or ts[i][1] == '*' or ts[i + 1][1] == '.':
        return [('', ''.join(t[1] for t in ts))]
    names.append(ts[i][1])
    return [(n, ''.join(t[1] for t in ts[i + 1:])) for n in names]


def body(rel, name):
    """tokens of the body of a function or method"""
    toks = tokens(rel)
    i = 0
    while i < len(toks):
        if toks[i][1] == 'func' and toks[i][0] == 'id':
            j = i + 1
            if toks[j][1] == '(':
                d = 1
                while d:
                    j += 1
                    d += {'(': 1, ')': -1}.get(toks[j][1], 0)
                j += 1
            if toks[j][0] == 'id' and toks[j][1] == name:
                while toks[j][1] != '(':
                    j += 1
                d = 1
                while d:
                    j += 1
                    d += {'(': 1, ')': -1}.get(toks[j][1], 0)
                # the result list may contain braces only in interface or struct types
                while toks[j][1] != '{' or toks[j - 1][1] in ('interface', 'struct'):
                    j += 1
                k, d = j + 1, 1
                while d:
                    d += {'{': 1, '}': -1}.get(toks[k][1], 0)
                    k += 1
                return toks[j + 1:k - 1]
        i += 1
    return None


def cases(toks, subject):
    """clauses of the switch over the named value: [(labels, tokens)]"""
    for i in range(len(toks)):
        if toks[i][1] == 'switch' and toks[i + 1][1] == subject and toks[i + 2][1] == '{':
            out, d, j = [], 1, i + 3
            while d:
                t = toks[j][1]
                if d == 1 and toks[j][0] == 'id' and t in ('case', 'default'):
                    labels = []
                    j += 1
                    while toks[j][1] != ':':
                        if toks[j][0] == 'id':
                            labels.append(toks[j][1])
                        j += 1
                    out.append((labels, []))
                else:
                    d += {'{': 1, '}': -1}.get(t, 0)
                    if out and d:
                        out[-1][1].append(toks[j])
                j += 1
            return out
    return None


def decoded(toks):
    """the declared type of the message a clause unmarshals first: (type, variable) or None"""
    types = {}
    for i in range(len(toks) - 2):
        if toks[i][1] == 'var' and toks[i + 1][0] == 'id':
            j, t = i + 2, ''
            while toks[j][1] not in (';', '='):
                t += toks[j][1]
                j += 1
            types[toks[i + 1][1]] = t
        if toks[i][1].startswith('UnmarshalFromBytes') and toks[i + 1][1] == '(':
            j = i + 2
            while toks[j][1] != ',':
                j += 1
            v = [t[1] for t in toks[j + 1:j + 3]]
            if v[0] == '&' and v[1] in types:
                return types[v[1]]
    return None


JAVA = re.compile(r'\b(class|enum|interface)\s+(\w+)|\b(?:static\s+final|final\s+static)\s+(?:int|long|byte|short|String)\s+(\w+)\s*=\s*([^;]+);|([{}])')


def java(rel):
    """integer and text constants of a Java file: Class.NAME -> value"""
    import ast
    with open(path(rel), encoding='utf-8') as f:
        text = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', f.read(), flags=re.S)
    # texts are kept, braces in them are not
    text = re.sub(r'"(?:\\.|[^"\\\n])*"', lambda m: m.group().replace('{', ' ').replace('}', ' '), text)
    stack, pend, out = [], '', {}
    for m in JAVA.finditer(text):
        if m.group(1):
            pend = m.group(2)
        elif m.group(3):
            name = '.'.join([x for x in stack if x] + [m.group(3)])
            try:
                env = {k.rsplit('.', 1)[1]: v for k, v in out.items()}
                out[name] = evaluate(lex(m.group(4)), env, 0)
            except (Undecided, SyntaxError, ValueError):
                pass
        elif m.group(5) == '{':
            stack.append(pend)
            pend = ''
        elif stack:
            stack.pop()
    return out
