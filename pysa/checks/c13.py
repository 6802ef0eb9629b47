"""C13: executors and node agree on the wire protocol."""
from ..kit import *
from .. import world as w
from .. import golang as g

TITLE = 'Executors and node agree on the wire protocol'
CODE = '/scores/seq'
PROXY = 'service/eeproxy/proxy.go'

# what the executor's names mean in the node's source: executor class -> (source, name -> the node's name)
PAIRS = [
    ('pyexec.ipc.proxy.Message', PROXY, lambda n: 'msg' + n),
    ('pyexec.ipc.proxy.TypeTag', 'common/codec/typed.go', {'NIL': 'TypeNil', 'DICT': 'TypeDict', 'LIST': 'TypeList', 'BYTES': 'TypeBytes', 'STRING': 'TypeString',
                                                           'BOOL': 'TypeBool', 'CUSTOM': 'TypeCustom'}),
    ('pyexec.ipc.proxy.TypeTag', 'common/codec.go', {'ADDRESS': 'TypeAddress', 'INT': 'TypeInt'}),
    ('pyexec.ipc.proxy.InvokeFlag', PROXY, {'READ_ONLY': 'InvokeFlagReadOnly', 'TRACE': 'InvokeFlagTrace'}),
    ('pyexec.ipc.proxy.SetValueFlag', PROXY, {'DELETE': 'flagDELETE', 'OLDVALUE': 'flagOLDVALUE'}),
    ('pyexec.ipc.proxy.LogFlag', PROXY, {'TRACE': 'LogFlagTrace'}),
    ('pyexec.ipc.proxy.APIType', 'service/scoreapi', {'FUNCTION': 'Function', 'FALLBACK': 'Fallback', 'EVENT': 'Event'}),
    ('pyexec.ipc.proxy.APIFlag', 'service/scoreapi', {'READONLY': 'FlagReadOnly', 'EXTERNAL': 'FlagExternal', 'PAYABLE': 'FlagPayable', 'ISOLATED': 'FlagIsolated'}),
    ('pyexec.ipc.proxy.DataType', 'service/scoreapi', {'INTEGER': 'Integer', 'STRING': 'String', 'BYTES': 'Bytes', 'BOOL': 'Bool', 'ADDRESS': 'Address', 'LIST': 'List',
                                                       'DICT': 'Dict', 'STRUCT': 'Struct'}),
    ('pyexec.ipc.proxy.Info', 'service/state', {'BLOCK_TIMESTAMP': 'InfoBlockTimestamp', 'BLOCK_HEIGHT': 'InfoBlockHeight', 'TX_HASH': 'InfoTxHash',
                                                'TX_INDEX': 'InfoTxIndex', 'TX_FROM': 'InfoTxFrom', 'TX_TIMESTAMP': 'InfoTxTimestamp', 'TX_NONCE': 'InfoTxNonce',
                                                'REVISION': 'InfoRevision', 'STEP_COSTS': 'InfoStepCosts', 'CONTRACT_OWNER': 'InfoContractOwner'}),
    ('pyexec.base.exception.ExceptionCode', 'module/service.go',
     {'OK': 'StatusSuccess', 'SYSTEM_ERROR': 'StatusUnknownFailure', 'CONTRACT_NOT_FOUND': 'StatusContractNotFound', 'METHOD_NOT_FOUND': 'StatusMethodNotFound',
      'METHOD_NOT_PAYABLE': 'StatusMethodNotPayable', 'ILLEGAL_FORMAT': 'StatusIllegalFormat', 'INVALID_PARAMETER': 'StatusInvalidParameter',
      'INVALID_INSTANCE': 'StatusInvalidInstance', 'INVALID_CONTAINER_ACCESS': 'StatusInvalidContainerAccess', 'ACCESS_DENIED': 'StatusAccessDenied',
      'OUT_OF_STEP': 'StatusOutOfStep', 'OUT_OF_BALANCE': 'StatusOutOfBalance', 'TIMEOUT_ERROR': 'StatusTimeout', 'STACK_OVERFLOW': 'StatusStackOverflow',
      'SCORE_ERROR': 'StatusReverted', 'END': 'StatusLimit'}),
    ('pyexec.iconscore.icon_score_step.StepType', 'service/state/common.go',
     {'SCHEMA': 'StepTypeSchema', 'GET': 'StepTypeGet', 'SET': 'StepTypeSet', 'REPLACE': 'StepTypeReplace', 'DELETE': 'StepTypeDelete', 'EVENT_LOG': 'StepTypeEventLog',
      'API_CALL': 'StepTypeApiCall', 'GET_BASE': 'StepTypeGetBase', 'SET_BASE': 'StepTypeSetBase', 'DELETE_BASE': 'StepTypeDeleteBase', 'LOG_BASE': 'StepTypeLogBase',
      'LOG': 'StepTypeLog'}),
]
J = 'javaee/exec/src/java/foundation/icon/ee/ipc/EEProxy.java'
METHOD = 'javaee/rt/src/java/foundation/icon/ee/types/Method.java'
JAVA = [
    (J, 'EEProxy.MsgType', PROXY, lambda n: 'msg' + n),
    (J, 'EEProxy.SetValueFlag', PROXY, {'DELETE': 'flagDELETE', 'OLDVALUE': 'flagOLDVALUE'}),
    (J, 'EEProxy.Info', 'service/state', PAIRS[9][2]),
    ('javaee/exec/src/java/foundation/icon/ee/ipc/TypedObj.java', 'TypedObj', 'common/codec/typed.go', PAIRS[1][2]),
    ('javaee/exec/src/java/foundation/icon/ee/ipc/TypedObj.java', 'TypedObj', 'common/codec.go', PAIRS[2][2]),
    ('javaee/rt/src/java/foundation/icon/ee/types/Status.java', 'Status', 'module/service.go',
     {'Success': 'StatusSuccess', 'UnknownFailure': 'StatusUnknownFailure', 'ContractNotFound': 'StatusContractNotFound', 'MethodNotFound': 'StatusMethodNotFound',
      'MethodNotPayable': 'StatusMethodNotPayable', 'IllegalFormat': 'StatusIllegalFormat', 'InvalidParameter': 'StatusInvalidParameter',
      'InvalidInstance': 'StatusInvalidInstance', 'InvalidContainerAccess': 'StatusInvalidContainerAccess', 'AccessDenied': 'StatusAccessDenied',
      'OutOfStep': 'StatusOutOfStep', 'OutOfBalance': 'StatusOutOfBalance', 'Timeout': 'StatusTimeout', 'StackOverflow': 'StatusStackOverflow',
      'SkipTransaction': 'StatusSkipTransaction', 'PackageError': 'StatusInvalidPackage', 'UserReversionStart': 'StatusReverted'}),
    (METHOD, 'Method.MethodType', 'service/scoreapi', PAIRS[6][2]),
    (METHOD, 'Method.Flags', 'service/scoreapi', PAIRS[7][2]),
    (METHOD, 'Method.DataType', 'service/scoreapi', PAIRS[8][2]),
]
# fields of the node's messages the executors read or leave out
INVOKE_FIELDS = ('Code', 'Flag', 'From', 'To', 'Value', 'Limit', 'Method', 'Params', 'Info')
REPLIES = {'getValueMessage': ('Success', 'Value'), 'oldValueMessage': ('HasOld', 'OldSize'), 'containsResponse': ('YN', 'Count', 'Size'),
           'resultMessage': ('Status', 'StepUsed', 'Result')}
OPTIONAL = {'EID', 'PrevEID'}


def run(c):
    c.scenario('numbers and names', lambda: numbers(c))
    c.scenario('layout of what the node sends', lambda: layouts(c))
    for ops in ('set,get', 'rem', 'rem,set,get', 'dset,ddel,dget,dhas', 'bal', 'in,len', 'call', 'iface', 'send', 'transfer', 'event', 'plain', 'fee', 'put', 'fail', 'revert'):
        for m in ('run', 'caught'):
            sends(c, '%s %s' % (m, ops), lambda m=m, ops=ops: [w.req_invoke('q', CODE, m, w.plist(typed_str(ops)), costs=(), value=K(0))])
    for s in ('basic', 'gate', 'keys', 'none'):
        sends(c, 'inspection of ' + s, lambda s=s: [w.req_getapi('q', '/scores/' + s)])
    c.scenario('log messages', lambda: logs(c))


def numbers(c):
    W = make(['seq'])
    W.boot([])
    c.absorb(W.I)
    n = 0
    for cls, rel, names in PAIRS:
        goes = g.consts(rel)
        mod, _, cn = cls.rpartition('.')
        for s, v in pyconst(W, mod, cn):
            o = s.get(v) if isinstance(v, Ref) else None
            for name in sorted(x for x in (o.fields if o else {}) if not x.startswith('_')):
                gname = names(name) if callable(names) else names.get(name)
                if gname is None:
                    continue
                ours = value(W, s, v, name)
                if ours is None:
                    continue
                c.ob('same-number', None if gname not in goes else goes[gname] == ours, '%s.%s' % (cls, name),
                     lambda: '%s.%s is %r, the node has %s = %r (%s)' % (cls, name, ours, gname, goes.get(gname), rel), '%s.%s' % (cn, name))
                n += 1
    for jrel, cls, rel, names in JAVA:
        goes, js = g.consts(rel), g.java(jrel)
        for q, ours in sorted(js.items()):
            p, _, name = q.rpartition('.')
            gname = (names(name) if callable(names) else names.get(name)) if p == cls else None
            if gname is None:
                continue
            c.ob('same-number', None if gname not in goes else goes[gname] == ours, '%s:%s' % (jrel, q),
                 lambda: '%s is %r, the node has %s = %r (%s)' % (q, ours, gname, goes.get(gname), rel), 'Java ' + q)
            n += 1
    # the numbers themselves are part of the protocol between released nodes and executors
    goes = g.consts(PROXY)
    for name in ('VERSION', 'INVOKE', 'RESULT', 'GETVALUE', 'SETVALUE', 'CALL', 'EVENT', 'GETINFO', 'GETBALANCE', 'GETAPI', 'LOG', 'CLOSE', 'SETFEEPCT', 'CONTAINS'):
        if 'msg' + name in goes:
            c.ob('same-number', goes['msg' + name] == getattr(w, name), PROXY, 'message %s is %r in the node' % (name, goes['msg' + name]), 'node msg' + name)
    key = g.consts('service/scoreapi').get('KeyForPositionalParameters')
    if key is not None:
        c.ob('same-number', key == '.', 'service/scoreapi/method.go', 'positional parameters are under %r' % key, 'positional key')
    return n


def pyconst(W, mod, cn):
    I = W.I
    st = W.base.copy()
    st, m = I.import_module(st, mod)
    return [(s, v) for s, v in I.getattr(st, m, cn) if isinstance(v, Ref)]


def value(W, st, cls, name):
    r = W.I.getattr(st, cls, name)
    if len(r) != 1:
        return None
    s, v = r[0]
    if is_enum_ref(s, v):
        r = W.I.getattr(s, v, 'value')
        v = r[0][1] if len(r) == 1 else v
    v = strip(v)
    if isinstance(v, T) and v.op == 'enum' and isinstance(v.args[1], K):
        v = v.args[1]
    return v.v if isinstance(v, K) and isinstance(v.v, (int, str)) else None


def is_enum_ref(st, v):
    return isinstance(v, Ref)


def layouts(c):
    ss = g.structs(PROXY)
    want = dict(REPLIES)
    want['invokeMessage'] = INVOKE_FIELDS
    n = 0
    for name, fields in want.items():
        if name not in ss:
            c.ob('same-layout', None, PROXY, 'no struct ' + name, name)
            continue
        have = [f for f, t in ss[name]]
        n += 1
        # names may change; an order that differs among the known names does not
        known = [f for f in have if f in fields]
        bad = known != [f for f in fields if f in have] or any(have.index(f) != fields.index(f) for f in known)
        c.ob('same-layout', False if bad else True if len(known) == len(fields) else None, PROXY,
             'the node sends %s as %s, executors read %s' % (name, have, list(fields)), name)
    return n


def clauses(c):
    toks = g.body(PROXY, 'HandleMessage')
    cs = g.cases(toks, 'msg') if toks else None
    env = g.consts(PROXY)
    if cs is None:
        return None, {}
    out = {}
    for labels, ts in cs:
        for l in labels:
            if l in env:
                out[env[l]] = g.decoded(ts)
    return out, g.structs(PROXY)


def fits(st, typ, v):
    """whether the node can decode v as a Go type"""
    v = strip(v)
    its = seq(v)
    ts = None
    if isinstance(v, K):
        kind = type(v.v).__name__
    elif its is not None:
        kind = 'list'
    else:
        ts = st.tset(v)
        kind = ts.single()
        if kind is None:
            return None
    if typ in ('[]byte', 'string'):
        return kind in ('bytes', 'str', 'NoneType') if typ == '[]byte' else kind in ('bytes', 'str')
    if typ in ('int', 'int64', 'uint16', 'uint', 'errors.Code', 'log.Level', 'logFlag', 'invokeFlag', 'uint8', 'int32', 'uint32', 'uint64'):
        return kind == 'int'
    if typ == 'bool':
        return kind == 'bool'
    if typ in ('common.HexInt', 'common.Address'):
        return kind == 'bytes'
    if typ == '[][]byte':
        if its is None:
            return False if kind != 'list' else None
        return alls([fits(st, '[]byte', x) for x in its])
    if typ == '*codec.TypedObj':
        return its is not None and len(its) == 2 and fits(st, 'int', its[0]) if its is not None or kind != 'list' else None
    if typ == '*scoreapi.Info':
        if isinstance(v, K):
            return v.v is None
        if its is None:
            return None
        return alls([method(st, x) for x in its])
    return None


def method(st, x):
    its = seq(x)
    if its is None or len(its) != 6:
        return False if its is not None else None
    ins, outs = seq(its[4]), seq(its[5])
    r = [fits(st, 'int', its[0]), fits(st, 'string', its[1]), fits(st, 'int', its[2]), fits(st, 'int', its[3])]
    if ins is None or outs is None:
        return None
    for i in ins:
        p = seq(i)
        r.append(False if p is None or not 3 <= len(p) <= 4 else alls([fits(st, 'string', p[0]), fits(st, 'int', p[1]), fits(st, '[]byte', p[2])]))
    r += [fits(st, 'int', x) for x in outs]
    return alls(r)


def alls(xs):
    return False if any(x is False for x in xs) else True if all(x is True for x in xs) else None


def judge_send(c, st, handled, ss, m, data, where, name):
    what = NAMES.get(m, str(m))
    if m == w.VERSION:
        its = seq(data)
        fields = ss.get('versionMessage', [])
        c.ob('same-layout', None if its is None or not fields else len(its) == len(fields) and alls([fits(st, t, x) for (_, t), x in zip(fields, its)]), where,
             lambda: 'VERSION is sent as %r' % (data,), 'VERSION')
        return
    c.ob('handled', m in handled, where, lambda: 'message %s is sent, the node does not handle it (%s)' % (what, name), what)
    typ = handled.get(m)
    if typ is None:
        return
    if typ in ss:
        fields = ss[typ]
        its = seq(data)
        if its is None:
            c.ob('same-layout', False if isinstance(data, K) else None, where, lambda: '%s is sent as %r (%s)' % (what, data, name), what)
            return
        left = [f for f, t in fields[len(its):]]
        ok = len(its) <= len(fields) and all(f in OPTIONAL for f in left)
        c.ob('same-layout', ok and alls([fits(st, t, x) for (_, t), x in zip(fields, its)]), where,
             lambda: '%s is sent as %r, the node reads %s (%s)' % (what, data, fields, name), what)
    else:
        c.ob('same-layout', fits(st, typ, data), where, lambda: '%s is sent as %r, the node reads %s (%s)' % (what, data, typ, name), what)


def sends(c, name, script):
    def f():
        W = make(['seq', 'basic', 'gate', 'keys'])
        res = W.boot(script())
        c.absorb(W.I)
        handled, ss = clauses(c)
        if handled is None:
            c.ob('handled', None, PROXY, 'the handler of messages is not found', 'handler')
            return 0
        for st, e in res:
            requests(st)
            for e in st.trace:
                if e.kind == 'send':
                    judge_send(c, st, handled, ss, e.args[0], e.args[1], place(e.where), name)
        return len(res)
    c.scenario(name, f)


def logs(c):
    W = make(['seq'])
    W.boot([])
    I = W.I
    handled, ss = clauses(c)
    seen = []
    old = W.send
    W.send = lambda st, msg, data: (seen.append((st, strip(msg), data)), old(st, msg, data))[1]
    try:
        for s, cls in pyconst(W, 'pyexec.ipc.proxy', 'ServiceManagerProxy'):
            for s, p in I.call(s, cls, [], {}):
                if isinstance(p, Raise):
                    continue
                for s, f in I.getattr(s, p, 'log'):
                    if not isinstance(f, Raise):
                        I.call(s, f, [T('in', ('any', 'level'), INT), T('in', ('any', 'text'), STR)], {})
    finally:
        del W.__dict__['send']
    c.absorb(W.I)
    for st, m, data in seen:
        if isinstance(m, K) and handled is not None:
            judge_send(c, st, handled, ss, m.v, data, 'log', 'log')
    return len(seen)
