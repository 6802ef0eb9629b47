"""G01: node-side call frames."""
from .. import gopaths

TITLE = 'Node-side call frames: failed calls leave no state or log'
PK = 'service/contract'
LISTS = ('eventLogs', 'btpMessages')
CALLS = ['Reset', 'GetSnapshot', 'PushBack', 'PushBackList', 'Apply', 'Init', 'cleanUpFrames']
FIELDS = ['isReadOnly', 'frame', 'snapshot', 'parent', 'eventLogs', 'btpMessages', 'feePayers']


def resets(p):
    return [(i, e) for i, e in p.calls('Reset') if len(e.get('args') or []) == 1 and 'snapshot' in (e['args'][0] or '').lower() or
            e['f'] == 'Reset' and 'World' in e.get('rt', '')]


def passed(p, frame, parent):
    """lists of the parent that received the frame's entries"""
    out = set()
    for i, e in p.calls('PushBackList', 'PushBack', 'Apply'):
        recv = e['recv'].lstrip('&')
        if recv.startswith(parent + '.'):
            out.add(recv[len(parent) + 1:].split('[')[0].split('.')[0])
    for k, v in p.heap.items():
        if k.startswith(parent + '.') and frame + '.' + k[len(parent) + 1:] in v:
            out.add(k[len(parent) + 1:])
    return out


def could(p, t, want, facts=None):
    v = p.value(t, facts)
    return v is None or v is want


def run(c):
    def f():
        go = gopaths.Go()
        try:
            R = gopaths.paths(c, go.run(dirs=[PK], calls=CALLS, fields=FIELDS, loops=2,
                                        entries=[PK + ':' + x for x in ('callContext.pushFrame', 'callContext.popFrame', 'callContext.cleanUpFrames', 'callContext.EnterReadOnlyMode', 'NewCallContext')]))
            H = gopaths.paths(c, go.run(dirs=[PK], calls=CALLS, fields=FIELDS, loops=1, opaque=['callContext.cleanUpFrames'],
                                        entries=[PK + ':callContext.handleResult']))
            L = go.run(dirs=[PK], list=True, fields=['isReadOnly'])
        finally:
            go.close()
        n = 0
        FR = '$0.frame'
        # opening a frame
        info, ps = R.get(PK + ':callContext.pushFrame', (None, []))
        for p in ps:
            if p.how != 'return':
                continue
            n += 1
            fs = p.facts()
            new = p.heap.get(FR)
            if new is None or not new.startswith('new#'):
                c.ob('frame-opens', None if new else False, info['at'], 'no new frame becomes the current one\n' + p.show())
                continue
            c.ob('frame-opens', p.heap.get(new + '.parent') == FR, info['at'], 'the new frame is not below the current one\n' + p.show())
            ro = p.value(p.heap.get(new + '.isReadOnly', 'false'), fs)
            up = fs.get(FR + '.isReadOnly')
            top = fs.get('eq($0.frame,nil)')
            if ro is not True and p.heap.get(new + '.isReadOnly') != FR + '.isReadOnly':
                c.ob('read-only-inherited', up is False or top is True, info['at'], 'a frame below a read-only one is not read-only\n' + p.show())
            else:
                c.ob('read-only-inherited', True, info['at'], '')
            if ro is not True:
                snap = p.heap.get(new + '.snapshot')
                got = [e['res'] for i, e in p.calls('GetSnapshot')]
                c.ob('snapshot-taken', snap in got and snap is not None, info['at'], 'a frame that may write keeps no snapshot of the world (%s)\n%s' % (snap, p.show()))
        # a query starts read-only
        info, ps = R.get(PK + ':NewCallContext', (None, []))
        for p in ps:
            b = [('$%d' % (i + 1)) for i, t in enumerate(info['params']) if t == 'bool']
            if len(b) != 1 or p.how != 'return' or not p.ret:
                c.ob('query-read-only', None, info['at'], 'which parameter says query is not clear')
                continue
            n += 1
            fr = p.heap.get(p.ret[0] + '.frame')
            t = p.heap.get('%s.isReadOnly' % fr)
            v = p.value(t) if t else False
            c.ob('query-read-only', True if t == b[0] or v is True else p.facts().get(b[0]) is False, info['at'], 'the base frame of a query is not read-only\n' + p.show())
        # closing a frame
        info, ps = R.get(PK + ':callContext.popFrame', (None, []))
        for p in ps:
            if p.how != 'return':
                continue
            n += 1
            b = [('$%d' % (i + 1)) for i, t in enumerate(info['params']) if t == 'bool']
            closing(c, 'close', info, p, b[0] if len(b) == 1 else None)
            c.ob('back-to-the-caller', p.heap.get(FR) == FR + '.parent', info['at'], 'the current frame after the pop is %s\n%s' % (p.heap.get(FR), p.show()))
        # a result closes the frame according to its status
        info, ps = H.get(PK + ':callContext.handleResult', (None, []))
        for p in ps:
            st = [('$%d' % (i + 1)) for i, t in enumerate(info['params']) if t == 'error']
            cl = p.calls('cleanUpFrames')
            if len(st) != 1:
                c.ob('result-status', None, info['at'], 'which parameter is the status is not clear')
                continue
            n += 1
            if cl:
                fr = [('$%d' % (i + 1)) for i, t in enumerate(info['params']) if t.endswith('callFrame')]
                c.ob('result-cleanup', len(fr) == 1 and fr[0] in (cl[0][1].get('args') or []), info['at'], 'the frames cleaned up are not those of the call\n' + p.show())
                continue
            if p.how == 'panic' or p.how == 'cut':
                continue
            eq = 'eq(%s,nil)' % st[0]
            closing(c, 'result', info, p, eq)
        # giving up: back to the snapshot of the call
        info, ps = R.get(PK + ':callContext.cleanUpFrames', (None, []))
        for p in ps:
            fr = [('$%d' % (i + 1)) for i, t in enumerate(info['params']) if t.endswith('callFrame')]
            if len(fr) != 1:
                c.ob('given-up', None, info['at'], 'which parameter is the frame is not clear')
                continue
            n += 1
            ro = p.value(fr[0] + '.isReadOnly')
            rs = resets(p)
            if p.how == 'return':
                if ro is not True:
                    c.ob('given-up', len(rs) >= 1 and rs[-1][1]['args'] == [fr[0] + '.snapshot'], info['at'], 'a call that is given up is not put back to its snapshot\n' + p.show())
                if ro is not False:
                    c.ob('given-up', not rs, info['at'], 'a read-only frame is put back to a snapshot it does not have\n' + p.show())
            # the frames left are those from the current one down to the frame of the call, no further
            fs, end = p.facts(), p.heap.get(FR)
            if p.how == 'return' and end is not None and end.startswith(FR) and set(end[len(FR):].split('.')) <= {'', 'parent'}:
                left = [FR + '.parent' * k for k in range(end.count('.parent'))]
                same = [next((fs[k] for k in ('eq(%s,%s)' % (x, fr[0]), 'eq(%s,%s)' % (fr[0], x)) if k in fs), None) for x in left]
                c.ob('given-up-frames', all(v is False for v in same[:-1]) and (not same or same[-1] is not None), info['at'],
                     'frames below the one of the call may be left too (%s)\n%s' % (end, p.show()))
            c.ob('given-up-logs', not passed(p, FR, FR + '.parent'), info['at'], 'a call that is given up passes its logs on\n' + p.show())
        # turning read-only
        info, ps = R.get(PK + ':callContext.EnterReadOnlyMode', (None, []))
        for p in ps:
            if p.how != 'return':
                continue
            n += 1
            ro = p.value(FR + '.isReadOnly')
            if ro is True:
                c.ob('turning-read-only', not resets(p), info['at'], 'a frame that is already read-only is put back\n' + p.show())
                continue
            rs = resets(p)
            c.ob('turning-read-only', any(e['args'] == [FR + '.snapshot'] for i, e in rs), info['at'], 'the frame is not put back to its snapshot\n' + p.show())
            c.ob('turning-read-only', p.heap.get(FR + '.isReadOnly') == 'true', info['at'], 'the frame does not become read-only\n' + p.show())
            for l in LISTS:
                done = any(e['recv'].lstrip('&') == FR + '.' + l for i, e in p.calls('Init')) or (FR + '.' + l) in p.heap
                c.ob('turning-read-only', done, info['at'], '%s of the frame survive\n%s' % (l, p.show()))
        # nothing turns a frame writable again
        for w in L:
            if w.get('write') == 'isReadOnly' and 'callFrame' in w.get('recv', ''):
                n += 1
                c.ob('never-writable-again', False if w['value'] == 'false' else True if w['value'] == 'true' else None, w['at'], 'isReadOnly of a frame is set to %s' % w['value'], w['in'])
        c.samples.extend(p.show()[:600] for e, (i, q) in list(R.items())[:2] for p in q[:1])
        return n
    c.scenario('frames', f)


def closing(c, rule, info, p, ok):
    """the current frame is closed; `ok` is the term saying that the call succeeded"""
    FR = '$0.frame'
    fs = p.facts()
    rs = resets(p)
    pa = passed(p, FR, FR + '.parent')
    ro = p.value(FR + '.isReadOnly', fs)
    suc = p.value(ok, fs) if ok else None
    if ok is None:
        c.ob(rule, None, info['at'], 'which parameter says success is not clear')
        return
    if suc is not True and ro is not True:
        c.ob(rule + '-failed-state', len(rs) >= 1 and rs[-1][1]['args'] == [FR + '.snapshot'], info['at'], 'a failed call is not put back to the snapshot of its frame\n' + p.show())
    if suc is not True:
        c.ob(rule + '-failed-logs', not pa, info['at'], 'a failed call passes on %s\n%s' % (', '.join(sorted(pa)), p.show()))
    for l in LISTS:
        v = p.heap.get(FR + '.parent.' + l)
        c.ob(rule + '-before', v is None or FR + '.parent.' + l in v, info['at'], 'what the caller has recorded in %s before is replaced by %s\n%s' % (l, v, p.show()))
    if suc is not False:
        c.ob(rule + '-kept', not rs, info['at'], 'a successful call is put back\n' + p.show())
        if ro is not True and fs.get('eq($0.frame.parent,nil)') is not True:
            for l in LISTS:
                c.ob(rule + '-passed-on', l in pa, info['at'], '%s of a successful call do not reach its caller\n%s' % (l, p.show()))
    if ro is not False:
        c.ob(rule + '-read-only', not rs, info['at'], 'a read-only frame is put back to a snapshot it does not have\n' + p.show())
