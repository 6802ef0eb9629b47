from iconservice import *
import vp


class Peer(InterfaceScore):

    @interface
    def go(self):
        pass

    @interface
    def take(self, a, b=None, c=None):
        pass

    @interface
    def named(self, *args, **kwargs):
        vp.mark('body')
        return 5

    @interface
    def fallback(self):
        pass

    def helper(self):
        return 3


class Derived(Peer):

    @interface
    def extra(self, a):
        pass


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _val(self, k):
        if k in ('i', 'i1', 'i2', 'v', 'v1', 'v2'):
            return vp.any_int(k)
        if k == 's':
            return 'some text'
        if k == 's2':
            return '17'
        if k == 'b':
            return vp.any_bytes(k)
        if k == 'o':
            return vp.any_bool(k)
        if k == 'true':
            return True
        if k == 'cx':
            return Address.from_string('cx' + '11' * 20)
        if k == 'cy':
            return Address.from_string('cx' + '00' * 19 + '07')
        if k == 'hx':
            return Address.from_string('hx' + '22' * 20)
        if k == 'me':
            return self.address
        if k == 'sender':
            return self.msg.sender
        if k == 'none':
            return None
        if k == 'float':
            return 1.5
        if k == 'whole':
            return 2.0
        if k == 'list':
            return [1, 'a', [2]]
        if k == 'dict':
            return {'k': 1}
        if k == 'bad':
            return object()
        if k == 'obj':
            return self
        if k == 'zero':
            return 0
        if k == 'one':
            return 1
        if k == 'big':
            return 2 ** 256
        if k == 'minus':
            return -1
        if k == 'empty':
            return b''
        if k == 'text0':
            return ''
        if k == 'cxtext':
            return 'cx' + '11' * 20
        if k == 'raw':
            return b'\x01' + b'\x11' * 20
        return k

    def _op(self, boxes, op):
        kind, *rest = op.split('/')
        if kind == 'new':
            cls = Derived if rest[2:] else Peer
            if rest[0] == 'm':
                boxes[rest[0]] = create_interface_score(self._val(rest[1]), cls)
            else:
                boxes[rest[0]] = self.create_interface_score(self._val(rest[1]), cls)
            return
        if kind == 'icx':
            return boxes[rest[0]].icx(self._val(rest[1]))
        if kind == 'help':
            return boxes[rest[0]].helper()
        args, kw = [], {}
        for g in rest.pop().split(','):
            if '=' in g:
                n, v = g.split('=')
                kw[n] = self._val(v)
            elif g:
                args.append(self._val(g))
        if kind == 'call':
            t, m = rest[:2]
            if args:
                return self.call(self._val(t), self._val(m), kw, *args)
            return self.call(self._val(t), self._val(m), kw)
        if kind == 'amount':
            t, m, v = rest
            return self.call(self._val(t), self._val(m), kw, amount=self._val(v))
        if kind == 'transfer':
            return self.icx.transfer(*args)
        if kind == 'send':
            return self.icx.send(*args)
        if kind == 'bal':
            return self.icx.get_balance(*args)
        box = boxes[rest[0]]
        m = rest[1]
        if kind == 'chain':
            box = box.icx(self._val(rest[2]))
        if m == 'go':
            return box.go(*args, **kw)
        if m == 'take':
            return box.take(*args, **kw)
        if m == 'named':
            return box.named(*args, **kw)
        if m == 'extra':
            return box.extra(*args, **kw)
        return box.fallback(*args, **kw)

    @payable
    @external
    def run(self, ops: str):
        boxes = {}
        for op in ops.split(';'):
            vp.mark('try', op)
            try:
                r = self._op(boxes, op)
            except BaseException as e:
                vp.mark('refused', op)
            else:
                vp.mark('done', op)
