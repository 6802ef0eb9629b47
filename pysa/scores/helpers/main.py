from iconservice import *
import vp


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _val(self, k):
        if k[0] == 'b' and k[1:].isdigit():
            return vp.any_bytes(k)
        if k[0] == 'z' and k[1:].isdigit():
            return bytes(int(k[1:]))
        if k[0] == 'x':
            return bytes.fromhex(k[1:])
        if k == 'bytes':
            return vp.any_bytes(k)
        if k == 'text':
            return vp.any_str(k)
        if k == 'int':
            return vp.any_int(k)
        if k == 'none':
            return None
        if k == 'float':
            return 1.5
        if k == 'list':
            return [1, 'a', None, True]
        if k == 'dict':
            return {'a': 1, 'b': [2]}
        if k == 'set':
            return {1}
        if k == 'self':
            return self
        if k == 'addr':
            return self.address
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k == 'uni':
            return '\u00e9\u4e2d'
        if k == 'surrogate':
            return '\ud800'
        if k[:5] == 'json:':
            return k[5:].replace(';', ',')
        return k

    def _do(self, f, args):
        if f == 'sha3':
            return sha3_256(*args)
        if f == 'sha2':
            return sha_256(*args)
        if f == 'dumps':
            return json_dumps(*args)
        if f == 'loads':
            return json_loads(*args)
        if f == 'address':
            return create_address_with_key(*args)
        if f == 'recover':
            return recover_key(*args)

    @external
    def run(self, ops: str):
        for op in ops.split('|'):
            f, *names = op.split(',')
            args = [self._val(n) for n in names]
            vp.mark('try', op)
            try:
                r = self._do(f, args)
            except BaseException as e:
                vp.mark('refused', op, type(e).__name__, getattr(e, 'code', None))
            else:
                vp.mark('gave', op, r.to_bytes() if isinstance(r, Address) else r)

    @external(readonly=True)
    def ask(self, ops: str) -> int:
        self.run(ops)
        return 1
