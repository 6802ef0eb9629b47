from iconservice import *
import vp


def be(n):
    if n < 256:
        return bytes([n])
    return be(n // 256) + bytes([n % 256])


def rlp(b):
    """the string form of RLP, as in its definition"""
    n = len(b)
    if n == 1:
        if b[0] < 128:
            return b
        return b'\x81' + b
    if n < 56:
        return bytes([128 + n]) + b
    size = be(n)
    return bytes([183 + len(size)]) + size + b


def plain(v):
    """the bytes of a name or key"""
    if v is None or isinstance(v, (float, list)):
        return b''
    if isinstance(v, str):
        return v.encode('utf-8')
    if isinstance(v, Address):
        return v.to_bytes()
    if isinstance(v, bytes):
        return v
    return v.to_bytes(((v + (v < 0)).bit_length() + 8) // 8, 'big', signed=True)


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._db = db

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _some(self, kind, name):
        if kind == 'int':
            return vp.any_int(name + '.int')
        if kind == 'str':
            return vp.any_str(name + '.str')
        if kind == 'bytes':
            return vp.any_bytes(name + '.bytes')
        if kind == 'addr':
            return self.msg.sender
        if kind == 'bool':
            return vp.any_bool(name + '.bool')
        if kind == 'none':
            return None
        if kind == 'float':
            return 1.5
        if kind == 'list':
            return [1]
        if kind == 'empty':
            return b''
        if kind.startswith('n:'):
            return int(kind[2:])
        if kind.startswith('x:'):
            return bytes.fromhex(kind[2:])
        if kind.startswith('r:'):
            return b'z' * int(kind[2:])
        return kind

    @external
    def run(self, how: str):
        c, op, n, *ks = how.split(',')
        name = self._some(n, 'name')
        keys = [self._some(k, 'k%d' % i) for i, k in enumerate(ks)]
        try:
            if c == 'var':
                self._var(op, name)
            elif c == 'arr':
                self._arr(op, name, keys)
            else:
                self._dict(op, name, keys)
        except IconScoreException as e:
            vp.mark('other')
        except BaseException as e:
            if isinstance(e, Exception):
                vp.mark('other')
            else:
                vp.mark('refused', e.code)

    def _var(self, op, name):
        v = VarDB(name, self._db, value_type=int)
        vp.mark('key', b'\x02' + rlp(plain(name)))
        if op == 'get':
            v.get()
        elif op == 'set':
            v.set(5)
        else:
            v.remove()

    def _arr(self, op, name, keys):
        a = ArrayDB(name, self._db, value_type=int)
        base = b'\x00' + rlp(plain(name))
        if op == 'len':
            vp.mark('key', base)
            len(a)
        elif op == 'in':
            vp.mark('prefix', base)
            vp.mark('key', base)
            5 in a
        elif op == 'get' or op == 'set':
            vp.mark('key', base)
            i = keys[0]
            j = i
            if i < 0:
                j = i + vp.any_int('n')
            if 0 <= j < vp.any_int('n'):
                vp.mark('key', base + rlp(plain(j)))
            if op == 'get':
                a.get(i)
            else:
                a[i] = 7
        elif op == 'put':
            vp.mark('key', base)
            vp.mark('key', base + rlp(plain(vp.any_int('n'))))
            a.put(9)
        elif op == 'pop':
            vp.mark('key', base)
            n = vp.any_int('n')
            if n > 0:
                vp.mark('key', base + rlp(plain(n - 1)))
            a.pop()
        elif op == 'iter':
            vp.mark('key', base)
            for i in range(3):
                vp.mark('key', base + rlp(plain(i)))
            for x in a:
                pass

    def _dict(self, op, name, keys):
        d = DictDB(name, self._db, value_type=int, depth=len(keys))
        want = b'\x01' + rlp(plain(name))
        for k in keys[:-1]:
            d = d[k]
            want = want + rlp(plain(k))
        k = keys[-1]
        vp.mark('key', want + rlp(plain(k)))
        if op == 'get':
            d[k]
        elif op == 'set':
            d[k] = 5
        elif op == 'in':
            k in d
        elif op == 'del':
            del d[k]
        elif op == 'remove':
            d.remove(k)
