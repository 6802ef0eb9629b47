from iconservice import *
import vp

BASE = b'\x00' + b'a'


def slot(i):
    return BASE + vp.rlp(vp.int_bytes(i))


class Score(IconScoreBase):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)
        self._arr = ArrayDB('a', db, value_type=int)
        self._txt = ArrayDB('a', db, value_type=str)

    def on_install(self) -> None:
        super().on_install()

    def on_update(self) -> None:
        super().on_update()

    def _try(self, f):
        try:
            vp.mark('result', f())
        except Exception as e:
            vp.mark('other')
        except BaseException as e:
            vp.mark('refused', e.code)

    def _assign(self, i, v):
        self._arr[i] = v

    @external
    def single(self, how: str):
        """one operation on an array of unknown size"""
        n = vp.any_int('n')
        i = vp.any_int('i')
        arr = self._arr
        if how == 'get' or how == 'getm' or how == 'set':
            j = i
            if i < 0:
                j = i + n
            if 0 <= j and j < n:
                vp.mark('inside', slot(j))
            else:
                vp.mark('outside')
            if how == 'get':
                self._try(lambda: arr[i])
            elif how == 'getm':
                self._try(lambda: arr.get(i))
            else:
                self._try(lambda: self._assign(i, vp.any_int('v')))
        elif how == 'put':
            vp.mark('last', slot(n), n + 1)
            self._try(lambda: arr.put(vp.any_int('v')))
        elif how == 'pop':
            if n == 0:
                vp.mark('empty')
            else:
                vp.mark('last', slot(n - 1), n - 1)
            self._try(lambda: arr.pop())
        elif how == 'len':
            vp.mark('size', n)
            self._try(lambda: len(arr))
        elif how == 'in':
            if n == 0:
                vp.mark('empty')
            else:
                vp.mark('search')
            self._try(lambda: vp.any_int('v') in arr)
        elif how == 'intxt':
            self._try(lambda: 'x' in arr)
        elif how == 'text':
            self._try(lambda: arr['0'])
        elif how == 'float':
            self._try(lambda: arr[1.0])
        elif how == 'none':
            self._try(lambda: arr[None])
        elif how == 'slice':
            self._try(lambda: arr[0:1])
        elif how == 'settext':
            self._try(lambda: self._assign('0', 1))
        elif how == 'setfloat':
            self._try(lambda: self._assign(0.0, 1))
        elif how == 'default':
            if n == 0:
                vp.mark('outside')
            else:
                vp.mark('inside', slot(0))
            self._try(lambda: arr.get())

    @external
    def many(self, how: str):
        """a sequence of operations on an array that is empty at first, beside a list"""
        arr = self._arr
        model = []
        count = 0
        for op in how.split(','):
            name, arg = op[:3], op[3:]
            count += 1
            if name == 'put':
                v = vp.any_int('v%d' % count)
                arr.put(v)
                model.append(v)
            elif name == 'pop':
                want = model.pop() if model else None
                vp.mark('same', op, arr.pop(), want)
            elif name == 'get':
                i = int(arg)
                want, fails = None, False
                try:
                    want = model[i]
                except IndexError:
                    fails = True
                self._same(op, lambda: arr[i], want, fails)
            elif name == 'set':
                i = int(arg)
                v = vp.any_int('v%d' % count)
                fails = False
                try:
                    model[i] = v
                except IndexError:
                    fails = True
                self._same(op, lambda: self._assign(i, v), None, fails)
            elif name == 'len':
                vp.mark('same', op, len(arr), len(model))
            elif name == 'all':
                got = []
                for x in arr:
                    got.append(x)
                vp.mark('same', op, len(got), len(model))
                for x, y in zip(got, model):
                    vp.mark('same', op, x, y)
            elif name == 'lst':
                got = list(arr)
                vp.mark('same', op, len(got), len(model))
                for x, y in zip(got, model):
                    vp.mark('same', op, x, y)
            elif name == 'grw':
                # an iteration sees the array as it was when it began
                got = []
                for x in arr:
                    got.append(x)
                    if len(got) < 4:
                        arr.put(7)
                vp.mark('same', op, len(got), len(model))
                for x, y in zip(got, model):
                    vp.mark('same', op, x, y)
                for k in range(len(got)):
                    model.append(7)
            elif name == 'two':
                it1, it2 = iter(arr), iter(arr)
                for y in model:
                    vp.mark('same', op, next(it1), y)
                    vp.mark('same', op, next(it2), y)
            elif name == 'odd':
                # membership of a value of another type looks at the elements
                want = False
                for y in model:
                    if 1.5 == y:
                        want = True
                vp.mark('same', op, 1.5 in arr, want)

    def _same(self, op, f, want, fails):
        try:
            r = f()
        except Exception as e:
            vp.mark('other')
        except BaseException as e:
            vp.mark('same', op + ' refused', e.code, 6 if fails else None)
        else:
            if fails:
                vp.mark('same', op + ' not refused', r, 'an error')
            else:
                vp.mark('same', op, r, want)
