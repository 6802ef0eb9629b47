from typing import Optional, Union, List
from iconservice import *
import vp


def see(v):
    return ('address', v.to_bytes()) if isinstance(v, Address) else v


class Base(IconScoreBase):

    @external
    def inherited(self, n: int, s: str):
        vp.mark('ran', 'n', see(n), 's', see(s))


class Score(Base):

    def __init__(self, db: IconScoreDatabase) -> None:
        super().__init__(db)

    def on_install(self, n: int, who: Address) -> None:
        super().on_install()
        vp.mark('ran', 'n', see(n), 'who', see(who))

    def on_update(self, data: bytes) -> None:
        super().on_update()
        vp.mark('ran', 'data', see(data))

    @external
    def i(self, v: int):
        vp.mark('ran', 'v', see(v))

    @external
    def s(self, v: str):
        vp.mark('ran', 'v', see(v))

    @external
    def b(self, v: bool):
        vp.mark('ran', 'v', see(v))

    @external
    def a(self, v: Address):
        vp.mark('ran', 'v', see(v))

    @external
    def y(self, v: bytes):
        vp.mark('ran', 'v', see(v))

    @external(readonly=True)
    def ri(self, v: int) -> int:
        vp.mark('ran', 'v', see(v))
        return 1

    @external
    @payable
    def pay(self, v: int):
        vp.mark('ran', 'v', see(v))

    @external
    def oi(self, v: int = None):
        vp.mark('ran', 'v', see(v))

    @external
    def os(self, v: str = None):
        vp.mark('ran', 'v', see(v))

    @external
    def ob(self, v: bool = None):
        vp.mark('ran', 'v', see(v))

    @external
    def oa(self, v: Address = None):
        vp.mark('ran', 'v', see(v))

    @external
    def oy(self, v: bytes = None):
        vp.mark('ran', 'v', see(v))

    @external
    def di(self, v: int = 7):
        vp.mark('ran', 'v', see(v))

    @external
    def db_(self, v: bool = True):
        vp.mark('ran', 'v', see(v))

    @external
    def ds(self, v: str = 'x'):
        vp.mark('ran', 'v', see(v))

    @external
    def ui(self, v: Union[None, int]):
        vp.mark('ran', 'v', see(v))

    @external
    def uy(self, v: Optional[bytes]):
        vp.mark('ran', 'v', see(v))

    @external
    def ua(self, v: 'Address'):
        vp.mark('ran', 'v', see(v))

    @external
    def mix(self, n: int, s: str, y: bytes, f: bool, a: Address):
        vp.mark('ran', 'n', see(n), 's', see(s), 'y', see(y), 'f', see(f), 'a', see(a))

    @external
    def tail(self, n: int, m: int = 2, k: int = 3):
        vp.mark('ran', 'n', see(n), 'm', see(m), 'k', see(k))

    @external
    def words(self, cls: int, params: int, key: bytes):
        vp.mark('ran', 'cls', see(cls), 'params', see(params), 'key', see(key))

    @external
    def names(self, func_name: int, method: bytes, value: bool, arg_params: str, kw_params: int):
        vp.mark('ran', 'func_name', see(func_name), 'method', see(method), 'value', see(value), 'arg_params', see(arg_params), 'kw_params', see(kw_params))

    @external
    def nothing(self):
        vp.mark('ran')

    @external
    def containers(self, xs: List[int], ys: List[List[str]]):
        vp.mark('ran', 'xs', xs, 'ys', ys)
