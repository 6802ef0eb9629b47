"""Observation points of the schematic contracts; the bodies are replaced by the analysis."""


def mark(name, *args):
    """record an observation in the effect trace"""


def choose(name):
    """an unknown truth value"""


def inspected():
    """whether the request being handled is an inspection"""


def any_int(name):
    """an unknown integer"""


def any_bytes(name):
    """unknown bytes"""


def any_str(name):
    """an unknown text"""


def any_bool(name):
    """an unknown boolean"""


def any_value(name):
    """an unknown value of any type"""


def be(n):
    if n < 256:
        return bytes([n])
    return be(n // 256) + bytes([n % 256])


def rlp(b):
    """the string form of RLP, as in its definition"""
    n = len(b)
    if n == 1:
        if b[0] < 128:
            return b
        return b'\x81' + b
    if n < 56:
        return bytes([128 + n]) + b
    size = be(n)
    return bytes([183 + len(size)]) + size + b


def int_bytes(v):
    """minimal two's complement"""
    return v.to_bytes(((v + (v < 0)).bit_length() + 8) // 8, 'big', signed=True)
