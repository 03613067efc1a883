"""Exact numbers: f32 bits, fixed point, tokens."""
import struct
from fractions import Fraction


def bits(x):
    """Bits of the f32 nearest to x."""
    return struct.unpack("<I", struct.pack("<f", float(x)))[0]


def bits64(x):
    """The f64 as builds with double precision take and give it: its bits as hexadecimal digits."""
    return struct.pack(">d", float(x)).hex()


def val(b):
    """The float with these bits, as a Python float (may be nan or inf)."""
    if isinstance(b, str):
        return struct.unpack(">d", bytes.fromhex(b))[0]
    return struct.unpack("<f", struct.pack("<I", b))[0]


def f32(x):
    return val(bits(x))


def i32(u):
    """u32 as the TLC integer with the same bits."""
    return u - (1 << 32) if u >= 1 << 31 else u


BIG = 2 ** 30


def clip(x, lim=BIG):
    return max(-lim, min(lim, x))


def fix(x, scale):
    """Nearest integer to x*scale; out of range and NaN become recognisable extremes."""
    if x != x:
        return 2 ** 31 - 1
    if x in (float("inf"), float("-inf")):
        return BIG if x > 0 else -BIG
    f = Fraction(x) * scale
    n = (f.numerator * 2 + f.denominator) // (2 * f.denominator)
    return clip(n)


class Tokens:
    """Interns anything hashable as a small positive integer."""

    def __init__(self):
        self.map = {}

    def __call__(self, x):
        if isinstance(x, list):
            x = tuple(tuple(e) if isinstance(e, list) else e for e in x)
        return self.map.setdefault(x, len(self.map) + 1)
