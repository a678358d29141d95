import struct
from gen import d2b
from proc import *

MAX = 1.7976931348623157e308


def b2d(u):
    return struct.unpack('<d', struct.pack('<Q', u))[0]


def limbs(u):
    return [u >> 48, u >> 32 & 65535, u >> 16 & 65535, u & 65535]


def hexes(v):
    return ' '.join('%x' % x for x in v)


def anydouble(r, zero=True):
    """the bits of a number that is not a NaN"""
    v = r.choice([0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 2.2250738585072014e-308, MAX, -MAX, float('inf'), float('-inf'), 431234.56, -4582913.125, .1,
                  r.uniform(-1, 1), r.uniform(-1e6, 1e6), r.uniform(-1, 1) * 10 ** r.randrange(-300, 300)])
    u = d2b(v)
    if abs(v) not in (0.0, float('inf')) and r.random() < .3:
        u += r.choice([1, -1])
        if (u & (1 << 63) - 1) > 0x7fefffffffffffff:
            u -= 2
    return u
