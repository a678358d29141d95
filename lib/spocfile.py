"""Independent SPOC codec (from README.md), used to write inputs and to project outputs.

A record is (xb, yb, zb, c, p, i, r, g, b, extra) with xb.. the 64-bit patterns of the doubles and extra a tuple.
A cloud is Cloud(wkt: bytes, comp: bool, E: int, recs: list)."""
import struct, zlib, hashlib


def d2b(v):
    return struct.unpack('<Q', struct.pack('<d', v))[0]


def b2d(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


class Bad(Exception):
    pass


class Cloud:
    __slots__ = ('wkt', 'comp', 'E', 'recs', 'flag')

    def __init__(self, wkt=b'', comp=False, E=0, recs=(), flag=None):
        self.wkt, self.comp, self.E, self.recs = wkt, comp, E, list(recs)
        self.flag = flag if flag is not None else (1 if comp else 0)


def rec(x=0.0, y=0.0, z=0.0, c=0, p=0, i=0, r=0, g=0, b=0, e=()):
    return (d2b(float(x)), d2b(float(y)), d2b(float(z)), c, p, i, r, g, b, tuple(e))


def header_bytes(cl, n=None, major=0, minor=1, sig=b'SPOC'):
    n = len(cl.recs) if n is None else n
    return (sig + bytes([major, minor]) + struct.pack('<H', len(cl.wkt)) + cl.wkt + bytes([cl.E])
            + struct.pack('<Q', n) + bytes([cl.flag]))


def rec_bytes(r):
    return struct.pack('<QQQIIHHHH', *r[:9]) + struct.pack('<%dQ' % len(r[9]), *r[9])


COLS = 'QQQIIHHHH'


def columns(cl):
    cols = []
    for k, t in enumerate(COLS):
        cols.append(struct.pack('<%d%s' % (len(cl.recs), t), *[r[k] for r in cl.recs]))
    for j in range(cl.E):
        cols.append(struct.pack('<%dQ' % len(cl.recs), *[r[9][j] for r in cl.recs]))
    return cols


def encode(cl, level=-1):
    out = [header_bytes(cl)]
    if cl.flag:
        for col in columns(cl):
            if not any(col):
                out.append(struct.pack('<Q', 0))
            else:
                z = zlib.compress(col, level)
                out.append(struct.pack('<Q', len(z)) + z)
    else:
        out += [rec_bytes(r) for r in cl.recs]
    return b''.join(out)


def decode(data, pos=0):
    """-> (Cloud, end position); raises Bad"""
    def take(n):
        nonlocal pos
        if n < 0 or pos + n > len(data):
            raise Bad('truncated')
        s = data[pos:pos + n]
        pos += n
        return s
    if take(4) != b'SPOC':
        raise Bad('signature')
    if take(2) != b'\0\1':
        raise Bad('version')
    wkt = take(struct.unpack('<H', take(2))[0])
    E = take(1)[0]
    n = struct.unpack('<Q', take(8))[0]
    flag = take(1)[0]
    recs = []
    if n > 50_000_000:
        raise Bad('too many points')
    if flag:
        cols = []
        for t in list(COLS) + ['Q'] * E:
            w = struct.calcsize('<' + t)
            m = struct.unpack('<Q', take(8))[0]
            if m == 0:
                cols.append((0,) * n)
                continue
            blob = take(m)
            try:
                d = zlib.decompressobj()
                raw = d.decompress(blob)
                if not d.eof or d.unused_data:
                    raise Bad('column stream')
            except zlib.error:
                raise Bad('column data')
            if len(raw) != n * w:
                raise Bad('column size')
            cols.append(struct.unpack('<%d%s' % (n, t), raw))
        base, ex = cols[:9], cols[9:]
        if ex:
            recs = [b + (e,) for b, e in zip(zip(*base), zip(*ex))]
        else:
            recs = [b + ((),) for b in zip(*base)]
    else:
        rs = 40 + 8 * E
        body = take(n * rs)
        fmt = '<QQQIIHHHH%dQ' % E
        recs = [t[:9] + (t[9:],) for t in struct.iter_unpack(fmt, body)] if n else []
    return Cloud(wkt, bool(flag), E, recs, flag), pos


def decode_header(data):
    """-> (wkt, E, n, flag, end); raises Bad"""
    if len(data) < 8 or data[:4] != b'SPOC' or data[4:6] != b'\0\1':
        raise Bad('header')
    w = struct.unpack('<H', data[6:8])[0]
    if len(data) < 18 + w:
        raise Bad('header')
    return (data[8:8 + w], data[8 + w], struct.unpack('<Q', data[9 + w:17 + w])[0], data[17 + w], 18 + w)


def decode_all(data):
    cl, end = decode(data)
    if end != len(data):
        raise Bad('trailing bytes')
    return cl


# ---- projection to the specification's values -------------------------------------------------

def limbs(v, n):
    return [(v >> (16 * k)) & 0xFFFF for k in range(n - 1, -1, -1)]


def from_limbs(l):
    v = 0
    for x in l:
        v = v << 16 | x
    return v


def tok(b):
    """opaque token for a byte string"""
    if len(b) <= 48:
        return 'h' + b.hex()
    return 'L%d_%s' % (len(b), hashlib.sha1(b).hexdigest())


class Num:
    """coordinates as integers: (v - org) / unit; anything else becomes a sentinel >= 2e9"""

    def __init__(self, unit=1 / 64, org=0.0):
        self.unit, self.org = unit, org

    def of_bits(self, b):
        return self.of(b2d(b))

    def of(self, v, tol=0.0):
        if v == v and abs(v) < 1e300:
            q = (v - self.org) / self.unit
            k = round(q)
            if abs(k) < 1 << 30 and (abs(q - k) <= tol if tol else k * self.unit + self.org == v):
                return k
        return 2000000000 + (d2b(v) * 2654435761 >> 7) % 100000000

    def to(self, k):
        return k * self.unit + self.org


def proj_rec(r, num=None, tol=0.0):
    if num is None:
        xyz = [limbs(v, 4) for v in r[:3]]
    else:
        xyz = [num.of(b2d(v), tol) for v in r[:3]]
    return xyz + [limbs(r[3], 2), limbs(r[4], 2)] + [[v] for v in r[5:9]] + [[limbs(v, 4) for v in r[9]]]


def proj_cloud(cl, num=None, big=False, tol=0.0):
    if big:
        return {'k': 'dig', 'w': tok(cl.wkt), 'c': cl.comp, 'E': cl.E, 'n': len(cl.recs),
                'cols': [hashlib.sha1(c).hexdigest() for c in columns(cl)]}
    return {'k': 'spoc', 'w': tok(cl.wkt), 'c': cl.comp, 'E': cl.E,
            'recs': [proj_rec(r, num, tol) for r in cl.recs]}
