# One operation on the Python module per line, everything that can be seen afterwards as a line of JSON.
import hashlib, json, struct, sys
sys.path.insert(0, sys.argv[1])
import spocpy
from spocpy import *
FIELDS = ['x', 'y', 'z', 'c', 'p', 'i', 'r', 'g', 'b']
WIDTH = [4, 4, 4, 2, 2, 1, 1, 1, 1]


def tok(b):
    return 'h' + b.hex() if len(b) <= 48 else 'L%d_%s' % (len(b), hashlib.sha1(b).hexdigest()) if b.count(b'w') != len(b) else 'L%d' % len(b)


def untok(t):
    return (b'w' * int(t[1:]) if t[0] == 'L' else bytes.fromhex(t[1:])).decode()


def limbs(v, n):
    return [v >> 16 * k & 0xFFFF for k in range(n - 1, -1, -1)] if type(v) is int and 0 <= v < 1 << 16 * n else ['?', repr(v)]


def real(v):
    return limbs(struct.unpack('<Q', struct.pack('<d', v))[0], 4) if type(v) is float else ['?', repr(v)]


def show(p):
    return [real(p.x), real(p.y), real(p.z), limbs(p.c, 2), limbs(p.p, 2), limbs(p.i, 1), limbs(p.r, 1), limbs(p.g, 1), limbs(p.b, 1)] + [limbs(v, 4) for v in p.extra]


def value(v):
    if v['t'] == 'other':
        return [None, 'text', [1], 1.5, object()][v['z']]
    if v['t'] == 'real':
        return struct.unpack('>d', struct.pack('>4H', *v['d']))[0]
    n = 0
    for k in v['w']:
        n = n << 16 | k
    return -n if v['neg'] else n


def see(o):
    recs = o.getPointRecords()
    E = len(recs[0].extra) if recs else 0
    cols = [o.getX(), o.getY(), o.getZ(), o.getC(), o.getP(), o.getI(), o.getR(), o.getG(), o.getB()]
    cols = [[real(v) for v in c] if k < 3 else [limbs(v, WIDTH[k]) for v in c] for k, c in enumerate(cols)]
    cols += [[limbs(v, 4) for v in o.getExtra(k)] for k in range(E)]
    return {'w': tok(o.getWKT().encode()), 'c': o.getCompressed(), 'recs': [show(p) for p in recs], 'single': [show(o.getPointRecord(k)) for k in range(len(recs))],
            'cols': cols, 'ver': [o.getMajorVersion(), o.getMinorVersion()]}


def copy(p):
    q = PointRecord()
    for f in FIELDS:
        setattr(q, f, getattr(p, f))
    q.extra = p.extra
    return q


O = [SpocFile('', False), SpocFile('', False)]
R = [PointRecord(), PointRecord()]
V = []


def do(op):
    global V
    n, a, b = op['n'], op['a'], op['b']
    if n == 'make': O[a] = SpocFile(untok(op['w']), op['c'])
    elif n == 'read': O[a] = readspocfile(op['path'])
    elif n == 'write': writespocfile(op['path'], O[a])
    elif n == 'header':
        h = readheader(op['path'])
        return [tok(h.wkt.encode()), bool(h.compressed), h.extra_fields, [h.total_points >> 31, h.total_points & 0x7fffffff], h.major_version, h.minor_version]
    elif n == 'file': pass
    elif n == 'wkt': O[a].setWKT(untok(op['w']))
    elif n == 'comp': O[a].setCompressed(op['c'])
    elif n == 'rnew': R[b] = PointRecord()
    elif n == 'rget': R[b] = copy(O[a].getPointRecord(op['i']))
    elif n == 'rput': O[a].setPointRecord(op['i'], R[b])
    elif n == 'rset': setattr(R[b], FIELDS[op['j'] - 1], value(op['val']))
    elif n == 'rextra': R[b].extra = [value(v) for v in op['vals']]
    elif n == 'vget': V = O[a].getPointRecords()
    elif n == 'vset': O[a].setPointRecords(V)
    elif n == 'vadd': V.append(copy(R[b]))
    elif n == 'vdel': del V[op['i']]
    elif n == 'vedit': setattr(V[op['i']], FIELDS[op['j'] - 1], value(op['val']))
    elif n == 'vbad': O[a].setPointRecords([None, [1], [R[0], 'x'], 7][op.get('i', 1)])
    elif n == 'extra': return [limbs(v, 4) for v in O[a].getExtra(op['i'])]
    else: raise SystemExit('unknown ' + n)
    return []


for line in sys.stdin:
    op = json.loads(line)
    try:
        x, ok = do(op), True
    except Exception as e:
        x, ok = [], False
    print(json.dumps({'ok': ok, 'x': x, 'o': [see(o) for o in O], 'r': [show(p) for p in R], 'v': [show(p) for p in V], 'mod': [getmajorversion(), getminorversion()]}), flush=True)
