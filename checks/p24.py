"""P24: radius search finds exactly the neighbours within the radius (SpocRadius: the cell search against brute force for every choice of cells;
searches recorded from the real code for every entry point, index set, limit and number of threads)."""
import json, math, os
from fractions import Fraction as F
import core
from gen import d2b
from proc import *

BAND = F(3, 10 ** 15)


def search(h, op, pts, unit, base, a, b, radius, limit, threads, types=('record', 'point'), exact=False):
    """pts: lattice points; real coordinates base + unit * n. radius: a double"""
    r = h.rng
    real = [[x + n * unit for x, n in zip(base, p)] for p in pts]
    ratio2 = (F(radius) / F(unit)) ** 2 if not math.isinf(radius) else F(10 ** 18)
    r2 = int(min(math.floor(ratio2), 2 ** 31 - 1))
    rc = math.isqrt(r2) + 1
    edge = []
    e2 = F(radius) ** 2 if not math.isinf(radius) else None
    near = float(ratio2) if e2 is not None and ratio2 < 10 ** 18 else 0
    for i in range(0 if exact else len(pts)):
        for j in range(i, len(pts)):
            d2 = sum((p - q) ** 2 for p, q in zip(pts[i], pts[j]))
            if near and d2 and abs(d2 / near - 1) < 1e-6:
                x2 = sum((F(p) - F(q)) ** 2 for p, q in zip(real[i], real[j]))
                axis = sum(p != q for p, q in zip(real[i], real[j])) == 1
                edge.append([i, j, 'in' if x2 <= e2 * (1 - BAND) or (x2 == e2 and axis) else 'out' if x2 > e2 * (1 + BAND) else 'any'])
    if r2 > 3 * 26000 ** 2:
        if max(abs(p[k] - q[k]) for p in pts for q in pts for k in range(3)) > 26000:
            raise core.CheckError('the lattice is too wide for this radius')
        r2 = rc = 2 ** 31 - 1
    flat = ' '.join('%x' % d2b(v) for p in real for v in p)
    typ = r.choice(types)
    idx = lambda v: ' '.join(map(str, [len(v)] + list(v)))
    ev = {'op': op, 'pts': pts, 'a': a, 'b': b, 'limit': min(limit, 2 ** 31 - 1), 'r2': r2, 'rc': rc, 'edge': edge}
    ev['key'] = json.dumps([op, pts, base, unit, a, b, limit, radius])
    h.add('%s %s %d %x %d %d %s %s %s' % (op, typ, threads, d2b(radius), limit, len(pts), flat, idx(a), idx(b)), ev, 'calls')


def any_op(h, pts, unit, base, radius, exact=False):
    r = h.rng
    n = len(pts)
    op = r.choice(['search', 'search', 'search32', 'indexes', 'indexes32', 'alln', 'all', 'all', 'all32', 'get'])

    def some():
        if not n or r.random() < .08:
            return []
        k = r.choice([n, n, r.randrange(n + 1), 2 * n])
        v = [r.randrange(n) for _ in range(k)] if r.random() < .4 else r.sample(range(n), min(k, n))
        return v
    a, b = some(), some()
    limit = r.choice([0, 1, 2, 3, 5, 8, 31, 32, 33, n, max(n - 1, 0), 1000, 2 ** 40])
    for t in {1, r.choice([1, 2, 3, 8, 16])}:
        search(h, op, pts, unit, base, a, b, radius, limit, t)


def base_of(r):
    return r.choice([[0.0] * 3, [431234.5, 4582913.25, 128.0], [-2.0 ** 20, 2.0 ** 21, -100.25], [-8.0, 8.0, -.5]])


def cloud_of(r, n, W):
    """lattice clouds: uniform, clustered, degenerate, repeated points"""
    kind = r.choice(['uniform', 'uniform', 'cluster', 'line', 'plane', 'same', 'corners', 'far'])
    v = lambda w: r.randrange(-w, w + 1)
    if kind == 'uniform':
        p = [[v(W) for _ in range(3)] for _ in range(n)]
    elif kind == 'cluster':
        cs = [[v(W) for _ in range(3)] for _ in range(3)]
        p = [[x + v(max(1, W // 8)) for x in r.choice(cs)] for _ in range(n)]
    elif kind == 'line':
        k = r.randrange(3)
        p = [[v(W) if j == k else 1 for j in range(3)] for _ in range(n)]
    elif kind == 'plane':
        k = r.randrange(3)
        p = [[-2 if j == k else v(W) for j in range(3)] for _ in range(n)]
    elif kind == 'same':
        p = [[v(1) * W for _ in range(3)] for _ in range(n)]
    elif kind == 'corners':
        p = [[r.choice([-W, W, 0]) + v(1) for _ in range(3)] for _ in range(n)]
    else:
        p = [[v(W) + r.choice([0, 0, 1000 * W, -70 * W]) for _ in range(3)] for _ in range(n)]
    return p


def lattice(h):
    r = h.rng
    for _ in range(4):
        n = r.choice([0, 1, 2, 5, 12, 25, 40])
        W = r.choice([1, 2, 5, 12, 40])
        pts = cloud_of(r, n, W)
        unit = r.choice([1.0, .25, 1 / 64, 4.0])
        base = base_of(r)
        R = r.choice([0, 1, 2, 3, 5, 13, W, 2 * W, 4 * W])
        radius = unit * (R if r.random() < .5 else math.sqrt(R * R + R + 1) if r.random() < .5 else R + .5)
        any_op(h, pts, unit, base, radius)


def dense(h):
    """many candidates in few cells, limits around the exact number"""
    r = h.rng
    for _ in range(2):
        n = r.choice([60, 90, 120])
        pts = cloud_of(r, n, r.choice([1, 2, 3]))
        radius = r.choice([1.0, 1.5, 2.0, 3.0])
        op = r.choice(['search', 'indexes', 'alln', 'all', 'get', 'search32'])
        a = r.sample(range(n), 20)
        b = [r.randrange(n) for _ in range(n)]
        c = [sum(sum((x - y) ** 2 for x, y in zip(pts[i], pts[j])) <= radius ** 2 for j in range(n)) for i in a]
        for limit in {r.choice(c), max(0, r.choice(c) - 1), r.choice(c) + 1, 7}:
            search(h, op, pts, 1.0, [0.0] * 3, a, b, radius, limit, r.choice([1, 4]))


def decimal(h):
    """points exactly a decimal radius apart, where rounding matters"""
    r = h.rng
    for _ in range(3):
        unit = r.choice([.1, .01, .3, .7, .025, .001, 1.1, 1.8, .27, 1 / 3])
        k = r.choice([1, 1, 2, 3, 5])
        radius = r.choice([unit * k, round(unit * k, 6)])
        base = [r.choice([0.0, round(r.uniform(0, 300), 2), round(r.uniform(400000, 500000), 2)]) for _ in range(3)] if unit > .002 else [round(r.uniform(0, 50), 2) for _ in range(3)]
        W = r.choice([20, 300, 1200])
        pts = []
        for _ in range(12):
            p = [r.randrange(W) for _ in range(3)]
            q = list(p)
            m = r.randrange(3)
            q[m] += k * r.choice([-1, 1])
            pts += [p, q]
        search(h, r.choice(['all', 'all32']), pts, unit, base, [], [], radius, 10, r.choice([1, 8]))


def neighbours(h):
    """pairs one radius apart along an axis, over a wide range of radii: the rounding of the cells shows"""
    r = h.rng
    for _ in range(6):
        radius = r.choice([.1, .025, 1.8, .27, .05, .3, .7, 1.1, r.uniform(.01, 3), r.uniform(1e-4, 1e-3), r.uniform(10, 1000)])
        lo = round(r.uniform(0, 100), r.choice([1, 2, 3])) * max(1, radius)
        pts, real = [], []
        # one point for the corner of the cloud
        real.append([lo] * 3)
        for _ in range(14):
            p = [lo + radius * r.randrange(2, 3000) * r.choice([1, 1, .5, .1]) for _ in range(3)]
            m = r.randrange(3)
            q = list(p)
            q[m] = p[m] + radius
            real += [p, q]
        pairs(h, real, radius)


def pairs(h, real, radius):
    """real coordinates without a lattice: all pairs are decided exactly"""
    n = len(real)
    e2 = F(radius) ** 2
    edge = []
    for i in range(n):
        for j in range(i + 1, n):
            fl = sum((p - q) ** 2 for p, q in zip(real[i], real[j])) / radius ** 2
            if fl > 1.001:
                continue
            if fl < .999:
                edge.append([i, j, 'in'])
                continue
            x2 = sum((F(p) - F(q)) ** 2 for p, q in zip(real[i], real[j]))
            axis = sum(p != q for p, q in zip(real[i], real[j])) == 1
            edge.append([i, j, 'in' if x2 <= e2 * (1 - BAND) or (x2 == e2 and axis) else 'out' if x2 > e2 * (1 + BAND) else 'any'])
    pts = [[10 * i, 0, 0] for i in range(n)]
    flat = ' '.join('%x' % d2b(v) for p in real for v in p)
    h.add('all %s 2 %x 100 %d %s 0 0' % (h.rng.choice(['record', 'point']), d2b(radius), n, flat),
          {'op': 'all', 'pts': pts, 'a': [], 'b': [], 'limit': 100, 'r2': 1, 'rc': 1, 'edge': edge, 'key': flat}, 'calls')


def extremes(h):
    r = h.rng
    pts = [[0, 0, 0], [0, 0, 0], [1, 0, 0], [0, 5000, 0], [5, 5, 5], [-3, 2, 1], [0, 5000, 0]]
    for radius in [0.0, 5e-324, 1e-300, 1e300, float('inf'), 1e-9, 8000.0]:
        for base in ([0.0] * 3, [431234.5, 4582913.25, 128.0]):
            search(h, r.choice(['all', 'all32', 'get']), pts, .5, base, [], [], radius, 100, 2)
            search(h, 'search', pts, .5, base, [0, 2, 2, 3], [6, 6, 5, 4, 3, 2, 1, 0], radius, 3, 2)


def crowd(h):
    """more candidates in a cell than small counters hold: a few points, each of them a candidate many thousand times"""
    r = h.rng
    for per, limit in [(r.choice([257, 300]), 2 ** 40), (r.choice([65536, 65539, 70000]), 2 ** 40), (r.choice([65537, 33000]), r.choice([65535, 65536, 65540, 12])), (r.choice([1000, 140000]), 66000)]:
        n = r.choice([2, 5])
        pts = [[r.randrange(-1, 2) for _ in range(3)] for _ in range(n)] + [[9, 0, 0]]
        a = [r.randrange(n + 1) for _ in range(2)]
        b = [r.randrange(n + 1) for _ in range(r.choice([1, 2, 3]))]
        rep = per // r.choice([1, len(b)])
        radius = r.choice([.5, 1.5, 2.5])
        flat = ' '.join('%x' % d2b(float(v)) for p in pts for v in p)
        idx = lambda v: ' '.join(map(str, [len(v)] + list(v)))
        h.add('crowd %s %d %x,%d %d %d %s %s %s' % (r.choice(['record', 'point']), r.choice([1, 4]), d2b(radius), rep, limit, n + 1, flat, idx(a), idx(b)),
              {'op': 'crowd', 'pts': pts, 'a': a, 'b': b, 'rep': rep, 'limit': min(limit, 2 ** 31 - 1), 'r2': int(radius ** 2), 'rc': int(radius) + 1, 'edge': [],
               'key': json.dumps([pts, a, b, rep, limit, radius])}, 'calls')


def multitude(h, n):
    """more points, queries and candidates than small counters hold"""
    r = h.rng
    W = max(12, n // r.choice([2, 6]))
    pts = [[r.randrange(-W, W), r.randrange(2), 0] for _ in range(n)]
    radius = r.choice([1.0, 1.5, 3.0])
    few = lambda: [r.choice([0, 255, 256, 257, n - 1, r.randrange(n), r.randrange(n)]) for _ in range(4)]
    many = [r.randrange(n) for _ in range(n)]
    if n < 2000:
        op = r.choice(['all', 'all32', 'get', 'search', 'search32', 'indexes', 'alln'])
        search(h, op, pts, 1.0, [0.0] * 3, many, [r.randrange(n) for _ in range(n // 2)], radius, r.choice([4, 100]), r.choice([1, 8]), exact=True)
    else:
        search(h, 'search', pts, 1.0, [0.0] * 3, many, few(), radius, 100, 4, exact=True)
        search(h, r.choice(['search', 'alln']), pts, 1.0, [0.0] * 3, few(), many, radius, 100, 4, exact=True)


def haystack(h):
    """few neighbours among many candidates that are near but not near enough, few of them wanted"""
    r = h.rng
    R = 10
    shell = [p for p in ([r.randrange(-19, 20) for _ in range(3)] for _ in range(4000)) if sum(v * v for v in p) > R * R][:r.choice([200, 500, 1200])]
    needles = [[r.randrange(-5, 6) for _ in range(3)] for _ in range(r.choice([0, 1, 2, 3]))]
    pts = shell + [[0, 0, 0]] + needles
    r.shuffle(pts)
    if r.random() < .3:
        pts += [list(x) for x in shell] * 4
    at = pts.index([0, 0, 0])
    for limit in {1, len(needles), len(needles) + 1, r.choice([2, 4, 32])}:
        search(h, r.choice(['search', 'alln']), pts, 1.0, [0.0] * 3, [at], list(range(len(pts))), float(R), limit, 1, exact=True)


def small(ctx):
    """every cloud of the model"""
    path = os.path.join(ctx.tmp('clouds'), 'clouds.json')
    N, X, Y = (3, 2, 2) if not ctx.thorough else (3, 3, 2)
    rad = 'CONSTANTS MaxX = %d MaxY = %d N = %d R2 = %d Res = %d MaxLimit = %d\nCHECK_DEADLOCK FALSE\n'
    ctx.model('MCRadius', 'SPECIFICATION Spec\nINVARIANTS Right Partial\n' + rad % (X, Y, N, 1, 1, 3), env={'OUT': path}, min_states=1000)
    ctx.model('MCRadius', 'SPECIFICATION Spec\nINVARIANTS Right Partial\n' + rad % (*((4, 2) if not ctx.thorough else (5, 4)), 3, 4, 2, 3), min_states=1000, mem='8g')
    ctx.model('MCRadius', 'SPECIFICATION Spec\nPROPERTIES Ends\n' + rad % (2, 1, 2, 2, 2, 2), min_states=100)
    cl = [json.loads(l)['p'] for l in open(path)]
    lat = [[x, y, 0] for x in range(X + 1) for y in range(Y + 1)]
    out = []

    def part(k, K):
        def f(h):
            for c in cl[k::K]:
                pts = lat + [list(p) + [0] for p in c]
                cand = list(range(len(lat), len(pts)))
                for radius in (1.0, h.rng.choice([1.42, 2.0, 1.5])):
                    search(h, 'search', pts, 1.0, [0.0] * 3, list(range(len(lat))), cand, radius, h.rng.choice([0, 1, 2, 3, 4]), 1)
        return f
    K = 8
    return [('small%d' % k, part(k, K), {'exe': 'radius'}) for k in range(K)]


def run(ctx):
    ctx.start_harness('radius')
    specs = small(ctx)
    ctx.harness('radius')
    kw = {'exe': 'radius'}
    specs += [('lattice%d' % k, lattice, kw) for k in range(ctx.scale(60, 1000))]
    specs += [('dense%d' % k, dense, kw) for k in range(ctx.scale(12, 100))]
    specs += [('decimal%d' % k, decimal, kw) for k in range(ctx.scale(20, 300))]
    specs += [('neighbours%d' % k, neighbours, kw) for k in range(ctx.scale(20, 300))]
    specs += [('extremes%d' % k, extremes, kw) for k in range(2)]
    specs += [('crowd%d' % k, crowd, kw) for k in range(ctx.scale(6, 60))]
    specs += [('hay%d' % k, haystack, kw) for k in range(ctx.scale(12, 150))]
    specs += [('multi%d.%d' % (n, k), lambda h, n=n: multitude(h, n), kw) for n, c in ((300, 6), (700, 4), (4300, 2), (66000, 1)) for k in range(ctx.scale(c, 8 * c))]
    check_lines(ctx, specs, 'TraceRadius')
    ctx.assumptions += ['distances within 3e-15 of the radius may be judged either way, unless only one coordinate differs',
                        'coordinates are projected to an integer lattice, on which the specification decides distances exactly']
