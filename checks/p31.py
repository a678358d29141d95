"""P31: cropping keeps exactly the points in the closed box, in order and unchanged; centres, areas, volumes, distances and sums are the exact ones; coordinates
relative to a box are its 2^62 parts, rounded down, monotone, exact at both corners, and restoring them gives the coordinates back
(SpocGeom on bit patterns and on lattices; answers of the real functions validated against it)."""
import core
from gen import d2b
from geom import *

UNITS = [1.0, .5, 1 / 64, 8.0, 2.0 ** -10]
BASES = [[0.0] * 3, [431234.5, 4582913.25, -128.0], [-2.0 ** 20, 2.0 ** 19, .25 * 64]]


def finite(u):
    return u >> 52 & 2047 != 2047


def lims(p):
    return [limbs(v) for v in p]


def crops(h):
    r = h.rng
    for _ in range(12):
        n = r.choice([0, 1, 2, 5, 10, 40])
        vals = [anydouble(r) for _ in range(r.choice([2, 4, 8, 20]))]
        pts = []
        for _ in range(n):
            p = [r.choice(vals) for _ in range(3)]
            if p not in pts:
                pts.append(p)
        e = [r.choice(vals) for _ in range(6)]
        for k in range(3):
            if r.random() < .9:
                e[k], e[k + 3] = sorted([e[k], e[k + 3]], key=b2d)
            if r.random() < .3:
                e[k] = d2b(r.choice([-MAX, float('-inf')]))
            if r.random() < .3:
                e[k + 3] = d2b(r.choice([MAX, float('inf')]))
        typ = r.choice(['record', 'point'])
        h.add('crop %s %s %d %s' % (typ, hexes(e), len(pts), hexes(sum(pts, []))), {'op': 'crop', 'pts': [lims(p) for p in pts], 'e': lims(e)}, 'r')


def numbers(h):
    r = h.rng
    for _ in range(20):
        unit, base = r.choice(UNITS), r.choice(BASES)
        W = r.choice([1, 5, 40, 500])
        pt = lambda: [r.randrange(-W, W + 1) for _ in range(3)]
        real = lambda p, b=[0.0] * 3: hexes([d2b(x + v * unit) for x, v in zip(b, p)])
        base = [round(b / unit) * unit for b in base]
        k = r.choice(['center', 'box', 'distance', 'far', 'arith', 'about', 'about'])
        typ = r.choice(['record', 'point'])
        a, b = pt(), pt()
        if k == 'center':
            pts = [pt() for _ in range(r.choice([1, 1, 2, 3, 7, 50, 130, 260, 1000]))]
            h.add('center %s %x %d %s' % (typ, d2b(unit), len(pts), ' '.join(real(p) for p in pts)), {'op': k, 'pts': pts}, 'r')
        elif k == 'box':
            e = [min(x, y) for x, y in zip(a, b)] + [max(x, y) for x, y in zip(a, b)]
            h.add('box x %x %s %s' % (d2b(unit), real(e[:3], base), real(e[3:], base)), {'op': k, 'e': e}, 'r')
        elif k == 'distance':
            if r.random() < .5:
                b = [x + y for x, y in zip(a, r.choice([[3, 4, 0], [0, -3, 4], [1, 2, 2], [-2, 3, 6], [0, 0, 0], [0, 0, -7], [2, -6, 9]]))]
            h.add('distance %s %x %s %s' % (typ, d2b(unit), real(a, base), real(b, base)), {'op': k, 'a': a, 'b': b}, 'r')
        elif k == 'far':      # Pythagorean quadruples, times a large number
            q, n = r.choice([([3, 4, 0], 5), ([1, 2, 2], 3), ([2, 3, 6], 7), ([2, 6, 9], 11), ([0, 0, 1], 1), ([1, 4, 8], 9), ([6, 6, 7], 11), ([0, 5, 12], 13)])
            r.shuffle(q)
            a = [r.randrange(-3, 4) for _ in range(3)]
            b = [x + r.choice([1, -1]) * y for x, y in zip(a, q)]
            f = r.choice([1, 2 ** 20 + 1, 2 ** 22 - 3, r.randrange(1, 2 ** 22)])
            h.add('distance %s %x %s %s' % (typ, d2b(unit), real([x * f for x in a], base), real([x * f for x in b], base)), {'op': k, 'a': a, 'b': b, 'h': n, 'k': f}, 'r')
        elif k == 'arith':
            h.add('arith x %x %s %s' % (d2b(unit), real(a), real(b)), {'op': k, 'a': a, 'b': b}, 'r')
        else:
            m = r.choice([0, 3, 8, 12])
            digits = r.randrange(5)
            gap = max(1, 2 ** m // (2 * 10 ** digits))      # around one half of the last digit
            n = r.choice([1, 1, 2, 5])
            how = r.choice(['all', 'default', 'point', 'number'])
            n = n if how in ('all', 'default') else 1
            p = [pt() for _ in range(n)]
            q = [[x + r.choice([0, 0, 0, gap - 1, gap, -gap, 1 - gap]) for x in v] for v in p]
            if r.random() < .5:
                q = [list(v) for v in p]
                q[-1][r.randrange(3)] += r.choice([gap, -gap, gap - 1, gap + 1, -gap - 1])
            text = lambda v: '%d %s' % (n, hexes([d2b(x / 2 ** m) for y in v for x in y]))
            h.add('about %s %d %s %s' % (how, digits, text(p), text(q)), {'op': k, 'p': p, 'q': q, 'm': m, 'digits': 12 if how == 'default' else digits}, 'r')


def relative(h):
    r = h.rng
    for _ in range(10):
        unit, base = r.choice(UNITS), r.choice(BASES)
        base = [round(b / unit) * unit for b in base]
        real = lambda p: hexes([d2b(b + v * unit) for b, v in zip(base, p)])
        lo = [r.randrange(-1000, 1000) for _ in range(3)]
        hi = [v + r.choice([0, 1, 2, 4, 64, 16384, 3, 100, 9999, r.randrange(1, 16384)]) for v in lo]
        if r.random() < .7:
            n = r.choice([0, 1, 4, 10])
            pts = [[r.choice([x, y, r.randint(x, y)]) for x, y in zip(lo, hi)] for _ in range(n)]
            h.add('relative %s %s %s %d %s' % (r.choice(['all', 'one']), real(lo), real(hi), n, ' '.join(real(p) for p in pts)),
                  {'op': 'relative', 'lo': lo, 'hi': hi, 'pts': pts}, 'r')
        else:
            w = [[r.choice([0, 1, 16384, 8192, r.randrange(16385)]) for _ in range(3)] for _ in range(r.choice([1, 5]))]
            h.add('absolute x %x %s %s %d %s' % (d2b(unit), real(lo), real(hi), len(w), hexes([v << 48 for p in w for v in p])),
                  {'op': 'absolute', 'lo': lo, 'hi': hi, 'w': w}, 'r')
    for _ in range(6):
        scale = 10 ** r.randrange(-6, 12)
        n = r.choice([2, 5, 15])
        off = [r.choice([0, 0, r.uniform(-1, 1) * 1e6]) for _ in range(3)]
        pts = [[o + r.uniform(-1, 1) * scale for o in off] for _ in range(n)]
        e = [min(p[k] for p in pts) for k in range(3)] + [max(p[k] for p in pts) for k in range(3)]
        for k in range(3):
            if r.random() < .2:     # a flat cloud
                for p in pts:
                    p[k] = e[k]
                e[k + 3] = e[k]
        h.add('relative %s %s %d %s' % (r.choice(['all', 'one']), hexes([d2b(v) for v in e]), n, hexes([d2b(v) for p in pts for v in p])),
              {'op': 'relation', 'e': lims([d2b(v) for v in e]), 'pts': [lims([d2b(v) for v in p]) for p in pts]}, 'r')


def run(ctx):
    ctx.start_harness('geom')
    ctx.model('MCGeom', 'SPECIFICATION Spec\nINVARIANTS Crops\nCONSTANTS Mode = "order" N = %d W = 0 MaxRes = 0\n' % ctx.scale(2, 3), min_states=500)
    ctx.harness('geom')
    kw = {'exe': 'geom'}
    check_lines(ctx, [('%s%d' % (f.__name__, k), f, kw) for f in (crops, numbers, relative) for k in range(ctx.scale(40, 600))], 'TraceGeom')
    ctx.assumptions += ['areas, volumes, centres, distances and relative coordinates are decided on binary lattices; on other numbers the corners, the order and '
                        'the round trip (within 8 units in the last place of the largest coordinate)']
