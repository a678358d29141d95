"""P29: extents are the smallest boxes, voxels are exact partitions, groups list every index once in order, encodings are the identity
(SpocGeom; answers of the real functions, all overloads, validated against it)."""
import core
from gen import d2b
from geom import *


def finite(u):
    return u >> 52 & 2047 != 2047


def extents(h):
    r = h.rng
    for _ in range(12):
        n = r.choice([0, 1, 1, 2, 3, 8, 30])
        vals = [v for v in [anydouble(r) for _ in range(r.choice([1, 2, 4, 20]))] if finite(v)] or [0]
        pts = [[r.choice(vals) for _ in range(3)] for _ in range(n)]
        if n > 2 and r.random() < .3:       # the extreme value once, anywhere
            pts = [[min(vals, key=b2d)] * 3] * n
            pts[r.randrange(n)] = [min(anydouble(r), d2b(-1.0)) & ~(1 << 52) for _ in range(3)]
        typ = r.choice(['record', 'point'])
        h.add('extent %s %d %s' % (typ, n, hexes(sum(pts, []))), {'op': 'extent', 'pts': [[limbs(v) for v in p] for p in pts]}, 'r')
    for _ in range(10):
        e = [[anydouble(r) for _ in range(6)] for _ in range(2)]
        for q in e:
            if r.random() < .8:
                for k in range(3):
                    q[k], q[k + 3] = sorted([q[k], q[k + 3]], key=b2d)
            if r.random() < .2:
                q[:] = [d2b(MAX)] * 3 + [d2b(-MAX)] * 3
        h.add('total x ' + hexes(e[0] + e[1]), {'op': 'total', 'a': [limbs(v) for v in e[0]], 'b': [limbs(v) for v in e[1]]}, 'r')


def codecs(h):
    r = h.rng
    for _ in range(12):
        k = r.choice(['extent', 'point', 'points', 'words'])
        n = {'extent': 2, 'point': 1}.get(k) or r.choice([1, 1, 2, 5, 40])
        v = [r.choice([anydouble(r), r.getrandbits(64), r.choice([0, 1 << 63, (1 << 64) - 1, 0x7ff8000000000000, 0x7ff0000000000001])]) for _ in range(3 * n)]
        h.add('codec %s %s%s' % (k, '' if k in ('extent', 'point') else '%d ' % n, hexes(v)), {'op': 'codec', 'kind': k, 'v': [limbs(x) for x in v]}, 'r')


def voxels(h):
    r = h.rng
    for _ in range(10):
        n = r.choice([0, 1, 2, 5, 20, 60])
        W = r.choice([1, 3, 10, 100, 70000])
        unit = r.choice([1.0, .5, 1 / 64, 8.0])
        res = r.choice([1, 1, 2, 3, 5, 7, W, W + 1, 10 * W])
        base = r.choice([[0.0] * 3, [431234.5, 4582913.25, -128.0], [-2.0 ** 20, 2.0 ** 21, .25 * 64]])
        base = [round(b / unit) * unit for b in base]
        if r.random() < .5:
            pts = [[r.randrange(-W, W + 1) for _ in range(3)] for _ in range(n)]
        elif r.random() < .5:       # on and next to the borders
            pts = [[r.randrange(4) * res + r.choice([-1, 0, 0, 1]) for _ in range(3)] for _ in range(n)]
        else:       # voxels whose hash values are the same
            pts = [[r.choice([0, 65536, 1, 65537]) * res, r.choice([0, 1]) * res, r.choice([0, 1]) * res] for _ in range(n)] if res < 100 else [[0] * 3] * n
        a = [r.choice([0, 0, min([p[k] for p in pts] or [0]), max([p[k] for p in pts] or [0]), r.randrange(-W, W + 1)]) for k in range(3)]
        mode = r.choice(['one', 'anchor', 'anchor', 'index', 'plain'])
        idx = [r.randrange(n) for _ in range(r.choice([0, 1, n, 2 * n]))] if n else []
        if mode == 'one' or mode == 'anchor':
            if r.random() < .3:
                a = [min([p[k] for p in pts] or [0]) for k in range(3)]
        real = [b + p * unit for q in pts for p, b in zip(q, base)]
        anchor = [b + p * unit for p, b in zip(a, base)]
        typ = r.choice(['record', 'point'])
        h.add('voxel %s %s %d %x %s %d %s %d %s' % (typ, mode, r.choice([1, 1, 3, 8]), d2b(res * unit), hexes([d2b(v) for v in anchor]), n,
                                                 hexes([d2b(v) for v in real]), len(idx), ' '.join(map(str, idx))),
              {'op': 'voxel', 'mode': mode, 'pts': pts, 'a': a, 'res': res, 'idx': idx}, 'r')


def far(h):
    """voxel numbers beyond 32 bits"""
    r = h.rng
    B = 1 << 20
    for _ in range(8):
        n = r.choice([1, 2, 5, 20])
        res = 1 << r.choice([0, 0, 3, 10, 20])
        unit = r.choice([1.0, .5, 1 / 1024])
        near = [r.randrange(-B, B) << 20 | r.randrange(B) for _ in range(3)]
        pts = []
        for _ in range(n):
            q = list(r.choice(pts)) if pts and r.random() < .6 else list(near)
            for k in range(3):
                if r.random() < .5:
                    q[k] += r.choice([0, 1, -1, res, -res, 1 << 16, 1 << 31, 1 << 32, -(1 << 32), 1 << 33, res << 16, res << 20] + [res * m << 32 for m in (13, 13, 29) if res < 9])
            pts.append(q)
        a = [min(p[k] for p in pts) if r.random() < .7 else r.randrange(-B, B) << 20 for k in range(3)]
        real = [d2b(v * unit) for p in pts for v in p]
        pair = lambda p: [[v >> 20, v & B - 1] for v in p]
        line = 'voxel %s %s %d %x %s %d %s 0' % (r.choice(['record', 'point']), r.choice(['one', 'anchor']), r.choice([1, 3]), d2b(res * unit), hexes([d2b(v * unit) for v in a]), n, hexes(real))
        ans = h.add(line, {'op': 'voxel', 'mode': 'far', 'pts': [pair(p) for p in pts], 'a': pair(a), 'res': res, 'idx': []}, 'r')
        if ans:
            split = lambda v: [[x // (B // res), x % (B // res)] for x in v]
            h.events[-1]['r'] = {'v': [split(v) for v in ans['v']], 'set': [split(v) for v in ans['set']], 'map': [[split(v), g] for v, g in ans['map']]}


def run(ctx):
    ctx.start_harness('geom')
    ctx.model('MCGeom', 'SPECIFICATION Spec\nINVARIANTS Partition Groups FarAgree\nCONSTANTS Mode = "voxel" N = %d W = %d MaxRes = 3\n' % ctx.scale((3, 2), (3, 4)), min_states=500)
    ctx.harness('geom')
    kw = {'exe': 'geom'}
    check_lines(ctx, [('%s%d' % (f.__name__, k), f, kw) for f in (extents, codecs, voxels, far) for k in range(ctx.scale(40, 600))], 'TraceGeom')
    ctx.assumptions += ['voxels are decided on coordinates that are exact on a binary lattice, up to 2^41 steps wide']
