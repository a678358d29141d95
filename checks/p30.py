"""P30: equality is field-wise, inequality its negation, equal values hash equally, point order is a strict total order consistent with equality
(SpocGeom: IEEE comparison defined on bit patterns; every single-field difference of every kind of value on the real operators)."""
import core
from geom import *


def twist(r, u):
    """another word, often close"""
    return r.choice([u ^ 1, u ^ (1 << r.randrange(64)), u ^ (1 << 63), r.getrandbits(64), (u + 1) & (1 << 64) - 1])


def number(r, u):
    """a bit pattern as a number for comparison: changed in the sign, the last bit, or altogether"""
    k = r.random()
    if k < .35:
        return u ^ (1 << 63)
    v = u ^ 1 if k < .6 else u ^ (1 << r.randrange(52)) if k < .8 else anydouble(r)
    return v if (v & (1 << 63) - 1) <= 0x7ff0000000000000 or r.random() < .1 else u ^ 1


def send(h, typ, a, b):
    """a, b: (line, doubles, rest)"""
    val = lambda v: {'d': [limbs(x) for x in v[1]], 'u': v[2]}
    h.add('eq %s %s %s' % (typ, a[0], b[0]), {'op': 'eq', 'kind': typ, 'a': val(a), 'b': val(b)}, 'r')


def rec(d, u, e):
    return ('%s %s %d %s' % (hexes(d), hexes(u), len(e), hexes(e)), d, [limbs(x) for x in u + e])


def records(h):
    r = h.rng
    for _ in range(3):
        E = r.choice([0, 1, 2, 5])
        d = [anydouble(r) for _ in range(3)]
        u = [r.getrandbits(w) for w in (32, 32, 16, 16, 16, 16)]
        e = [r.getrandbits(64) for _ in range(E)]
        if r.random() < .3:
            d, u, e = [d2b(0.0)] * 3, [0] * 6, [0] * E
        x = rec(d, u, e)
        send(h, 'record', x, x)
        for k in range(3):
            q = list(d)
            q[k] = number(r, q[k])
            send(h, 'record', *r.sample([x, rec(q, u, e)], 2))
        for k in range(6):
            q = list(u)
            q[k] ^= 1 << r.randrange(32 if k < 2 else 16)
            send(h, 'record', *r.sample([x, rec(d, q, e)], 2))
        for k in range(E):
            q = list(e)
            q[k] = twist(r, q[k])
            send(h, 'record', *r.sample([x, rec(d, u, q)], 2))
        send(h, 'record', *r.sample([x, rec(d, u, e + [r.choice([0, 1])])], 2))
        if E:
            send(h, 'record', *r.sample([x, rec(d, u, e[:-1])], 2))
        if E > 1:
            send(h, 'record', *r.sample([x, rec(d, u, e[1:] + e[:1])], 2))
        if d[0] != d[1]:
            send(h, 'record', x, rec([d[1], d[0], d[2]], u, e))
        send(h, 'record', x, rec(d, [u[1], u[0]] + u[2:], e))
        send(h, 'record', x, rec(d, u[:2] + r.sample(u[2:], 4), e))


def heads(h):
    r = h.rng

    def head(v):
        sig, wkt, ma, mi, ex, tot, comp = v
        return ('%s %s %d %d %d %x %d' % (sig, wkt, ma, mi, ex, tot, comp), [], [sig, wkt, ma, mi, ex, limbs(tot), comp])
    for _ in range(3):
        v = ['SPOC', r.choice(['a', 'wkt', 'x' * 300]), r.randrange(256), r.randrange(256), r.randrange(256), r.getrandbits(r.choice([1, 10, 63])), r.randrange(2)]
        send(h, 'header', head(v), head(v))
        for k in range(7):
            q = list(v)
            if k == 0:
                j = r.randrange(4)
                q[0] = v[0][:j] + '#' + v[0][j + 1:]
            elif k == 1:
                q[1] = r.choice([v[1] + 'y', v[1][:-1] + 'Z', v[1][:-1] or 'Q'])
            elif k == 5:
                q[5] ^= 1 << r.randrange(62)
            elif k == 6:
                q[6] ^= 1
            else:
                q[k] ^= 1 << r.randrange(8)
            send(h, 'header', *r.sample([head(v), head(q)], 2))


def pts(h):
    r = h.rng
    for typ, n in (('point', 3), ('extent', 6)):
        mk = lambda d: (hexes(d), d, [])
        for _ in range(3):
            d = [anydouble(r) for _ in range(n)] if r.random() < .8 else [r.choice([0, 1 << 63]) for _ in range(n)]
            send(h, typ, mk(d), mk(d))
            for k in range(n):
                q = list(d)
                q[k] = number(r, q[k])
                send(h, typ, *r.sample([mk(d), mk(q)], 2))
            send(h, typ, mk(d), mk(r.sample(d, n)))
            send(h, typ, mk(d), mk([x ^ (1 << 63) for x in d]))
            if n == 6:
                send(h, typ, mk(d), mk(d[3:] + d[:3]))
    for typ in ('voxel', 'words'):
        mk = lambda d: (hexes(d), [], [limbs(x) for x in d])
        for _ in range(3):
            d = [r.getrandbits(r.choice([2, 17, 33, 64])) for _ in range(3)]
            send(h, typ, mk(d), mk(d))
            for k in range(3):
                q = list(d)
                q[k] = twist(r, q[k])
                send(h, typ, *r.sample([mk(d), mk(q)], 2))
            send(h, typ, mk(d), mk(r.sample(d, 3)))
            send(h, typ, mk([65536, 0, 0]), mk([0, 1, 0]))
            send(h, typ, mk([0, 65536, 0]), mk([0, 0, 1]))


def order(h):
    r = h.rng
    for _ in range(2):
        n = r.choice([0, 1, 2, 8, 14])
        vals = [anydouble(r) for _ in range(r.choice([2, 3, 8]))]
        vals += [v ^ (1 << 63) for v in vals[:2]]
        if r.random() < .5:
            vals += [0, 1 << 63]
        ps = [[r.choice(vals) for _ in range(3)] for _ in range(n)]
        if n and r.random() < .5:
            p = ps[0]
            ps = [list(p) for _ in range(n)]
            for q in ps:
                q[r.randrange(3)] = r.choice(vals)
        h.add('order x %d %s' % (n, hexes(sum(ps, []))), {'op': 'order', 'pts': [[limbs(v) for v in p] for p in ps]}, 'r')


def run(ctx):
    ctx.start_harness('geom')
    ctx.model('MCGeom', 'SPECIFICATION Spec\nINVARIANTS Pairs Triples\nCONSTANTS Mode = "order" N = 3 W = 0 MaxRes = 0\n', min_states=1000)
    ctx.harness('geom')
    kw = {'exe': 'geom'}
    check_lines(ctx, [('%s%d' % (f.__name__, k), f, kw) for f in (records, heads, pts, order) for k in range(ctx.scale(40, 600))], 'TraceGeom')
