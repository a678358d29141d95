"""P17: the tiles partition the cloud over the specified grid, each holding its records in input order, with the specified numbers and names."""
from laws import *

PRIMES = [101, 211, 401, 997, 2003, 120, 360]


def grid_n(sh):
    """n tiles along the longest side; extents with and without lattice points on inner boundaries"""
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1 / 8, 0.0), (1.0, 0.0), (1 / 64, -65536.0), (1.0, 4194304.0)]))
    D = r.choice(PRIMES)
    d2 = r.choice([0, 1, D // 3, D - 1, D, D])
    ex = [D, d2] if r.random() < .5 else [d2, D]
    o = [r.randrange(-3000, 3000) for _ in range(2)]
    n = r.choice([1, 2, 7, 30, 60])
    E = r.choice([0, 0, 2])
    recs = []
    for k in range(n):
        q = rec_of(r, E, lambda q: q.randrange(-50, 50), num=sh.num)
        xy = [o[a] + (0 if k == 0 else ex[a] if k == 1 else r.randrange(ex[a] + 1)) for a in range(2)]
        recs.append((d2b(sh.num.to(xy[0])), d2b(sh.num.to(xy[1]))) + q[2:])
    r.shuffle(recs)
    src = r.choice(['in.spoc', 'a b.zpoc', 'noext', 'x.y.spoc'])
    sh.put(src, Cloud(r.choice(WKTS), bool(r.getrandbits(1)), E, recs))
    for j in range(3):
        t = r.choice([None, 1, 2, 3, 5, 10, 33, 40])
        run_tile(sh, src, via='f', mode='n', n=t, prefix=r.choice([None, 'p%d_' % j]) if j == 0 else 'q%d_' % j, digits=r.choice([None, None, 1, 2, 6]),
                 verbose=r.random() < .2)
    run_tile(sh, src, via='p', mode='n', n=r.choice([2, 4, 6]), prefix='pipe')


def grid_s(sh):
    """cells of a given size, slices along one axis; points on cell boundaries"""
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1 / 8, 0.0), (1.0, 0.0), (1 / 64, -65536.0), (1.0, 4194304.0)]))
    S = r.choice([1, 3, 10, 64])
    sh.put('in.spoc', cloud(r, r.choice([1, 2, 12, 50]), num=sh.num, coord=lambda q: S * q.randrange(-4, 5) + q.choice([0, 0, 1, S - 1, q.randrange(S)])))
    for j in range(5):
        k = r.choice(['xy', 'x', 'y', 'both', 'both'])
        sx, sy = r.choice([1, 2, 3, 5]) * S, r.choice([1, 2, 3, 5]) * S
        if k == 'both':
            sy = sx
        sx, sy = (0 if k == 'y' else sx), (0 if k == 'x' else sy)
        run_tile(sh, 'in.spoc', via=r.choice('fp'), mode='s', sx=sx, sy=sy, prefix='t%d-' % j, digits=r.choice([None, 1, 5]), verbose=r.random() < .2)


def fine(sh):
    """small cells over wide extents, slices over long and narrow clouds: numbers beyond 16, 31, 32 bits"""
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1 / 8, 0.0), (1.0, 0.0), (1 / 64, -65536.0)]))
    for j in range(4):
        X, Y = r.choice([1, 40, 70000, 1 << 20, 1 << 27]), r.choice([1, 40, 70000, 1 << 20, 1 << 27])
        recs = []
        for k in range(r.choice([2, 5, 8])):
            q = rec_of(r, 1, lambda q: q.randrange(-50, 50), num=sh.num)
            xy = [r.choice([-e, e, r.randrange(-e, e + 1), r.randrange(-e, e + 1)]) for e in (X, Y)]
            recs.append((d2b(sh.num.to(xy[0])), d2b(sh.num.to(xy[1]))) + q[2:])
        sh.put('in.spoc', Cloud(b'', bool(r.getrandbits(1)), 1, recs))
        sx, sy = r.choice([0, 1, 1, 3, 7, 1000]), r.choice([0, 1, 1, 3, 7, 1000])
        if not sx and not sy:
            sx = sy = 2
        run_tile(sh, 'in.spoc', via='f', mode='s', sx=sx, sy=sy, prefix='f%d-' % j, digits=r.choice([None, 12]))


def refused(sh):
    r = sh.rng
    sh.num = Num(1 / 8)
    sh.put('in.spoc', cloud(r, 6, num=sh.num))
    sh.put('bad.spoc', b'SPOC\0\1 no')
    run_tile(sh, 'bad.spoc')
    run_tile(sh, 'zz.spoc')
    for a in [['-s', '4', '-x', '2', 'in.spoc'], ['-s', '4', '-y', '2', 'in.spoc'], ['-s', '4', '-x', '2', '-y', '2', 'in.spoc'], ['in.spoc', 'more']]:
        sh.run('tile', a, {'usage': 'bad', 'cmd': 'bad'})
    sh.run('tile', ['-t', '2'], {'usage': 'bad', 'cmd': 'bad'}, stdin='in.spoc')


def crowd(sh, n):
    """many records"""
    r = sh.rng
    sh.num = Num(1 / 64)
    src = sh.put('in.spoc', crowd_cloud(r, n, sh.num))
    run_tile(sh, src, via=r.choice('fp'), mode='s', sx=50, sy=r.choice([40, n // 500 + 1]), prefix='t')


def run(ctx):
    ctx.start_apps(['tile'])
    shell_model(ctx, 'tile', ['LawTile', 'TightTile'], (2, 1, (0, 1, 3), (0, 2), (1,), 0), (3, 1, (0, 1, 3), (0, 2), (1,), 0))
    rp = replay(ctx, 'tile', cs=(3, (0, 2, 5), (0, 3), (1,), 0), depth=6)
    ctx.apps(['tile'])
    check_histories(ctx, rp + crowded(ctx, crowd) + [('n%d' % k, grid_n, {}) for k in range(ctx.scale(50, 1000))] + [('s%d' % k, grid_s, {}) for k in range(ctx.scale(40, 800))] +
                    [('fine%d' % k, fine, {}) for k in range(ctx.scale(20, 300))] + [('refused%d' % k, refused, {}) for k in range(2)])
