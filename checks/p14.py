"""P14: subsampling keeps exactly one unmodified record per occupied cube of the grid anchored at the minimum corner, the first with seed 0."""
from laws import *


def sub(sh):
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1 / 1024, 0.0), (1 / 8, 4194304.0), (1.0, 0.0), (1 / 64, -65536.0), (1.0, -1000000.0)]))
    for k in range(2):
        span = r.choice([3, 10, 40, 3000])
        sh.put('in', cloud(r, r.choice([1, 2, 7, 30, 70]), num=sh.num, coord=lambda q: q.randrange(-span, span), dup=.2))
        for j in range(4):
            run_filter(sh, 'in', via=r.choice(VIAS), res=r.choice([1, 2, 3, 5, 8, 16, 100, 1000]), seed=r.choice([None, 0]),
                       keep=r.choice([(), (), (0, 1, 2, 3, 200)]), coord=r.choice([None, None, (1, True, 0), (3, False, 1)]), verbose=r.random() < .1)
        for j in range(3):
            s = r.choice([1, 2, 77, 4294967296, 2 ** 31 + 1])
            res = r.choice([1, 2, 4, 10, 100, 1000])
            for rep in range(2):
                run_filter(sh, 'in', via=r.choice(VIAS), res=res, uniq=False, seed=s, det='%d %d' % (s, res))
            run_filter(sh, 'in', via=r.choice(VIAS), res=res, uniq=r.random() < .3, seed=s, keep=r.choice([(), (), (0, 1, 2, 3, 200)]), remove=r.choice([(), (1, 7)]),
                       coord=r.choice([None, (1, True, 0), (3, False, 1), (2, True, -1)]))


def edges(sh):
    """points exactly on cube faces, single points, empty clouds, one long line"""
    r = sh.rng
    sh.num = Num(1 / 16)
    R = r.choice([1, 4, 5, 16, 3001, (1 << 24) + 1, (1 << 25) + 1])       # some need a double
    sh.put('e', cloud(r, 0, num=sh.num))
    run_filter(sh, 'e', res=R)
    sh.put('g', cloud(r, 40, num=sh.num, coord=lambda q: R * q.randrange(-3, 4) + q.choice([0, 0, 0, 1, R - 1])))
    sh.put('l', Cloud(b'', True, 0, [rec_of(r, 0, lambda q: 0, num=sh.num)[:2] + (d2b(float(k)),) + rec_of(r, 0, lambda q: 0)[3:] for k in range(300)]))
    for f in ['g', 'l']:
        for s in [None, 9]:
            run_filter(sh, f, res=R, seed=s, via=r.choice(VIAS))
    run_filter(sh, 'g', res=R * 2, uniq=True, seed=r.choice([None, 0]))
    run_filter(sh, 'g', dst='h', res=R)
    run_filter(sh, 'h', res=R)


FAR = [0, 1, 2, 3, 255, 256, 65535, 65536, 65537, 131072, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 21) + 1, 1 << 24, 1 << 29]


def far(sh):
    """voxels far apart along several axes, whose indexes have the same low bits or the same sums"""
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1.0, 0.0), (1.0, -65536.0)]))
    res = r.choice([1, 1, 1, 2])
    few = r.sample(FAR, r.choice([3, 5]) if r.random() < .6 else 12)
    if r.random() < .5:
        few += [0, 1, r.choice([65536, 1 << 20, 1 << 21])]
    sh.put('in', cloud(r, r.choice([40, 80]), num=sh.num, coord=lambda q: min(1073741000, res * q.choice(few) + q.randrange(res))))
    for s in (None, 0, 5):
        run_filter(sh, 'in', res=res, seed=s, via=r.choice(VIAS))


def crowd(sh, n):
    """thousands of voxels, coming again long after they were seen first"""
    r = sh.rng
    sh.num = Num(1 / 64)
    src = sh.put('in', crowd_cloud(r, n, sh.num, step=8))
    for s in (None, r.choice([1, 2, 77])):
        run_filter(sh, src, res=8, seed=s, via=r.choice(VIAS))


def run(ctx):
    ctx.start_apps(['filter'])
    shell_model(ctx, 'filter', ['LawFilter'], (2, 1, (0, 1, 3), (0, 2), (1,), 0), (3, 1, (0, 1, 2, 5), (0, 2), (1,), 0))
    rp = replay(ctx, 'filter')
    ctx.apps(['filter'])
    check_histories(ctx, rp + [('sub%d' % k, sub, {}) for k in range(ctx.scale(50, 1000))] + crowded(ctx, crowd, (1030, 23000)) + [('far%d' % k, far, {}) for k in range(ctx.scale(24, 300))] + [('edge%d' % k, edges, {}) for k in range(ctx.scale(16, 200))])
