"""P13: class and coordinate filters keep exactly the matching records."""
from laws import *


def history(sh):
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1 / 1024, 0.0), (1 / 8, 4194304.0), (1.0, 0.0), (1 / 64, -65536.0)]))
    for k in range(2):
        sh.put('in', cloud(r, r.choice([0, 1, 2, 7, 30, 60]), num=sh.num, cls=r.choice([CLASSES, [0, 1, 2], [255, 256, 511]]),
                           coord=lambda q: q.randrange(-40, 40)))
        for j in range(5):
            keep = r.sample(CLASSES + [9, 77], r.choice([0, 0, 1, 2, 5]))
            rem = r.sample(CLASSES + [9, 77], r.choice([0, 0, 1, 2, 5]))
            co = (r.randrange(1, 4), bool(r.getrandbits(1)), r.randrange(-42, 42)) if r.random() < .5 else None
            run_filter(sh, 'in', via=r.choice(VIAS), keep=keep, remove=rem, coord=co, seed=r.choice([None, None, 0, 5]), verbose=r.random() < .2)
        if sh.files.get('out'):
            run_filter(sh, 'out', dst='out2', keep=[1, 2], coord=(1, True, 0))


def thresholds(sh):
    """only the coordinate condition, at and next to coordinates of the cloud, for coordinates that need all of a double"""
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 8, 4194304.0), (1 / 4096, 4649776.0), (0.01, 500000.0), (2.0 ** -30, 1.0), (1e-7, 0.0), (1e-300, 0.0), (2.0 ** 20, 0.0),
                            (1.0, 2.0 ** 52), (1.0, -2.0 ** 31), (256.0, 2.0 ** 60), (1e6, 0.0)]))
    lim = r.choice([4, 20, 200])
    src = sh.put('in', cloud(r, r.choice([12, 40]), num=sh.num, coord=lambda q: q.randrange(-lim, lim + 1)))
    for j in range(8):
        run_filter(sh, src, via=r.choice(VIAS), coord=(r.randrange(1, 4), bool(r.getrandbits(1)), r.randrange(-lim, lim + 1)))


def classes(sh):
    """long lists of classes"""
    r = sh.rng
    sh.num = Num(1 / 8)
    lo, n = r.choice([0, 100, 240, 65530, 2 ** 31 - 300]), r.choice([10, 17, 33, 65, 257])
    pool = [lo + r.choice([0, 1, 5]) + k for k in range(n)]
    src = sh.put('in', cloud(r, 2 * n, num=sh.num, cls=pool + [3]))
    for j in range(4):
        some = [r.choice(pool) for _ in range(n)] if r.random() < .5 else r.sample(pool, r.choice([n, n - 1, n // 2 + 1]))
        run_filter(sh, src, via=r.choice(VIAS), keep=some if j % 2 else (), remove=() if j % 2 else some)


ODD = [0, 1 << 63, 1, (1 << 63) + 1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x7FF0000000000000, 0xFFF0000000000000,
       0x7FF8000000000000, 0xFFF8000000000000, 0x7FF0000000000001, 0x7FFFFFFFFFFFFFFF, 0x3FF0000000000000, 0x3FF0000000000001, 0xBFF0000000000000, 0xBFF0000000000001]


def normal(b):
    """a text can name it as a threshold: a finite number, not too small to be normal"""
    return 0 < (b >> 52) & 2047 < 2047 or b << 1 & (1 << 64) - 1 == 0


def doubles(sh):
    """every kind of double as a coordinate: zeros, subnormals, infinities, and what is not a number, which no comparison removes"""
    r = sh.rng
    sh.num = None

    def bits():
        b = r.choice(ODD) if r.random() < .6 else r.getrandbits(64) if r.random() < .5 else d2b(r.uniform(-1e3, 1e3))
        return b ^ (1 << r.choice([0, 0, 1, 63])) if r.random() < .2 else b
    E = r.choice([0, 1])
    recs = [tuple(bits() for _ in range(3)) + rec_of(r, E, lambda q: 0, cls=[1, 2, 7])[3:] for _ in range(r.choice([1, 9, 25]))]
    src = sh.put('in', Cloud(r.choice(WKTS), bool(r.getrandbits(1)), E, recs))
    here = [b for q in recs for b in q[:3] if normal(b)] + [0, 1 << 63, d2b(1.0), d2b(-1.0), d2b(1e308)]
    for j in range(6):
        run_filter(sh, src, via=r.choice(VIAS), keep=r.choice([(), (), (1, 2)]), remove=r.choice([(), (), (7,)]), coord=(r.randrange(1, 4), bool(r.getrandbits(1)), r.choice(here)))


def refused(sh):
    """malformed coordinate conditions, invalid inputs"""
    r = sh.rng
    sh.num = Num(1 / 8)
    sh.put('in', cloud(r, 5, num=sh.num))
    sh.put('out', b'precious')
    for c in ['w > 1', 'x = 1', 'x >', 'x > abc', 'x>1', 'x > 1 2', '', 'x  > 1', 'xy > 1']:
        if c:
            sh.run('filter', ['-c', c, 'in', 'out'], {'src': 'in', 'dst': 'out', 'keep': [], 'remove': [], 'uniq': False, 'res': 0, 'coord': {'ax': 4},
                                                    'rand': False, 'cmd': 'bad'})


def crowd(sh, n):
    r = sh.rng
    sh.num = Num(1 / 64)
    src = sh.put('in', crowd_cloud(r, n, sh.num, E=r.choice([0, 1])))
    run_filter(sh, src, via=r.choice(VIAS), keep=(1, 7), coord=(1, True, 100))
    run_filter(sh, src, via=r.choice(VIAS), remove=(2,), coord=(2, False, 3))


def run(ctx):
    ctx.start_apps(['filter'])
    shell_model(ctx, 'filter', ['LawFilter'], (2, 1, (0, 1, 3), (0,), (1, 2), 0), (3, 1, (0, 1, 3), (0, 1), (1, 2), 0))
    rp = replay(ctx, 'filter')
    ctx.apps(['filter'])
    check_histories(ctx, rp + crowded(ctx, crowd, sizes=(1030, 4300, 66000)) + [('refused', refused, {})] + [('c%d' % k, classes, {}) for k in range(ctx.scale(25, 300))] + [('t%d' % k, thresholds, {}) for k in range(ctx.scale(40, 600))] + [('d%d' % k, doubles, {}) for k in range(ctx.scale(40, 600))] + [('h%d' % k, history, {}) for k in range(ctx.scale(60, 1000))])
