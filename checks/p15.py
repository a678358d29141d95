"""P15: unique-XYZ filtering keeps exactly one unmodified record per distinct location, the first with seed 0."""
from laws import *


def lattice(sh):
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1 / 1024, 0.0), (1 / 8, 4194304.0), (1.0, 0.0)]))
    for k in range(2):
        span = r.choice([1, 2, 4, 10])
        cl = cloud(r, r.choice([0, 1, 2, 9, 40, 90]), num=sh.num, coord=lambda q: q.randrange(-span, span + 1), dup=.3)
        # both zeros are the same location
        cl.recs = [tuple(1 << 63 if c == 0 and r.random() < .5 else c for c in q[:3]) + q[3:] for q in cl.recs]
        sh.put('in', cl)
        for s in [None, 0, r.choice([1, 5, 99])]:
            for rep in range(2):
                run_filter(sh, 'in', via=r.choice(VIAS), uniq=True, seed=s, det='u%s' % s, verbose=r.random() < .1)
        run_filter(sh, 'in', uniq=True, keep=r.sample(CLASSES, 8), seed=r.choice([None, 0, 6]))
        for s in [None, r.choice([2, 77])]:
            run_filter(sh, 'in', uniq=True, seed=s, coord=(r.randrange(1, 4), bool(r.getrandbits(1)), r.randrange(-span, span + 1)), remove=r.choice([(), (1, 7)]))


def close(sh):
    """locations that differ in the last bits only, in one coordinate, or are permutations of each other"""
    r = sh.rng
    sh.num = None
    base = [d2b(v) for v in (1.0, 2.0, 3.0, 0.1, -0.1, 1e300, 1e-300, 431234.123456, 4194304.015625)]
    base += [b + 1 for b in base] + [b ^ (1 << 40) for b in base[:4]]
    recs = []
    for n in range(r.choice([5, 30, 60])):
        if recs and r.random() < .5:
            q = list(r.choice(recs)[:3])
            m = r.randrange(4)
            if m == 1:
                r.shuffle(q)
            elif m == 2:
                q[r.randrange(3)] += r.choice([1, 2])
        else:
            q = [r.choice(base) for _ in range(3)]
        recs.append(tuple(q) + rec_of(r, 1, lambda q: 0)[3:])
    sh.put('in', Cloud(b'x', bool(r.getrandbits(1)), 1, recs))
    for s in [None, 0, 3]:
        run_filter(sh, 'in', via=r.choice(VIAS), uniq=True, seed=s)


def crowd(sh, n):
    """thousands of voxels, coming again long after they were seen first"""
    r = sh.rng
    sh.num = Num(1 / 64)
    src = sh.put('in', crowd_cloud(r, n, sh.num, step=1))
    for s in (None, r.choice([1, 2, 77])):
        run_filter(sh, src, uniq=True, seed=s, via=r.choice(VIAS))


def run(ctx):
    ctx.start_apps(['filter'])
    shell_model(ctx, 'filter', ['LawFilter'], (2, 1, (0, 1, 3), (0, 2), (1,), 0), (3, 1, (0, 1), (0, 2), (1, 2), 0))
    rp = replay(ctx, 'filter')
    ctx.apps(['filter'])
    check_histories(ctx, rp + [('lat%d' % k, lattice, {}) for k in range(ctx.scale(50, 1000))] + crowded(ctx, crowd, (1030, 23000)) + [('close%d' % k, close, {}) for k in range(ctx.scale(30, 500))])
