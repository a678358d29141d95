"""P16: merge outputs all records of all inputs in order with the specified point IDs, first SRS, compressed exactly if all inputs are."""
from laws import *


def merges(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 0, 1, 3])
    allc = r.random() < .4
    w = r.choice(WKTS)
    k = r.choice([2, 3, 5])
    names = []
    for n in range(k):
        names.append(sh.put('f%d.spoc' % n, cloud(r, r.choice([0, 1, 2, 12]), E=E if r.random() < .95 else E + 1, num=sh.num,
                                                  comp=True if allc else None, wkt=w if r.random() < .5 else None)))
    for j in range(5):
        srcs = [r.choice(names) for _ in range(r.choice([2, 2, 3, 4]))] if j else names
        run_merge(sh, srcs, pid=r.choice([None, None, 0, 1, 7, 255, 65536, 2147483647]), quiet=bool(r.getrandbits(1)), verbose=r.random() < .2)


def apart(sh):
    """clouds that are near or far from each other: warnings"""
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1.0, 4000000.0), (8.0, 0.0)]))
    names = []
    for n in range(5):
        at = [r.choice([0, 0, 40, 50, 100, 900, 5000, -5000]) for _ in range(2)]
        w = r.choice([0, 1, 4, 10])
        recs = cloud(r, r.choice([2, 2, 3, 6]), E=0, num=Num(1.0), coord=lambda q: q.choice([0, w])).recs
        recs = [tuple(d2b(sh.num.to(b2d(c) + a)) for c, a in zip(q[:3], at + [0])) + q[3:] for q in recs]
        names.append(sh.put('f%d.spoc' % n, Cloud(b'one' if r.random() < .8 else b'two', bool(r.getrandbits(1)), 0, recs)))
    for j in range(12):
        run_merge(sh, [r.choice(names) for _ in range(r.choice([2, 2, 2, 3]))], quiet=r.random() < .25, verbose=r.random() < .2, pid=r.choice([None, 3]))


def verge(sh):
    """merged areas just below, at and above a hundred times the sum"""
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1.0, -3000.0), (.5, 0.0)]))
    for j in range(4):
        k, w = r.choice([2, 3, 4]), r.choice([4, 10, 16])
        x, y = (k * 10 - 1) * w + r.choice([-1, 0, 1]), 9 * w
        if r.random() < .5:
            x, y = y, x
        names = []
        for n in range(k):
            corner = [r.choice([0, x]), r.choice([0, y])]
            if n < 2:
                corner = [[0, 0], [x, y]][n]
            box = [(corner[0] + a, corner[1] + b) for a, b in r.choice([[(0, 0), (w, w)], [(w, 0), (0, w)], [(0, 0), (0, w), (w, 0)]])]
            recs = [tuple(d2b(sh.num.to(v)) for v in (*p, r.randrange(9))) + rec_of(r, 0, lambda q: 0)[3:] for p in box]
            names.append(sh.put('v%d.spoc' % n, Cloud(b'one', bool(r.getrandbits(1)), 0, recs)))
        r.shuffle(names)
        run_merge(sh, names)
        run_merge(sh, names, quiet=True)


def many(sh):
    """hundreds of inputs: point IDs beyond one byte"""
    r = sh.rng
    sh.num = Num(1 / 64)
    names = [sh.put('g%d' % n, cloud(r, 1, E=0, num=sh.num, comp=False)) for n in range(3)]
    run_merge(sh, [names[r.randrange(3)] for _ in range(300)], quiet=True)


def conflicts(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    a = sh.put('a', cloud(r, 3, E=1, num=sh.num))
    b = sh.put('b', cloud(r, 3, E=2, num=sh.num))
    c = sh.put('c', cloud(r, 3, E=1, num=sh.num))
    e = sh.put('e', cloud(r, 0, num=sh.num))
    sh.put('j', b'SPOC')
    for q in (False, True):
        for srcs in [[a, b], [b, a], [a, c, b], [a, b, c], [a, e, b], [e, a, c], [a, e], [e, e], [e, b, e], [a], [a, 'zz'], ['zz', a], [a, 'j'], [a, c, 'j'], [b, b, a]]:
            run_merge(sh, srcs, quiet=q, pid=r.choice([None, 4]))


def crowd(sh, n):
    """many records"""
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('a', crowd_cloud(r, n, sh.num))
    sh.put('b', crowd_cloud(r, n // 2 + 7, sh.num, comp=r.random() < .5))
    run_merge(sh, r.choice([['a', 'b'], ['b', 'a'], ['b', 'a', 'b']]), pid=r.choice([None, None, 7]))


def run(ctx):
    ctx.start_apps(['merge', 'diff'])
    shell_model(ctx, 'merge', ['LawMerge'], (2, 1, (0, 1), (0,), (1, 2), 1), (3, 1, (0, 1), (0,), (1, 2), 1))
    rp = replay(ctx, 'merge')
    ctx.apps(['merge', 'diff'])
    check_histories(ctx, rp + crowded(ctx, crowd, (1030, 45000)) + [('merge%d' % k, merges, {}) for k in range(ctx.scale(60, 1000))] + [('apart%d' % k, apart, {}) for k in range(ctx.scale(30, 400))] +
                    [('verge%d' % k, verge, {}) for k in range(ctx.scale(20, 300))] + [('many%d' % k, many, {}) for k in range(2)] +
                    [('conf%d' % k, conflicts, {}) for k in range(ctx.scale(6, 60))])
