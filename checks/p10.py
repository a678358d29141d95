"""P10: offset, scale, rotate and quantize compute the specified geometry, in the application and in the in-memory library; arbitrary
real parameters have to give identical results in both and leave the other axes alone."""
from laws import *

OPS = ['add', 'scale', 'rot', 'rotp', 'rotp', 'quant']


def exact(sh):
    r = sh.rng
    sh.num = Num(r.choice([1 / 64, 1 / 1024, 1.0, 2.0 ** 20, 2.0 ** -30]))
    sh.tol = 1e-6
    G = r.choice([64, 5 * 13 * 16, 5 * 5 * 17, 29 * 25, 53 * 8, 5 * 5 * 5])
    for k in range(2):
        sh.put('in', cloud(r, r.choice([1, 2, 6, 20]), num=sh.num, comp=False, coord=lambda q: G * q.randrange(-400, 400)))
        for j in range(6):
            c, g = Cmds(sh), Geo(G, 400 * G)
            for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
                while len(c.c) < 1 or r.random() < .5:
                    g.step(c, r, OPS)
                    if len(c.c) > 6:
                        break
            if r.random() < .5:
                run_transform(sh, 'in', c, via=r.choice(VIAS))
            else:
                run_affine(sh, 'in', c)


def far(sh):
    """quantization of coordinates of large magnitude, on both sides of zero"""
    r = sh.rng
    e = r.choice([20, 31, 32, 33, 40, 44])
    org = r.choice([-1, 1]) * 2.0 ** e
    sh.num = Num(1 / 64, org)
    sh.put('in', cloud(r, 12, num=sh.num, comp=False, coord=lambda q: q.randrange(-500, 500)))
    for p in [2, 4, 8, 32, 64, 256]:
        s = 1 if org > 0 else -1
        c = Cmds(sh, (s, s, s)).quant(p)
        run_transform(sh, 'in', c, dst='a')
        run_affine(sh, 'in', c, dst='b')
        sh.same('a', 'b')
    v = r.randrange(-1000, 1000)
    run_transform(sh, 'in', Cmds(sh).add(r.randrange(1, 4), v))
    run_affine(sh, 'in', Cmds(sh).add(r.randrange(1, 4), v))


def real(sh):
    """application = library for arbitrary real parameters and coordinates"""
    r = sh.rng
    mag = r.choice([1.0, 1024.0, 2.0 ** 23, 2.0 ** -17])
    sh.num = Num(mag * 2.0 ** -24)
    sh.tol = 0.999
    E = r.choice([0, 2])
    recs = [tuple([d2b(r.uniform(-mag, mag)) for _ in range(3)]) + rec_of(r, E, lambda q: 0)[3:] for _ in range(r.choice([1, 5, 40]))]
    sh.put('in', Cloud(b'srs', False, E, recs))
    for j in range(5):
        c = Cmds(sh)
        n, v = r.choice([('add-', r.uniform(-mag, mag)), ('scale-', r.uniform(-3, 3)), ('rotate-', r.uniform(-720, 720)), ('rotate-', r.choice([30, 45, 60, 0.1]))])
        ax = r.randrange(3)
        c.a.append(['--%s%s=%r' % (n, 'xyz'[ax], v)])
        c.c.append({'n': 'opaque', 'axes': [k + 1 for k in range(3) if (k == ax) != (n == 'rotate-')]})
        run_transform(sh, 'in', c, dst='a', via='ff')
        run_affine(sh, 'in', c, dst='b')
        sh.near('a', 'b')


def composed(sh):
    """commands on one axis one after another are the one command that composes them, however close or far apart their parameters are"""
    r = sh.rng
    mag = r.choice([1.0, 1024.0, 2.0 ** -17])
    sh.num = Num(mag * 2.0 ** -24)
    sh.tol = 0.999
    recs = [tuple([d2b(r.uniform(-mag, mag)) for _ in range(3)]) + rec_of(r, 0, lambda q: 0)[3:] for _ in range(r.choice([1, 5, 12]))]
    sh.put('in', Cloud(b'srs', False, 0, recs))
    for j in range(5):
        name, ax = r.choice(['add', 'scale', 'rotate', 'rotate', 'rotate']), r.randrange(3)
        eps = r.choice([0, 1e-6, 1e-5, 1e-4, 5e-4, .002, .03, 1])
        if name == 'add':
            eps *= mag
        lim = {'add': mag, 'scale': 1.4, 'rotate': 360}[name]
        a = r.choice([r.uniform(-lim, lim), eps, 30 if name == 'rotate' else lim])
        v = [a, r.choice([a + eps, a - eps, -a, eps, -eps, r.uniform(-lim, lim)])]
        if r.random() < .5:
            v.append(r.choice(v) * r.choice([1, 1, 1, -1, 1.00001]))
        one = math.prod(v) if name == 'scale' else sum(v)
        for dst, vs in (('a', v), ('b', [one])):
            c = Cmds(sh)
            for x in vs:
                c.a.append(['--%s-%s=%r' % (name, 'xyz'[ax], x)])
                c.c.append({'n': 'opaque', 'axes': [k + 1 for k in range(3) if (k == ax) != (name == 'rotate')]})
            if r.random() < .6:
                run_transform(sh, 'in', c, dst=dst)
            else:
                run_affine(sh, 'in', c, dst=dst)
        sh.near('a', 'b')


def run(ctx):
    ctx.start_apps(['transform'])
    ctx.start_harness('lib')
    shell_model(ctx, 'transform', ['LawTransform', 'LawGeometry'], (1, 1, (0, 1, 3), (0, 2), (1,), 0), (2, 1, (0, 1, 3), (0, 2), (1,), 0))
    ctx.apps(['transform'])
    ctx.harness('lib')
    check_histories(ctx, [('exact%d' % k, exact, {}) for k in range(ctx.scale(80, 1500))] +
                    [('far%d' % k, far, {}) for k in range(ctx.scale(12, 60))] +
                    [('comp%d' % k, composed, {}) for k in range(ctx.scale(40, 500))] +
                    [('real%d' % k, real, {}) for k in range(ctx.scale(30, 500))])
