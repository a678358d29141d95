"""P11: noise moves only the named coordinates, uniform noise within its magnitude, with the specified mean, deviation and independence of
draws (five standard errors over 2500 points); the same seed gives the same bits, different seeds different ones."""
from laws import *

KINDS = [(k, ax) for k in 'ug' for ax in ((1, 2, 3), (1,), (2,), (3,))]


UNITS = [1 / 1024, 1 / 1024, 2.0 ** -30, 2.0 ** -18, 16.0, 2.0 ** 20]


def bounds(sh):
    r = sh.rng
    sh.num = Num(r.choice(UNITS))
    sh.tol = 0.999
    sh.put('in', cloud(r, r.choice([0, 1, 3, 20]), num=sh.num, comp=False, coord=lambda q: q.randrange(-100000, 100000)))
    for k, ax in KINDS:
        m = r.choice([0.5, 1.0, 20.0, 3 / 1024]) * 1024 * sh.num.unit
        run_transform(sh, 'in', Cmds(sh).noise(k, ax, m, 0), via=r.choice(VIAS), seed=r.choice([None, 1, 5, 99999]))


def stats(sh, kind=None, axes=None, unit=1 / 1024):
    r = sh.rng
    sh.num = Num(unit)
    sh.tol = 0.999
    sd = 200
    sh.put('in', Cloud(b'', False, 0, [rec_of(r, 0, lambda q: q.randrange(-1000, 1000), num=sh.num) for _ in range(2500)]))
    m = sd * unit * (math.sqrt(3) if kind == 'u' else 1)
    for j in range(2):
        run_transform(sh, 'in', Cmds(sh).noise(kind, axes, m, 0, stat=sd), via=r.choice(VIAS), seed=r.choice([None, r.randrange(2, 100000)]))


def seeds(sh):
    """same seed, same bits; another seed, other bits"""
    r = sh.rng
    sh.num = None
    recs = [tuple([d2b(r.uniform(-1000, 1000)) for _ in range(3)]) + rec_of(r, 1, lambda q: 0)[3:] for _ in range(7)]
    sh.put('in', Cloud(b'srs', False, 1, recs))
    sh.put('in2', Cloud(b'srs', False, 1, recs))
    for k, ax in r.sample(KINDS, 4):
        names = []
        base = r.randrange(2, 1 << r.choice([4, 16, 30]))
        near = [base ^ (1 << b) for b in r.sample(range(30), 3)]
        for s in dict.fromkeys([2, 3, 77, 123456789, None, base] + [x for x in near if x > 1]):
            c = Cmds(sh)
            name = {'u': 'uniform-noise', 'g': 'gaussian-noise'}[k] + ('' if len(ax) == 3 else '-' + 'xyz'[ax[0] - 1])
            c.a.append(['--%s=%s' % (name, '0.25')])
            c.c.append({'n': 'opaque', 'axes': list(ax)})
            det = '%s %s %s' % (k, ax, s)
            n = 's%s%s%d%s' % (s, k, len(ax), ax[0])
            run_transform(sh, 'in', c, dst=n, via='ff', seed=s, det=det)
            run_transform(sh, r.choice(['in', 'in2']), c, via=r.choice(VIAS), seed=s, det=det, env={'OMP_NUM_THREADS': str(r.choice([1, 3, 8]))})
            names.append(n)
        sh.differ('in', *names)


def refused(sh):
    r = sh.rng
    sh.num = Num(1 / 8)
    sh.put('in', cloud(r, 3, num=sh.num, comp=False))
    for o in ['uniform-noise', 'gaussian-noise', 'uniform-noise-x', 'gaussian-noise-z']:
        run_transform(sh, 'in', Cmds(sh).bad(o, 'abc'), via=r.choice(VIAS))


def run(ctx):
    ctx.start_apps(['transform'])
    shell_model(ctx, 'transform', ['LawTransform'], (2, 1, (0, 1, 3), (0,), (1,), 0), (3, 1, (0, 1, 3), (0,), (1,), 0))
    ctx.apps(['transform'])
    check_histories(ctx, [('refused', refused, {})] + [('bound%d' % k, bounds, {}) for k in range(ctx.scale(30, 500))] +
                    [('seed%d' % k, seeds, {}) for k in range(ctx.scale(12, 200))] +
                    [('stat%d_%d' % (k, j), (lambda sh, a=ka, u=u: stats(sh, *a, u)), {}) for j, ka in enumerate(KINDS) for k, u in enumerate([1 / 1024, 2.0 ** -30, 2.0 ** 20] * ctx.scale(1, 4))])
