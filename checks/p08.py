"""P08: transform keeps header, count and order; commands compose in command-line order. Chains of exact commands are predicted by the
specification record by record; chains of arbitrary real-valued commands have to equal the pipeline of the single commands, byte for byte."""
from laws import *


def chains(sh):
    r = sh.rng
    unit = r.choice([1 / 64, 1 / 1024, 1.0])
    sh.num = Num(unit)
    sh.tol = 1e-6
    for k in range(2):
        E = r.choice([0, 0, 1, 2, 4])
        cl = cloud(r, r.choice([0, 1, 2, 5, 20]), E=E, num=sh.num, comp=False, coord=lambda q: 64 * q.randrange(-400, 400))
        sh.put('in', cl)
        for j in range(6):
            c, g = Cmds(sh), Geo()
            for _ in range(r.choice([1, 1, 2, 3, 5, 9])):
                if r.random() < .55:
                    g.step(c, r)
                else:
                    edit(c, r, cl.E)
            run_transform(sh, 'in', c, via=r.choice(VIAS), verbose=r.random() < .15)


REAL = [('add-x', lambda r: r.uniform(-9, 9)), ('add-y', lambda r: 0.1), ('add-z', lambda r: r.uniform(-1e-3, 1e3)),
        ('scale-x', lambda r: r.uniform(-2, 2)), ('scale-y', lambda r: 1 / 3), ('scale-z', lambda r: 0.7),
        ('rotate-x', lambda r: r.uniform(-400, 400)), ('rotate-y', lambda r: r.uniform(-400, 400)), ('rotate-z', lambda r: r.uniform(-400, 400)),
        ('quantize-xyz', lambda r: r.choice([0.1, 0.01, 0.3]))]


def pipeline(sh):
    """one invocation with several commands = pipeline of single commands, for arbitrary real parameters"""
    r = sh.rng
    sh.num = None
    E = r.choice([0, 1, 3])
    recs = [tuple([d2b(r.uniform(-1000, 1000)) for _ in range(3)]) + rec_of(r, E, lambda q: 0)[3:] for _ in range(r.choice([1, 3, 12]))]
    sh.put('in', Cloud(b'srs', False, E, recs))
    for j in range(3):
        cs, tot = [], Cmds(sh)
        nf = None
        for _ in range(r.choice([2, 3, 4, 7])):
            c = Cmds(sh)
            if r.random() < .7:
                n, f = nf = nf if nf and r.random() < .4 else r.choice(REAL)      # often the same command again
                c.a.append(['--%s=%r' % (n, f(r))])
                c.c.append({'n': 'opaque', 'axes': {'a': 0, 's': 0, 'r': 1, 'q': 2}[n[0]] and
                            ([1, 2, 3] if n[0] == 'q' else [k + 1 for k in range(3) if 'xyz'[k] != n[-1]]) or [1 + 'xyz'.index(n[-1])]})
            else:
                edit(c, r, E)
            tot.a += c.a
            tot.c += c.c
            cs.append(c)
        via = r.choice(VIAS)
        run_transform(sh, 'in', tot, dst='whole', via='ff')
        src = 'in'
        for k, c in enumerate(cs):
            run_transform(sh, src, c, dst='s%d' % k, via='ff')
            src = 's%d' % k
        sh.same('whole', src)


def bits(sh):
    """fields not named keep every bit, for any coordinate bit patterns and many extra fields"""
    r = sh.rng
    sh.num = None
    E = r.choice([0, 1, 8, 122, 123, 124, 130, 255])
    pats = [0, 1 << 63, 1, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000001, 0xFFF8123456789ABC, 0x7FEFFFFFFFFFFFFF, 0x3FF0000000000000]
    recs = [tuple(r.choice(pats) if r.random() < .5 else r.getrandbits(62) for _ in range(3)) + rec_of(r, E, lambda q: 0)[3:] for _ in range(4)]
    sh.put('in', Cloud(r.choice(WKTS), False, E, recs))
    for k in range(4):
        c = Cmds(sh)
        for _ in range(r.choice([1, 2, 4])):
            edit(c, r, E)
        run_transform(sh, 'in', c, via=r.choice(VIAS))


def refused(sh):
    r = sh.rng
    sh.num = Num(1 / 8)
    sh.tol = 1e-6
    sh.put('in', cloud(r, 4, E=2, num=sh.num, comp=False))
    sh.put('zip', cloud(r, 4, E=2, num=sh.num, comp=True))
    sh.put('zip0', cloud(r, 0, num=sh.num, comp=True))
    sh.put('junk', b'not a point cloud, but some text that is long enough')
    run_transform(sh, 'in', Cmds(sh))                  # no command
    for src in ['zip', 'zip0', 'junk', 'absent']:
        run_transform(sh, src, Cmds(sh).add(1, 8), via='ff')
    run_transform(sh, 'zip', Cmds(sh).add(1, 8), via='pp')
    # a bad command anywhere in the list
    for pos in range(3):
        c = Cmds(sh)
        for k in range(3):
            if k == pos:
                c.copy('e7', 'c') if r.random() < .5 else c.bad('add-x', 'abc')
            else:
                c.add(1 + k, 8)
        run_transform(sh, 'in', c)


def crowd(sh, n):
    """many records"""
    r = sh.rng
    sh.num = Num(1 / 64)
    src = sh.put('in', crowd_cloud(r, n, sh.num, E=r.choice([0, 1]), comp=False))
    c = Cmds(sh)
    for _ in range(3):
        edit(c, r, 0)
    run_transform(sh, src, c.add(r.randrange(1, 4), 64), via=r.choice(VIAS))
    run_transform(sh, src, Cmds(sh).copy('p', 'c').replnot('r', [1, 2], 3), via=r.choice(VIAS))


def run(ctx):
    ctx.start_apps(['transform'])
    shell_model(ctx, 'transform', ['LawTransform'], (1, 1, (0, 1, 3), (0, 2), (1, 2), 1), (2, 1, (0, 1, 3), (0,), (1, 2), 1))
    rp = replay(ctx, 'transform')
    ctx.apps(['transform'])
    check_histories(ctx, rp + crowded(ctx, crowd) + [('refused%d' % k, refused, {}) for k in range(4)] +
                    [('chain%d' % k, chains, {}) for k in range(ctx.scale(60, 1200))] +
                    [('pipe%d' % k, pipeline, {}) for k in range(ctx.scale(20, 400))] +
                    [('bits%d' % k, bits, {}) for k in range(ctx.scale(20, 200))])
