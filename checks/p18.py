"""P18: no file that existed before a tiling run changes without --force, with it exactly the tiles of the run are replaced; a clash is a failure."""
from laws import *


def clash(sh):
    """runs into a store that already holds some of the tiles, other files and tiles of other runs"""
    r = sh.rng
    sh.num = Num(1 / 8)
    src = r.choice(['in.spoc', 'in.zpoc'])
    D = 101
    n = r.choice([2, 5, 20])
    def mk(k):
        xs = [0, D] + [r.randrange(D + 1) for _ in range(k)]
        return Cloud(b'w', bool(r.getrandbits(1)), 0, [(d2b(sh.num.to(x)), d2b(sh.num.to(r.randrange(D)))) + rec_of(r, 0, lambda q: 0)[2:] for x in xs])
    sh.put(src, mk(n))
    ext = src[2:]
    t = r.choice([2, 3, 4])
    names = ['t%03d%s' % (k, ext) for k in range(t * t)]
    for f in r.sample(names + ['t%d%s' % (0, ext), 't0001' + ext, 'u000' + ext, 't000.other', 'in000' + ext], r.choice([0, 1, 2, 3])):
        sh.put(f, r.choice([b'', b'precious', encode(mk(3))]))
    for j in range(4):
        force = r.random() < .4
        run_tile(sh, src, via=r.choice('ffp') if ext == '.spoc' and not sh.comp_of(src) or ext == '.zpoc' and sh.comp_of(src) else 'f',
                 mode='n', n=t, prefix='t', force=force, digits=r.choice([None, None, 3, 1]))
        if r.random() < .4:
            f = r.choice(sorted(set(sh.files) - {src}) or [src])
            if f != src:
                sh.rm(f)
        if r.random() < .4:
            sh.put(src, mk(n))


def repeat(sh):
    """second runs with and without force, default prefix"""
    r = sh.rng
    sh.num = Num(1 / 8)
    sh.put('c.spoc', cloud(r, 15, num=sh.num, coord=lambda q: q.randrange(0, 60)))
    kw = dict(mode='s', sx=16, sy=r.choice([0, 16]))
    run_tile(sh, 'c.spoc', **kw)
    run_tile(sh, 'c.spoc', **kw)
    run_tile(sh, 'c.spoc', force=True, **kw)
    ts = sorted(set(sh.files) - {'c.spoc'})
    sh.put(ts[-1], b'last')                 # only the last tile clashes
    for f in ts[:-1]:
        sh.rm(f)
    run_tile(sh, 'c.spoc', **kw)
    run_tile(sh, 'c.spoc', force=True, **kw)


def run(ctx):
    ctx.start_apps(['tile'])
    shell_model(ctx, 'tile', ['LawTile', 'TightTile', 'NoClobber'], (2, 2, (0, 3), (0,), (1,), 0), (2, 2, (0, 1, 3), (0,), (1,), 0))
    rp = replay(ctx, 'tile', quick=60, cs=(3, (0, 2, 5), (0,), (1,), 0), depth=8)
    ctx.apps(['tile'])
    check_histories(ctx, rp + [('clash%d' % k, clash, {}) for k in range(ctx.scale(80, 1500))] + [('rep%d' % k, repeat, {}) for k in range(ctx.scale(10, 200))])
