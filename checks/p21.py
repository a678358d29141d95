"""P21: upsampling copies each low-resolution class to exactly the records in its voxel on the high-resolution cloud's grid."""
from laws import *


def ups(sh):
    r = sh.rng
    sh.num = Num(*r.choice([(1 / 64, 0.0), (1 / 8, 4194304.0), (1.0, 0.0), (1 / 64, -65536.0)]))
    span = r.choice([4, 20, 100])
    res = r.choice([1, 2, 5, 16, 64])
    E = r.choice([0, 2])
    c = lambda q: q.randrange(-span, span)
    sh.put('high', cloud(r, r.choice([1, 5, 30, 80]), E=E, num=sh.num, coord=c))
    # independent low clouds: partly outside of the high cloud, on both sides
    for k in range(3):
        sh.put('low', cloud(r, r.choice([0, 1, 6, 40]), num=sh.num, coord=lambda q: q.randrange(-span - 2 * res, span + 2 * res)))
        run_tool(sh, 'low', 'upsample', high='high', res=res, via=r.choice(VIAS), verbose=r.random() < .2)
    # the documented use: classify a subsampled cloud, copy the classes back
    ctx = sh.ctx
    for s in [None, 7]:
        run_filter(sh, 'high', dst='sub', res=res, seed=s)
        if sh.files.get('sub'):
            run_transform(sh, 'sub', Cmds(sh).replnot('c', [1], 9), dst='cls') if not sh.comp_of('sub') else sh.put('cls', sh.files['sub'])
            run_tool(sh, 'cls', 'upsample', high='high', res=res, via=r.choice(VIAS))


def edges(sh):
    r = sh.rng
    sh.num = Num(1 / 8)
    R = 8
    g = lambda q: R * q.randrange(-2, 3) + q.choice([0, 0, -1, 1, R - 1])
    sh.put('high', cloud(r, 20, num=sh.num, coord=g))
    sh.put('low', cloud(r, 20, num=sh.num, coord=g))
    run_tool(sh, 'low', 'upsample', high='high', res=R)
    run_tool(sh, 'low', 'upsample', high='high', res=R * 100)
    sh.put('none', cloud(r, 0, num=sh.num))
    run_tool(sh, 'none', 'upsample', high='high', res=R)
    run_tool(sh, 'low', 'upsample', high='none', res=R)
    for v in [0, -1, None]:
        run_tool(sh, 'low', 'upsample', high='high', res=v)
    run_tool(sh, 'low', 'upsample', high='zz', res=R)
    run_tool(sh, 'zz', 'upsample', high='high', res=R)
    sh.put('junk', b'SPOC')
    run_tool(sh, 'low', 'upsample', high='junk', res=R)
    run_tool(sh, 'junk', 'upsample', high='low', res=R)


def crowd(sh, n):
    """many records"""
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('high', crowd_cloud(r, n, sh.num, step=4))
    sh.put('low', cloud(r, 300, num=sh.num, coord=lambda q: q.randrange(500)))
    run_tool(sh, 'low', 'upsample', high='high', res=8, via=r.choice(VIAS))
    sh.put('low', crowd_cloud(r, 1200, sh.num, step=4))
    sh.put('high', cloud(r, 300, num=sh.num, coord=lambda q: q.randrange(400)))
    run_tool(sh, 'low', 'upsample', high='high', res=4, via=r.choice(VIAS))


def run(ctx):
    ctx.start_apps(['tool', 'filter', 'transform'])
    shell_model(ctx, 'filter', ['LawFilter', 'LawUpsample'], (2, 1, (0, 1, 3), (0,), (1, 2), 0), (3, 1, (0, 1, 3), (0, 2), (1,), 0))
    rp = replay(ctx, 'tool')
    ctx.apps(['tool', 'filter', 'transform'])
    check_histories(ctx, rp + crowded(ctx, crowd, (1030, 4300)) + [('ups%d' % k, ups, {}) for k in range(ctx.scale(60, 1200))] + [('edge%d' % k, edges, {}) for k in range(ctx.scale(16, 200))])
