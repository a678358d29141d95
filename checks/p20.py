"""P20: recenter, subtract-min and resize-extra compute exactly the specified clouds and leave everything else alone."""
from laws import *

CMDS = ['recenter-xy', 'recenter-xyz', 'subtract-min-xy', 'subtract-min-xyz']


def moves(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.tol = 1e-6
    exact = r.random() < .6
    n = r.choice([1, 2, 3, 8, 40])
    lo, hi = r.choice([(-400, 400), (1000, 3000), (-3000, -1000), (0, 5), (100000000, 200000000), (-200000000, -150000000)])
    if abs(lo) > 10000:
        n = min(n, 4)
    cl = cloud(r, n, num=sh.num, coord=lambda q: q.randrange(lo, hi))
    if exact and n:
        # make the sums divisible by the number of points
        q = list(cl.recs[-1])
        for a in range(3):
            s = sum(sh.num.of_bits(p[a]) for p in cl.recs[:-1])
            q[a] = d2b(sh.num.to(-s % n + n * r.randrange(-5, 5)))
        cl.recs[-1] = tuple(q)
    sh.tol = 1e-6 if exact else 0.999
    sh.put('in', cl)
    for c in CMDS:
        run_tool(sh, 'in', c, via=r.choice(VIAS), verbose=r.random() < .1, dst='o' + c)
        if exact and 'o' + c in sh.files:
            run_tool(sh, 'o' + c, r.choice(CMDS), dst='p')


def far(sh):
    """subtract-min of coordinates far from the origin"""
    r = sh.rng
    sh.num = Num(1 / 64)
    o = [r.randrange(-1 << 24, 1 << 24) for _ in range(3)]
    cl = cloud(r, r.choice([1, 5, 20]), num=sh.num, coord=lambda q: q.randrange(0, 4000))
    cl.recs = [tuple(d2b(sh.num.to(sh.num.of_bits(q[a]) + o[a])) for a in range(3)) + q[3:] for q in cl.recs]
    sh.put('in', cl)
    for c in CMDS[2:]:
        run_tool(sh, 'in', c, via=r.choice(VIAS))


def extras(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 1, 2, 7, 100, 255])
    sh.put('in', cloud(r, r.choice([1, 3]), E=E, num=sh.num))
    sh.put('none', cloud(r, 0, num=sh.num))
    for m in r.sample([0, 1, 2, 3, 6, 7, 8, 99, 122, 123, 124, 200, 254, 255], 7) + [-1, 256, 300]:
        run_tool(sh, 'in', 'resize-extra', m=m, via=r.choice(VIAS), dst='o')
        if m in (0, 3, 255):
            run_tool(sh, 'o', 'resize-extra', m=r.choice([0, 2, 5]), dst='p')
    run_tool(sh, 'none', 'resize-extra', m=3)
    for c in CMDS:
        run_tool(sh, 'none', c)
        run_tool(sh, 'zz', c, via='ff')


def bits(sh):
    """fields that a command does not name keep every bit (including Z for the XY variants)"""
    r = sh.rng
    sh.num = None
    E = r.choice([0, 3])
    pats = [0, 1 << 63, 1, 0x7FEFFFFFFFFFFFFF, d2b(0.1), d2b(-1e9), 0x7FF0000000000000, 0x7FF8000000000001]
    recs = [tuple(r.choice(pats) for _ in range(3)) + rec_of(r, E, lambda q: 0)[3:] for _ in range(5)]
    sh.put('in', Cloud(b'w', bool(r.getrandbits(1)), E, recs))
    run_tool(sh, 'in', 'resize-extra', m=r.choice([0, 1, 5]), via=r.choice(VIAS))


def crowd(sh, n):
    """many records"""
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.tol = 1e-6
    src = sh.put('in', crowd_cloud(r, n, sh.num, E=1))
    run_tool(sh, src, r.choice(CMDS[2:]), via=r.choice(VIAS))
    run_tool(sh, src, 'resize-extra', m=r.choice([0, 2]), via=r.choice(VIAS))
    sh.tol = 0.999
    run_tool(sh, src, r.choice(CMDS[:2]), via=r.choice(VIAS))


def run(ctx):
    ctx.start_apps(['tool'])
    shell_model(ctx, 'tool', ['LawTool'], (2, 1, (0, 1, 3), (0, 2), (1,), 1), (3, 1, (0, 3), (0, 2), (1,), 1))
    rp = replay(ctx, 'tool')
    ctx.apps(['tool'])
    check_histories(ctx, rp + crowded(ctx, crowd) + [('move%d' % k, moves, {}) for k in range(ctx.scale(60, 1200))] + [('far%d' % k, far, {}) for k in range(ctx.scale(20, 200))] +
                    [('extra%d' % k, extras, {}) for k in range(ctx.scale(16, 200))] + [('bits%d' % k, bits, {}) for k in range(ctx.scale(10, 100))])
