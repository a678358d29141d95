"""P09: set, replace, replace-not and copy-field change exactly the named field as specified; invalid fields, coordinates where integers are
required and extra fields the records lack are refused."""
from laws import *


def edits(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    for k in range(2):
        E = r.choice([0, 1, 2, 3, 12, 40])
        sh.put('in', cloud(r, r.choice([1, 2, 8, 25]), E=E, num=sh.num, comp=False))
        for j in range(8):
            c = Cmds(sh)
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                edit(c, r, E)
            run_transform(sh, 'in', c, via=r.choice(VIAS))


def hits(sh):
    """values that really occur, so that replace and replace-not select proper subsets"""
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([1, 3, 11])
    vals = [3, 70000, 65539, 2, 2147483647]
    fields = FIELDS + ['e%d' % j for j in {0, E - 1, E // 2}]
    recs = []
    for n in range(24):
        q = list(rec_of(r, E, lambda q: q.randrange(50), num=sh.num))
        for k in range(3, 9):
            q[k] = r.choice(vals) if k < 5 else r.choice([3, 2, 4464, 65535])
        q[9] = tuple(r.choice(vals + [3 + (1 << 32), 3 + (1 << 16), (1 << 63) + 3]) for _ in range(E))
        recs.append(tuple(q))
    sh.put('in', Cloud(b'', False, E, recs))
    for f in r.sample(fields, min(len(fields), 6)):
        a, b, d = r.sample(vals, 3)
        run_transform(sh, 'in', Cmds(sh).replace(f, a, b), via=r.choice(VIAS))
        run_transform(sh, 'in', Cmds(sh).replnot(f, [a], d), via=r.choice(VIAS))
        run_transform(sh, 'in', Cmds(sh).replnot(f, r.sample(vals, r.choice([2, 3, 4])), d), via=r.choice(VIAS))
        run_transform(sh, 'in', Cmds(sh).copy(f, r.choice(fields)), via=r.choice(VIAS))
        run_transform(sh, 'in', Cmds(sh).set(f, r.choice(U64)), via=r.choice(VIAS))
        run_transform(sh, 'in', Cmds(sh).replace(f, a, b).replace(f, b, d).replnot(f, [d], a), via='ff')


def lists(sh):
    """many exceptions, large ones among them, in any order and more than once"""
    r = sh.rng
    sh.num = Num(1 / 64)
    n = r.choice([9, 17, 65, 260])
    lo = r.choice([0, 200, 65530 - n, 2 ** 31 - 2 - 2 * n])
    pool = [lo + k + r.choice([0, k]) for k in range(n)]
    recs = []
    for v in pool + [lo + 3 * n // 2]:
        q = list(rec_of(r, 2, lambda q: q.randrange(50), num=sh.num))
        for k in range(3, 9):
            q[k] = v if k < 5 else v % 65536
        q[9] = (v, v | r.choice([0, 1 << 32]))
        recs.append(tuple(q))
    sh.put('in', Cloud(b'', False, 2, recs))
    for f in r.sample(FIELDS + ['e0', 'e1'], 3):
        some = r.sample(pool, r.choice([n, n - 1, n // 2 + 1])) + r.sample(pool, r.choice([0, 1, 2]))
        run_transform(sh, 'in', Cmds(sh).replnot(f, some, r.choice([0, 5, some[0], 65535])), via=r.choice(VIAS))
    c = Cmds(sh)
    for _ in range(r.choice([12, 40])):
        a, b = r.sample(pool, 2)
        c = c.replace(r.choice(['c', 'p', 'e1']), a, b)
    run_transform(sh, 'in', c, via=r.choice(VIAS))


FARFIELDS = [255, 256, 257, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 16777216, (1 << 30) + 1, (1 << 31) - 1]     # their low bits name fields that exist


def refused(sh):
    r = sh.rng
    sh.num = Num(1 / 8)
    E = r.choice([0, 1, 2, 3])
    sh.put('in', cloud(r, 3, E=E, num=sh.num, comp=False))
    sh.put('none', cloud(r, 0, num=sh.num, comp=False))
    bad = [lambda c: c.replace('x', 1, 2), lambda c: c.replace('y', 1, 2), lambda c: c.replnot('z', [1], 2), lambda c: c.replnot('x', [1], 2),
           lambda c: c.replnot('y', [1, 5], 2), lambda c: c.replace('z', 1, 2),
           lambda c: c.copy('x', 'c'), lambda c: c.copy('c', 'z'), lambda c: c.copy('y', 'x'), lambda c: c.copy('z', 'i'), lambda c: c.copy('p', 'y'),
           lambda c: c.set('q', 1), lambda c: c.replace('w', 1, 2), lambda c: c.copy('k', 'c'), lambda c: c.copy('c', 'xyz'),
           lambda c: c.set('e%d' % E, 1), lambda c: c.replace('e%d' % (E + 1), 1, 2), lambda c: c.replnot('e%d' % E, [1], 2),
           lambda c: c.copy('e%d' % E, 'c'), lambda c: c.copy('c', 'e%d' % E), lambda c: c.copy('e255', 'c'), lambda c: c.set('e1000', 1),
           lambda c: c.set('e%d' % r.choice(FARFIELDS), 1), lambda c: c.copy('e%d' % r.choice(FARFIELDS), 'c'), lambda c: c.copy('c', 'e%d' % r.choice(FARFIELDS)),
           lambda c: c.replace('e%d' % r.choice(FARFIELDS), 1, 2), lambda c: c.replnot('e%d' % r.choice(FARFIELDS), [1], 2),
           lambda c: c.bad('set', 'c'), lambda c: c.bad('set', 'e,1'), lambda c: c.bad('set', 'c,abc'), lambda c: c.bad('set', 'cc,1'), lambda c: c.bad('set', 'e0x,1'),
           lambda c: c.bad('set', 'e1e,1'), lambda c: c.bad('replace', 'c,1'), lambda c: c.bad('replace', 'c'), lambda c: c.bad('replace', 'c,x,1'),
           lambda c: c.replnot('c', [], 1), lambda c: c.bad('replace-not', 'c'), lambda c: c.bad('replace-not', 'c,q'), lambda c: c.bad('copy-field', 'c'),
           lambda c: c.bad('copy-field', 'c,'), lambda c: c.bad('copy-field', 'e,c'), lambda c: c.bad('copy-field', ',c'), lambda c: c.bad('set', '_,1')]
    for f in r.sample(bad, 16):
        c = Cmds(sh)
        if r.random() < .3:
            c.set('c', 5)
        f(c)
        if r.random() < .3:
            c.set('r', 5)
        run_transform(sh, r.choice(['in', 'in', 'in', 'none']), c, via=r.choice(VIAS))


def run(ctx):
    ctx.start_apps(['transform'])
    shell_model(ctx, 'transform', ['LawTransform'], (1, 1, (0, 1), (0,), (1, 2), 1), (2, 1, (0, 3), (0,), (1, 2, 3), 1))
    rp = replay(ctx, 'transform')
    ctx.apps(['transform'])
    check_histories(ctx, rp + [('edit%d' % k, edits, {}) for k in range(ctx.scale(50, 1000))] +
                    [('lists%d' % k, lists, {}) for k in range(ctx.scale(16, 300))] +
                    [('hits%d' % k, hits, {}) for k in range(ctx.scale(24, 400))] +
                    [('refused%d' % k, refused, {}) for k in range(ctx.scale(16, 100))])
