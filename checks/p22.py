"""P22: diff succeeds exactly when the compared parts are equal (inverted by --reverse), symmetrically, for every single-field mutation."""
from laws import *


def mutate(r, cl, num):
    """a copy with one aspect changed"""
    w, c, E, recs = cl.wkt, cl.comp, cl.E, list(cl.recs)
    kind = r.choice(['same', 'wkt', 'comp', 'len', 'swap', 'addextra', 'dropextra'] + ['field'] * 8)
    if kind == 'wkt':
        w = w + b'x' if r.random() < .5 else w[:-1]
    elif kind == 'comp':
        c = not c
    elif kind == 'len' and recs:
        recs = recs[:-1] if r.random() < .5 else recs + [recs[r.randrange(len(recs))]]
    elif kind == 'swap' and len(recs) > 1:
        i, j = r.sample(range(len(recs)), 2)
        recs[i], recs[j] = recs[j], recs[i]
    elif kind == 'addextra' and recs:
        v = r.choice([0, 5])
        recs = [q[:9] + (q[9] + (v,),) for q in recs]
        E += 1
    elif kind == 'dropextra' and recs and E:
        recs = [q[:9] + (q[9][:-1],) for q in recs]
        E -= 1
    elif kind == 'field' and recs:
        n = r.choice([0, len(recs) - 1, r.randrange(len(recs))])
        q = list(recs[n])
        k = r.randrange(9 + bool(E))
        if k < 3:
            q[k] = d2b(num.to(num.of_bits(q[k]) + r.choice([1, -1, 1000])))
        elif k < 9:
            m = 32 if k < 5 else 16
            q[k] ^= 1 << r.randrange(m)
        else:
            e = list(q[9])
            e[r.randrange(E)] ^= 1 << r.randrange(64)
            q[9] = tuple(e)
        recs[n] = tuple(q)
    return Cloud(w, c, E if recs else 0, recs)


def diffs(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 1, 2, 10, 10, 17, 70, 254])
    a = cloud(r, r.choice([0, 1, 1, 2, 6]), E=E, num=sh.num)
    sh.put('a', a)
    sh.put('same', Cloud(a.wkt, a.comp, a.E, a.recs))
    for j in range(5):
        b = mutate(r, a, sh.num)
        if r.random() < .2:
            b = mutate(r, b, sh.num)
        sh.put('b', b)
        for k in range(4):
            mode = r.choice(['all', 'all', 'header', 'data', 'fields', 'fields', 'fields', 'bad'])
            fields = ''.join(r.sample('xyzcpirgb0123456789', r.choice([1, 1, 2, 4]))) if r.random() < .7 else ''.join(r.sample('xyzcpirgb', 9))
            rev = r.random() < .3
            x, y = r.choice([('a', 'b'), ('b', 'a'), ('a', 'same')])
            run_diff(sh, x, y, mode, fields, rev, verbose=r.random() < .15)
    for f in 'xyzcpirgb0':
        run_diff(sh, 'a', 'b', 'fields', f)


def others(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('a', cloud(r, 3, num=sh.num, E=1))
    sh.put('n1', Cloud(b'w', False, 0, []))
    sh.put('n2', Cloud(b'w', False, 0, []))
    sh.put('n3', Cloud(b'w2', True, 0, []))
    sh.put('j', b'SPOC')
    sh.put('empty', b'')
    for rev in (False, True):
        for mode in ['all', 'header', 'data', 'fields', 'bad']:
            for x, y in [('a', 'j'), ('j', 'a'), ('j', 'j'), ('a', 'zz'), ('zz', 'a'), ('zz', 'zz'), ('n1', 'n2'), ('n1', 'n3'), ('a', 'n1'), ('n3', 'a'), ('empty', 'empty'), ('a', 'a')]:
                run_diff(sh, x, y, mode, 'x0', rev)
    for a in [[], ['a'], ['a', 'a', 'a'], ['-z', 'a', 'a'], ['--field', 'a', 'a']]:
        sh.run('diff', a, {'usage': 'bad', 'cmd': 'bad'})


def special(sh):
    """coordinates that differ in the last bit or are huge"""
    r = sh.rng
    sh.num = None
    v = d2b(r.choice([1.0, 431234.123456, 1e300, -5e-324, 4582913.07]))
    q = [v, v, v] + list(rec_of(r, 1, lambda q: 0)[3:])
    sh.put('a', Cloud(b'', False, 1, [tuple(q), tuple(q)]))
    k = r.randrange(3)
    p = list(q)
    p[k] += 1
    sh.put('b', Cloud(b'', False, 1, r.sample([tuple(q), tuple(p)], 2)))
    for m, f in [('all', ''), ('data', ''), ('header', ''), ('fields', 'x'), ('fields', 'y'), ('fields', 'z'), ('fields', 'xyz'), ('fields', 'zyxcpirgb0')]:
        run_diff(sh, 'a', 'b', m, f, r.random() < .3)


def crowd(sh, n):
    """many records"""
    r = sh.rng
    sh.num = Num(1 / 64)
    a = crowd_cloud(r, n, sh.num, E=1)
    sh.put('a', a)
    b = Cloud(a.wkt, a.comp, a.E, list(a.recs))
    k = r.choice([n - 1, n - 1, 1024, n // 2])
    q = list(b.recs[k])
    f = r.randrange(3, 9)
    q[f] ^= 1
    b.recs[k] = tuple(q)
    sh.put('b', b)
    for m, fs in [('all', ''), ('data', ''), ('header', ''), ('fields', 'xyz0'), ('fields', 'xyzcpirgb'[f])]:
        run_diff(sh, *r.choice([('a', 'b'), ('b', 'a')]), m, fs, r.random() < .3)
    run_diff(sh, 'a', 'a', 'all', '')


def run(ctx):
    ctx.start_apps(['diff', 'merge'])
    shell_model(ctx, 'diff', ['LawDiff'], (2, 1, (0, 1), (0,), (1, 2), 1), (3, 1, (0, 1), (0,), (1, 2), 1))
    ctx.apps(['diff', 'merge'])
    check_histories(ctx, crowded(ctx, crowd) + [('diff%d' % k, diffs, {}) for k in range(ctx.scale(80, 1500))] + [('other', others, {})] +
                    [('special%d' % k, special, {}) for k in range(ctx.scale(20, 200))])
