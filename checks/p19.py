"""P19: exported text is one exact value per record in order; importing stores the i-th value in the i-th record and nothing else; export and
import are inverse for every field and every finite value; missing or malformed values and fields are refused."""
from laws import *

PATS = [0, 1 << 63, 1, 2, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0xFFEFFFFFFFFFFFFF, 0x3FF0000000000000, 0x3FF0000000000001,
        0x3FB999999999999A, 0x4340000000000001, 0xC1D0000000400000, d2b(431234.123456789), d2b(4582913.07), d2b(1e22), d2b(123456789012345680.0), d2b(5e-324)]


def rbits(r):
    while True:
        b = r.choice(PATS) if r.random() < .4 else r.getrandbits(64) if r.random() < .5 else d2b(r.uniform(-1e6, 1e6))
        if (b >> 52) & 2047 != 2047:
            return b


def inverse(sh):
    """export, import into the same and into a blanked cloud: everything is restored"""
    r = sh.rng
    sh.num = None
    E = r.choice([0, 1, 3, 12])
    cl = Cloud(r.choice(WKTS), bool(r.getrandbits(1)), E, [tuple(rbits(r) for _ in range(3)) + rec_of(r, E, lambda q: 0, cls=CLASSES + [4294967295])[3:] for _ in range(r.choice([1, 2, 9]))])
    sh.put('in', cl)
    for f in r.sample(['x', 'y', 'z'] + FIELDS + ['e%d' % j for j in {0, E - 1} if j >= 0 and E], 6):
        res = run_get(sh, 'in', f, via=r.choice(['fp', 'pp']))
        d = des(f)
        if res.rc:
            continue
        k = 'xyzcpirgb'.find(f)
        vals = [q[k] if k >= 0 else q[9][d['j']] for q in cl.recs]
        put_text(sh, 't', res.out, d, vals)
        run_set(sh, 'in', f, 't', dst='out', via=r.choice(VIAS))
        blank = Cloud(cl.wkt, cl.comp, E, [q[:k] + (0,) + q[k + 1:] if k >= 0 else q[:9] + (q[9][:d['j']] + (0,) + q[9][d['j'] + 1:],) for q in cl.recs])
        sh.put('blank', blank)
        run_set(sh, 'blank', f, 't', dst='back', via='ff')
        sh.same('in', 'back')


def imports(sh):
    """values of every form, missing extra fields, too many and too few values, malformed values"""
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 0, 1, 3])
    n = r.choice([0, 1, 2, 6])
    sh.put('in', cloud(r, n, E=E, num=sh.num))
    for j in range(8):
        f = r.choice(['x', 'y', 'z'] + FIELDS + ['e0', 'e1', 'e%d' % E, 'e%d' % (E + 3), 'e17', 'e254', 'e255', 'e300'])
        if f == 'e':
            f = 'e0'
        d = des(f)
        m = max(0, n + r.choice([0, 0, 0, 0, 1, 5, -1, -n]))
        if d['f'] in 'xyz':
            vals = [r.randrange(-4000, 4000) for _ in range(m)]
            txt = [r.choice(['%r', '%.10f', '%+.8f', '%.12e', '%020.8f', '%+025.9f', '%.9E', '%024.10e']) % sh.num.to(v) for v in vals]
        else:
            vals = [r.choice(VALS.get(f, U64)) for _ in range(m)]
            txt = [r.choice(['%d', '%d', '%d', '%03d', '%021d', '+%d', '0%d', '+00%d']) % v for v in vals]       # a value is decimal
        nbad = 0
        if m and r.random() < .3:
            nbad = r.randrange(m) + 1
            txt[nbad - 1] = r.choice(['abc', '?', 'x1', txt[nbad - 1] + 'x', '--3', 'e5', '#', txt[nbad - 1] + ';'])
        sep = r.choice(['\n', '\n', '\n', ' ', '\r\n', '\n\n', '\t'])
        data = (sep.join(txt) + r.choice(['\n', '\n', '', '\n\n', ' '])).encode()
        put_text(sh, 't', data, d, vals, nbad)
        run_set(sh, 'in', f, 't', via=r.choice(VIAS))


def missing(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 1, 3])
    sh.put('in', cloud(r, r.choice([1, 4]), E=E, num=sh.num))
    sh.put('none', cloud(r, 0, num=sh.num))
    sh.put('junk', b'SPOC')
    for f in ['e%d' % E, 'e%d' % (E + 1), 'e255', 'e256', 'e257', 'e65536', 'e65537', 'e16777216', 'e2147483647', 'q', 'xy', 'e', 'e0x', 'cc', '1', 'E0', 'e999999999999']:
        if f.startswith('e9'):
            sh.run('tool', ['-g', f, 'in'], {'src': 'in', 'dst': '', 'd': {'f': '?'}, 'cmd': 'get-field'}, text=parse_lines(sh, {'f': 'c'}))
        else:
            run_get(sh, 'in', f, via=r.choice(['fp', 'pp']))
    for f in ['c', 'e0', 'q']:
        run_get(sh, 'none', f)
        run_get(sh, 'junk', f)
        run_get(sh, 'zz', f, via='fp')
    put_text(sh, 't', b'1\n2\n3\n4\n', {'f': 'c'}, [1, 2, 3, 4])
    for f in ['q', 'xy', 'e', 'e1y', 'w']:
        run_set(sh, 'in', f, 't')
    run_set(sh, 'in', 'c', 'nofile')
    run_set(sh, 'zz', 'c', 't')
    run_set(sh, 'junk', 'c', 't')
    run_set(sh, 'none', 'c', 't')
    sh.run('tool', ['--set-field=c', 'in', 'o'], {'usage': 'bad', 'cmd': 'bad'})


def big(sh, n=0):
    """thousands of values keep their order"""
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('in', crowd_cloud(r, 1500 if n == 0 else n, sh.num, E=1))
    for f in ['e0', 'x', 'p']:
        run_get(sh, 'in', f)
    vals = [r.randrange(1 << 32) for _ in range(n or 1500)]
    put_text(sh, 't', '\n'.join(map(str, vals)).encode() + b'\n', {'f': 'p'}, vals)
    run_set(sh, 'in', 'p', 't')
    run_set(sh, 'in', 'e2', 't')


def run(ctx):
    ctx.start_apps(['tool'])
    shell_model(ctx, 'tool', ['LawTool'], (2, 1, (0, 1, 3), (0,), (1, 2), 1), (3, 1, (0, 3), (0,), (1, 2), 1))
    rp = replay(ctx, 'tool')
    ctx.apps(['tool'])
    check_histories(ctx, rp + [('inv%d' % k, inverse, {}) for k in range(ctx.scale(60, 1200))] + [('imp%d' % k, imports, {}) for k in range(ctx.scale(50, 1000))] +
                    [('miss%d' % k, missing, {}) for k in range(ctx.scale(4, 30))] + [('big', big, {})] + crowded(ctx, big, (66000,)))
