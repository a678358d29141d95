"""P27: SRS text is stored, printed and preserved verbatim by every application."""
from laws import *

TEXTS = ARGWKTS + [b'%s %d %%', b'\\n \\x00', b'\n', b'\n\n lead', b'trail\n', b'\r\n', b'-h', b'--srs', b'=', b'a=b', b'"', b' ', b'B' * 65535, b'C' * 65534, b'D' * 256, b'E' * 255,
                 bytes(range(1, 256)), 'é'.encode() * 500, b'x' * 4096]
STORED = TEXTS + [b'a\0b', b'\0', b'end\0', b'\0' * 300, bytes(range(256))]       # what no command line can hold


def srs(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    names = [sh.put(n, cloud(r, r.choice([0, 1, 3]), num=sh.num, wkt=r.choice(STORED))) for n in ['a.spoc', 'b', 'c d']]
    for k in range(5):
        w = r.choice(TEXTS)
        if w and len(w) < 60000:
            run_srs_set(sh, r.choice(names), w, dst=r.choice(['o1', 'o2']), via=r.choice(['ff', 'pp']), verbose=r.random() < .2)
        files = [f for f in sh.files]
        run_srs_get(sh, [r.choice(files) for _ in range(r.choice([1, 1, 2, 4]))], verbose=r.random() < .2)
    run_srs_set(sh, 'b', b'', dst='o3')
    run_srs_get(sh, ['o3'])
    run_srs_get(sh, [r.choice(names)], via='p')
    run_srs_get(sh, ['b', 'zz'])
    run_srs_get(sh, ['zz'])


def limit(sh):
    """the longest texts; one byte more is refused"""
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('a', cloud(r, 2, num=sh.num))
    for n in [255, 256, 32767, 32768, 65534, 65535]:
        run_srs_set(sh, 'a', bytes(r.randrange(33, 127) for _ in range(n)).replace(b'\\', b'_'), dst='o%d' % n)
        run_srs_get(sh, ['o%d' % n])
    for n in [65536, 65537, 100000, 131000]:
        w = b'y' * n
        sh.run('srs', ['--srs=' + w.decode(), 'a', 'big'], {'app': 'srs', 'cmd': 'set', 'src': 'a', 'dst': 'big', 'w': tok(w), 'toolong': True}) 


def carried(sh):
    """every application carries the text of its (first) input"""
    r = sh.rng
    sh.num = Num(1 / 64)
    w = r.choice(STORED)
    sh.put('u', cloud(r, 4, E=1, num=sh.num, wkt=w, comp=False))
    sh.put('v', cloud(r, 4, E=1, num=sh.num, wkt=r.choice(STORED), comp=False))
    sh.put('none', cloud(r, 0, num=sh.num, wkt=w, comp=False))
    for src in ['u', 'none']:
        via = r.choice(VIAS)
        run_codec(sh, 'compress', src, dst='z', via='ff')
        run_codec(sh, 'decompress', 'z', via=via)
        run_filter(sh, src, keep=[1], via=via)
        run_filter(sh, 'z', remove=[1], uniq=True, res=3, via=via)
        run_transform(sh, src, Cmds(sh).add(1, 64), via=via)
        for c in ['recenter-xy', 'recenter-xyz', 'subtract-min-xy', 'subtract-min-xyz']:
            run_tool(sh, r.choice([src, 'z']), c, via=via, tol=.999)
        run_tool(sh, src, 'resize-extra', m=3, via=via)
        put_text(sh, 't', b'1 2 3 4\n', {'f': 'c'}, [1, 2, 3, 4])
        run_set(sh, src, 'c', 't', via=via)
        run_merge(sh, [src, 'v'], quiet=bool(r.getrandbits(1)))
        run_merge(sh, ['v', src, 'z'])
    run_tool(sh, 'v', 'upsample', high='u', res=8)
    run_tile(sh, 'u', mode='s', sx=256, sy=256, prefix='t')
    run_tile(sh, 'u', via='p', mode='s', sx=0, sy=128, prefix='p')


def run(ctx):
    ctx.start_apps()
    shell_model(ctx, 'codec', [], (2, 2, (0, 1), (0,), (1, 2), 1), (2, 3, (0, 1), (0,), (1,), 0))
    rp = replay(ctx, 'codec')
    ctx.apps()
    check_histories(ctx, rp + [('srs%d' % k, srs, {}) for k in range(ctx.scale(50, 800))] + [('limit', limit, {})] +
                    [('carried%d' % k, carried, {}) for k in range(ctx.scale(24, 300))])
