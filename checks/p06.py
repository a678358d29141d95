"""P06: success is reported only if the complete output was delivered (SpocOutput: buffered writer over devices that fail at any byte; every
application and library writer with outputs that fail at chosen or at all bytes)."""
import random
from bytesio import *
from laws import *
from p04 import run_info


def commands(sh, r, E, comp):
    """-> (name, fn(via)) of every command that writes"""
    c = Cmds(sh)
    edit(c, r, E)
    n = len(decode_all(sh.files['in']).recs)
    seed = r.choice([0, 7])
    L = [('codec', lambda via: run_codec(sh, 'decompress' if comp else 'compress', 'in', via=via, det='codec')),
         ('filter', lambda via: run_filter(sh, 'in', remove=[99], seed=seed, via=via, det='filter')),
         ('sub', lambda via: run_filter(sh, 'in', res=20, seed=seed, via=via, det='sub')),
         ('srs', lambda via: run_srs_set(sh, 'in', b'NEW' * 5, via='ff' if via == 'ff' else 'pp', det='srs')),
         ('submin', lambda via: run_tool(sh, 'in', 'subtract-min-xyz', via=via, det='submin')),
         ('resize', lambda via: run_tool(sh, 'in', 'resize-extra', m=E + 1, via=via, det='resize')),
         ('set', lambda via: run_set(sh, 'in', 'g', 't', via=via, det='set')),
         ('up', lambda via: run_tool(sh, 'in', 'upsample', high='in', res=64, via=via, det='up'))]
    if not comp:
        L.append(('transform', lambda via: run_transform(sh, 'in', c, via=via, det='transform')))
    P = [('merge', lambda via: run_merge(sh, ['in', 'in'], quiet=r.random() < .5, det='merge')),
         ('get', lambda via: run_get(sh, 'in', 'x', via=via, det='get')),
         ('srsget', lambda via: run_srs_get(sh, ['in', 'in'], det='srsget')),
         ('info', lambda via: info(sh, ['in'], [], 'info')), ('infoj', lambda via: info(sh, ['in'], ['-j'], 'infoj')),
         ('infoc', lambda via: info(sh, ['in', 'in'], ['-c', '-q'], 'infoc'))]
    return L, P


def info(sh, names, a, det):
    return sh.run('info', a + names, {'srcs': names, 'dst': '', 'cmd': 'info', 'det': det}, text=lambda o: {'k': 'text', 'h': tok(o)}, **sh.sunk)


def setup(sh, n=None):
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 1, 2])
    comp = r.random() < .4
    cl = cloud(r, n or r.choice([1, 2, 5]), E=E, num=sh.num, comp=comp)
    sh.put('in', cl)
    put_text(sh, 't', b'\n'.join(b'%d' % (k % 60000) for k in range(len(cl.recs))) + b'\n', {'f': 'c'}, [k % 60000 for k in range(len(cl.recs))])
    sh.sunk = {}
    return r, E, comp


def faults(sh, every=False, n=None):
    r, E, comp = setup(sh, n)
    run0 = sh.run

    def run1(*a, **kw):
        kw.update(sh.sunk)
        return run0(*a, **kw)
    sh.run = run1
    L, P = commands(sh, r, E, comp)
    for name, fn in (L + P if every else r.sample(L, 4) + r.sample(P, 3)):
        toout = (name, fn) in L
        for via in (['ff', 'pp'] if toout else ['fp']):
            sh.sunk, sh.fault = {}, False
            res = fn(via)
            size = len(sh.files.get('out', b'')) if via == 'ff' else len(res.out)
            if via == 'ff' and 'out' in sh.files:
                sh.rm('out')
            # at which bytes the output fails
            if every and size < 600:
                ks = [k for k in range(size + 1) if sh.ctx.thorough or k < 8 or k > size - 8 or r.random() < .12]
            else:
                ks = {0, 1, size - 1, size, size // 2, 4095, 4096, 8191, 8192, 8193, 16384} | {r.randrange(size + 1) for _ in range(sh.ctx.scale(5, 30))}
                ks = sorted(k for k in ks if 0 <= k <= size)
            sh.fault = True
            for k in ks:
                sh.sunk = {'fsize': k} if via == 'ff' else {'sink': k}
                fn(via)
                if 'out' in sh.files:
                    sh.rm('out')
            if via != 'ff':
                for s in ('full', 'pipe', 'shut'):
                    sh.sunk = {'sink': s}
                    fn(via)
    sh.sunk, sh.fault = {}, False


def tiles(sh):
    """several destinations, any of which may fail"""
    r = sh.rng
    sh.num = Num(1 / 64)
    cl = cloud(r, r.choice([4, 10, 300]), E=r.choice([0, 3]), num=sh.num)
    sh.put('in', cl)
    kw = dict(mode='s', sx=400, sy=300, prefix='t')
    run_tile(sh, 'in', force=True, **kw)
    out = [n for n in sh.files if n[0] == 't']
    size = max(len(sh.files[n]) for n in out)
    for n in out:
        sh.rm(n)
    sh.fault = True
    for k in sorted({0, 1, size - 1, size, 8191, 8192} | {r.randrange(size) for _ in range(sh.ctx.scale(8, 40))}):
        if k > size:
            continue
        run_tile(sh, 'in', force=r.random() < .5, fsize=k, **kw)
        for n in [n for n in sh.files if n[0] == 't']:
            sh.rm(n)
    # an obstacle instead of a full disk
    os.mkdir(sh.path(r.choice(out)))
    run_tile(sh, 'in', force=True, **kw)


def library(st):
    """every writer, failing at every byte"""
    r = st.rng
    cl = raw_cloud(r, r.choice([0, 1, 2, 3]), r.choice([0, 1, 2]), wkt=b'w' * r.choice([0, 3]))
    st.open(b'')
    for mode in ['auto', 'comp' if cl.comp else 'unc', 'hdr'] + ([] if cl.comp else ['rec']):
        total = len(st.write(cl, mode)['bytes'])
        for k in range(total + 2):
            st.limit(cl, k, total, mode, r.choice('ppot'))
        st.limit(cl, 0, total, mode, 'f')


class Z:
    def __init__(self, ctx, name, rng):
        self.ctx, self.name, self.rng, self.events, self.meta = ctx, name, rng, [], {}


def zlimits(z):
    r = z.rng
    n = r.choice([0, 1, 10, 1000, (1 << 20) + 5, 3 << 20])
    data = r.randbytes(n) if r.random() < .5 else (b'%d' % r.getrandbits(20)) * (n // 6 + 1)
    for op, src in (('deflate', data), ('inflate', zlib.compress(data))):
        def go(k, kind):
            res = execute([os.path.join(z.ctx.bin, 'zlimit'), op, str(k), kind], z.ctx.work, src).out.split()
            return res[0] == b'ok' if res else None, int(res[1]) if res else 0
        ok, total = go(1 << 40, 'p')
        ks = range(total + 2) if total < 30 else {0, 1, total // 2, total - 1, total, total + 1, 1 << 20, (1 << 20) - 1, r.randrange(total)}
        for k, kind in [(k, kind) for k in sorted(ks) for kind in r.sample('pot', 1 if len(ks) > 12 else 2)] + ([(0, 'f')] if total else []):
            ok, got = go(k, kind)
            z.events.append({'op': 'limit', 'mode': op, 'lim': k, 'total': total, 'ok': bool(ok), 'crash': ok is None, '_cmd': ['zlimit', op, k, kind, total]})


def record_z(ctx, specs):
    def one(s):
        z = Z(ctx, s[0], core.rng_for(ctx, s[0]))
        core.history(s[1], z)
        z.spec = s
        return z
    return core.record_all(ctx, one, specs)


def run(ctx):
    ctx.start_harness('bytes')
    ctx.start_harness('zlimit')
    ctx.start_apps()
    ctx.model('SpocOutput', 'SPECIFICATION Spec\nCONSTANTS MaxItems = %d MaxSize = 2 MaxDest = 2 MaxBuf = %d\nINVARIANTS SuccessIsComplete FailureIsReal\nPROPERTY Ends\n' %
              ctx.scale((2, 3), (3, 4)), min_states=5000, require_actions=('Put', 'Flush', 'Close', 'Fail') if ctx.thorough else ())
    check_streams(ctx, [('l%d' % k, library) for k in range(ctx.scale(40, 400))])
    ctx.harness('zlimit')
    run_checked(ctx, [('z%d' % k, zlimits) for k in range(ctx.scale(12, 100))], record_z, 'TraceBytes', lambda e: 'zlimit:' + e['mode'])
    ctx.apps()
    check_histories(ctx, [('e%d' % k, lambda sh: faults(sh, True), {}) for k in range(ctx.scale(6, 60))] +
                    [('f%d' % k, lambda sh: faults(sh, False, sh.rng.choice([150, 210, 420])), {}) for k in range(ctx.scale(16, 200))] +
                    [('t%d' % k, tiles, {}) for k in range(ctx.scale(16, 200))])
    ctx.assumptions.append('output failures are injected as a file size limit, a full device, a closed pipe and a closed descriptor')
