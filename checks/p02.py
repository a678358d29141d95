"""P02: the byte compressor and the compress/decompress applications are exact inverses (SpocCodec: the chunked loops against the engine's
contract; recorded compressions of every form, level and buffer boundary; whole files through the applications)."""
import threading
from bytesio import *
from laws import *

M = 1 << 20


class Codec:
    def __init__(self, ctx, name, rng):
        self.ctx, self.name, self.rng = ctx, name, rng
        self.dir, self.events, self.meta, self.plain = ctx.tmp('codec'), [], {}, {}

    def call(self, op, form, n, data):
        src, dst = os.path.join(self.dir, 'in'), os.path.join(self.dir, 'out')
        with open(src, 'wb') as f:
            f.write(data)
        if os.path.exists(dst):
            os.unlink(dst)
        r = execute([os.path.join(self.ctx.bin, 'codec'), op, form, str(n), src, dst], self.dir)
        if r.rc == 3:
            raise core.CheckError('codec harness: ' + repr((op, form, n)))
        return open(dst, 'rb').read() if r.rc == 0 else None

    def put(self, blob, plain):
        self.events.append({'op': 'put', 'blob': tok(blob), 'plain': tok(plain), 'ok': True})

    def deflate(self, data, form, level):
        b = self.call('deflate', form, level, data)
        plain = 'bad'
        if b is not None:
            try:
                d = zlib.decompressobj()
                p = d.decompress(b)
                if d.eof and not d.unused_data:
                    plain = tok(p)
            except zlib.error:
                pass
        self.events.append({'op': 'deflate', 'level': level, 'src': tok(data), 'ok': b is not None, 'blob': tok(b or b''), 'plain': plain,
                            '_cmd': ['deflate', form, level, '%d bytes -> %s' % (len(data), len(b) if b is not None else 'error')]})
        return b

    def inflate(self, blob, form, size, want=-1):
        p = self.call('inflate', form, want, blob)
        self.events.append({'op': 'inflate', 'blob': tok(blob), 'size': size, 'want': want, 'ok': p is not None, 'res': tok(p) if p is not None else 'none',
                            '_cmd': ['inflate', form, want, '%d bytes -> %s of %d' % (len(blob), len(p) if p is not None else 'error', size)]})

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def content(r, n):
    k = r.randrange(5)
    if k == 0:
        return bytes(n)
    if k == 1:
        return r.randbytes(n)
    if k == 2:
        return (b'%d,' % r.getrandbits(30) * (n // 4 + 1))[:n]
    if k == 3:
        return (r.randbytes(50000) + bytes(50000)) * (n // 100000) + r.randbytes(n % 100000)
    return bytes([r.randrange(256)]) * n


def stored(target):
    """a length whose compressed form at level 0 has the given length"""
    n = target - 11 - 5 * (target // 16383 + 1)
    for _ in range(60):
        m = len(zlib.compress(bytes(n), 0))
        if m == target:
            return n
        n += target - m
    return None


def roundtrip(c, sizes, levels):
    r = c.rng
    for n in sizes:
        data = content(r, n)
        for lv in levels:
            b = c.deflate(data, r.choice(['buffer', 'pointer', 'stream', 'drip']) if n else r.choice(['buffer', 'pointer', 'stream']), lv)
            if b is not None:
                for form in r.sample(['buffer', 'stream', 'drip', 'pointer'], 2):
                    c.inflate(b, form, n, n if form == 'pointer' else -1)
                if r.random() < .3:
                    c.inflate(b, 'pointer', n, max(0, n + r.choice([-1, 1, -8, 8, 100000])))
        z = zlib.compress(data, r.randrange(10))
        c.put(z, data)
        for form in ('buffer', 'stream'):
            c.inflate(z, form, n)
        if r.random() < .5:
            z = content(r, n)
            d = zlib.compressobj(r.randrange(10), zlib.DEFLATED, 15, 9, r.choice([0, 1, 2, 3, 4]))
            b = d.compress(z[:n // 3]) + d.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH])) + d.compress(z[n // 3:]) + d.flush()
            c.put(b, z)
            c.inflate(b, r.choice(['buffer', 'stream', 'drip']), n)


def tiny(c):
    r = c.rng
    roundtrip(c, [0, 1, 2, 3, r.randrange(4, 300), r.randrange(300, 5000)], [-1, 0, 1, 6, 9])
    roundtrip(c, [r.randrange(2, 40)], list(range(-1, 10)))
    c.deflate(b'abc', 'buffer', r.choice([10, -2, 99]))
    c.deflate(b'abc', 'stream', r.choice([10, -2, 99]))


def edges(c, n):
    roundtrip(c, [n], c.ctx.scale([c.rng.choice([-1, 1, 9]), 0], [-1, 0, 1, 5, 9]))


def filled(c, target):
    """the compressed form fills the buffer exactly"""
    n = stored(target)
    if n is not None:
        for form in ('buffer', 'stream', 'pointer'):
            data = c.rng.randbytes(n)
            b = c.deflate(data, form, 0)
            if b:
                c.inflate(b, 'buffer', n)
                c.inflate(b, 'stream', n)
                c.inflate(b, 'pointer', n, n)


BIGLOCK = threading.Semaphore(3)


def bigcloud(r, n, E):
    """columns around the buffer size, compressible and not"""
    cols = []
    for t in [8, 8, 8, 4, 4, 2, 2, 2, 2] + [8] * E:
        k = r.randrange(4)
        b = bytes(n * t) if k == 0 else (bytes(r.randrange(256) for _ in range(t)) * n) if k == 1 else r.randbytes(n * t)
        if k == 2:      # a single non-zero byte at the end
            b = bytes(n * t - 1) + b'\x80'
        cols.append(struct.unpack('<%d%s' % (n, {8: 'Q', 4: 'I', 2: 'H'}[t]), b))
    ex = zip(*cols[9:]) if E else iter([()] * n)
    return Cloud(b'SRS', False, E, [b + (tuple(e),) for b, e in zip(zip(*cols[:9]), ex)])


def files(sh, n):
    with BIGLOCK:
        r = sh.rng
        sh.big = True
        sh.put('in', bigcloud(r, n, r.choice([0, 1])))
        run_codec(sh, 'compress', 'in', 'z', via=r.choice(VIAS[:1]))
        run_codec(sh, 'decompress', 'z', 'u')
        run_codec(sh, 'compress', 'u', 'y')
        sh.same('in', 'u')
        sh.same('z', 'y')
        sh.files = {}


def smallfiles(sh):
    """any bit pattern: exact records through the applications, over files and pipes"""
    r = sh.rng
    cl = raw_cloud(r, r.choice([0, 1, 2, 7, 25]), r.choice([0, 1, 2, 9]), comp=bool(r.getrandbits(1)))
    sh.put('in', variant(r, cl))
    a, b = ('decompress', 'compress') if cl.comp else ('compress', 'decompress')
    run_codec(sh, a, 'in', 'm', via=r.choice(VIAS), det='a')
    run_codec(sh, a, 'in', 'm', det='a')
    run_codec(sh, b, 'm', 'n', via=r.choice(VIAS), det='b')
    run_codec(sh, b, 'm', 'n', det='b')
    run_codec(sh, a, 'n', 'o', det='a')
    sh.same('in', 'n')
    if cl.comp:
        run_codec(sh, 'compress', 'in', 'p')
    else:
        run_codec(sh, 'decompress', 'in', 'p')


def variant(r, cl):
    if not cl.recs:
        cl.E = 0      # as the library writes it
    return encode(cl, r.randrange(-1, 10))


def record_codec(ctx, specs):
    def one(s):
        c = Codec(ctx, s[0], core.rng_for(ctx, s[0]))
        core.history(s[1], c)
        c.done()
        c.spec = s
        return c
    return core.record_all(ctx, one, specs)


def run(ctx):
    ctx.start_harness('codec')
    ctx.start_apps(['compress', 'decompress'])
    ctx.model('SpocCodec', 'SPECIFICATION Spec\nCONSTANTS MaxLen = %d Bufs = %s Grows = {1, 2, 3} Forms = {"buffer", "stream"}\n'
              'INVARIANTS NeverBroken NothingLeft Deflated Restored\nPROPERTY Progress\n' % ctx.scale((3, '{1, 2, 3, 4}'), (5, '{1, 2, 3, 4, 5, 7}')),
              min_states=5000, require_actions=('Read', 'Call', 'More', 'Turn') if ctx.thorough else ())
    ctx.harness('codec')
    sizes = [M - 1, M, M + 1, 2 * M, 3 * M + 5, M - 300, M // 2, 65535, 65536, 262144] + ([4 * M, 5 * M - 1, 8 * M] if ctx.thorough else [])
    run_checked(ctx, [('t%d' % k, tiny) for k in range(ctx.scale(24, 300))] +
                [('e%d_%d' % (n, k), lambda c, n=n: edges(c, n)) for n in sizes for k in range(ctx.scale(1, 6))] +
                [('f%d' % t, lambda c, t=t: filled(c, t)) for t in ctx.scale([M, 2 * M, M + 1, M - 1], [M * k + d for k in (1, 2, 3) for d in (-1, 0, 1)])],
                record_codec, 'TraceCodec', lambda e: e['op'])
    ctx.apps(['compress', 'decompress'])
    ns = ctx.scale([131072, 262144, 150001, 70000], [131071, 131072, 131073, 262143, 262144, 262145, 524288, 524289, 150001, 70000, 400000])
    check_histories(ctx, [('big%d' % n, lambda sh, n=n: files(sh, n), {}) for n in ns] + [('s%d' % k, smallfiles, {}) for k in range(ctx.scale(60, 1000))])
    ctx.assumptions.append('Python zlib is the independent codec; columns of 4 GiB and more are not tried')
