"""P05: input that ends early, at any byte, is never taken for a complete cloud (SpocBytes reader automaton over a channel that closes at any
byte; every truncation of recorded files through the library readers and all applications)."""
from bytesio import *
from laws import *
import p04


def small(r, num=None):
    """a small file that exercises one form"""
    E = r.choice([0, 1, 2])
    n = r.choice([1, 2, 3])
    cl = cloud(r, n, E=E, num=num, wkt=bytes(r.randrange(65, 90) for _ in range(r.choice([0, 1, 5])))) if num else raw_cloud(r, n, E)
    return cl


def readers(st):
    r = st.rng
    cl = small(r)
    data = encode(cl)
    for k in range(len(data) + 1):
        st.open(data[:k])
        st.read(r.choice(['auto', 'comp' if cl.comp else 'unc', 'auto' if cl.comp else 'rec']))
        if k <= 18 + len(cl.wkt):
            st.open(data[:k])
            st.read('hdr')


def chunks(st):
    """around the boundaries of the reader's record buffer"""
    r = st.rng
    E = r.choice([0, 0, 1, 3, 13, 123])
    size = 40 + 8 * E
    per = max(1, 1024 // size)
    n = r.choice([per - 1, per, per + 1, 2 * per, 2 * per + 1]) or 1
    cl = raw_cloud(r, n, E, comp=False, wkt=b'', zero=.7)
    data = encode(cl)
    for k in {len(data), len(data) - 1, 18 + size * (n - 1), 18 + size * per, 18 + size * per - 1, 18 + size * (n - 1) + 1, 18 + r.randrange(n * size)}:
        if 0 <= k <= len(data):
            st.open(data[:k])
            st.read(r.choice(['auto', 'unc', 'rec']))
    st.open(encode(raw_cloud(r, 1, 0)) + data[:r.randrange(len(data))])    # a complete cloud, then a truncated one
    st.read()
    st.read()


def huge(st):
    """headers that announce more than any input holds"""
    r = st.rng
    for comp in (False, True):
        cl = raw_cloud(r, 2, 1, comp=comp, wkt=b'')
        data = bytearray(encode(cl))
        for n in (3, 1000, 1 << 20, 1 << 36, 1 << 61, (1 << 64) - 1):
            data[9:17] = n.to_bytes(8, 'little')
            st.open(bytes(data))
            st.read(r.choice(['auto', 'comp' if comp else 'unc']))
        if comp:
            data = bytearray(encode(cl))
            for m in (len(data), 1 << 20, 1 << 37, 1 << 62, (1 << 64) - 1):
                data[18:26] = m.to_bytes(8, 'little')
                st.open(bytes(data))
                st.read('auto')


def apps(sh, part=0, parts=1):
    """every command on prefixes of a file"""
    r = core.rng_for(sh.ctx, sh.name.split('_')[0])
    sh.num = Num(1 / 64)
    sh.put('good', cloud(r, 4, E=1, num=sh.num))
    put_text(sh, 't', b'1\n2\n3\n4\n5\n6\n', {'f': 'c'}, [1, 2, 3, 4, 5, 6])
    cl = small(r, sh.num)
    data = encode(cl)
    ks = [k for k in range(len(data) + 1) if k % parts == part]
    if not sh.ctx.thorough:
        h = 18 + len(cl.wkt)
        ks = [k for k in ks if k < 3 or abs(k - h) < 3 or k > len(data) - 12 or sh.rng.random() < .25]
    for k in ks:
        sh.put('p', data[:k])
        p04.every(sh, ['p'], 't')


def run(ctx):
    ctx.start_harness('bytes')
    ctx.start_apps()
    bytes_model(ctx, es=(1,), values=(0, 257), maxrecs=ctx.scale(1, 2))
    check_streams(ctx, [('r%d' % k, readers) for k in range(ctx.scale(48, 600))] + [('c%d' % k, chunks) for k in range(ctx.scale(60, 600))] +
                  [('h%d' % k, huge) for k in range(ctx.scale(3, 20))])
    ctx.apps()
    parts = 8
    check_histories(ctx, [('a%d_%d' % (c, k), (lambda sh, k=k: apps(sh, k, parts)), {}) for c in range(ctx.scale(4, 24)) for k in range(parts)])
