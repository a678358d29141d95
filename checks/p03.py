"""P03: writers produce exactly the documented layout and readers accept every file laid out that way (SpocBytes: layout of header, records and
columns as byte sequences; recorded library sessions and files of the applications)."""
from bytesio import *
from laws import *


def writers(st):
    """what each writer delivers, byte by byte"""
    r = st.rng
    st.open(b'')
    for _ in range(3):
        E = r.choice([0, 1, 2, 3, 6, 20])
        n = r.choice([0, 1, 2, 3, 10, 26] if E < 4 else [0, 1, 2, 5])
        cl = raw_cloud(r, n, E)
        for mode in ['auto', 'hdr', 'comp' if cl.comp else 'unc', 'unc' if cl.comp else 'comp'] + ([] if cl.comp else ['rec']):
            st.write(cl, mode)


def variant(r, cl):
    """an encoding of the cloud the documentation allows, not necessarily the writer's"""
    if not cl.comp:
        return encode(cl)
    cl.flag = r.choice([1, 1, 2, 128, 255])
    out = [header_bytes(cl)]
    for col in columns(cl):
        if not any(col) and r.random() < .5:
            out.append(bytes(8))
        else:
            k = r.randrange(4)
            if k == 0 and len(col) > 1:        # a stream of several blocks
                d = zlib.compressobj(r.randrange(10))
                h = r.randrange(1, len(col))
                z = d.compress(col[:h]) + d.flush(zlib.Z_FULL_FLUSH) + d.compress(col[h:]) + d.flush()
            elif k == 1:
                d = zlib.compressobj(9, zlib.DEFLATED, r.choice([9, 12, 15]), strategy=r.choice([zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE]))
                z = d.compress(col) + d.flush()
            else:
                z = zlib.compress(col, r.randrange(-1, 10))
            out.append(len(z).to_bytes(8, 'little') + z)
    return b''.join(out)


def readers(st):
    """documented files from an independent writer"""
    r = st.rng
    for _ in range(3):
        data, cls = b'', []
        for _ in range(r.choice([1, 1, 2])):
            E = r.choice([0, 1, 2, 3, 6, 20, 130])
            n = r.choice([0, 1, 2, 3, 10, 25, 26, 51] if E < 4 else [0, 1, 2])
            cl = raw_cloud(r, n, E)
            if cl.comp and n == 0:
                cl.comp, cl.flag = False, 0
            data += variant(r, cl)
            cls.append(cl)
        st.open(data)
        for cl in cls:
            st.read(r.choice(['auto', 'auto', 'comp' if cl.comp else 'unc', 'auto' if cl.comp else 'rec']))
        st.open(data)
        st.read('hdr')


def files(sh):
    """the applications read the independent writer's files and write the documented layout"""
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 1, 2])
    cl = cloud(r, r.choice([1, 2, 30]), E=E, num=sh.num)
    sh.put('in', variant(r, cl))
    run_codec(sh, 'decompress' if cl.comp else 'compress', 'in', 'b', via=r.choice(VIAS))
    run_filter(sh, 'in', keep=r.sample(CLASSES, 3), via=r.choice(VIAS))
    run_merge(sh, ['in', 'in'])
    run_tool(sh, 'in', 'subtract-min-xyz', via=r.choice(VIAS))
    run_tool(sh, 'in', 'resize-extra', m=r.choice([0, 1, 5, 255]), via=r.choice(VIAS))
    run_srs_set(sh, 'in', r.choice(ARGWKTS[1:]), 's')
    run_srs_get(sh, ['in', 's'])
    run_tile(sh, 'in', mode='s', sx=300, sy=300, prefix='t')
    c = Cmds(sh)
    edit(c, r, E)
    if not cl.comp:
        run_transform(sh, 'in', c, via=r.choice(VIAS))
    run_diff(sh, 'in', 's', 'data')


def run(ctx):
    ctx.start_harness('bytes')
    ctx.start_apps()
    bytes_model(ctx, es=(0, 2), values=(0, 259))
    check_streams(ctx, [('w%d' % k, writers) for k in range(ctx.scale(120, 2000))] + [('r%d' % k, readers) for k in range(ctx.scale(160, 3000))])
    ctx.apps()
    check_histories(ctx, [('f%d' % k, files, {}) for k in range(ctx.scale(60, 800))])
