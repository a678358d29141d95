"""P01: clouds written to a stream come back bit for bit, reading consumes exactly what was written (SpocBytes reader automaton and writer
relation; recorded library sessions; files through the applications)."""
from bytesio import *
from laws import *

SIZES = [0, 1, 2, 3, 7, 24, 25, 26, 49, 50, 51, 60]


def fill(n, E):
    return n * (9 + E) <= 700


def session(st):
    """several clouds, one after another on one stream, reads and writes interleaved"""
    r = st.rng
    st.open(b'')
    pend = []
    for _ in range(r.choice([1, 2, 3, 4])):
        E = r.choice([0, 0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64])
        n = r.choice([k for k in SIZES if fill(k, E)])
        cl = raw_cloud(r, n, E)
        mode = r.choice(['auto', 'auto', 'rec' if not cl.comp else 'comp', 'comp' if cl.comp else 'unc'])
        if st.write(cl, mode)['ok']:
            pend.append(cl)
        while pend and r.random() < .5:
            cl = pend.pop(0)
            if r.random() < .2:
                st.read('unc' if cl.comp else 'comp')      # refused; starting over is the caller's business
                st.open(st.buf[st.at:])
            st.read(r.choice(['auto', 'comp' if cl.comp else 'unc', 'auto' if cl.comp else 'rec']))
    for cl in pend:
        st.read('auto')
    st.read('auto')       # nothing left


def width(st, E, n=1):
    """a number of extra fields"""
    r = st.rng
    st.open(b'')
    for comp in (False, True):
        cl = raw_cloud(r, n, E, comp=comp, zero=.6)
        st.write(cl)
        st.read('auto')


def text(st, n):
    r = st.rng
    st.open(b'')
    for comp in (False, True):
        cl = raw_cloud(r, 1, 0, comp=comp, wkt=bytes(r.randrange(256) for _ in range(n)))
        st.write(cl)
        st.read('auto')


def copies(sh):
    """files through commands that change nothing; large records counts by column digests"""
    r = sh.rng
    n = r.choice([100, 1023, 1024, 1025, 5000])
    sh.big = True
    E = r.choice([0, 1, 2, 10])
    cl = raw_cloud(r, n, E, wkt=b'x' * r.choice([0, 5, 300]))
    sh.put('in', cl)
    run_codec(sh, 'decompress' if cl.comp else 'compress', 'in', 'b', via=r.choice(VIAS[:1]))
    run_codec(sh, 'compress' if cl.comp else 'decompress', 'b', 'c')
    sh.same('in', 'c')
    run_srs_set(sh, 'in', b'other', 'd')


def run(ctx):
    ctx.start_harness('bytes')
    ctx.start_apps(['compress', 'decompress', 'srs'])
    bytes_model(ctx, maxrecs=ctx.scale(1, 2), values=(0, 258))
    Es = ctx.scale([9, 100, 122, 123, 124, 125, 127, 128, 254, 255], list(range(256)))
    check_streams(ctx, [('s%d' % k, session) for k in range(ctx.scale(240, 4000))] +
                  [('E%d' % E, lambda st, E=E: width(st, E, ctx.scale(1, 2))) for E in Es] +
                  [('w%d' % n, lambda st, n=n: text(st, n)) for n in ctx.scale([255, 256, 257, 4000, 65535], [255, 256, 257, 1000, 4000, 32767, 32768, 65534, 65535])])
    ctx.apps(['compress', 'decompress', 'srs'])
    check_histories(ctx, [('copy%d' % k, copies, {}) for k in range(ctx.scale(24, 300))])
    ctx.assumptions.append('the file system and the standard library streams deliver the bytes they are given')
