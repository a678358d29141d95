"""P04: invalid input is rejected by every reader and application, dedicated readers refuse the other form, and clouds the format cannot hold
are refused (SpocBytes reader automaton: rejecting states; SpocShell: BadInput/Refuses)."""
from bytesio import *
from laws import *


def damage(r, cl):
    """-> (bytes, description): a cloud file that is invalid (or at least suspicious) in one way"""
    data = bytearray(encode(cl))
    k = r.randrange(12)
    if k == 0:                                                  # signature
        data[r.randrange(4)] ^= 1 << r.randrange(8)
        return bytes(data)
    if k == 1:                                                  # case of the signature
        data[:4] = r.choice([b'spoc', b'SPOc', b'COPS', b'LASF', b'\0\0\0\0', b'SPO\0'])
        return bytes(data)
    if k == 2:
        data[4] = r.choice([1, 2, 255])
        return bytes(data)
    if k == 3:
        data[5] = r.choice([0, 2, 3, 255])
        return bytes(data)
    if k == 4:
        data[4], data[5] = 1, 0
        return bytes(data)
    if not cl.comp:
        if k < 8:                                               # one more record announced than present
            w = 9 + len(cl.wkt)
            data[w:w + 8] = r.choice([len(cl.recs) + 1, len(cl.recs) + 50, 1 << 36, 1 << 60, (1 << 64) - 1, 1 << 63]).to_bytes(8, 'little')
        else:                                                   # one more extra field announced
            if cl.recs:
                data[8 + len(cl.wkt)] += 1
            else:
                data[0] = 0
        return bytes(data)
    out = [header_bytes(cl)]
    cols = columns(cl)
    bad = r.randrange(len(cols))
    for j, col in enumerate(cols):
        w = 8 if j in (0, 1, 2) or j > 8 else 4 if j < 5 else 2
        if j != bad:
            z = zlib.compress(col) if any(col) else b''
        else:
            z = zlib.compress(col or b'\1')
            if k == 5:
                z = zlib.compress(col + bytes(r.choice([1, w, 5 * w, 3000])))      # too many values
            elif k == 6:
                z = zlib.compress(col + col + b'\7' * w)
            elif k == 7:
                z = zlib.compress(col[:-1] if r.random() < .5 else col[:-w])       # too few
            elif k == 8:
                z = r.choice([b'\0', b'garbage', bytes(40), b'\x78\x9c', b'\xff' * 9, col or b'\3'])
            elif k == 9:
                z = z[:r.randrange(1, max(2, len(z) - 5))]                         # the stream stops early
            elif k == 10:
                z = bytearray(z)
                z[r.randrange(min(len(z), 3))] ^= 1 << r.randrange(8)
                z = bytes(z)
            else:
                z = zlib.compress(b'')
        n = len(z)
        out.append(n.to_bytes(8, 'little') + z)
    return b''.join(out)


def readers(st):
    r = st.rng
    for _ in range(8):
        cl = raw_cloud(r, r.choice([0, 1, 2, 5, 20]), r.choice([0, 1, 2, 4]))
        if cl.comp and not cl.recs:
            cl.comp, cl.flag = False, 0
        data = damage(r, cl)
        if r.random() < .3:
            data += encode(raw_cloud(r, 2, 1))
        for mode in ('auto', 'comp' if cl.comp else 'unc', 'hdr', 'rec', 'unc' if cl.comp else 'comp'):
            st.open(data)
            st.read(mode)


def dedicated(st):
    r = st.rng
    for _ in range(4):
        cl = raw_cloud(r, r.choice([0, 1, 2, 20]), r.choice([0, 1, 2]))
        if cl.comp and not cl.recs:
            cl.E = 0
        for mode in ('unc', 'comp', 'auto', 'rec', 'hdr'):
            st.open(encode(cl))
            st.read(mode)
        for mode in ('unc', 'comp'):
            st.write(cl, mode)


def toobig(st):
    """clouds that cannot be represented"""
    r = st.rng
    for comp in (False, True):
        for E in (254, 255, 256, 257, 511, 512):
            st.open(b'')
            st.write(raw_cloud(r, r.choice([1, 2]), E, comp=comp, zero=.9), 'auto')
            if E < 256:
                st.read()
        for n in (65535, 65536, 65537, 131072 + 5):
            st.open(b'')
            st.write(raw_cloud(r, 1, 0, comp=comp, wkt=b'w' * n), r.choice(['auto', 'comp' if comp else 'unc', 'hdr']))
            if n < 65536:
                st.read()


def every(sh, names, t):
    """every command that needs the data of a file, on each named file"""
    r = sh.rng
    for n in names:
        for via in VIAS if sh.ctx.thorough else [r.choice(VIAS)]:
            run_codec(sh, 'compress', n, via=via)
            run_codec(sh, 'decompress', n, via=via)
            run_filter(sh, n, keep=[0, 1, 2], via=via)
            run_filter(sh, n, uniq=True, via=via)
            run_filter(sh, n, res=50, via=via)
            c = Cmds(sh)
            c.add(1, 64)
            run_transform(sh, n, c, via=via)
            run_srs_set(sh, n, b'new', via=via)
            for cmd in ('recenter-xy', 'subtract-min-xyz'):
                run_tool(sh, n, cmd, via=via, tol=.5 if cmd[:2] == 're' else None)
            run_tool(sh, n, 'resize-extra', m=2, via=via)
            run_set(sh, n, 'c', t, via=via)
            run_get(sh, n, r.choice(['x', 'c', 'b']), via=via if via != 'ff' else 'fp')
            run_tool(sh, n, 'upsample', high='good', res=64, via=via)
        run_tool(sh, 'good', 'upsample', high=n, res=64)
        run_merge(sh, r.choice([[n, 'good'], ['good', n], ['good', 'good', n]]))
        run_tile(sh, n, via=r.choice('fp'), mode='s', sx=300, sy=300, prefix='t', force=True)
        run_info(sh, n, r.choice('fp'))
        for mode in ('all', 'header', 'data', 'fields'):
            run_diff(sh, *r.choice([(n, 'good'), ('good', n), (n, n)]), mode, 'x' if mode == 'fields' else '', rev=r.random() < .5)
        if decode_ok(sh.files[n]):
            run_srs_get(sh, ['good', n] if r.random() < .5 else [n])
        else:
            sh.run('srs', ['good', n] if r.random() < .5 else [n], {'srcs': ['good', n], 'dst': '', 'cmd': 'get'}, text=lambda o: {'k': 'text'})


def decode_ok(data):
    try:
        decode_header(data)
        return True
    except Bad:
        return False


def run_info(sh, n, via='f'):
    a = sh.rng.choice([[], ['-j'], ['-c'], ['-q'], ['-c', '-j']])
    return sh.run('info', a + ([n] if via == 'f' else []), {'srcs': [n], 'dst': '', 'cmd': 'info'}, stdin=None if via == 'f' else n, text=lambda o: {'k': 'text'})


def apps(sh):
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('good', cloud(r, 4, E=1, num=sh.num))
    put_text(sh, 't', b'1\n2\n3\n4\n5\n6\n', {'f': 'c'}, [1, 2, 3, 4, 5, 6])
    names = []
    for k in range(3):
        cl = cloud(r, r.choice([1, 3, 6]), E=r.choice([0, 1, 1, 2]), num=sh.num)
        while True:
            d = damage(r, cl)
            try:
                decode_all(d)
            except Bad:
                break
        if soft(d):
            continue
        names.append(sh.put('bad%d' % k, d))
    sh.put('bad9', r.choice([b'', b'S', b'SPOC', b'{"json": 1}\n', b'LASF' + bytes(400), b'\x89PNG\r\n\x1a\n' + bytes(90)]))
    every(sh, names + ['bad9'], 't')


def soft(data):
    """the values are all there, only the end of a stream is not as it should be"""
    if data[:6] != b'SPOC\0\1':
        return False
    return any(b['soft'] for b in blobs_at(data, 0))


def unrep(sh):
    """applications asked for a cloud the format cannot hold"""
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 1])
    sh.put('in', cloud(r, r.choice([1, 3]), E=E, num=sh.num))
    sh.put('out', b'precious')
    put_text(sh, 't', b'1\n2\n3\n4\n', {'f': 'c'}, [1, 2, 3, 4])
    for m in (255, 256, 257, 512, -1, 65536):
        run_tool(sh, 'in', 'resize-extra', m=m, via=r.choice(VIAS))
    for j in (254, 255, 256, 300):
        run_set(sh, 'in', 'e%d' % j, 't', via=r.choice(VIAS))
    for n in (65535, 65536, 70000):
        w = b'w' * n
        sh.run('srs', ['-s', w.decode(), 'in', 'out'], {'src': 'in', 'dst': 'out', 'w': tok(w), 'cmd': 'set', 'toolong': n > 65535})


def run(ctx):
    ctx.start_harness('bytes')
    ctx.start_apps()
    bytes_model(ctx, es=(0, 1), values=(0, 300))
    check_streams(ctx, [('r%d' % k, readers) for k in range(ctx.scale(100, 1500))] + [('d%d' % k, dedicated) for k in range(ctx.scale(24, 200))] +
                  [('big%d' % k, toobig) for k in range(ctx.scale(1, 4))])
    ctx.apps()
    check_histories(ctx, [('a%d' % k, apps, {}) for k in range(ctx.scale(40, 500))] + [('u%d' % k, unrep, {}) for k in range(ctx.scale(6, 40))])
