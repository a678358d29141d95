"""Sessions of the library's stream readers and writers (harness/bytes.cpp), recorded for TraceBytes."""
import os, subprocess, zlib
import core
from shell import *
from gen import *

SPECIALS = [0, 1 << 63, 0x3FF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0x7FF0000000000001, 0xFFF8000000000123,
            1, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0x4059000000000000, 0xC05EDD2F1A9FBE77, 0x0102030405060708, 0xFF, 0xFF00000000000000]


def raw_cloud(rng, n, E, comp=None, wkt=None, zero=0.25):
    """any bit pattern in every field; some columns are all zero"""
    dead = [rng.random() < zero for _ in range(9 + E)]
    w = [64, 64, 64, 32, 32, 16, 16, 16, 16] + [64] * E
    def val(j):
        if dead[j]:
            return 0
        k = rng.randrange(4)
        if k == 0:
            return rng.getrandbits(w[j])
        if k == 1:
            return rng.choice([0, 1, (1 << w[j]) - 1, 1 << (w[j] - 1), rng.randrange(256), 256])
        return rng.choice(SPECIALS) if w[j] == 64 else rng.getrandbits(w[j])
    recs = []
    for _ in range(n):
        v = [val(j) for j in range(9 + E)]
        recs.append(tuple(v[:9]) + (tuple(v[9:]),))
    if wkt is None:
        wkt = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 1, 2, 5, 40])))
    return Cloud(wkt, bool(rng.getrandbits(1)) if comp is None else comp, E, recs)


def wire(cl):
    v = [cl.wkt.hex() or '-', int(cl.comp), len(cl.recs), cl.E]
    for r in cl.recs:
        v += list(r[:9]) + list(r[9])
    return ' '.join(map(str, v))


def spec_cloud(cl, e=None):
    return {'w': list(cl.wkt), 'c': cl.comp, 'E': cl.E if cl.recs else 0, 'recs': [proj_rec(r) for r in cl.recs]}


def blob_info(blob):
    try:
        d = zlib.decompressobj()
        raw = d.decompress(blob)
        return {'blob': list(blob), 'ok': True, 'raw': list(raw), 'soft': not d.eof or bool(d.unused_data)}
    except zlib.error:
        # values may come out before the stream turns out to be damaged
        d = zlib.decompressobj()
        raw = b''
        for k in range(len(blob)):
            try:
                raw += d.decompress(blob[k:k + 1])
            except zlib.error:
                break
        return {'blob': list(blob), 'ok': False, 'raw': list(raw), 'soft': True}


def blobs(data, pos, E):
    """every compressed column that follows pos"""
    out = []
    for _ in range(9 + E):
        if pos + 8 > len(data):
            break
        m = int.from_bytes(data[pos:pos + 8], 'little')
        pos += 8
        if m and pos + m <= len(data):
            out.append(blob_info(data[pos:pos + m]))
        pos += m
    return out


def blobs_at(data, pos):
    try:
        w, E, n, flag, end = decode_header(data[pos:])
    except Bad:
        return []
    return blobs(data, pos + end, E) if flag else []


class Stream:
    """one history on one byte stream"""

    def __init__(self, ctx, name, rng):
        self.ctx, self.name, self.rng = ctx, name, rng
        self.events, self.meta = [], {}
        self.buf, self.at = b'', 0
        self.p = subprocess.Popen([os.path.join(ctx.bin, 'bytes')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env={'OMP_NUM_THREADS': '2', 'PATH': '/usr/bin:/bin'}, preexec_fn=as_limit)

    def ask(self, line):
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
            r = core.answer(self.p).decode('latin1').split()
        except (BrokenPipeError, OSError):
            r = []
        if not r:
            return ['crash']   # instead of an answer
        if r[0] == 'unknown':
            raise core.CheckError('harness did not understand ' + line[:100])
        return r

    def _ev(self, e, what):
        e.setdefault('ok', True)
        e['_cmd'] = [what]
        self.events.append(e)

    def open(self, data):
        self.ask('open ' + (data.hex() or '-'))
        self.buf, self.at = data, 0
        self._ev({'op': 'open', 'bytes': list(data), 'inf': []}, 'open %d bytes' % len(data))

    def write(self, cl, mode='auto'):
        r = self.ask('write %s %s' % (mode, wire(cl)))
        e = {'op': 'write', 'mode': mode, 'cl': spec_cloud(cl), 'ok': r[0] == 'ok', 'bytes': [], 'inf': [], 'crash': r[0] == 'crash'}
        if e['ok']:
            b = bytes.fromhex('' if r[1] == '-' else r[1])
            self.buf += b
            e['bytes'] = list(b)
            if cl.comp and mode not in ('rec', 'hdr'):
                e['inf'] = blobs(b, 18 + len(cl.wkt), e['cl']['E'])
        self._ev(e, 'write %s %s' % (mode, wire(cl)[:200]))
        return e

    def read(self, mode='auto'):
        r = self.ask('read ' + mode)
        e = {'op': 'read', 'mode': mode, 'ok': r[0] == 'ok', 'inf': blobs_at(self.buf, self.at), 'crash': r[0] == 'crash'}
        if e['ok']:
            used, w, c, E, n = int(r[1]), bytes.fromhex('' if r[2] == '-' else r[2]), r[3] != '0', int(r[4]), int(r[5])
            recs = []
            if mode != 'hdr':
                if 'MISMATCH' in r:   # the cloud contradicts itself
                    recs, v = [['mismatch']], []
                else:
                    v = [int(t) for t in r[6:]]
                m = 9 + E
                recs += [proj_rec(tuple(v[k:k + 9]) + (tuple(v[k + 9:k + m]),)) for k in range(0, len(v), m)]
            big = n >= 1 << 29
            e.update(used=used, w=list(w), c=c, E=E, n=limbs(n, 4) if big else n, recs=recs)
            self.at += used
        self._ev(e, 'read %s at %d of %d' % (mode, self.at, len(self.buf)))
        return e

    def limit(self, cl, lim, total, mode='auto', kind='p'):
        r = self.ask('limit %s %d %s %s' % (mode, lim, kind, wire(cl)))
        self._ev({'op': 'limit', 'mode': mode, 'lim': lim, 'total': total, 'ok': r[0] == 'ok', 'crash': r[0] == 'crash'}, 'limit %d of %d' % (lim, total))

    def done(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except (OSError, subprocess.TimeoutExpired):
            self.p.kill()


def as_limit():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (LIM, LIM))


def record_streams(ctx, specs):
    def one(s):
        st = Stream(ctx, s[0], core.rng_for(ctx, s[0]))
        try:
            core.history(s[1], st)
        finally:
            st.done()
        st.spec = s
        return st
    return core.record_all(ctx, one, specs)


def check_streams(ctx, specs):
    """specs: (name, fn(stream))"""
    ctx.harness('bytes')
    run_checked(ctx, specs, record_streams, 'TraceBytes', lambda e: e['op'] + ':' + e.get('mode', '') + (':ok' if e['ok'] else ':err'))


def bytes_model(ctx, es=(0, 1), maxrecs=1, values=(0, 258)):
    s = lambda v: '{%s}' % ', '.join(map(str, v))
    ctx.model('MCBytes', 'SPECIFICATION Spec\nCONSTANTS MaxRecs = %d Es = %s Values = %s Modes = {"auto", "unc", "comp", "hdr", "rec"}\n' % (maxrecs, s(es), s(values)) +
              'CONSTANT Pieces = %s\nINVARIANTS AllRepresentable Faithful Complete NotRefused Dedicated NoOverread Written\n' % ctx.scale('{1, 1000}', '{1, 13, 1000}') +
              ctx.scale('', 'PROPERTY Terminates\n'), min_states=1000, require_actions=('Deliver', 'Close', 'Read', 'GiveUp', 'Accept') if ctx.thorough else ())
