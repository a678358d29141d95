"""P28: the Python module (SpocPython: objects, records, lists and files of a program as a state machine; its behaviours and long random sessions
replayed on the real module, files compared with an independent decoder and, byte for byte, with what the applications write)."""
import json, os, subprocess
from laws import *
import core, shell
from shell import run_checked
from spocfile import decode_header

WTEXT = ['h', 'h41', 'h' + 'Z\u00fcrich \u00b0'.encode().hex(), 'h' + b"it's\n\t\"q\"".hex(), 'h41004200', 'L65535', 'L65536', 'L70000', 'L300']


def ptok(b):
    return 'L%d' % len(b) if len(b) > 48 and b.count(b'w') == len(b) else tok(b)


def unptok(t):
    return b'w' * int(t[1:]) if t[0] == 'L' else bytes.fromhex(t[1:])


def prec(q):
    return [limbs(v, 4) for v in q[:3]] + [limbs(v, 2) for v in q[3:5]] + [limbs(v, 1) for v in q[5:9]] + [limbs(v, 4) for v in q[9]]


def seen(data):
    if data is None:
        return {'k': 'none'}
    if not data:
        return {'k': 'empty'}
    try:
        cl = decode_all(data)
        return {'k': 'spoc', 'w': ptok(cl.wkt), 'c': cl.comp, 'recs': [prec(q) for q in cl.recs]}
    except (Bad, MemoryError, OverflowError):
        pass
    j = {'k': 'junk', 'h': tok(data)}
    try:
        h = decode_header(data)
        j['hdr'] = [ptok(h[0]), bool(h[3]), h[1], [h[2] >> 31, h[2] & 0x7fffffff], 0, 1]
    except Bad:
        pass
    return j


class Py:
    def __init__(self, ctx, name, rng):
        self.ctx, self.name, self.rng = ctx, name, rng
        self.events, self.meta = [], {}
        self.dir = ctx.tmp('py')
        self.p = subprocess.Popen(['/usr/bin/python3', os.path.join(core.VERIF, 'harness/pydrive.py'), ctx.pyext()], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env={'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '2'})
        self.names = set()
        self.st = {'o': [{'recs': [], 'w': 'h', 'c': False}] * 2, 'v': []}

    def path(self, n):
        return {'full': '/dev/full', 'missing': os.path.join(self.dir, 'no', 'such')}.get(n, os.path.join(self.dir, n))

    def data(self, n):
        try:
            with open(self.path(n), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def do(self, op, data=None):
        op = {'a': 0, 'b': 0, **op}
        if 'file' in op:
            op['path'] = self.path(op['file'])
            if op['file'] not in ('full', 'missing'):
                self.names.add(op['file'])
        if op['n'] == 'file':
            with open(op['path'], 'wb') as f:
                f.write(data)
            op['x'] = seen(data)
        e = {'op': {k: v for k, v in op.items() if k != 'path'}, '_cmd': [json.dumps(op)[:300]]}
        try:
            self.p.stdin.write(json.dumps(op).encode() + b'\n')
            self.p.stdin.flush()
            r = core.answer(self.p)
        except OSError:
            r = b''
        if not r:
            e['crash'] = True
            self.events.append(e)
            return False
        self.st = json.loads(r)
        e.update(self.st)
        e['canon'] = e.pop('mod') == [0, 1]
        if op['n'] == 'write' and e['ok'] and op['file'] in self.names:
            e['canon'] = e['canon'] and self.canonical(self.data(op['file']))
        e['f'] = [[n, seen(self.data(n))] for n in sorted(self.names)]
        self.events.append(e)
        return True

    def canonical(self, data):
        """the bytes the applications write for this cloud"""
        try:
            cl = decode_all(data)
        except Bad:
            return False
        if not cl.comp:
            return data == encode(cl)
        plain = Cloud(cl.wkt, False, cl.E, cl.recs)
        r = shell.execute([os.path.join(self.ctx.bin, 'compress')], self.dir, encode(plain))
        return r.rc == 0 and r.out == data

    def done(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except (OSError, subprocess.TimeoutExpired):
            self.p.kill()
        self.p.stdout.close()


def minimal(n):
    return limbs(n, max(1, (n.bit_length() + 15) // 16))


def value(r, j):
    """a value for field j (1-9, 10: extra)"""
    bits = {1: 64, 2: 64, 3: 64, 4: 32, 5: 32}.get(j, 16 if j < 10 else 64)
    k = r.random()
    if k < .1:
        return {'t': 'other', 'z': r.choice([0, 1, 2, 4] + ([3] if j > 3 else []))}
    if j <= 3 and k < .8:
        b = r.choice([d2b(r.uniform(-1e6, 1e6)), d2b(0.0), 1 << 63, 1, d2b(float('inf')), 0x7ff8000000000000, 0xfff8000000000123, r.getrandbits(64) & ~(0x7ff << 52)])
        return {'t': 'real', 'd': limbs(b, 4)}
    if j > 3 and k < .15:
        return {'t': 'real', 'd': limbs(d2b(r.choice([1.0, 2.5, 1e30])), 4)}
    n = r.choice([0, 1, 255, (1 << bits) - 1, r.getrandbits(bits), r.getrandbits(bits), 1 << (bits - 1)]) if r.random() < .85 else r.choice([1 << bits, (1 << bits) + 1, 1 << 80])
    if j <= 3:
        n = r.randrange(1 << 40)
    neg = bool(n) and r.random() < (.5 if j <= 3 else .1)
    return {'t': 'int', 'neg': neg, 'w': minimal(n), 'd': limbs(d2b(float(-n if neg else n)), 4)}


def walk(h, steps=50):
    r = h.rng
    for _ in range(steps):
        st = h.st
        a, b = r.randrange(2), r.randrange(2)
        n = r.choice(['make', 'read', 'read', 'read', 'header', 'write', 'write', 'write', 'file', 'file', 'wkt', 'comp', 'rnew', 'rget', 'rget', 'rput', 'rput', 'rput', 'rset', 'rset',
                      'rset', 'rextra', 'rextra', 'vget', 'vget', 'vset', 'vset', 'vadd', 'vadd', 'vdel', 'vedit', 'vedit', 'vbad', 'extra'])
        op, data = {'n': n, 'a': a, 'b': b}, None
        recs = st['o'][a]['recs']
        E = len(recs[0]) - 9 if recs else r.choice([0, 1, 3])
        if n == 'make':
            op.update(w=r.choice(WTEXT[:6]), c=bool(r.getrandbits(1)))
        elif n in ('read', 'header'):
            op['file'] = r.choice(sorted(h.names) + ['nofile', 'missing'] if h.names else ['nofile'])
        elif n == 'write':
            op['file'] = r.choice(['f0', 'f1', 'f2', 'f0', 'f1', 'f2', 'full', 'missing'])
        elif n == 'file':
            op['file'] = r.choice(['f0', 'f1', 'f2'])
            cl = cloud(r, r.choice([0, 1, 2, 5]), E=r.choice([None, 0, 1, 7, 255]) if r.random() < .9 else 255, coord=lambda q: q.uniform(-1e6, 1e6), wkt=unptok(r.choice(WTEXT[:6])))
            data = encode(cl)
            k = r.random()
            if k < .2:
                data = data[:r.randrange(len(data))]
            elif k < .3:
                p = r.randrange(4)
                data = data[:p] + bytes([data[p] ^ 1 << r.randrange(8)]) + data[p + 1:]
        elif n == 'wkt':
            op['w'] = r.choice(WTEXT)
        elif n == 'comp':
            op['c'] = bool(r.getrandbits(1))
        elif n in ('rget', 'rput', 'extra'):
            m = len(recs) if n != 'extra' else E
            op['i'] = r.choice([0, m - 1, m, m + 1, -1, r.randrange(max(1, m)), r.randrange(max(1, m)), 1 << 30])
        elif n == 'rset':
            op['j'] = r.randrange(1, 10)
            op['val'] = value(r, op['j'])
        elif n == 'rextra':
            k = r.choice([E, E, E, 0, 1, 2, 5]) if r.random() < .95 else r.choice([255, 256, 300])
            op['vals'] = [value(r, 10) if r.random() < .1 else {'t': 'int', 'neg': False, 'w': minimal(r.getrandbits(64)), 'd': [0]} for _ in range(k)]
        elif n == 'vdel' or n == 'vedit':
            if not st['v']:
                continue
            op['i'] = r.randrange(len(st['v']))
            if n == 'vedit':
                op['j'] = r.randrange(1, 10)
                op['val'] = value(r, op['j'])
        elif n == 'vadd' and len(st['v']) > 6:
            continue
        elif n == 'vbad':
            op['i'] = r.randrange(4)
        if not h.do(op, data):
            return


def damaged(h):
    """every kind of unreadable file raises, and what is readable is read"""
    r = h.rng
    for _ in range(6):
        cl = cloud(r, r.choice([1, 3]), E=r.choice([0, 2]), coord=lambda q: q.uniform(-9, 9), wkt=b'abc')
        d = encode(cl)
        for cut in {0, 1, 4, 17, 20, 21, len(d) - 1, len(d), r.randrange(len(d))}:
            h.do({'n': 'file', 'file': 'd'}, d[:cut])
            h.do({'n': 'read', 'file': 'd', 'a': r.randrange(2)})
            h.do({'n': 'header', 'file': 'd'})
        for k in (0, 3, 4, 5, 20):
            x = bytearray(d)
            x[k] ^= 0x40
            if k == 20:
                x[20] = 0xff        # more points than the file has, or another flag
            h.do({'n': 'file', 'file': 'd'}, bytes(x))
            h.do({'n': 'read', 'file': 'd', 'a': r.randrange(2)})
            h.do({'n': 'header', 'file': 'd'})


def bulk(h):
    """more records, every field"""
    r = h.rng
    for c in (False, True):
        cl = cloud(r, 300, E=r.choice([0, 4]), coord=lambda q: q.uniform(-1e7, 1e7), comp=c, wkt=b'bulk')
        h.do({'n': 'file', 'file': 'a'}, encode(cl))
        h.do({'n': 'read', 'file': 'a', 'a': 0})
        h.do({'n': 'vget', 'a': 0})
        h.do({'n': 'vset', 'a': 1})
        h.do({'n': 'comp', 'a': 1, 'c': not c})
        h.do({'n': 'write', 'file': 'b', 'a': 1})
        h.do({'n': 'write', 'file': 'full', 'a': 1})
        h.do({'n': 'write', 'file': 'c', 'a': 0})
        h.do({'n': 'read', 'file': 'b', 'a': 0})


def replay_py(ops):
    def f(h):
        for op in ops:
            if not h.do(op):
                return
    return f


def record(ctx, specs):
    def one(s):
        h = Py(ctx, s[0], core.rng_for(ctx, s[0]))
        core.history(s[1], h)
        h.done()
        h.spec = s
        return h
    return core.record_all(ctx, one, specs)


def run(ctx):
    ctx.start_pyext()
    ctx.start_apps(['compress'])
    ctx.model('MCPython', 'SPECIFICATION Spec\nCONSTANTS MaxRecs = 2 Depth = %d\nVIEW View\nINVARIANTS AlwaysSound Unharmed\nPROPERTIES ReadBack Framed\n' % ctx.scale(3, 4), min_states=1000, mem='10g')
    r = ctx.tlc('MCPython', 'SPECIFICATION GenSpec\nCONSTANTS MaxRecs = 4 Depth = 40\n', workers=1, args=['-simulate', 'num=%d' % ctx.scale(60, 1000), '-seed', str(ctx.seed), '-depth', '42'])
    beh = [json.loads(json.loads(l)[len('BEHAVIOUR '):]) for l in r['out'].splitlines() if l.startswith('"BEHAVIOUR ')]
    if not beh:
        raise core.CheckError('no behaviours generated')
    ctx.pyext()
    ctx.apps(['compress'])
    specs = [('model%d' % k, replay_py(b), {}) for k, b in enumerate(beh)]
    specs += [('walk%d' % k, walk, {}) for k in range(ctx.scale(60, 1000))]
    specs += [('damaged%d' % k, damaged, {}) for k in range(ctx.scale(2, 20))]
    specs += [('bulk%d' % k, bulk, {}) for k in range(ctx.scale(2, 20))]
    run_checked(ctx, specs, record, 'TracePython', lambda e: e['op']['n'])
