"""Random clouds and commands: each command helper builds the argument vector and the specification's op."""
import math
from spocfile import *

CLASSES = [0, 1, 2, 3, 6, 7, 18, 200, 255, 256, 300, 4660, 65535, 65536, 0x10001, 2147483647]
U32 = [0, 1, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]
U16 = [0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF]
U64 = [0, 1, 255, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
WKTS = [b'', b'WKT', b'PROJCS["WGS 84 / UTM 18N",GEOGCS["x"]]', 'Z\u00fcrich \u00b0'.encode(), b"it's \"q\"\nline2\ttab", b' lead and trail ', b'A' * 300, b'nul\0in']
ARGWKTS = [w for w in WKTS if b'\0' not in w]       # what a command line can hold


def rec_of(rng, E, coord, u32=U32, cls=CLASSES, num=None):
    f = num.to if num else (lambda v: v)
    return (d2b(float(f(coord(rng)))), d2b(float(f(coord(rng)))), d2b(float(f(coord(rng)))),
            rng.choice(cls), rng.choice(u32), *[rng.choice(U16) if rng.random() < .7 else rng.randrange(65536) for _ in range(4)],
            tuple(rng.choice(U64) if rng.random() < .7 else rng.getrandbits(64) for _ in range(E)))


def cloud(rng, n, E=None, num=None, coord=None, comp=None, wkt=None, cls=None, dup=0.0):
    E = rng.choice([0, 0, 1, 2, 3, 5]) if E is None else E
    if n == 0:
        E = 0
    coord = coord or (lambda r: r.randrange(-400, 400))
    recs = [rec_of(rng, E, coord, cls=cls or CLASSES, num=num) for _ in range(n)]
    for k in range(n):
        if k and rng.random() < dup:
            recs[k] = recs[rng.randrange(k)][:3] + recs[k][3:]
    return Cloud(rng.choice(WKTS) if wkt is None else wkt, bool(rng.getrandbits(1)) if comp is None else comp, E, recs)


def crowd_cloud(r, n, num, E=0, comp=True, step=1):
    """n records, each location twice, the second time long after the first; the positions are the point IDs"""
    m = (n + 1) // 2
    at = [tuple(d2b(num.to(step * v)) for v in (k % 127, k // 127, k * k % 5)) for k in range(m)]
    more = list(range(n - m))
    if r.random() < .5:
        r.shuffle(more)
    return Cloud(b'many', comp, E, [at[k] + (r.choice((0, 1, 2, 7)), j, j & 255, j >> 8 & 255, 0, 65535 - (j & 65535), (j + 1,) * E) for j, k in enumerate(list(range(m)) + more)])


def crowded(ctx, todo, sizes=(1030, 4300, 66000), deep=(20000, 140000), **kw):
    """histories on clouds of many records: todo(sh, n)"""
    return [('crowd%d' % n, (lambda sh, n=n: todo(sh, n)), kw) for n in sizes + (deep if ctx.thorough else ())]


def num_s(v):
    """decimal text that reads back as exactly v"""
    r = repr(float(v))
    return r[:-2] if r.endswith('.0') else r


def io(via, src, dst):
    """-> (positional args, stdin name, dst designator)"""
    if via == 'ff':
        return [src, dst], None, dst
    if via == 'fp':
        return [src], None, ''
    return [], src, ''


VIAS = ['ff', 'fp', 'pp']


def opt(rng, long, short, val=None):
    """one of the spellings of an option"""
    k = rng.randrange(3 if short else 2)
    if val is None:
        return ['--' + long] if k < 2 or not short else ['-' + short]
    if k == 0:
        return ['--%s=%s' % (long, val)]
    if k == 1:
        return ['--' + long, str(val)]
    return ['-' + short, str(val)] if rng.random() < .5 else ['-%s%s' % (short, val)]


def run_filter(sh, src, dst='out', via='ff', keep=(), remove=(), uniq=False, res=0, coord=None, seed=None, det=None, verbose=False, **kw):
    r, num = sh.rng, sh.num
    a = []
    for k in keep:
        a += opt(r, 'keep-class', 'k', k)
    for k in remove:
        a += opt(r, 'remove-class', 'r', k)
    if uniq:
        a += opt(r, 'unique-xyz', 'u')
    if res:
        a += opt(r, 'subsample', 's', num_s(res * num.unit))
    if coord:
        ax, gt, v = coord       # v: a lattice integer, or bits where coordinates are bit patterns
        a += opt(r, 'remove-coords', 'c', '%s %s %s' % ('xyz'[ax - 1], '>' if gt else '<', num_s(num.to(v) if num else b2d(v))))
    if seed is not None:
        a += opt(r, 'random-seed', 'a', seed)
    if verbose:
        a += opt(r, 'verbose', 'v')
    pos, si, d = io(via, src, dst)
    op = {'src': src, 'dst': d, 'keep': [limbs(k, 2) for k in keep], 'remove': [limbs(k, 2) for k in remove], 'uniq': uniq,
          'res': res, 'coord': {'ax': coord[0], 'gt': coord[1], **({'v': coord[2]} if num else {'bits': limbs(coord[2], 4)})} if coord else {'ax': 0}, 'rand': bool(seed), 'cmd': 'filter'}
    if det is not None:
        op['det'] = det
    return sh.run('filter', a + pos, op, stdin=si, **kw)


def des(name):
    """field designator"""
    if name[:1] == 'e' and name[1:].isdigit():
        return {'f': 'e', 'j': int(name[1:])}
    if name in list('xyzcpirgb'):
        return {'f': name}
    return {'f': '?'}


WIDTH = {'c': 32, 'p': 32, 'i': 16, 'r': 16, 'g': 16, 'b': 16}


class Cmds:
    """builds a transform command list"""

    def __init__(self, sh, org=(0, 0, 0)):
        self.sh, self.a, self.c, self.org = sh, [], [], list(org)

    def _add(self, opt_, val, c):
        r = self.sh.rng
        self.a.append(['--%s=%s' % (opt_, val)] if r.random() < .7 else ['--' + opt_, str(val)])
        self.c.append(c)
        return self

    def add(self, ax, v):
        return self._add('add-' + 'xyz'[ax - 1], num_s(v * self.sh.num.unit), {'n': 'add', 'ax': ax, 'v': v})

    def scale(self, ax, num, den=1):
        return self._add('scale-' + 'xyz'[ax - 1], num_s(num / den), {'n': 'scale', 'ax': ax, 'num': num, 'den': den})

    def rot(self, ax, q):
        return self._add('rotate-' + 'xyz'[ax - 1], num_s(90 * q), {'n': 'rot', 'ax': ax, 'q': q % 4})

    def quant(self, p):
        return self._add('quantize-xyz', num_s(p * self.sh.num.unit), {'n': 'quant', 'p': p, 'o': self.org})

    def set(self, name, v):
        d = des(name)
        if d['f'] in 'xyz':
            return self._add('set', '%s,%s' % (name, num_s(self.sh.num.to(v))), {'n': 'set', 'd': d, 'v': v})
        return self._add('set', '%s,%d' % (name, v), {'n': 'set', 'd': d, 'v': limbs(v, 4)})

    def replace(self, name, old, new):
        return self._add('replace', '%s,%d,%d' % (name, old, new),
                         {'n': 'replace', 'd': des(name), 'old': limbs(old, 4), 'new': limbs(new, 4)})

    def replnot(self, name, keep, new):
        return self._add('replace-not', ','.join([name] + [str(k) for k in keep] + [str(new)]),
                         {'n': 'replnot', 'd': des(name), 'keep': [limbs(k, 4) for k in keep], 'new': limbs(new, 4)})

    def copy(self, s, d):
        return self._add('copy-field', '%s,%s' % (s, d), {'n': 'copy', 's': des(s), 'd': des(d)})

    def bad(self, opt_, val):
        return self._add(opt_, val, {'n': 'bad'})

    def rotp(self, ax, t):
        """rotation by the angle of a Pythagorean triple (cos, sin, hypotenuse), perhaps with whole turns added"""
        a, b, h = t
        return self._add('rotate-' + 'xyz'[ax - 1], num_s(math.degrees(math.atan2(b, a)) + self.sh.rng.choice([0, 0, 360, -360, 720])),
                         {'n': 'rotp', 'ax': ax, 'cs': a, 'sn': b, 'den': h})

    def noise(self, kind, axes, m, seed, stat=None):
        """m in coordinate units"""
        name = {'u': 'uniform-noise', 'g': 'gaussian-noise'}[kind] + ('' if len(axes) == 3 else '-' + 'xyz'[axes[0] - 1])
        self.seed = seed
        return self._add(name, num_s(m), {'n': 'noise', 'kind': kind, 'axes': list(axes), 'm': int(math.ceil(m / self.sh.num.unit)),
                                          **({'stat': stat} if stat else {})})


def run_affine(sh, src, cmds, dst='out', **kw):
    """the same commands through the in-memory library"""
    a = ['--points'] if sh.rng.random() < .5 else []
    for x in cmds.a:
        s = x[0] if len(x) == 1 else '='.join(x)
        if s.startswith('--add-') and sh.rng.random() < .5:
            s = s.replace('--add-', '--addv-')
        a.append(s)
    op = {'src': src, 'dst': dst, 'cmds': list(cmds.c), 'cmd': 'lib:' + '+'.join(sorted({c['n'] for c in cmds.c}))[:40]}
    return sh.run('transform', a + [src, dst], op, exe='lib', **kw)


def run_transform(sh, src, cmds, dst='out', via='ff', seed=None, det=None, verbose=False, split=False, **kw):
    a = [x for c in cmds.a for x in c]
    if seed is not None:
        a = opt(sh.rng, 'random-seed', 'a', seed) + a if sh.rng.random() < .5 else a + opt(sh.rng, 'random-seed', 'a', seed)
    if verbose:
        a += ['-v']
    pos, si, d = io(via, src, dst)
    op = {'src': src, 'dst': d, 'cmds': list(cmds.c), 'cmd': '+'.join(sorted({c['n'] for c in cmds.c}))[:40]}
    if det is not None:
        op['det'] = det
    return sh.run('transform', a + pos, op, stdin=si, **kw)


def run_merge(sh, srcs, pid=None, quiet=False, det=None, verbose=False, **kw):
    a = []
    if quiet:
        a += opt(sh.rng, 'quiet', 'q')
    if pid is not None:
        a += opt(sh.rng, 'point-id', 'p', pid)
    if verbose:
        a += ['-v']
    op = {'srcs': list(srcs), 'dst': '', 'id': [] if pid is None else limbs(pid, 2), 'cmd': 'merge'}
    if det is not None:
        op['det'] = det
    res = sh.run('merge', a + list(srcs), op, **kw)
    if sh.num and not sh.big:
        sh.events[-1]['op'].update(quiet=quiet, warn=[any(b'WARN' in x and w in x for x in res.err.splitlines()) for w in (b'reference', b'area')])
    return res


def run_tile(sh, src, via='f', mode='n', n=None, sx=0, sy=0, prefix=None, digits=None, force=False, det=None, verbose=False, **kw):
    r, num = sh.rng, sh.num
    a = []
    if mode == 'n':
        if n is not None:
            a += opt(r, 'tiles', 't', n)
        n = 2 if n is None else n
    elif mode == 's' and sx == sy:
        a += opt(r, 'tile-size', 's', num_s(sx * num.unit))
    else:
        if sx:
            a += opt(r, 'tile-size-x', 'x', num_s(sx * num.unit))
        if sy:
            a += opt(r, 'tile-size-y', 'y', num_s(sy * num.unit))
    if digits is not None:
        a += opt(r, 'digits', 'd', digits)
    if prefix is not None:
        a += opt(r, 'prefix', 'p', prefix)
    if force:
        a += opt(r, 'force', 'f')
    if verbose:
        a += ['-v']
    base = os.path.basename(src)
    stem, ext = os.path.splitext(base)
    if via == 'p':
        ext = None
    op = {'src': src, 'mode': 'n' if mode == 'n' else 's', 'n': n or 0, 'sx': sx, 'sy': sy, 'digits': 3 if digits is None else digits,
          'prefix': stem if prefix is None else prefix, 'force': force, 'cmd': mode}
    c = sh.comp_of(src)
    op['ext'] = ext if ext is not None else ('.zpoc' if c else '.spoc')
    if det is not None:
        op['det'] = det
    return sh.run('tile', a + ([src] if via == 'f' else []), op, stdin=None if via == 'f' else src, **kw)


def run_codec(sh, app, src, dst='out', via='ff', det=None, verbose=False, **kw):
    pos, si, d = io(via, src, dst)
    op = {'src': src, 'dst': d, 'cmd': app}
    if det is not None:
        op['det'] = det
    return sh.run(app, (['-v'] if verbose else []) + pos, op, stdin=si, **kw)


def run_srs_set(sh, src, w, dst='out', via='ff', verbose=False, det=None, **kw):
    pos, si, d = io('ff' if via == 'ff' else 'pp', src, dst)
    ws = w.decode('utf8', 'surrogateescape')
    a = ['--srs=' + ws] if sh.rng.random() < .5 else ['-s', ws]
    op = {'src': src, 'dst': d, 'w': tok(w), 'cmd': 'set'}
    if det is not None:
        op['det'] = det
    return sh.run('srs', (['-v'] if verbose else []) + a + pos, op, stdin=si, **kw)


def run_srs_get(sh, srcs, via='f', verbose=False, det=None, **kw):
    def text(out):
        # split by the known texts' line structure: every text is followed by one newline
        lens = [sh.wkt_of(s) for s in srcs]
        v, p = [], 0
        for w in lens:
            n = len(w) if w is not None else 0
            v.append(tok(out[p:p + n]))
            if out[p + n:p + n + 1] != b'\n':
                return {'k': 'text', 'h': tok(out)}
            p += n + 1
        return {'k': 'lines', 'v': v} if p == len(out) else {'k': 'text', 'h': tok(out)}
    op = {'srcs': list(srcs), 'dst': '', 'cmd': 'get'}
    if det is not None:
        op['det'] = det
    return sh.run('srs', (['-v'] if verbose else []) + (list(srcs) if via == 'f' else []), op,
                  stdin=None if via == 'f' else srcs[0], text=text, **kw)


def parse_lines(sh, d):
    """get-field output -> specification values"""
    def text(out):
        ls = out.decode('latin1').split('\n')
        if ls and ls[-1] == '':
            ls.pop()
        v = []
        for s in ls:
            try:
                if d['f'] in ('x', 'y', 'z'):
                    v.append(sh.num.of(float(s)) if sh.num else limbs(d2b(float(s)), 4))
                elif s.isdigit() and int(s) < 1 << 64:
                    v.append(limbs(int(s), 4))
                else:
                    v.append([70000])
            except ValueError:
                v.append(1999999999 if d['f'] in ('x', 'y', 'z') and sh.num else [70000])
        return {'k': 'lines', 'v': v}
    return text


def run_get(sh, src, name, via='fp', det=None, **kw):
    d = des(name)
    pos, si, _ = io(via, src, None)
    op = {'src': src, 'dst': '', 'd': d, 'cmd': 'get-field'}
    if det is not None:
        op['det'] = det
    return sh.run('tool', opt(sh.rng, 'get-field', 'g', name) + pos, op, stdin=si, text=parse_lines(sh, d), **kw)


def put_text(sh, name, data, d, vals, nbad=0):
    """a text file of values: data bytes, vals: their meaning"""
    with open(sh.path(name), 'wb') as f:
        f.write(data)
    sh.files[name] = data
    v = [x if d['f'] in ('x', 'y', 'z') and sh.num else limbs(x, 4) for x in vals]
    sh.events.append({'op': {'app': 'put'}, 'rc': 0, 'wr': [[name, {'k': 'text', 'v': v, 'nbad': nbad}]], 'so': {'k': 'none'}, 'to': False})


def run_set(sh, src, name, text, dst='out', via='ff', det=None, **kw):
    d = des(name)
    pos, si, dd = io(via, src, dst)
    a = opt(sh.rng, 'set-field', 's', name) + opt(sh.rng, 'field-filename', 'f', text)
    op = {'srcs': [src, text], 'dst': dd, 'd': d, 'cmd': 'set-field'}
    if det is not None:
        op['det'] = det
    return sh.run('tool', a + pos, op, stdin=si, **kw)


def run_tool(sh, src, cmd, dst='out', via='ff', m=None, high=None, res=None, det=None, verbose=False, **kw):
    pos, si, dd = io(via, src, dst)
    op = {'dst': dd, 'cmd': cmd, 'src': src}
    if cmd == 'resize-extra':
        a = ['--resize-extra=%d' % m]
        op['m'] = m
    elif cmd == 'upsample':
        a = ['--upsample-classifications=' + high]
        if res is not None:
            a.append('--resolution=' + num_s(res * sh.num.unit))
        op['srcs'] = [src, high]
        op['res'] = res or 0
    else:
        a = ['--' + cmd]
    if verbose:
        a.append('-v')
    if det is not None:
        op['det'] = det
    return sh.run('tool', a + pos, op, stdin=si, **kw)


def run_diff(sh, a, b, mode='all', fields='', rev=False, verbose=False, **kw):
    r = sh.rng
    av = []
    if mode == 'header':
        av += opt(r, 'header-only', 'a')
    elif mode == 'data':
        av += opt(r, 'data-only', 'd')
    elif mode == 'fields':
        if r.random() < .5:
            av += opt(r, 'field', 'f', fields)
        else:
            for ch in fields:
                av += opt(r, 'field', 'f', ch)
    elif mode == 'bad':
        av += r.choice([['-a', '-d'], ['-a', '-f', 'x'], ['-d', '-f', 'xc'], ['-d', '-a', '-f', '0'], ['-f', 'q'], ['-f', 'qx'], ['-f', 'xq'],
                        ['-f', 'xyzcpirgb0q'], ['-f', 'c', '-fxyzi', '--field=q']])
    if rev:
        av += opt(r, 'reverse', 'r')
    if verbose:
        av += ['-v']
    op = {'srcs': [a, b], 'mode': mode, 'rev': rev, 'cmd': mode,
          'fields': [des('e' + ch) if ch.isdigit() else des(ch) for ch in fields] if mode == 'fields' else []}
    return sh.run('diff', av + [a, b], op, **kw)


FIELDS = ['c', 'p', 'i', 'r', 'g', 'b']
VALS = {'c': CLASSES + [4294967295], 'p': U32, 'i': U16, 'r': U16, 'g': U16, 'b': U16}


def ifield(r, E):
    return r.choice(FIELDS + (['e%d' % j for j in r.sample(range(E), min(E, 3))] + ['e%d' % (E - 1)] if E else []))


def ival(r, f, wide=False):
    """a value that is likely to occur in the field; wide: any 64-bit value"""
    v = r.choice(VALS.get(f, U64)) if r.random() < .8 else r.choice(U64)
    return v if wide or v < 1 << 31 else r.choice([0, 1, 255, 256, 65535, 65536, 2147483647])


def edit(c, r, E):
    """one random field edit"""
    k = r.choice(['set', 'set', 'replace', 'replnot', 'copy'])
    f = ifield(r, E)
    if k == 'set':
        c.set(f, ival(r, f, True))
    elif k == 'replace':
        c.replace(f, ival(r, f), ival(r, f))
    elif k == 'replnot':
        c.replnot(f, [ival(r, f) for _ in range(r.choice([1, 1, 2, 3, 6]))], ival(r, f))
    else:
        c.copy(f, ifield(r, E))


class Geo:
    """state of a random exact geometric command chain: granularity and magnitude of the coordinates in lattice units"""

    def __init__(self, gran=64, mag=400 * 64):
        self.gran, self.mag, self.turned = gran, mag, False

    def step(self, c, r, ops=('add', 'scale', 'rot', 'quant', 'setxyz')):
        k = r.choice(ops)
        ax = r.randrange(1, 4)
        if k == 'add':
            v = self.gran * r.randrange(-500, 500)
            c.add(ax, v)
            self.mag += abs(v)
        elif k == 'scale':
            n, d = r.choice([(-1, 1), (2, 1), (3, 1), (0, 1), (1, 2), (3, 2), (-1, 4), (5, 4)])
            if self.gran % d or self.mag * abs(n) > 1 << 26:
                n, d = -1, 1
            c.scale(ax, n, d)
            self.gran //= d
            self.mag = max(self.mag, self.mag * abs(n) // d + 1)
        elif k == 'rotp':
            t = r.choice([(3, 4, 5), (-3, 4, 5), (4, -3, 5), (5, 12, 13), (-12, -5, 13), (8, 15, 17), (-20, 21, 29), (24, 7, 25), (28, -45, 53)])
            if self.gran % t[2] == 0:
                c.rotp(ax, t)
                self.gran //= t[2]
                self.mag *= 2
                self.turned = True
        elif k == 'rot':
            c.rot(ax, r.randrange(-3, 8))
            self.turned = True
        elif k == 'quant':
            if self.turned:
                return
            p = self.gran * r.choice([1, 2, 3, 5, 7]) if r.random() < .5 else r.choice([1, 2, 8, 48, 100])
            c.quant(p)
            self.gran = math.gcd(self.gran, p)
        else:
            v = self.gran * r.randrange(-500, 500)
            c.set('xyz'[ax - 1], v)
            self.mag = max(self.mag, abs(v))


import os
