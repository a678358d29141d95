"""P23: info reports the header, ranges, quartiles, class counts and densities of the file, the same in text, compact and JSON output; each
switch only adds or removes its own section (SpocInfo; reports of the real application parsed into items and validated against it)."""
import re
from fractions import Fraction as F
from laws import *
from p04 import run_info as any_info

STAT = {'x', 'y', 'z', 'c', 'p', 'i', 'r', 'g', 'b'}
METRICS = {'extent_point_density': 2, 'grid_point_density': 0, 'voxel_point_density': 0}


class Report:
    """parses reports into the items of the specification"""

    def __init__(self, num):
        self.num = num
        self.unit = F(num.unit)

    def number(self, t, off=True):
        if not re.fullmatch(r'-?\d+(\.\d+)?', t):
            return {'s': 'bad ' + t}
        v = F(t)
        q = (v - (F(self.num.org) if off else 0)) / self.unit
        k = round(q)
        if abs(q - k) > F(1, 10 ** 6) * (1 + abs(q) / 10 ** 6) or abs(k) >= 1 << 30:
            return {'s': 'off ' + t}
        return {'int': k}

    def word(self, t):
        return {'w': limbs(int(t), 4)} if t.isdigit() and int(t) < 1 << 64 else {'s': 'bad ' + t}

    def value(self, key, name, t, empty=False):
        if name == 'size' or empty:
            return {'int': int(t)} if t.isdigit() and len(t) < 9 else {'s': 'bad ' + t}
        if key in 'xyz':
            return self.number(t, name in ('min', 'max') or name.startswith('q'))
        return self.word(t)

    def plain(self, key, t):
        if key == 'compressed':
            t = {'true': '1', 'false': '0'}.get(t, t)
        return {'k': key, 'v': {'int': int(t)} if re.fullmatch(r'\d{1,9}', t) else {'s': 'bad'}}

    def metric(self, key, t, unit):
        it = {'k': key, 'unit': unit}
        if re.fullmatch(r'\d+(\.\d+)?', t):
            v = F(t) * self.unit ** METRICS[key]
            it['v6'] = min(round(v * 10 ** 6), 1 << 30)
            it['r3'] = min(round(1 / v * 1000), 1 << 30) if v else 1 << 30
        return it

    def cls(self, c, n, name):
        ok = c.isdigit() and int(c) < 1 << 32 and n.isdigit() and len(n) < 9
        return {'k': 'cls', 'c': limbs(int(c), 2), 'n': int(n), 'name': name} if ok else {'k': 'bad'}

    def stats(self, key, pairs):
        empty = ('size', '0') in pairs
        return {'k': key, 'v': {a: self.value(key, a, b, empty) for a, b in pairs}}

    # ---- text ----
    def text(self, out):
        out = out.decode('latin1')
        items, lines, pos = [], [], 0
        # the SRS text may have line ends
        while True:
            m = re.compile(r"^ogc_wkt\t'(.*?)'\n(?=total_points\t)", re.S | re.M).search(out, pos)
            part = out[pos:m.start() if m else len(out)]
            lines += part.split('\n')[:-1] if part else []
            if part and not part.endswith('\n'):
                items.append({'k': 'bad'})
            if not m:
                break
            lines.append(('wkt', m.group(1)))
            pos = m.end()
        cur = None
        for ln in lines:
            if isinstance(ln, tuple):
                cur = None
                items.append({'k': 'wkt', 'v': {'s': tok(ln[1].encode('latin1'))}})
                continue
            f = ln.split('\t')
            key = re.sub(r'^extra_(\d+)$', r'e\1', f[0])
            name = f[0]
            if cur is not None and len(f) == 2 and name in ('size', 'range', 'min', 'max', 'q0', 'q1', 'q2', 'q3', 'q4'):
                cur[1].append((name, f[1]))
                continue
            if cur:
                items.append(self.stats(*cur))
                cur = None
            if name in ('major_version', 'minor_version', 'total_points', 'compressed') and len(f) == 2:
                items.append(self.plain(name, f[1]))
            elif name.startswith('cls_') and len(f) == 3:
                items.append(self.cls(name[4:], f[1], f[2]))
            elif name in METRICS and len(f) == 3:
                items.append(self.metric(name, f[1], f[2]))
            elif key in STAT or re.fullmatch(r'e\d+', key):
                num = r'(-?[\d.]+)'
                m = re.fullmatch(r'range=%s, min=%s, max=%s' % (num, num, num), f[1])
                q = re.fullmatch(r'range=%s, %s \+ %s \+ %s \+ %s \+ %s = %s' % ((num,) * 7), f[1])
                if m:
                    items.append(self.stats(key, list(zip(('range', 'min', 'max'), m.groups()))))
                elif q:
                    items.append(self.stats(key, list(zip(('range', 'q0', 'd1', 'd2', 'd3', 'd4', 'q4'), q.groups()))))
                elif f[1].isdigit():
                    cur = (key, [('size', f[1])])
                else:
                    items.append({'k': 'bad'})
            else:
                items.append({'k': 'bad'})
        if cur:
            items.append(self.stats(*cur))
        for it in items:
            if it['k'] != 'bad' and isinstance(it.get('v'), dict) and len(it['v']) > 1 and it['v'].get('size') == {'int': 0}:
                it['v'] = {'size': {'int': 0}, 'min': it['v'].get('min'), 'max': it['v'].get('max')}
        return items

    # ---- JSON ----
    def json(self, out):
        toks = re.findall(r"'((?:[^'])*)'|([{}\[\]:,])|([^\s{}\[\]:,']+)", out.decode('latin1'))
        pos = 0

        def nxt():
            nonlocal pos
            pos += 1
            return toks[pos - 1]

        def value():
            s, p, w = nxt()
            if p == '{':
                d = {}
                while toks[pos][1] != '}':
                    k = nxt()[0]
                    if nxt()[1] != ':':
                        raise ValueError
                    if k in d:
                        raise ValueError
                    d[k] = value()
                    if toks[pos][1] == ',':
                        nxt()
                nxt()
                return d
            if p == '[':
                a = []
                while toks[pos][1] != ']':
                    a.append(value())
                    if toks[pos][1] == ',':
                        nxt()
                nxt()
                return a
            if p:
                raise ValueError
            return w or ('str', s)
        items = []
        try:
            while pos < len(toks):
                j = value()
                for sec, d in j.items():
                    if sec == 'header':
                        for k, v in d.items():
                            items.append({'k': k, 'v': {'s': tok(v[1].encode('latin1'))}} if k == 'wkt' else self.plain(k, v))
                    elif sec == 'summary':
                        ex = d.pop('extra')
                        for k, v in list(d.items()) + [('e%d' % n, v) for n, v in enumerate(ex)]:
                            items.append(self.stats(k, list(v.items())))
                    elif sec == 'classifications':
                        items += [self.cls(k, v, '') for k, v in d.items()]
                    elif sec == 'metrics':
                        items += [self.metric(k, v, '') if k in METRICS else {'k': 'bad'} for k, v in d.items()]
                    else:
                        items.append({'k': 'bad'})
        except (ValueError, IndexError, KeyError, AttributeError, TypeError):
            return [{'k': 'bad'}]
        return items


LONG = {'j': 'json', 'a': 'header-info', 's': 'summary-info', 'l': 'classification-info', 'm': 'metric-info', 'c': 'compact', 'q': 'quartiles'}


def info(sh, names, step, flags=None, via='f'):
    r = sh.rng
    sw = {'j': False, 'a': True, 's': True, 'l': True, 'm': True, 'c': True, 'q': False}
    flags = [f for f in 'jaslmcq' if r.random() < .45] if flags is None else list(flags)
    if r.random() < .15:
        flags.append(r.choice('jaslmcq'))
    for f in flags:
        sw[f] = not sw[f]
    argv = []
    if flags and r.random() < .3:
        argv = ['-' + ''.join(flags)]
    else:
        argv = ['--' + LONG[f] if r.random() < .5 else '-' + f for f in flags]
    if r.random() < .1:
        argv.append('-v')
    rep = Report(sh.num)
    parse = rep.json if sw['j'] else rep.text
    return sh.run('info', argv + (list(names) if via == 'f' else []), {'srcs': list(names), 'dst': '', 'cmd': 'report', 'sw': sw, 'step': step},
                  stdin=None if via == 'f' else names[0], text=lambda o: {'k': 'report', 'items': parse(o)})


WK = [b'', b'PROJCS["NAD83 / UTM zone 16N",UNIT["m",1]]', b'x' * 300, b'a\tb', b'caf\xc3\xa9', b'EPSG:32616']


def reports(sh):
    r = sh.rng
    unit, step = r.choice([(1.0, 1), (.5, 2), (1 / 8, 8), (1 / 8, 8)])
    sh.num = Num(unit, r.choice([0.0, 0.0, 431232.0, -4582912.0]))
    spread = r.choice([2, 20, 60, 400])
    co = lambda q: q.randrange(-spread, spread)
    E = r.choice([0, 1, 2, 12])
    for k, n in enumerate([r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9]), r.choice([1, 12, 13, 14, 15, 40])]):
        cl = cloud(r, n, E=E, num=sh.num, coord=co, wkt=r.choice(WK), dup=r.choice([0, .5]), cls=r.choice([None, CLASS]))
        if r.random() < .3:      # degenerate: no extent along some axes
            ax = r.sample(range(3), r.choice([1, 2, 3]))
            cl.recs = [tuple(cl.recs[0][k] if k in ax else v for k, v in enumerate(q)) for q in cl.recs]
        if r.random() < .6:      # different numbers of cells along and across the axes
            w = [r.choice([1, step, 2 * step, 4 * step, 30 * step]) for _ in range(3)]
            cl.recs = [tuple(d2b(sh.num.to(r.randrange(-w[k], w[k]))) if k < 3 else v for k, v in enumerate(q)) for q in cl.recs]
        if r.random() < .4:      # towers: cells seen again far above or beside the others
            w = [r.choice([1, step, 3 * step]) for _ in range(3)]
            w[r.randrange(3)] = r.choice([300, 1100, 2500]) * step
            at = [[r.randrange(-w[k], w[k]) for _ in range(r.choice([1, 2, 3]) if w[k] < 100 * step else 6)] for k in range(3)]
            cl.recs = [tuple(d2b(sh.num.to(r.choice(at[k]))) if k < 3 else v for k, v in enumerate(q)) for q in cl.recs]
        sh.put('ab'[k], cl)
    sh.put('n', cloud(r, 0, wkt=b'none', num=sh.num))
    for n in 'ab':
        for fl in ['', 'j', 'q', 'c', 'cq', 'jq', 'jc']:
            info(sh, [n], step, fl, r.choice('fp'))
    for _ in range(6):
        info(sh, r.choice([['a'], ['b'], ['a', 'b'], ['b', 'a'], ['a', 'a', 'b'], ['n'], ['n', 'a'], ['a', 'n']]), step)


CLASS = [0, 1, 2, 6, 7, 8, 12, 18, 22, 23, 63, 64, 65, 255, 256, 999, 1000, 4464, 65536 + 2, 1 << 31, (1 << 32) - 1, (1 << 31) + 2, (1 << 16) + 64]


def values(sh):
    """integers from the whole range of their types"""
    r = sh.rng
    sh.num = Num(1 / 8)
    n = r.choice([1, 2, 4, 5, 7])
    E = 3
    pool = lambda w: r.choice([0, 1, (1 << w - 1) - 1, 1 << w - 1, (1 << w) - 1, r.getrandbits(w), r.getrandbits(w)])
    recs = []
    for _ in range(n):
        recs.append(tuple([d2b(sh.num.to(r.randrange(-5000, 5000))) for _ in range(3)] + [pool(w) for w in (32, 32, 16, 16, 16, 16)] + [tuple(pool(64) for _ in range(E))]))
    sh.put('a', Cloud(b'w', bool(r.getrandbits(1)), E, recs))
    sh.put('c', Cloud(b'w', False, 0, [tuple(list(q[:3]) + [r.choice(CLASS)] + list(q[4:9]) + [()]) for q in recs * 3]))
    for fl in ['', 'j', 'q', 'c', 'cq', 'jq', 'jcq', 'asm', 'jasm', 'asl', 'jasl', 'sml', 'aslm', 'jaslm']:
        info(sh, [r.choice('ac')], 8, fl, r.choice('fp'))
    for k in range(8):
        info(sh, r.choice([['a'], ['c'], ['c', 'a']]), 8)


def classes(sh):
    """every class number"""
    sh.num = Num(1.0)
    r = sh.rng
    base = rec_of(r, 0, lambda q: q.randrange(9), num=sh.num)
    for part in range(3):
        cs = list(range(part * 90, part * 90 + 90)) + r.sample(CLASS, 8)
        sh.put('a', Cloud(b'', False, 0, [tuple(list(base[:3]) + [c] + list(base[4:])) for c in cs for _ in range(r.choice([1, 1, 2]))]))
        info(sh, ['a'], 1, 'as')
        info(sh, ['a'], 1, 'jasm')


def decimals(sh):
    r = sh.rng
    sh.num = Num(r.choice([.001, .01, .1]), 0.0)
    sh.tol = 1e-6
    co = lambda q: q.randrange(-90000, 90000) if q.random() < .5 else q.randrange(431234000, 431239000)
    sh.put('a', cloud(r, r.choice([1, 5, 9]), num=sh.num, wkt=r.choice(WK), coord=co))
    for fl in ['', 'j', 'q', 'cq', 'c', 'jq']:
        info(sh, ['a'], 0, fl)


def huge(sh):
    r = sh.rng
    sh.num = Num(2.0 ** r.choice([40, 200, 900]))
    sh.put('a', cloud(r, r.choice([1, 5, 9]), num=sh.num, wkt=r.choice(WK)))
    for fl in ['', 'j', 'q', 'cq', 'c', 'jq']:
        info(sh, ['a'], 0, fl)


def refused(sh):
    r = sh.rng
    sh.num = Num(1.0)
    sh.put('a', cloud(r, 3, num=sh.num))
    sh.put('j', b'SPOCjunk')
    sh.put('t', encode(cloud(r, 3, num=sh.num, comp=False))[:-3])
    for n in ['j', 't', 'zz']:
        for v in 'fp':
            if n != 'zz' or v == 'f':
                any_info(sh, n, v)
        sh.run('info', ['a', n], {'srcs': ['a', n], 'dst': '', 'cmd': 'info'}, text=lambda o: {'k': 'text'})
    for a in (['-z', 'a'], ['--jsn', 'a'], ['--quartile=3', 'a']):
        sh.run('info', a, {'usage': 'bad', 'cmd': 'bad'})


def crowd(sh, n):
    """many records"""
    r = sh.rng
    sh.num = Num(1.0)
    src = sh.put('a', crowd_cloud(r, n, sh.num))
    for fl in ['', 'jq', 'cq']:
        info(sh, [src], 1, fl, r.choice('fp'))


def run(ctx):
    ctx.start_apps(['info'])
    ctx.apps(['info'])
    check_histories(ctx, crowded(ctx, crowd, (1030, 20000), (66000,)) + [('reports%d' % k, reports, {}) for k in range(ctx.scale(30, 500))] + [('values%d' % k, values, {}) for k in range(ctx.scale(16, 300))] +
                    [('classes', classes, {}), ('refused', refused, {})] + [('decimals%d' % k, decimals, {}) for k in range(ctx.scale(8, 100))] +
                    [('huge%d' % k, huge, {}) for k in range(ctx.scale(6, 60))])
    ctx.assumptions += ['densities are compared in millionths; those of clouds without points or extent are not defined',
                        'SRS texts with single quotes are not used with JSON output, which does not escape them']
