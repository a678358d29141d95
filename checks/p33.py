"""P33: printing a JSON value in either form gives the notation of exactly that value (SpocJson: a reader automaton over tokens; the model: notation is
inverted by it, nothing cut short or changed is taken for it; values of every C++ type and nesting printed by the real code and read back)."""
from decimal import Decimal
import core
from proc import *

RANGE = {'int': (-2 ** 31, 2 ** 31 - 1), 'char': (-128, 127), 'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1)}
TEXTS = ['', 'a', 'x y', '1', 'true', '[', '{}', 'a:b,c', ' ', 'GEOGCS(1)', 'n\tl', '-0.5', 'k']
LEAVES = list(RANGE) + ['float', 'double', 'bool', 'string', 'chars']


def canon(s):
    """a numeral and its value"""
    try:
        d = Decimal(s)
    except ArithmeticError:
        return s
    return format(d.normalize(), 'f') if d else '0'


def value(r, depth, kind=None):
    t = kind or r.choice(LEAVES + (['array', 'object'] * 4 if depth else []))
    x = lambda s: 'x' + s.encode().hex()
    if t in RANGE:
        lo, hi = RANGE[t]
        v = str(r.choice([lo, hi, 0, 1, 9, 10, 65, 255 if hi >= 255 else 99, hi // 2 + 1, r.randint(lo, hi)]))
        return '%s %s' % (t, v), {'k': 'num', 's': canon(v)}
    if t in ('float', 'double'):
        v = repr(r.choice([0.0, 1.0, -1.0, .5, -.25, 1.25, 1024.5, 999999.0, -123456.0, .015625, 100000.0, 3e5, -77.75, r.randrange(-9999, 9999) / 4]))
        return '%s %s' % (t, v), {'k': 'num', 's': canon(v)}
    if t == 'bool':
        v = r.choice(['true', 'false'])
        return 'bool ' + v, {'k': 'log', 's': v}
    if t in ('string', 'chars'):
        v = r.choice(TEXTS)
        return '%s %s' % (t, x(v)), {'k': 'str', 's': v}
    n = r.choice([0, 1, 2, 3, 5])
    if t == 'array':
        vs = [value(r, depth - 1) for _ in range(n)]
        return ' '.join(['array %d' % n] + [v[0] for v in vs]), {'k': 'arr', 'v': [v[1] for v in vs]}
    ks = r.sample(TEXTS, n)
    vs = [value(r, depth - 1) for _ in ks]
    return ' '.join(['object %d' % n] + [x(k) + ' ' + v[0] for k, v in zip(ks, vs)]), {'k': 'obj', 'm': [[k, v[1]] for k, v in zip(ks, vs)]}


def values(h):
    r = h.rng
    todo = [('value', t) for t in LEAVES for _ in range(2)] if h.name.endswith('0') else []
    todo += [(r.choice(['value', 'itself']), r.choice(['array', 'object'])) for _ in range(25)]
    for how, t in todo:
        line, v = value(r, r.choice([1, 1, 2, 4]), t)
        a = h.ask(how + ' ' + line)
        ev = {'op': t, 'v': v, '_cmd': [(how + ' ' + line)[:300]]}
        if a is None:
            ev['crash'] = True
        else:
            for f in a.values():
                for k in f:
                    if k['t'] == 'num':
                        k['s'] = canon(k['s'])
            ev['r'] = a
        h.events.append(ev)
        if a is None:
            break


def run(ctx):
    ctx.start_harness('json')
    ctx.model('MCJson', 'SPECIFICATION Spec\nINVARIANTS Understood Whole Exact\nCONSTANTS Size = %d\nCHECK_DEADLOCK FALSE\n' % ctx.scale(4, 6), min_states=500)
    ctx.harness('json')
    check_lines(ctx, [('values%d' % k, values, {'exe': 'json'}) for k in range(ctx.scale(40, 1000))], 'TraceJson')
    ctx.assumptions += ['texts without quotes (they are not escaped); numbers that need at most six digits']
