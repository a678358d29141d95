"""Model checking of the command families and replay of specification behaviours on the real applications."""
import json, re
import core
from shell import *
from gen import *

BASE = ['AllValid', 'Accepted', 'InputsUntouched', 'Tight', 'TightFail']


def consts(fam, recs, depth, XS, YS, CS, ES):
    s = lambda v: '{%s}' % ','.join(map(str, v))
    return 'CONSTANTS Fam = "%s" MaxRecs = %d Depth = %d XS = %s YS = %s CS = %s ES = %d\n' % (fam, recs, depth, s(XS), s(YS), s(CS), ES)


def shell_model(ctx, fam, laws, quick, thorough):
    """quick/thorough: (MaxRecs, Depth, XS, YS, CS, ES)"""
    c = consts(fam, *(thorough if ctx.thorough else quick))
    ctx.model('MCShell', 'SPECIFICATION Spec\n' + c + 'INVARIANTS ' + ' '.join(BASE + list(laws)), min_states=500, mem='8g',
              require_actions=('Succeed', 'Refuse', 'Examine') if ctx.thorough else ())


def behaviours(ctx, fam, n, depth, cs=(2, (0, 1, 3), (0, 2), (1, 2), 1)):
    """n behaviours of the specification, as (init, ops)"""
    r = ctx.tlc('MCShell', 'SPECIFICATION GenSpec\n' + consts(fam, cs[0], depth, *cs[1:]),
                args=['-simulate', 'num=%d' % max(1, n // core.NCPU), '-seed', str(ctx.seed), '-depth', str(depth + 2)])
    out = []
    for line in r['out'].splitlines():
        if line.startswith('"BEHAVIOUR '):
            out.append(json.loads(json.loads(line)[len('BEHAVIOUR '):]))
    if not out:
        raise core.CheckError('no behaviours generated for ' + fam)
    return out


def untok(w):
    return bytes.fromhex(w[1:])


def cloud_of(v, num):
    recs = []
    for r in v['recs']:
        recs.append((*[d2b(float(num.to(k))) for k in r[:3]], from_limbs(r[3]), from_limbs(r[4]), *[x[0] for x in r[5:9]],
                     tuple(from_limbs(e) for e in r[9])))
    return Cloud(untok(v['w']), v['c'], v['E'], recs)


def fname(d):
    return 'e%d' % d['j'] if d['f'] == 'e' else 'q' if d['f'] == '?' else d['f']


def do(sh, op, via='ff'):
    """runs one specification command on the real application"""
    a = op['app']
    if a == 'filter':
        co = op['coord']
        run_filter(sh, op['src'], op['dst'], via, [from_limbs(k) for k in op['keep']], [from_limbs(k) for k in op['remove']], op['uniq'],
                   op['res'], (co['ax'], co['gt'], co['v']) if co['ax'] else None, sh.rng.randrange(1, 99) if op['rand'] else sh.rng.choice([None, 0]))
    elif a == 'transform':
        c = Cmds(sh)
        seed = None
        for x in op['cmds']:
            n = x['n']
            if n == 'add':
                c.add(x['ax'], x['v'])
            elif n == 'scale':
                c.scale(x['ax'], x['num'], x['den'])
            elif n == 'rot':
                c.rot(x['ax'], x['q'])
            elif n == 'quant':
                c.quant(x['p'])
            elif n == 'set':
                c.set(fname(x['d']), x['v'] if x['d']['f'] in ('x', 'y', 'z') else from_limbs(x['v']))
            elif n == 'replace':
                c.replace(fname(x['d']), from_limbs(x['old']), from_limbs(x['new']))
            elif n == 'replnot':
                c.replnot(fname(x['d']), [from_limbs(k) for k in x['keep']], from_limbs(x['new']))
            elif n == 'copy':
                c.copy(fname(x['s']), fname(x['d']))
            elif n == 'noise':
                seed = sh.rng.randrange(2, 99)
                c.noise(x['kind'], x['axes'], x['m'] * sh.num.unit, seed)
        sh.tol = 0.999 if seed else 1e-6
        run_transform(sh, op['src'], c, op['dst'], via, seed=seed)
        sh.tol = 0.0
        if seed:          # noisy coordinates leave the lattice
            sh.put(op['dst'], cloud_of(sh.init['a'], sh.num))
    elif a == 'tool':
        if op['cmd'] == 'get-field':
            run_get(sh, op['src'], fname(op['d']), 'pp' if via == 'pp' else 'fp')
        elif op['cmd'] == 'set-field':
            run_set(sh, op['srcs'][0], fname(op['d']), 't', op['dst'], via)
        else:
            run_tool(sh, op['src'], op['cmd'], op['dst'], via, m=op.get('m'), high=op['srcs'][1] if 'srcs' in op else None, res=op.get('res'),
                     tol=0.999 if 'recenter' in op['cmd'] else 1e-6)
            if 'recenter' in op['cmd'] and op['dst'] in sh.files:      # the mean may lie off the lattice
                sh.put(op['dst'], cloud_of(sh.init['a'], sh.num))
    elif a == 'merge':
        run_merge(sh, op['srcs'], from_limbs(op['id']) if op['id'] else None, quiet=bool(sh.rng.getrandbits(1)))
    elif a == 'tile':
        run_tile(sh, op['src'], 'p', 'n' if op['mode'] == 'n' else 'xy', op['n'], op['sx'], op['sy'], 't_', op['digits'], op['force'])
    elif a == 'diff':
        run_diff(sh, *op['srcs'], mode=op['mode'], fields=''.join(str(f['j']) if f['f'] == 'e' else f['f'] for f in op['fields']), rev=op['rev'])
    elif a in ('compress', 'decompress'):
        run_codec(sh, a, op['src'], op['dst'], via)
    elif a == 'srs' and op['cmd'] == 'set':
        run_srs_set(sh, op['src'], untok(op['w']), op['dst'], via)
    elif a == 'srs':
        run_srs_get(sh, op['srcs'])
    else:
        raise core.CheckError('cannot run ' + a)


def replay_history(b):
    def fn(sh):
        sh.num = Num(1.0, 0.0) if sh.rng.random() < .5 else Num(0.25, 0.0)
        sh.init = b['init']
        sh.put('a', cloud_of(b['init']['a'], sh.num))
        sh.put('b', cloud_of(b['init']['b'], sh.num))
        t = b['init']['t']
        vals = [from_limbs(v) for v in t['v']]
        txt = '\n'.join('abc' if k + 1 == t['nbad'] else str(v) for k, v in enumerate(vals)) + '\n'
        put_text(sh, 't', txt.encode(), {'f': 'c'}, vals, t['nbad'])
        for step in b['hist']:
            op = step['op']
            if op['app'] == 'tile' and not sh.files.get(op['src']):
                continue
            src = op.get('src') or op['srcs'][0]
            via = sh.rng.choice(VIAS) if src in sh.files and op.get('dst') != '' else 'ff'
            if op['app'] == 'tile':
                op = dict(op)
            do(sh, op, via)
    return fn


def replay(ctx, fam, quick=40, thorough=800, depth=8, cs=(2, (0, 1, 3), (0, 2), (1, 2), 1)):
    bs = behaviours(ctx, fam, ctx.scale(quick, thorough), depth, cs)
    ctx.notes['behaviours_replayed_from_spec'] = ctx.notes.get('behaviours_replayed_from_spec', 0) + len(bs)
    return [('replay_%s_%d' % (fam, k), replay_history(b), {}) for k, b in enumerate(bs)]
