"""P07: every history of operations on cloud objects keeps them consistent, refused operations change nothing, copies are independent
(SpocObject state machine; its behaviours and long random histories replayed on the real class in debug and release builds)."""
from bytesio import *
import json

WK = ['-', '41', 'c3a9', 'L65535', 'L65536']


class Objects:
    def __init__(self, ctx, name, rng, exe):
        self.ctx, self.name, self.rng, self.exe = ctx, name, rng, exe
        self.events, self.meta = [], {}
        self.p = subprocess.Popen([os.path.join(ctx.bin, exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=as_limit)
        self.state = {'o': [{'recs': []}] * 3, 'v': [[], []]}

    def do(self, op):
        op = {'a': 0, 'b': 0, **op}
        line = wire_op(op)
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
            r = core.answer(self.p)
        except OSError:
            r = b''
        if r == b'unknown\n':
            raise core.CheckError('object harness: ' + line)
        if not r:
            self.events.append({'op': op, 'crash': True, 'ok': False, '_cmd': [line]})
            return False
        e = json.loads(r)
        self.state = e
        self.events.append({'op': op, '_cmd': [line[:200]], **e})
        return True

    def done(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except (OSError, subprocess.TimeoutExpired):
            self.p.kill()


def wire_rec(q):
    return ' '.join(map(str, q[:9] + [len(q) - 9] + q[9:]))


def wire_recs(v):
    return ' '.join([str(len(v))] + [wire_rec(q) for q in v])


def wire_op(op):
    n, a, b = op['n'], op['a'], op['b']
    if n in ('make', 'makev'):
        v = [a, op['w'], int(op['c'])] + (op['m'] if n == 'makev' else []) + [wire_recs(op['recs'])]
    elif n == 'push':
        v = [a, wire_rec(op['rec'])]
    elif n == 'pushself':
        v = [a, b, op['i']]
    elif n == 'set':
        v = [a, op['i'], wire_rec(op['rec'])]
    elif n == 'setself':
        v = [a, op['i'], b]
    elif n in ('resize', 'moveback'):
        v = [a, op['i']]
    elif n == 'wkt':
        v = [a, op['w']]
    elif n == 'comp':
        v = [a, int(op['c'])]
    elif n == 'vec':
        v = [b, wire_recs(op['recs'])]
    elif n == 'vcopy':
        v = [b, a]
    elif n == 'vedit':
        v = [b, op['i']]
    elif n == 'new':
        v = [a]
    else:
        v = [a, b]
    return ' '.join(map(str, [n] + v))


def rrec(r, E):
    q = [r.randrange(1 << 20) for _ in range(3)] + [r.randrange(1 << 30) for _ in range(2)] + [r.randrange(65536) for _ in range(4)] + [r.randrange(1 << 30) for _ in range(E)]
    z = r.choice([0, 0, .5, .9])
    return [0 if r.random() < z else v for v in q]


def rrecs(r, E=None):
    E = r.choice([0, 0, 1, 2, 5]) if E is None else E
    v = [rrec(r, E) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
    if v and r.random() < .3:
        v[r.choice([0, -1, r.randrange(len(v))])] = rrec(r, r.choice([0, 1, 2, 3, 5, 6]))
    return v


def walk(h, steps, debug):
    r = h.rng
    for _ in range(steps):
        st = h.state
        a, b = r.randrange(3), r.randrange(3)
        ra = st['o'][a]['recs']
        E = len(ra[0]) - 9 if ra else r.choice([0, 1, 2])
        near = r.choice([E, E, E, E + 1, max(0, E - 1), 0])
        n = r.choice(['new', 'make', 'makev', 'copy', 'assign', 'moveassign', 'movector', 'swap', 'stdswap', 'clone', 'push', 'push', 'push', 'pushself', 'set', 'set',
                      'setself', 'setall', 'setfrom', 'movein', 'movein', 'moveout', 'moveback', 'resize', 'resize', 'wkt', 'comp', 'vec', 'vec', 'vcopy', 'vedit'])
        op = {'n': n, 'a': a, 'b': b}
        if n in ('make', 'makev'):
            op.update(w=r.choice(WK), c=bool(r.getrandbits(1)), recs=rrecs(r), m=r.choice([[0, 1], [0, r.randrange(256)], [r.randrange(256), r.randrange(256)]]))
            if op['w'] == 'L65536':
                op['w'] = '41'
        elif n == 'push':
            op['rec'] = rrec(r, near)
        elif n == 'pushself':
            if not st['o'][b]['recs']:
                continue
            op['i'] = r.randrange(len(st['o'][b]['recs']))
        elif n == 'set':
            if not ra and not debug:
                continue
            op['i'] = r.randrange(len(ra) + (2 if debug else 0))
            op['rec'] = rrec(r, near)
        elif n == 'setself':
            if not ra:
                continue
            op.update(i=r.randrange(len(ra)), b=r.randrange(len(ra)))
        elif n in ('setall', 'movein', 'moveout', 'vcopy'):
            op['b'] = r.randrange(2)
        elif n in ('resize', 'moveback'):
            op['i'] = r.choice([0, 1, 2, 3, 5, E, 255, 256, 300]) if r.random() < .3 else r.randrange(4)
        elif n == 'wkt':
            op['w'] = r.choice(WK)
        elif n == 'comp':
            op['c'] = bool(r.getrandbits(1))
        elif n == 'vec':
            op.update(b=r.randrange(2), recs=rrecs(r))
        elif n == 'vedit':
            op.update(b=r.randrange(2), i=r.randrange(100))
        if not h.do(op):
            return


def replay(h, ops):
    for op in ops:
        if not h.do({k: v for k, v in op.items()}):
            return


def record_objects(ctx, specs):
    def one(s):
        h = Objects(ctx, s[0], core.rng_for(ctx, s[0]), s[2])
        core.history(s[1], h)
        h.done()
        h.spec = s
        return h
    return core.record_all(ctx, one, specs)


def behaviours(ctx, n, depth):
    r = ctx.tlc('MCObject', 'SPECIFICATION GenSpec\nCONSTANTS MaxRecs = 4 Depth = %d\n' % depth,
                workers=1, args=['-simulate', 'num=%d' % n, '-seed', str(ctx.seed), '-depth', str(depth + 2)])
    out = [json.loads(json.loads(l)[len('BEHAVIOUR '):]) for l in r['out'].splitlines() if l.startswith('"BEHAVIOUR ')]
    out = list({json.dumps(x): x for x in out}.values())
    if len(out) < n // 2:
        raise core.CheckError('%d behaviours generated' % len(out))
    return out


def run(ctx):
    ctx.start_harness('object')
    ctx.start_harness('object', out='object_dbg', ndebug=False)
    ctx.model('MCObject', 'SPECIFICATION Spec\nCONSTANTS MaxRecs = %d Depth = %d\nVIEW View\nINVARIANTS Agree Headers Unharmed\nPROPERTY Framed\n' % ctx.scale((2, 4), (2, 5)),
              min_states=1000, mem='10g', timeout=850)
    beh = behaviours(ctx, ctx.scale(160, 4000), 24)
    ctx.harness('object')
    ctx.harness('object_dbg', ndebug=False)
    specs = []
    for k, b in enumerate(beh):
        specs.append(('b%d' % k, lambda h, b=b: replay(h, b), 'object_dbg'))
    for k in range(ctx.scale(60, 800)):
        dbg = k % 2 == 0
        specs.append(('w%d' % k, lambda h, dbg=dbg: walk(h, ctx.scale(80, 150), dbg), 'object_dbg' if dbg else 'object'))
    run_checked(ctx, specs, record_objects, 'TraceObject', lambda e: e['op']['n'] + (':ok' if e['ok'] else ':refused'))
    ctx.assumptions.append('record indexes out of range are only refused in builds with contracts enabled and are not tried in release builds')
