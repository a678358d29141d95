"""P25: results do not depend on the number of threads, on their schedule, or on repetition (SpocParallel: independent tasks give the sequential
result under every schedule; every command executed on the real OpenMP run time and on one of our own that chooses the schedule or detects races)."""
import hashlib, json, os, shutil
from laws import *
import core, shell
from shell import run_checked
import p08, p09, p10, p11, p13, p14, p15, p16, p17, p19, p20, p21, p22, p23
from p24 import cloud_of as lattice_of


class Par(shell.Sh):
    """every command is executed several times from the same state"""
    def configs(self, name):
        r = self.rng
        real = lambda t, **e: (name, t, 'real', {'OMP_NUM_THREADS': str(t), **e})
        turn = lambda t, o: ('shim_' + name, t, 'turn%d' % o, {'GSHIM_THREADS': str(t), 'GSHIM_ORDER': str(o)})
        c = [real(1)]
        some = [real(r.choice([2, 3, 5, 8, 13])), real(r.choice([2, 4, 16]), MALLOC_PERTURB_=str(r.choice([1, 85, 170, 255]))),
                real(1, MALLOC_PERTURB_=str(r.choice([1, 85, 170, 255])), OMP_SCHEDULE=r.choice(['dynamic', 'static,1'])),
                turn(r.choice([2, 3, 8, 30]), 1), turn(r.choice([2, 3, 4, 8]), r.randrange(2, 10 ** 6)), turn(r.choice([2, 5, 9, 64]), r.randrange(2, 10 ** 6)), turn(1, 0)]
        if self.few:
            some = r.sample(some, self.few)
        c += some
        if self.races and r.random() < self.races:
            c.append(('tsan_' + name, 4, 'free', {'GSHIM_THREADS': str(r.choice([2, 4])), 'GSHIM_ORDER': 'free',
                                                  'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:report_bugs=1'}))
        return c

    few, races = 0, .5

    def run(self, app, argv, op, stdin=None, text=None, verbose=None, env=None, timeout=120, tol=None, exe=None, sink=None, **kw):
        data = b'' if stdin is None else stdin if isinstance(stdin, bytes) else self.files.get(stdin, b'')
        before = dict(self.files)
        name = exe or app
        self.no = getattr(self, 'no', 0) + 1
        for i, (prog, threads, order, e) in enumerate(self.configs(name)):
            if i:
                for n in set(self.files) | set(before):
                    if self.files.get(n) != before.get(n):
                        if n in before:
                            with open(self.path(n), 'wb') as f:
                                f.write(before[n])
                        elif os.path.exists(self.path(n)):
                            os.unlink(self.path(n))
                self.files = dict(before)
            tsan = prog.startswith('tsan_')
            r = shell.execute([os.path.join(self.ctx.bin, prog), *argv], self.dir, data, e, timeout, space=not tsan)
            if tsan and b'FATAL: ThreadSanitizer' in r.err:
                self.ctx.notes['race_detector'] = 'does not run here'
                continue
            out = hashlib.sha1(r.out)
            for n, d in self.scan():
                out.update(n.encode() + b'\0' + (d or b'gone'))
            race = tsan and (r.rc == 66 or b'WARNING: ThreadSanitizer: data race' in r.err)
            self.events.append({'id': self.no, 'threads': threads, 'order': order, 'race': race, 'rc': r.rc, 'op': {'app': app, 'cmd': ('tsan' if tsan else order[:4])},
                                'out': '%d %s' % (124 if r.timeout else r.rc, out.hexdigest()),
                                '_cmd': ['%s=%s' % x for x in e.items()] + [name, *argv], '_stdin': stdin if isinstance(stdin, str) else None, '_err': r.err[-1500:].decode('latin1')})
        return r

    def done(self):
        self.events = [e for e in self.events if 'id' in e]
        super().done()


def record(ctx, specs):
    def one(s):
        name, fn, kw = s
        sh = Par(ctx, name, core.rng_for(ctx, name))
        for k, v in kw.items():
            setattr(sh, k, v)
        core.history(fn, sh)
        sh.done()
        sh.spec = s
        return sh
    return core.record_all(ctx, one, specs)


def large(sh):
    """many records: every region is split over the threads"""
    r = sh.rng
    sh.num = Num(1 / 64, 0.0)
    sh.put('in', cloud(r, r.choice([2000, 5000]), num=sh.num, E=r.choice([0, 3, 9]), coord=lambda q: q.randrange(-4000, 4000), dup=.1))
    a = cloud(r, 800, num=sh.num, E=2, comp=True, coord=lambda q: q.randrange(-400, 400))
    sh.put('b', a)
    sh.proj = lambda d: {'k': 'x'}
    if sh.comp_of('in'):
        run_codec(sh, 'decompress', 'in', 'plain')
    else:
        run_codec(sh, 'compress', 'in', 'comp')
        run_codec(sh, 'decompress', 'comp', 'plain')
    run_filter(sh, 'in', res=r.choice([64, 640]), seed=r.choice([None, 3]), dst='o1')
    run_filter(sh, 'in', uniq=True, seed=r.choice([None, 3]), dst='o2')
    run_filter(sh, 'b', keep=CLASSES[:5], dst='o3')
    c = Cmds(sh)
    g = Geo()
    for _ in range(4):
        g.step(c, r)
    run_affine(sh, 'in', c, dst='o4')
    if not sh.comp_of('in'):
        run_transform(sh, 'in', c, dst='o5')
        run_transform(sh, 'in', Cmds(sh).noise(r.choice('ug'), r.choice([[1], [3], [1, 2, 3]]), .25, 5), dst='o6', seed=r.choice([None, 5]))
    run_tool(sh, 'in', 'upsample', high='b', res=r.choice([64, 200]), dst='o7')
    run_tool(sh, 'in', r.choice(['recenter-xy', 'recenter-xyz', 'subtract-min-xyz']), dst='o8')
    run_merge(sh, ['in', 'b', 'in'], pid=r.choice([None, 7]))
    run_tile(sh, 'b', mode='n', n=r.choice([2, 5]), prefix='t')
    sh.run('info', r.choice([['-j'], [], ['-c']]) + ['in', 'b'], {'app': 'info'})


def library(sh):
    """searches and voxel grids of the library"""
    r = sh.rng
    sh.num = Num(1 / 64, 0.0)
    hexes = lambda v: ' '.join('%x' % d2b(float(x)) for x in v)
    for _ in range(3):
        W, n = r.choice([2, 10, 60]), r.choice([10, 40, 400])
        pts = lattice_of(r, n, W)
        idx = lambda k: '%d %s' % (k, ' '.join(str(r.randrange(n)) for _ in range(k)))
        lines = []
        for op in ('search', 'indexes', 'alln', 'all', 'get'):
            lines.append('%s %s 0 %x %d %d %s %s %s' % (op, r.choice(['record', 'point']), d2b(r.choice([1.0, W / 8, W / 2])), r.choice([2, 8, 1000]), n,
                                                      hexes(sum(pts, [])), idx(r.choice([5, n])), idx(n)))
        sh.run('radius', [], {'app': 'radius'}, stdin=('\n'.join(lines) + '\n').encode(), exe='radius')
        lines = ['voxel %s %s 0 %x %s %d %s %s' % (r.choice(['record', 'point']), m, d2b(r.choice([1.0, 2.5, W / 3])), hexes([0, 0, 0]), n, hexes(sum(pts, [])), idx(n))
                 for m in ('anchor', 'index', 'plain')]
        sh.run('geom', [], {'app': 'geom'}, stdin=('\n'.join(lines) + '\n').encode(), exe='geom')


def codecs(sh):
    """every number of extra fields, compressed and not"""
    r = sh.rng
    sh.num = None
    for k in range(3):
        cl = cloud(r, r.choice([0, 1, 2, 7, 33]), E=r.choice([0, 1, 2, 4, 8, 17, 60]), comp=False)
        sh.put('in%d' % k, cl)
        run_codec(sh, 'compress', 'in%d' % k, 'c%d' % k, via=r.choice(VIAS[:1]))
        run_codec(sh, 'decompress', 'c%d' % k, 'd%d' % k)
        run_srs_set(sh, 'c%d' % k, b'text', 'e%d' % k)
        sh.run('diff', ['in%d' % k, 'd%d' % k], {'app': 'diff'})


def again(sh):
    """random commands with random parameters, some of them repeated after others, in turn in a process that stays and in a new one"""
    r = sh.rng
    sh.num = Num(1 / 64, 0.0)
    sh.tol = .999
    stay = sh.servers
    names = ['a', 'b', 'c']
    for n in names:
        sh.put(n, cloud(r, r.choice([3, 20, 60]), num=sh.num, E=2, comp=n == 'b', coord=lambda q: 64 * q.randrange(-40, 40), dup=.2))
    todo = []
    for _ in range(5):
        f, s, res = r.choice(names), r.choice([None, 1, 7, 77]), r.choice([100, 320, 500])
        todo.append(lambda f=f, s=s, res=res: run_filter(sh, f, res=res, seed=s, det='r%s,%d' % (s, res)))
        todo.append(lambda f=f, s=s: run_filter(sh, f, uniq=True, seed=s, det='u%s' % s))
        c = Cmds(sh).noise(r.choice('ug'), r.choice([[1], [3], [1, 2, 3]]), .25, 5)
        todo.append(lambda f=f, s=s, c=c: f != 'b' and run_transform(sh, f, c, seed=s, det='n%s %s' % (s, json.dumps(c.a))))
        c2 = Cmds(sh)
        g = Geo()
        g.step(c2, r)
        todo.append(lambda f=f, c=c2: f != 'b' and run_transform(sh, f, c))
        todo.append(lambda f=f, res=res: run_tool(sh, f, 'upsample', high=r.choice(names), res=res))
        todo.append(lambda f=f, x=r.choice(['recenter-xy', 'recenter-xyz', 'subtract-min-xyz']): run_tool(sh, f, x))
        todo.append(lambda fs=[r.choice(names) for _ in range(3)]: run_merge(sh, fs, pid=None))
        todo.append(lambda f=f, g=r.choice(names): run_diff(sh, f, g))
    for _ in range(24):
        sh.servers = stay if r.random() < .8 else None
        r.choice(todo)()
    sh.servers = stay


def run(ctx):
    for kind in ('shim', 'tsan'):
        ctx.start_shim(kind)
    ctx.start_apps()
    ctx.start_again()
    for h in ('lib', 'radius', 'geom'):
        ctx.start_harness(h)
    for kind in ('tsan', 'shim'):
        for n in core.APPS + ['lib', 'radius', 'geom']:
            ctx.start_shimmed(kind, n)
    cfg = 'SPECIFICATION Spec\nINVARIANTS Deterministic AllIndependent\nCONSTANTS Locs = {%s} Workers = %d Mode = "%s"\nCHECK_DEADLOCK FALSE\n'
    acts = ['Take', 'Read', 'Write', 'Finish']
    ctx.model('MCParallel', cfg % ('1, 2, 3', 2, 'free'), min_states=10000, require_actions=acts)
    ctx.model('MCParallel', cfg % ('1, 2', *ctx.scale((2, 'three'), (3, 'three'))), min_states=1000)
    ctx.model('MCParallel', cfg % ('1', *ctx.scale((2, 'spoc'), (3, 'spoc'))), min_states=1000)
    r = ctx.tlc('MCParallel', cfg % ('1', 2, 'clash'), expect_ok=False)
    if 'Invariant Deterministic is violated' not in r['out']:
        raise core.CheckError('dependent tasks cannot go wrong in the model')
    ctx.apps()
    for h in ('lib', 'radius', 'geom'):
        ctx.harness(h)
    ctx.shimmed()
    q = ctx.scale(1, 12)
    kw = {'few': ctx.scale(4, 0), 'races': ctx.scale(.3, .7)}
    fns = [(p08.chains, 2), (p08.bits, 1), (p09.edits, 2), (p10.exact, 2), (p10.real, 2), (p10.composed, 2), (p11.bounds, 2), (p13.history, 3), (p14.sub, 3), (p15.lattice, 2), (p15.close, 1), (p16.merges, 3),
           (p17.grid_n, 2), (p17.grid_s, 2), (p19.inverse, 1), (p19.imports, 1), (p20.moves, 2), (p20.extras, 1), (p21.ups, 3), (p22.diffs, 1), (p23.reports, 2)]
    specs = [('large%d' % k, large, {'races': 1, 'few': ctx.scale(4, 0)}) for k in range(ctx.scale(3, 24))]
    specs += [('codecs%d' % k, codecs, {'races': 1}) for k in range(ctx.scale(6, 60))]
    specs += [('library%d' % k, library, {'races': 1}) for k in range(ctx.scale(8, 80))]
    specs += [('%s.%s%d' % (f.__module__, f.__name__, k), f, kw) for f, n in fns for k in range(n * q)]
    run_checked(ctx, specs, record, 'TraceParallel', lambda e: e['op']['app'] + ':' + e['op'].get('cmd', ''))
    # all the commands of a history in one process: what was done before makes no difference
    ctx.again()
    kw = {'stay': True}
    fns += [(again, 6)]
    check_histories(ctx, [('stay.%s.%s%d' % (f.__module__, f.__name__, k), f, kw) for f, n in fns for k in range(n * q)])
    n = sum(v for k, v in ctx.notes['events_by_kind'].items() if k.endswith(':tsan'))
    if not n and 'race_detector' not in ctx.notes:
        raise core.CheckError('the race detector was never used')
    ctx.assumptions += ['schedules: the turns of the threads change at the OpenMP scheduling points; finer interleavings only through the race detector',
                        'zlib is not instrumented for the race detector']
