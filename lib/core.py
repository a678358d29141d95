"""Check framework: building from /repo, recording, TLC, verdicts, evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, select, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SPOC_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
APPS = ['compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform']
NCPU = os.cpu_count() or 4
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Enough(Exception):
    """too many hangs: the rest of the history is left out"""


class Patience:
    """programs that do not answer: wait less from the third time on, and stop recording after the eighth"""
    hangs = 0

    @classmethod
    def of(cls, seconds):
        if cls.hangs >= 8:
            raise Enough
        return seconds if cls.hangs < 2 else min(seconds, 15)

    @classmethod
    def hung(cls):
        cls.hangs += 1

    @classmethod
    def again(cls):
        cls.hangs = min(cls.hangs, 2)


def answer(p):
    """a line of the harness, or nothing if it does not answer"""
    try:
        ready = select.select([p.stdout], [], [], Patience.of(60))[0]
    except Enough:
        ready = False
    if not ready:
        Patience.hung()
        p.kill()
        return b''
    return p.stdout.readline()


def record_all(ctx, one, specs):
    """one(spec) for every one, in parallel"""
    def go(s):
        return None if Patience.hangs >= 8 else one(s)
    return [h for h in ctx.pool.map(go, specs) if h is not None]


def history(fn, h):
    try:
        fn(h)
    except Enough:
        pass


class CheckError(Exception):
    """The machinery failed: not a verdict about the property."""


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='spocv_%s_' % pid)
        os.chmod(self.work, 0o755)
        self.bin = os.path.join(self.work, 'bin')
        os.makedirs(self.bin)
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.level = 'model_checking'
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.builds = cf.ThreadPoolExecutor(NCPU)
        self.lock = threading.Lock()
        self._futs = {}
        self._n = 0

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def tmp(self, name):
        with self.lock:
            self._n += 1
            d = os.path.join(self.work, '%s%d' % (name, self._n))
        os.makedirs(d)
        return d

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    # ---- building ------------------------------------------------------------------------
    def _compile(self, cmd, what):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError('building %s failed:\n%s' % (what, r.stdout[-3000:]))

    def start_apps(self, apps=APPS, flags=()):
        for a in apps:
            if ('app', a) in self._futs:
                continue
            src = sorted(glob.glob('%s/apps/%s/*.cpp' % (REPO, a)))
            cmd = ['g++', '-std=gnu++20', '-O1', '-DNDEBUG', '-fopenmp', *flags, '-I' + REPO,
                   '-I%s/apps/%s' % (REPO, a), *src, '-o', os.path.join(self.bin, a), '-lz']
            self._futs[('app', a)] = self.builds.submit(self._compile, cmd, a)

    def apps(self, apps=APPS):
        self.start_apps(apps)
        for a in apps:
            self._futs[('app', a)].result()
        return self.bin

    def start_harness(self, name, flags=(), opt='-O1', out=None, std='gnu++20', ndebug=True):
        key = ('h', out or name)
        src = os.path.join(VERIF, 'harness', name + '.cpp')
        cmd = ['g++', '-std=' + std, opt, *(['-DNDEBUG'] if ndebug else []), '-fopenmp', '-w', '-I' + REPO,
               *['-I%s/apps/%s' % (REPO, a) for a in APPS], *flags, src, '-o', os.path.join(self.bin, out or name), '-lz', '-lgmp']
        self._futs[key] = self.builds.submit(self._compile, cmd, out or name)
        return key

    def harness(self, name, **kw):
        out = kw.get('out') or name
        if ('h', out) not in self._futs:
            self.start_harness(name, **kw)
        self._futs[('h', out)].result()
        return os.path.join(self.bin, out)

    # the same programs on the run time of harness/gomp_shim.cpp (kind "shim": scheduled in turns, "tsan": with the race detector)
    def start_shim(self, kind):
        f = ['-fsanitize=thread', '-g1'] if kind == 'tsan' else []
        cmd = ['g++', '-std=gnu++20', '-O1', *f, '-c', os.path.join(VERIF, 'harness/gomp_shim.cpp'), '-o', os.path.join(self.bin, kind + '.o')]
        self._futs[('shim', kind)] = self.builds.submit(self._compile, cmd, kind)

    def _shimmed(self, kind, name, obj, link):
        self._compile(obj, name)
        self._futs[('shim', kind)].result()
        try:
            self._compile(link + [os.path.join(self.bin, kind + '.o'), '-lz', '-lgmp', '-lpthread'], name)
        except CheckError as e:
            if 'undefined reference' not in str(e):
                raise
            # a construct that the stand-in does not know: the real run time, scheduled by the system
            self.notes.setdefault('not_on_the_stand_in', []).append(kind + '_' + name)
            self._compile(link + ['-fopenmp', '-lz', '-lgmp'], name)

    def start_shimmed(self, kind, name):
        f = ['-fsanitize=thread', '-g1'] if kind == 'tsan' else []
        app = name in APPS
        srcs = sorted(glob.glob('%s/apps/%s/*.cpp' % (REPO, name))) if app else [os.path.join(VERIF, 'harness', name + '.cpp')]
        out = os.path.join(self.bin, kind + '_' + name)
        one = out + '.src.cpp'
        with open(one, 'w') as h:
            h.write(''.join('#include "%s"\n' % s for s in srcs))
        obj = ['g++', '-std=gnu++20', '-O1', '-DNDEBUG', '-fopenmp', '-w', *f, '-I' + REPO,
               *['-I%s/apps/%s' % (REPO, a) for a in ([name] if app else APPS)], '-c', one, '-o', out + '.o']
        link = ['g++', *f, out + '.o', '-o', out]
        self._futs[(kind, name)] = self.builds.submit(self._shimmed, kind, name, obj, link)

    def shimmed(self):
        for k, f in list(self._futs.items()):
            if k[0] in ('shim', 'tsan'):
                f.result()

    def _again(self, name):
        out = os.path.join(self.bin, 'again_' + name)
        with open(out + '.src.cpp', 'w') as h:
            h.write(''.join('#include "%s"\n' % s for s in sorted(glob.glob('%s/apps/%s/*.cpp' % (REPO, name)))))
        self._compile(['g++', '-std=gnu++20', '-O1', '-DNDEBUG', '-fopenmp', '-w', '-I' + REPO, '-I%s/apps/%s' % (REPO, name), '-c', out + '.src.cpp', '-o', out + '.o'], name)
        self._compile(['objcopy', '--redefine-sym', 'main=again_main', out + '.o'], name)
        self._futs[('shim', 'again')].result()
        self._compile(['g++', '-fopenmp', out + '.o', os.path.join(self.bin, 'again.o'), '-o', out, '-lz'], name)

    def start_again(self, apps=APPS):
        """the applications as servers: many runs in one process"""
        self._futs[('shim', 'again')] = self.builds.submit(self._compile, ['g++', '-std=gnu++20', '-O1', '-c', os.path.join(VERIF, 'harness/again.cpp'), '-o',
                                                                          os.path.join(self.bin, 'again.o')], 'again')
        for n in apps:
            self._futs[('again', n)] = self.builds.submit(self._again, n)

    def again(self):
        for k, f in list(self._futs.items()):
            if k[0] == 'again':
                f.result()

    def start_pyext(self):
        inc = subprocess.check_output(['/usr/bin/python3', '-c',
                                       'import pybind11,sysconfig;print(pybind11.get_include(),sysconfig.get_paths()["include"],'
                                       'sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).split()
        pkg = os.path.join(self.work, 'py', 'spocpy')
        os.makedirs(pkg, exist_ok=True)
        for f in glob.glob(REPO + '/spocpy/spocpy/*.py'):
            shutil.copy(f, pkg)
        cmd = ['g++', '-std=gnu++20', '-O0', '-DNDEBUG', '-fopenmp', '-shared', '-fPIC', '-w', '-fvisibility=hidden',
               '-I' + REPO, '-I' + inc[0], '-I' + inc[1], *sorted(glob.glob(REPO + '/spocpy/spocpy/*.cpp')),
               '-o', os.path.join(pkg, 'spocpy_cpp' + inc[2]), '-lz']
        self._futs[('py',)] = self.builds.submit(self._compile, cmd, 'spocpy')

    def pyext(self):
        if ('py',) not in self._futs:
            self.start_pyext()
        self._futs[('py',)].result()
        return os.path.join(self.work, 'py')

    # ---- TLC -----------------------------------------------------------------------------
    def tlc(self, module, cfg_text, env=None, workers=None, args=(), timeout=800, mem='4g', expect_ok=True):
        d = self.tmp('tlc')
        cfg = os.path.join(d, module + '.cfg')
        with open(cfg, 'w') as f:
            f.write(cfg_text)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-XX:TieredStopAtLevel=%d' % (4 if self.thorough else 4),
               '-cp', JAR, 'tlc2.TLC', '-config', cfg,
               '-metadir', os.path.join(d, 'states'), '-workers', str(workers or NCPU), '-deadlock', '-noGenerateSpecTE',
               *args, os.path.join(SPEC, module + '.tla')]
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=d,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        out = r.stdout
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out)
        gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        ok = 'Model checking completed. No error has been found' in out or ('-simulate' in args and r.returncode == 0)
        if expect_ok and not ok:
            raise CheckError('TLC on %s: rc=%d\n%s' % (module, r.returncode, out[-4000:]))
        self.log('TLC %s: %d generated, %d distinct, %.1fs' % (module, gen, dist, time.time() - t))
        with self.lock:
            self.states += dist
            self.transitions += gen
        return {'out': out, 'gen': gen, 'dist': dist, 'ok': ok, 'rc': r.returncode}

    def model(self, module, cfg_text, env=None, min_states=2, require_actions=(), **kw):
        """Check the design model; every action listed must have been taken (non-vacuity)."""
        args = list(kw.pop('args', ()))
        if require_actions:
            args += ['-coverage', '1']
        r = self.tlc(module, cfg_text, env=env, args=args, **kw)
        if r['dist'] < min_states:
            raise CheckError('model %s explored only %d states' % (module, r['dist']))
        cov = {}
        for a in require_actions:
            mm = re.findall(r'<%s line [^>]*>: ([\d]+):([\d]+)' % re.escape(a), r['out'])
            n = sum(int(x[1]) for x in mm)
            cov[a] = n
            if n == 0:
                raise CheckError('model %s never took action %s' % (module, a))
        with self.lock:
            self.models.append({'module': module, 'states': r['dist'], 'transitions': r['gen'], **({'actions': cov} if cov else {})})
        return r

    # ---- verdict -------------------------------------------------------------------------
    def violation(self, what, replay):
        with self.lock:
            self.violations.append((what, replay))

    def sample(self, s, cap=8):
        with self.lock:
            if len(self.samples) < cap:
                self.samples.append(s)


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def finish(ctx):
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'samples': ctx.samples or ['none'], 'events_validated': ctx.events, 'design_models': ctx.models}
    cov.update(ctx.notes)
    known = dict(known_findings(ctx.pid))
    seen, new = set(), []
    for what, replay in ctx.violations:
        sig = replay.get('sig') if isinstance(replay, dict) else None
        if sig in known:
            seen.add(sig)
        else:
            new.append((what, replay))
    for s in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, known[s]))
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': ctx.level, 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d.json' % (ctx.pid, ctx.seed))
        with open(path, 'w') as f:
            json.dump([{'what': w, 'replay': r} for w, r in new[:20]], f, indent=1, default=str)
        for w, _ in new[:10]:
            print('  %s' % w)
        print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1
    print('OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' % (
        ctx.pid, ctx.states, ctx.transitions, ctx.traces, ctx.events, time.time() - ctx.t0))
    return 0


def rng_for(ctx, name):
    return random.Random(int(hashlib.sha256(('%d/%s/%s' % (ctx.seed, ctx.pid, name)).encode()).hexdigest()[:12], 16))
