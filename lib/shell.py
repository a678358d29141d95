"""Recording of command histories over a scratch file store and their validation by TraceShell."""
import hashlib, json, os, select, resource, tempfile, shutil, subprocess, signal, collections
import core
from spocfile import *

LIM = 12 << 30


def _limits(fsize=None, space=True):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if space:
            resource.setrlimit(resource.RLIMIT_AS, (LIM, LIM))
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    return f


class Result:
    __slots__ = ('rc', 'out', 'err', 'timeout')


def execute(argv, cwd, stdin=b'', env=None, timeout=60, fsize=None, stdout=None, space=True):
    r = Result()
    e = {'PATH': '/usr/bin:/bin', 'LANG': 'C', 'OMP_NUM_THREADS': '2', 'HOME': cwd}
    e.update(env or {})
    kw = {'stdin': stdin} if hasattr(stdin, 'fileno') else {'input': stdin}
    pre, out, back, shut = _limits(fsize, space), subprocess.PIPE, None, []
    if isinstance(stdout, int):
        back = out = tempfile.TemporaryFile(dir=os.path.dirname(cwd))
    elif stdout == 'full':
        out = open('/dev/full', 'wb')
        shut.append(out)
    elif stdout == 'pipe':
        rd, wr = os.pipe()
        os.close(rd)
        out = os.fdopen(wr, 'wb', 0)
        shut.append(out)
        lim = pre
        pre = lambda: (lim(), signal.signal(signal.SIGPIPE, signal.SIG_IGN))
    elif stdout == 'shut':
        out = subprocess.DEVNULL
        lim = pre
        pre = lambda: (lim(), os.close(1))
    timeout = core.Patience.of(timeout)
    try:
        p = subprocess.run(argv, cwd=cwd, stdout=out, stderr=subprocess.PIPE, env=e, timeout=timeout, preexec_fn=pre, restore_signals=stdout != 'pipe', **kw)
        r.rc, r.out, r.err, r.timeout = p.returncode, p.stdout or b'', p.stderr, False
    except subprocess.TimeoutExpired as x:
        core.Patience.hung()
        r.rc, r.out, r.err, r.timeout = 124, x.stdout or b'', x.stderr or b'', True
    for f in shut:
        f.close()
    if back:
        back.seek(0)
        r.out = back.read()
        back.close()
    return r


class Server:
    """An application that stays (harness/again.cpp)."""

    def __init__(self, exe, cwd, io, env):
        self.exe, self.cwd, self.io, self.env, self.p = exe, cwd, io, env, None

    def start(self):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        e = {'PATH': '/usr/bin:/bin', 'LANG': 'C', 'OMP_NUM_THREADS': '2', 'HOME': self.cwd}
        e.update(self.env)
        self.p = subprocess.Popen([self.exe, str(a), str(b)], cwd=self.cwd, env=e, pass_fds=(a, b), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, preexec_fn=_limits())
        os.close(a)
        os.close(b)
        self.rf = os.fdopen(self.r, 'rb')

    def run(self, argv, data, timeout):
        if self.p is None:
            self.start()
        f = [os.path.join(self.io, n) for n in ('in', 'out', 'err')]
        with open(f[0], 'wb') as h:
            h.write(data)
        r = Result()
        r.timeout = False
        os.write(self.w, (' '.join(f + ['x' + a.encode('utf-8', 'surrogateescape').hex() if isinstance(a, str) else 'x' + a.hex() for a in argv]) + '\n').encode())
        if select.select([self.rf], [], [], core.Patience.of(timeout))[0]:
            line = self.rf.readline()
        else:
            core.Patience.hung()
            r.timeout, line = True, b'124\n'
            self.p.kill()
        if line and not r.timeout:
            r.rc = int(line)
        else:       # it ended
            rc = self.p.wait()
            r.rc = 124 if r.timeout else rc
            self.stop()
        r.out, r.err = (open(n, 'rb').read() if os.path.exists(n) else b'' for n in f[1:])
        return r

    def stop(self):
        if self.p is not None:
            os.close(self.w)
            self.rf.close()
            self.p.kill()
            self.p.wait()
            self.p = None


NONE = {'k': 'none'}


class Sh:
    """One history: a scratch directory, the known file contents, and the recorded events."""

    def __init__(self, ctx, name, rng, num=None, threads=None):
        self.ctx, self.name, self.rng, self.num = ctx, name, rng, num
        self.dir = ctx.tmp('sh')
        self.files = {}
        self.events = []
        self.clouds = {}
        self.env = {'OMP_NUM_THREADS': str(threads)} if threads else {}
        self.tol = 0.0
        self.big = False
        self.meta = {}
        self.fault = False
        self.servers = None      # or the applications that stay

    def path(self, n):
        return os.path.join(self.dir, n)

    def comp_of(self, name):
        try:
            return decode(self.files.get(name, b''))[0].comp
        except Exception:
            return False

    def wkt_of(self, name):
        try:
            return decode_header(self.files.get(name, b''))[0]
        except Exception:
            return None

    def proj(self, data):
        if data is None:
            return NONE
        if data == b'':
            return {'k': 'empty'}
        try:
            cl = decode_all(data)
        except (Bad, MemoryError, OverflowError):
            j = {'k': 'junk', 'h': hashlib.sha1(data).hexdigest(), 'n': len(data)}
            try:
                j['hdr'] = tok(decode_header(data)[0])
            except Bad:
                pass
            return j
        return proj_cloud(cl, self.num, big=self.big, tol=self.tol)

    def put(self, name, cl):
        """environment writes a file (Cloud or bytes)"""
        data = cl if isinstance(cl, bytes) else encode(cl)
        with open(self.path(name), 'wb') as f:
            f.write(data)
        self.files[name] = data
        self.events.append({'op': {'app': 'put'}, 'rc': 0, 'wr': [[name, self.proj(data)]], 'so': NONE, 'to': False})
        return name

    def same(self, *names):
        """the specification has to find these files to be equal"""
        self.events.append({'op': {'app': 'same', 'srcs': list(names)}, 'rc': 0, 'wr': [], 'so': NONE, 'to': False})

    def near(self, *names):
        self.events.append({'op': {'app': 'near', 'srcs': list(names)}, 'rc': 0, 'wr': [], 'so': NONE, 'to': False})

    def differ(self, *names):
        self.events.append({'op': {'app': 'differ', 'srcs': list(names)}, 'rc': 0, 'wr': [], 'so': NONE, 'to': False})

    def rm(self, name):
        os.unlink(self.path(name))
        self.files.pop(name)
        self.events.append({'op': {'app': 'put'}, 'rc': 0, 'wr': [[name, NONE]], 'so': NONE, 'to': False})

    def scan(self):
        now = {}
        for root, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, 'rb') as h:
                    now[os.path.relpath(p, self.dir)] = h.read()
        wr = []
        for n in sorted(set(now) | set(self.files)):
            if now.get(n) != self.files.get(n):
                wr.append((n, now.get(n)))
        self.files = now
        return wr

    def run(self, app, argv, op, stdin=None, text=None, verbose=None, env=None, timeout=60, tol=None, exe=None, sink=None, **kw):
        """sink: what becomes of standard output: an integer k (a file that takes k bytes), 'full', 'pipe' (nobody reads), 'shut' (closed).
        op: the specification's command. text: parser for standard output, default: SPOC data."""
        e = dict(self.env)
        e.update(env or {})
        if stdin is None:
            data = b''
        elif isinstance(stdin, bytes):
            data = stdin
        else:
            data = self.files.get(stdin, b'')
        if sink is not None:
            kw['fsize'], kw['stdout'] = (sink if isinstance(sink, int) else None), sink
        if self.servers is not None and sink is None and not kw and not env and not exe:
            sv = self.servers.get(app)
            if sv is None:
                sv = self.servers[app] = Server(os.path.join(self.ctx.bin, 'again_' + app), self.dir, self.ctx.tmp('io'), self.env)
            r = sv.run(['spoc_' + app, *argv], data, timeout)
        else:
            r = execute([os.path.join(self.ctx.bin, exe or app), *argv], self.dir, data, e, timeout, **kw)
        old = self.tol
        if tol is not None:
            self.tol = tol
        wr = [[n, self.proj(d)] for n, d in self.scan()]
        if text and r.rc == 0:
            so = text(r.out)
        else:
            so = self.proj(r.out if r.out else None)
        self.tol = old
        op = dict(op)
        op['app'] = app
        if self.fault:
            op['fault'] = True
        ev = {'op': op, 'rc': 0 if r.rc == 0 else 1, 'wr': wr, 'so': so, 'to': r.timeout or r.rc < 0}
        ev['_cmd'] = [exe or app, *argv]
        ev['_stdin'] = stdin if isinstance(stdin, str) else None
        ev['_err'] = r.err[-300:].decode('latin1')
        ev['_rc'] = r.rc
        self.events.append(ev)
        return r

    def done(self):
        for sv in (self.servers or {}).values():
            sv.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


def strip(ev):
    return {k: v for k, v in ev.items() if not k.startswith('_')}


def write_trace(path, hists):
    with open(path, 'w') as f:
        for h in hists:
            d = {'ev': [strip(e) for e in h.events]}
            d.update(h.meta)
            f.write(json.dumps(d) + '\n')


def validate(ctx, module, hists, cfg_extra='', env=None, mem='6g'):
    """Trace validation. -> list of (history, event index) that the specification rejects."""
    if not hists:
        return []
    d = ctx.tmp('trace')
    path = os.path.join(d, 'trace.ndjson')
    write_trace(path, hists)
    r = ctx.tlc(module, 'SPECIFICATION TraceSpec\n' + cfg_extra, env={'TRACE': path, **(env or {})}, mem=mem)
    import re
    rej = sorted({(int(a) - 1, int(b) - 1) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', r['out'])})
    at = dict(rej)
    total = sum(at[k] + 1 if k in at else len(h.events) for k, h in enumerate(hists))
    if r['dist'] != total + len(hists):
        raise core.CheckError('%s consumed %d of %d events\n%s' % (module, r['dist'] - len(hists), total, r['out'][-2000:]))
    return [(hists[a], b) for a, b in rej]


def record(ctx, specs):
    """specs: list of (name, fn(sh), kwargs). -> list of Sh, recorded in parallel"""
    def one(s):
        name, fn, kw = s
        sh = Sh(ctx, name, core.rng_for(ctx, name), **{k: v for k, v in kw.items() if k != 'stay'})
        if kw.get('stay'):
            sh.servers = {}
        core.history(fn, sh)
        sh.done()
        sh.spec = s
        return sh
    return core.record_all(ctx, one, specs)


def run_checked(ctx, specs, rec, module, kind, cfg_extra='', env=None):
    """records the histories, validates them, and confirms rejections by recording again"""
    hists = rec(ctx, specs)
    ctx.log('recorded %d histories, %d events' % (len(hists), sum(len(h.events) for h in hists)))
    rej = validate(ctx, module, hists, cfg_extra, env)
    ctx.traces += len(hists)
    ctx.events += sum(len(h.events) for h in hists)
    kinds = collections.Counter(kind(e) for h in hists for e in h.events)
    old = ctx.notes.setdefault('events_by_kind', {})
    for k, v in kinds.items():
        old[k] = old.get(k, 0) + v
    for h in hists[:: max(1, len(hists) // 4)]:
        for e in h.events:
            if '_cmd' in e:
                ctx.sample(' '.join(map(str, e['_cmd']))[:200] + (' -> rc %d' % e['rc'] if 'rc' in e else ''))
                break
    if not rej:
        return hists
    # a verdict must be repeatable
    names = set()
    for attempt in range(4):
        core.Patience.again()
        again = rec(ctx, [h.spec for h in {id(h): h for h, _ in rej}.values()][:40])
        names |= {(h.name, b) for h, b in validate(ctx, module, again, cfg_extra, env)}
        if names:
            break
    if not names:
        raise core.CheckError('rejections did not repeat: %s' % [(h.name, b) for h, b in rej][:5])
    for h, b in rej:
        if (h.name, b) in names:
            e = h.events[b]
            what = 'history %s event %d: %s%s' % (h.name, b, ' '.join(map(str, e.get('_cmd', [e['op']])))[:300],
                                                  ' rc=%s' % e.get('_rc', e['rc']) if 'rc' in e else ' ok=%s' % e.get('ok'))
            sig = e['op'].get('sig') if isinstance(e['op'], dict) else e.get('sig')
            ctx.violation(what, {'history': h.name, 'event': b, 'commands': [x.get('_cmd', x['op']) for x in h.events[:b + 1]],
                                 'rejected': e, 'before': [strip(x) for x in h.events[max(0, b - 3):b]], 'sig': sig})
    return hists


def check_histories(ctx, specs, module='TraceShell', cfg_extra='', env=None):
    return run_checked(ctx, specs, record, module, lambda e: e['op'].get('app', '?') + ':' + str(e['op'].get('cmd', '')), cfg_extra, env)
