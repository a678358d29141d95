"""P12: transform streams (SpocStream: pipelines over bounded pipes with every interleaving of producer, filters and consumer and their failures;
sessions with real pipelines in lock step, in bursts, with pauses, early ends and deaths, following scripts enumerated from the model)."""
import fcntl, json, os, select, signal, subprocess, threading, time
from laws import *
import core
from spocfile import header_bytes, rec_bytes, decode_header
from shell import run_checked

WAIT = 25.0
MISSED = [0]      # once the deadline has passed a few times, there is no need to be as patient


def patience():
    return WAIT if MISSED[0] < 2 else 4.0


F_SETPIPE_SZ = 1031


class Pipeline:
    """a session with a chain of real transform processes"""

    def __init__(self, ctx, name, rng):
        self.ctx, self.name, self.rng = ctx, name, rng
        self.events, self.meta = [], {}
        self.num = Num(1 / 64)
        self.files = {}
        self.dir = ctx.tmp('pipe')

    def comp_of(self, n):
        return False

    def start(self, stages, wkt, E, total, fifo=False, small=True):
        """stages: Cmds per stage"""
        r = self.rng
        self.E, self.total = E, total
        self.size = len(rec_bytes(rec_of(r, E, lambda q: 0)))
        self.head = header_bytes(Cloud(wkt, False, E, ()), n=total)
        self.procs, rd = [], None
        self.win = None
        exe = os.path.join(self.ctx.bin, 'transform')
        for k, c in enumerate(stages):
            argv = [exe] + [x for a in c.a for x in a]
            if r.random() < .1:
                argv.append('-v')
            infd = rd
            if k == 0:
                infd, self.win = os.pipe()
                if small:
                    fcntl.fcntl(self.win, F_SETPIPE_SZ, 4096)
            rd, wr = os.pipe()
            if small:
                fcntl.fcntl(wr, F_SETPIPE_SZ, 4096)
            # named pipes: the kernel's name of the inherited end
            if fifo and k == 0:
                argv.append('/dev/fd/0')
                if len(stages) == 1:
                    argv.append('/dev/fd/1')
            p = subprocess.Popen(argv, stdin=infd, stdout=wr, stderr=subprocess.DEVNULL, close_fds=True, cwd=self.dir)
            os.close(infd)
            os.close(wr)
            self.procs.append(p)
        self.rout = rd
        os.set_blocking(self.win, False)
        os.set_blocking(self.rout, False)
        self.inbox, self.outbox = b'', b''
        self.hgot, self.got, self.sent, self.eof = False, 0, -1, False
        self.parts = []          # bytes to send next, in parts
        self.expect = 0          # bytes that have to come out
        tt = '%x' % total
        self.ev(op='start', w=tok(wkt), E=E, total=min(total, 2 ** 31 - 1), tt=tt, stages=[list(c.c) for c in stages], cmd=[' '.join(str(x) for a in c.a for x in a) for c in stages])

    def ev(self, **e):
        if 'cmd' in e:
            e['_cmd'] = ['transform'] + [' | transform '.join(e.pop('cmd'))]
        self.events.append(e)

    # ---- output
    def pump(self, timeout, want=None):
        """reads what comes, until 'want' bytes have come"""
        end = time.time() + timeout
        while not self.eof and (want is None or self.have < want):
            t = end - time.time()
            if not select.select([self.rout], [], [], max(t, 0))[0]:
                return False
            try:
                d = os.read(self.rout, 1 << 16)
            except BlockingIOError:
                continue
            if not d:
                self.eof = True
                break
            self.outbox += d
            self.have += len(d)
            self.parse()
        return want is not None and self.have >= want

    have = 0

    def parse(self):
        if not self.hgot:
            try:
                w, n, E, comp, pos = self.header(self.outbox)
            except Bad:
                if len(self.outbox) > len(self.head) + 4:
                    self.ev(op='garbage', n=len(self.outbox))
                    self.outbox, self.eof = b'', True
                return
            self.hgot = True
            self.outbox = self.outbox[pos:]
            self.ev(op='ghead', w=tok(w), E=E, tt='%x' % n, c=comp)
        while len(self.outbox) >= self.size:
            b, self.outbox = self.outbox[:self.size], self.outbox[self.size:]
            self.got += 1
            if self.quietly:
                continue
            cl = decode_all(header_bytes(Cloud(b'', False, self.E, ()), n=1) + b)
            self.ev(op='grec', rec=proj_rec(cl.recs[0], self.num))

    quietly = False

    def header(self, d):
        import struct
        if len(d) < 8 or len(d) < 17 + struct.unpack('<H', d[6:8])[0] + 1:
            raise Bad('short')
        n = struct.unpack('<H', d[6:8])[0]
        if d[:4] != b'SPOC' or d[4:6] != self.head[4:6]:
            raise Bad('signature')
        w = d[8:8 + n]
        E, t, c = struct.unpack('<BQB', d[8 + n:18 + n])
        return w, t, E, bool(c), 18 + n

    # ---- input
    def raw(self, data):
        """sends the bytes while reading the output"""
        end = time.time() + patience()
        while data:
            try:
                n = os.write(self.win, data)
                data = data[n:]
                end = time.time() + patience()
                continue
            except BlockingIOError:
                pass
            except BrokenPipeError:
                return False
            if self.eof or self.paused:
                select.select([], [self.win], [], .05)
            else:
                r, w, _ = select.select([self.rout], [self.win], [], .5)
                if r:
                    self.pump(0)
            if time.time() > end:
                MISSED[0] += 1
                self.ev(op='stuck')
                return False
        return True

    paused = False

    def unit(self, parts=1):
        """the next unit; returns its pieces"""
        if self.sent < 0:
            data = self.head
            e = {'op': 'head'}
        else:
            q = rec_of(self.rng, self.E, lambda r: 64 * r.randrange(-400, 400), num=self.num)
            data = rec_bytes(q)
            e = {'op': 'rec', 'rec': proj_rec(q, self.num)}
        self.sent += 1
        cut = self.rng.randrange(1, len(data))
        return [(data[:cut], {'op': 'part'}), (data[cut:], e)]

    def part(self):
        """sends the next half of a unit"""
        if not self.parts:
            self.parts = self.unit()
        data, e = self.parts.pop(0)
        self.ev(**e)
        if e['op'] != 'part':
            self.expect += len(self.head) if e['op'] == 'head' else self.size
        return self.raw(data)

    def units(self, n):
        for _ in range(n):
            if not (self.part() and self.part()):
                return False
        return True

    def settle(self):
        """waits until everything that can come out is out"""
        if not self.pump(patience(), self.expect) and self.have < self.expect and not self.eof:
            MISSED[0] += 1
        self.ev(op='quiet')

    def close(self):
        if self.win is not None:
            os.close(self.win)
            self.win = None
            self.ev(op='close')

    def gone(self):
        if self.rout is not None:
            os.close(self.rout)
            self.rout, self.eof = None, True
            self.ev(op='gone')

    def kill(self, k=None):
        p = self.rng.choice(self.procs) if k is None else self.procs[k]
        p.kill()
        p.wait()
        self.ev(op='killed')

    def end(self):
        self.close()
        end = time.time() + patience()
        while not self.eof and time.time() < end:
            self.pump(.5)
        rcs, hang = [], False
        for p in self.procs:
            try:
                rc = p.wait(max(.1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc, hang = 124, True
                MISSED[0] += 1
            rcs.append(0 if rc == 0 else 1)
        self.ev(op='end', rcs=rcs, hang=hang, left=len(self.outbox) if self.rout is not None else 0, _cmd=['end %s' % rcs])

    def cleanup(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        for fd in (self.win, self.rout):
            if fd is not None:
                os.close(fd)


def stage(h, E, long=False):
    """a random list of commands"""
    r = h.rng
    c, g = Cmds(h), Geo()
    for _ in range(r.choice([1, 1, 2, 4])):
        if r.random() < .5:
            g.step(c, r, ('add', 'setxyz', 'quant'))
        else:
            edit(c, r, E)
    return c


def begin(h, total, n=None, **kw):
    r = h.rng
    E = r.choice([0, 0, 1, 3])
    k = r.choice([1, 1, 2, 3]) if n is None else n
    c = [stage(h, E) for _ in range(k)]
    h.start(c, r.choice(WKTS), E, total, fifo=r.random() < .3, **kw)


def scripted(s):
    """a script of the model"""
    def f(h):
        begin(h, 2)
        sent = 0
        for n in s['w']:
            for _ in range(n):
                if not h.part():
                    break
                sent += 1
            h.settle()
            if h.events[-1]['op'] == 'quiet' and h.have < h.expect:
                return
        if s['e'] == 'gone':
            h.gone()
        elif s['e'] == 'kill':
            h.kill()
        h.end()
    return f


def lockstep(h):
    """a long lock step: nothing is sent before the answer to the last record has come"""
    r = h.rng
    n = r.choice([0, 1, 40, 200])
    begin(h, n, small=r.random() < .5)
    for k in range(n + 1):
        h.units(1)
        h.settle()
        if h.have < h.expect:
            return
        if r.random() < .02:
            time.sleep(.02)
    h.end()


def burst(h):
    """the consumer pauses while the producer goes on until the pipes are full"""
    r = h.rng
    n = r.choice([300, 900])
    begin(h, n)
    h.paused = True
    ok = [None]
    t = threading.Thread(target=lambda: ok.__setitem__(0, h.units(n + 1)))
    t.start()
    time.sleep(r.choice([.05, .3]))
    h.paused = False
    t.join()
    h.settle()
    h.end()


def endless(h):
    """a header that promises more than there will ever be"""
    r = h.rng
    begin(h, r.choice([2 ** 31, 2 ** 40, 2 ** 64 - 1]))
    for k in range(30):
        h.units(r.choice([1, 1, 5, 20]))
        h.settle()
        if h.have < h.expect:
            return
    e = r.choice(['close', 'gone', 'kill', 'half'])
    if e == 'half':
        h.part()
    elif e == 'gone':
        h.gone()
        h.units(r.choice([1, 50]))
    elif e == 'kill':
        h.kill()
        h.units(r.choice([1, 50]))
    h.end()


def storage(h):
    """the storage of the stages stays the same however long the stream is"""
    r = h.rng
    E = r.choice([0, 2])
    c = Cmds(h).add(1, 64)
    h.start([c], b'w', E, 2 ** 40, small=False)
    h.units(1)
    h.settle()
    q = rec_bytes(rec_of(r, E, lambda r: 64, num=h.num))
    h.quietly = True

    def rss():
        with open('/proc/%d/statm' % h.procs[0].pid) as f:
            return int(f.read().split()[1]) * 4096
    first = None
    block = q * 2000
    for k in range(h.long):
        if not h.raw(block):
            return
        h.expect += len(block)
        if not h.pump(patience(), h.expect):
            h.ev(op='stuck')
            return
        if k == 9:
            first = rss()
    h.ev(op='memory', grew=rss() - first > 6 << 20, _cmd=['%d records' % (h.long * 2000)])
    h.end()


def record(ctx, specs):
    def one(s):
        name, fn, kw = s
        h = Pipeline(ctx, name, core.rng_for(ctx, name))
        for k, v in kw.items():
            setattr(h, k, v)
        h.procs, h.win, h.rout = [], None, None
        try:
            core.history(fn, h)
        finally:
            h.cleanup()
        h.spec = s
        return h
    return core.record_all(ctx, one, specs)


def run(ctx):
    ctx.start_apps(['transform'])
    out = os.path.join(ctx.tmp('scripts'), 'scripts.json')
    cfg = 'SPECIFICATION %s\nINVARIANTS Exact Prompt NoFalseSuccess AllWell\n%sCONSTANTS Filters = %d Total = %d Cap = %d Lag = %d Faults = %s Steps = {1, 2, 3}\nCHECK_DEADLOCK FALSE\n'
    q = lambda a, b: ctx.scale(a, b)
    ctx.model('MCStream', cfg % ('Spec', '', q(2, 3), q(2, 3), q(2, 3), 0, 'TRUE'), env={'OUT': out}, min_states=1000, mem='8g',
              require_actions=['Send', 'Close', 'Refused', 'Take', 'Emit', 'End', 'Kill', 'Consume', 'Leave'])
    ctx.model('MCStream', cfg % ('Spec', 'PROPERTIES EndsWithInput\n', 2, q(2, 3), 1, 0, 'TRUE'), min_states=1000)
    ctx.model('MCStream', cfg % ('Live', 'PROPERTIES Complete AllArrives\n', q(2, 3), q(2, 3), 1, 0, 'FALSE'), min_states=100)
    r = ctx.tlc('MCStream', cfg % ('Spec', '', 2, 2, 2, 1, 'FALSE'), expect_ok=False)
    if 'Invariant Prompt is violated' not in r['out']:
        raise core.CheckError('a filter that waits for the next record satisfies the model')
    scripts = [json.loads(l) for l in open(out)]
    ctx.notes['scripts'] = len(scripts)
    ctx.apps(['transform'])
    specs = [('script%d_%d' % (k, j), scripted(s), {}) for k, s in enumerate(scripts) for j in range(q(2, 6))]
    specs += [('lock%d' % k, lockstep, {}) for k in range(q(16, 200))]
    specs += [('burst%d' % k, burst, {}) for k in range(q(12, 100))]
    specs += [('endless%d' % k, endless, {}) for k in range(q(24, 300))]
    specs += [('storage%d' % k, storage, {'long': q(150, 2000)}) for k in range(q(2, 4))]
    run_checked(ctx, specs, record, 'TraceStream', lambda e: e['op'])
    ctx.assumptions += ['a unit that does not come out within %d s will never come out' % WAIT]
