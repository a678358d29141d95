"""A harness that answers one line of JSON for every line, as a history."""
import json, os, random, subprocess
import core
from shell import run_checked
from bytesio import as_limit


class Lines:
    def __init__(self, ctx, name, rng, exe, env=None, aslimit=True):
        self.ctx, self.name, self.rng, self.exe = ctx, name, rng, exe
        self.events, self.meta = [], {}
        self.p = subprocess.Popen([os.path.join(ctx.bin, exe)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  preexec_fn=as_limit if aslimit else None, env={**os.environ, **(env or {})})

    def ask(self, line):
        """-> the answer, or None if the process died"""
        try:
            self.p.stdin.write(line.encode() + b'\n')
            self.p.stdin.flush()
            r = core.answer(self.p)
        except OSError:
            r = b''
        if r == b'unknown\n':
            raise core.CheckError('harness %s: %s' % (self.exe, line))
        return json.loads(r) if r else None

    def add(self, line, ev, key):
        """asks and records the event with the answer under the key, or as a crash"""
        a = self.ask(line)
        ev = {**ev, '_cmd': [line[:300]]}
        if a is None:
            ev['crash'] = True
        else:
            ev[key] = a
        self.events.append(ev)
        return a

    def done(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except (OSError, subprocess.TimeoutExpired):
            self.p.kill()


def record_lines(ctx, specs):
    def one(s):
        name, fn, kw = s
        h = Lines(ctx, name, core.rng_for(ctx, name), **kw)
        core.history(fn, h)
        h.done()
        h.spec = s
        return h
    return core.record_all(ctx, one, specs)


def check_lines(ctx, specs, module, kind=lambda e: str(e['op'])):
    return run_checked(ctx, specs, record_lines, module, kind)
