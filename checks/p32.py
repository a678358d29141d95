"""P32: every spelling of a command line is understood as documented. The specification types command lines (long names, abbreviations, letters,
groups, attached and separate values, names anywhere, "--", mistakes); the applications run them; the specification reads the words and decides."""
import re
from laws import *
from checks.p23 import Report

PROGRAMS = ['compress', 'decompress', 'diff', 'filter', 'info', 'merge', 'srs', 'tile', 'tool', 'transform']


def cfg(spec, longest, spell, who):
    return 'SPECIFICATION %s\nCONSTANTS Longest = %d\n Spellings = "%s"\n Who = {%s}\n' % (spec, longest, spell, ','.join('"%s"' % w for w in who))


def lines(ctx, who, n, longest):
    r = ctx.tlc('MCArgs', cfg('GenSpec', longest, 'all', who), args=['-simulate', 'num=%d' % n, '-seed', str(ctx.seed), '-depth', '60'], workers=1)
    return [json.loads(json.loads(x)[len('BEHAVIOUR '):]) for x in r['out'].splitlines() if x.startswith('"BEHAVIOUR ')]


def text_for(sh, b):
    op = b['op']
    if op.get('usage') == 'version':
        return lambda out: {'k': 'version'} if re.fullmatch(rb'Version 0\.1\n', out) else {'k': 'text', 'h': tok(out)}
    if 'usage' in op:
        return None
    if op['app'] == 'info':
        rep = Report(sh.num)
        return lambda out: {'k': 'report', 'items': (rep.json if op['sw']['j'] else rep.text)(out)}
    if op['app'] == 'srs' and op['cmd'] == 'get':
        srcs = [s if s != 'in' else 'a.spoc' for s in op['srcs']]

        def text(out):
            v, p = [], 0
            for s in srcs:
                w = sh.wkt_of(s)
                n = len(w) if w is not None else 0
                v.append(tok(out[p:p + n]))
                if out[p + n:p + n + 1] != b'\n':
                    return {'k': 'text', 'h': tok(out)}
                p += n + 1
            return {'k': 'lines', 'v': v} if p == len(out) else {'k': 'text', 'h': tok(out)}
        return text
    if op['app'] == 'tool' and op['cmd'] == 'get-field':
        return parse_lines(sh, op['d'])
    return None


HEX = {w: tok(w.encode()) for w in ['text', '-h', '=a=b']}


def session(bs):
    def fn(sh):
        r = sh.rng
        sh.num = Num(.5, 0.0)
        co = lambda q: q.choice([2 * q.randrange(-6, 7), q.randrange(-12, 13)])
        mk = lambda w, comp: cloud(r, r.choice([3, 5, 9]), E=2, num=sh.num, coord=co, comp=comp, wkt=w, cls=[0, 1, 2, 9])
        a = mk(b'first', False)
        sh.put('a.spoc', a)
        sh.put('b.spoc', a if r.random() < .4 else mk(b'first', False))
        odd = mk(b'other', False)
        for n, c in [('z.zpoc', True), ('-m', False), ('--help', False), ('-v', True), ('-', False)]:
            sh.put(n, odd if n == '-' else mk(b'other', c))
        vals = [r.randrange(100) for _ in range(12)]
        put_text(sh, 'f', ('\n'.join(map(str, vals)) + '\n').encode(), {'f': 'c'}, vals)
        for b in bs:
            op = b['op']
            off = any(c['n'] == 'noise' for c in op.get('cmds', [])) or 'recenter' in op.get('cmd', '')      # leaves the lattice
            res = sh.run(b['app'], b['argv'], {'argv': b['argv'], 'in': 'a.spoc', 'hex': HEX}, stdin='a.spoc', text=text_for(sh, b), tol=.999 if off else 1e-6)
            e = sh.events[-1]
            e['err'] = bool(res.err.strip())
            changed = [n for n, _ in e['wr']]
            e['words'] = sorted(set(re.findall(r'(?<![\w-])--?[a-z][a-z-]*', res.err.decode('latin1')))) if op.get('usage') == 'help' else []
            if '-' in changed:      # may have left the lattice
                sh.put('-', odd)
    return fn


def run(ctx):
    ctx.start_apps()
    ctx.model('MCArgs', cfg('FixedSpec', 2, 'few', PROGRAMS) + 'INVARIANTS Understood Meant\n', min_states=10000)
    if ctx.thorough:
        for who in PROGRAMS[:-1]:
            ctx.model('MCArgs', cfg('FixedSpec', 3, 'few', [who]) + 'INVARIANTS Understood Meant\n', mem='8g')
    jobs = []
    for who, n, longest in [(PROGRAMS, 400, 3), (PROGRAMS, 300, 7), (['transform', 'tool'], 500, 3), (['tile'], 250, 4), (['filter', 'info', 'diff'], 400, 4)]:
        jobs.append(ctx.pool.submit(lines, ctx, who, n * ctx.scale(1, 12), longest))
    bs = [b for j in jobs for b in j.result()]
    ctx.apps()
    ctx.notes['command_lines'] = len(bs)
    ctx.notes['understood_lines'] = sum('usage' not in b['op'] for b in bs)
    check_histories(ctx, [('lines%d' % k, session(bs[k:k + 25]), {}) for k in range(0, len(bs), 25)], 'TraceArgs')
