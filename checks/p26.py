"""P26: every application gives the same result through files and pipes, verbose or not (diagnostics never reach standard output); help and
version succeed and touch nothing; misuse fails and leaves existing files unchanged."""
from laws import *


def surfaces(sh):
    """one command, all ways of passing input and output"""
    r = sh.rng
    sh.num = Num(1 / 64)
    E = r.choice([0, 1, 3])
    for comp in (False, True):
        sh.put('in', cloud(r, r.choice([0, 1, 3, 30]), E=E, num=sh.num, comp=comp, wkt=r.choice(WKTS)))
        sh.put('lo', cloud(r, 5, num=sh.num))
        put_text(sh, 't', b'\n'.join(b'%d' % k for k in range(40)), {'f': 'c'}, list(range(40)))
        kinds = r.sample(range(13), 6)
        for k in kinds:
            n = 0
            c = Cmds(sh)
            g = Geo(1)
            for _ in range(2):
                edit(c, r, sh.comp_of('in') and 0 or E)
            k1, k2, s1 = r.sample(CLASSES, 3), r.choice([1, 5, 40]), r.choice([None, 3])
            w = r.choice(ARGWKTS)
            fld = r.choice(['x', 'c', 'b'])
            for via in VIAS:
                for v in (False, True):
                    n += 1
                    kw = dict(via=via, verbose=v, det='k%d' % k)
                    if k == 0:
                        run_transform(sh, 'in', c, **kw)
                    elif k == 1:
                        run_filter(sh, 'in', keep=k1, **kw)
                    elif k == 2:
                        run_filter(sh, 'in', res=k2, seed=s1, **kw)
                    elif k == 3:
                        run_filter(sh, 'in', uniq=True, coord=(1, True, 5) if not s1 else None, seed=s1, **kw)
                    elif k == 4:
                        run_codec(sh, 'compress', 'in', **kw)
                    elif k == 5:
                        run_codec(sh, 'decompress', 'in', **kw)
                    elif k == 6:
                        run_srs_set(sh, 'in', w or b'z', **{**kw, 'via': 'ff' if via == 'ff' else 'pp'})
                    elif k == 7:
                        run_tool(sh, 'in', 'subtract-min-xyz', **kw)
                    elif k == 8:
                        run_tool(sh, 'in', 'resize-extra', m=2, **kw)
                    elif k == 9:
                        run_tool(sh, 'in', 'upsample', high='lo', res=k2, **kw)
                    elif k == 10:
                        run_set(sh, 'in', fld if fld != 'x' else 'g', 't', via=via, det='k10')
                    elif k == 11:
                        run_get(sh, 'in', fld, via='fp' if via == 'ff' else via, det='k11')
                    elif k == 12 and via != 'ff':
                        run_srs_get(sh, ['in'], via='f' if via == 'fp' else 'p', verbose=v, det='k12')
        run_merge(sh, ['in', 'in'], verbose=True, det='m')
        run_merge(sh, ['in', 'in'], quiet=True, det='m')
        run_merge(sh, ['in', 'in'], det='m')
        run_diff(sh, 'in', 'lo', verbose=True)
        if sh.files.get('in'):
            for v in (False, True):
                run_tile(sh, 'in', mode='s', sx=200, sy=300, prefix='q%d' % v, verbose=v)
                run_tile(sh, 'in', via='p', mode='s', sx=200, sy=0, prefix='r%d' % v, verbose=v)


NAMES = ['-', 'a b', '\u00e4\u20ac', '%s%n%1', "it's", 'a=b', '0', '*', '{x}', 'a\\b', 'a"b', '..a', '.hidden', 'x' * 200, 'stdin', 'null', 'n.e.w', 'd/-', 'd/a b', '.5x']


def names(sh):
    """files are called anything"""
    r = sh.rng
    sh.num = Num(1 / 64)
    os.mkdir(sh.path('d'))
    few = sorted(r.sample(NAMES, 8) + ['-'])
    for n in dict.fromkeys(few):
        sh.put(n, cloud(r, r.choice([0, 1, 5]), E=1, num=sh.num, comp=r.random() < .5, wkt=r.choice(WKTS)))
    pick = lambda: r.choice(few) if r.random() < .6 else '-'
    dst = lambda: r.choice(few + NAMES) if r.random() < .6 else '-'
    put_text(sh, 't', b'\n'.join(b'%d' % k for k in range(40)), {'f': 'c'}, list(range(40)))
    todo = list(range(13)) * 2
    r.shuffle(todo)
    for k in todo:
        kw = dict(dst=dst(), via=r.choice(VIAS), verbose=r.random() < .3)
        src = pick()
        if k == 0:
            c = Cmds(sh)
            edit(c, r, 0)
            run_transform(sh, src, c, **kw)
        elif k == 1:
            run_filter(sh, src, keep=r.sample(CLASSES, 3), **kw)
        elif k in (2, 3):
            run_codec(sh, 'compress' if k == 2 else 'decompress', src, **kw)
        elif k == 4:
            run_srs_set(sh, src, b'w', **{**kw, 'via': 'ff'})
        elif k == 5:
            run_srs_get(sh, [pick(), pick()], verbose=kw['verbose'])
        elif k == 6:
            run_tool(sh, src, 'subtract-min-xyz', **kw)
        elif k == 7:
            run_tool(sh, src, 'upsample', high=pick(), res=5, **kw)
        elif k == 8:
            run_set(sh, src, 'g', 't', **{**kw, 'via': 'ff'})
        elif k == 9:
            run_get(sh, src, 'c', via='fp')
        elif k == 10:
            run_merge(sh, [pick(), pick()], quiet=r.random() < .5)
        elif k == 11:
            run_diff(sh, pick(), pick(), verbose=kw['verbose'])
        elif src != '..a' and sh.comp_of(src) is not None:
            run_tile(sh, src, mode='s', sx=200, sy=300, **({'prefix': pick()} if r.random() < .5 else {}))


def lists(sh):
    """several inputs, some of them missing, empty or not clouds, at any place of the list"""
    r = sh.rng
    sh.num = Num(1 / 64)
    for n in 'abc':
        sh.put(n, cloud(r, r.choice([0, 1, 5]), E=1, num=sh.num, wkt=r.choice(WKTS)))
    sh.put('empty', b'')
    sh.put('junk', b'SPOCjunk')
    for k in range(10):
        ns = [r.choice('abc') for _ in range(r.choice([1, 2, 3, 5]))]
        if r.random() < .7:
            ns[r.randrange(len(ns))] = r.choice(['nosuch', 'nosuch', 'empty', 'junk', ''])
        run_srs_get(sh, ns, verbose=r.random() < .2)
        sh.run('info', ns, {'srcs': ns, 'dst': '', 'cmd': 'info'}, text=lambda o: {'k': 'text'})
        if len(ns) > 1:
            run_merge(sh, ns, quiet=r.random() < .5)


VALID = {'compress': ['u', 'out'], 'decompress': ['z', 'out'], 'filter': ['-k', '1', 'u', 'out'], 'info': ['u'], 'merge': ['u', 'u'], 'srs': ['-s', 'w', 'u', 'out'],
         'tile': ['-p', 't', 'u'], 'tool': ['--recenter-xy', 'u', 'out'], 'transform': ['--add-x=1', 'u', 'out'], 'diff': ['u', 'u']}
ARGOPT = {'filter': ['-k', '--keep-class', '-s', '--subsample', '-c', '-a', '--remove-class'], 'merge': ['-p', '--point-id'], 'srs': ['-s', '--srs'],
          'tile': ['-t', '-s', '-x', '-y', '-d', '-p', '--tiles', '--prefix'], 'tool': ['-g', '-s', '-f', '--get-field', '--resize-extra', '--resolution'],
          'transform': ['--add-x', '--set', '-a', '--random-seed', '--replace-not'], 'diff': ['-f', '--field'], 'info': [], 'compress': [], 'decompress': []}
SURPLUS = {'compress', 'decompress', 'filter', 'tool', 'transform', 'diff', 'tile', 'srs'}


def usage(sh, app=None):
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('u', cloud(r, 3, num=sh.num, comp=False))
    sh.put('z', cloud(r, 3, num=sh.num, comp=True))
    sh.put('out', b'precious')
    ok = VALID[app]
    def go(kind, a, **kw):
        sh.run(app, a, {'usage': kind, 'cmd': kind}, text=lambda out: {'k': 'text'}, **kw)
    for a in [['-h'], ['--help'], ['-e'], ['--version'], ['-h'] + ok, ['-v', '-h'], ['--help', 'u', 'out'] if app not in ('merge',) else ['--help']]:
        go('info', a)
    go('info', (['-e'] + ok))
    for a in [['--bogus'], ['-Z'], ['--bogus'] + ok, ['-Z'] + ok, ['-v', '--nope=3'] + ok]:
        go('bad', a)
    for o in ARGOPT[app]:
        go('bad', [o])
        go('bad', ok + [o])
    if app in SURPLUS - {'srs'}:
        go('bad', ok + ['more', 'and'])
    if app == 'srs':
        go('bad', ok + ['more'])
    if app in ('transform', 'tool'):
        go('bad', ['u', 'out'])
        go('bad', ['-v', 'u', 'out'])
        go('bad', [], stdin='u')
    if app == 'diff':
        go('bad', [])
        go('bad', ['u'])
    if app == 'merge':
        go('bad', [])
        go('bad', ['u'])
        go('bad', ['u', 'nosuch'])
    # unreadable inputs
    a = ['nosuch' if x in ('u', 'z') else x for x in ok]
    go('bad', a)
    go('bad', ['-v'] + a)


def noout(sh):
    """output that cannot be opened"""
    r = sh.rng
    sh.num = Num(1 / 64)
    sh.put('u', cloud(r, 3, num=sh.num, comp=False))
    sh.put('z', cloud(r, 3, num=sh.num, comp=True))
    for app, a in VALID.items():
        if 'out' in a:
            sh.run(app, [x if x != 'out' else 'no/such/dir/out' for x in a], {'usage': 'bad', 'cmd': 'noout'})
    sh.run('tile', ['-p', 'no/such/t', 'u'], {'usage': 'bad', 'cmd': 'noout'})


def run(ctx):
    ctx.start_apps()
    shell_model(ctx, 'codec', ['LawSurface'], (2, 2, (0, 1), (0,), (1,), 1), (2, 3, (0, 1), (0,), (1,), 0))
    ctx.apps()
    check_histories(ctx, [('surf%d' % k, surfaces, {}) for k in range(ctx.scale(40, 500))] + [('noout', noout, {})] +
                    [('lists%d' % k, lists, {}) for k in range(ctx.scale(10, 100))] + [('names%d' % k, names, {}) for k in range(ctx.scale(12, 150))] +
                    [('usage_%s_%d' % (a, k), (lambda sh, a=a: usage(sh, a)), {}) for a in VALID for k in range(ctx.scale(1, 4))])
