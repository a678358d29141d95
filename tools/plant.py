#!/usr/bin/env python3
"""Confirm planted bugs and keep them in /verif/seeded.

usage: plant.py DEFS.py [NAME ...]

DEFS.py defines BUGS = {name: dict(property, needs, breaks, edits=[(file, old, new)...], demo=python text)}
and HELPER, the module (pc.py) laid beside every demo.  Each bug is tried in a scratch copy of /repo that is bind-mounted
over /repo inside a namespace of its own: the patch has to build, pass the stable tests, and make the demo fail, and the
demo has to pass without it.  Only then is it stored, and then the check of its property is run against the copy.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
DEMO_SH = '#!/bin/bash\n# run in /repo after the build; exit 0: the property holds, otherwise it is broken\n' \
          'd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 exec /usr/bin/python3 "$d/demo.py"\n'


def inside(tree, cmd, timeout=900):
    """run cmd with `tree` mounted over /repo"""
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {tree} /repo && cd /repo && {cmd}'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace')


def main():
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    defs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(defs)
    names = sys.argv[2:] or list(defs.BUGS)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for name in names:
        b = defs.BUGS[name]
        tmp = tempfile.mkdtemp(prefix='plant')
        try:
            tree = tmp + '/r'
            subprocess.run(['cp', '-a', '/repo', tree], check=True)
            d = tmp + '/seed'
            os.mkdir(d)
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(b['demo'])
            open(d + '/pc.py', 'w').write(defs.HELPER)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            rc, out = inside(tree, f'bash {d}/demo.sh')
            if rc != 0:
                print(name, 'BAD: demo fails on the unchanged tree', out[-600:]); continue
            ok = True
            for f, old, new in b['edits']:
                p = os.path.join(tree, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(name, 'BAD: text found', s.count(old), 'times in', f, repr(old[:60])); ok = False; break
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            patch = subprocess.run(['git', '-C', tree, 'diff'], stdout=subprocess.PIPE, check=True).stdout
            open(d + '/patch.diff', 'wb').write(patch)
            rc, out = inside(tree, f'bash /opt/vp/test.sh {tmp}/o.json')
            passed = set(json.load(open(tmp + '/o.json'))['passed'])
            if stable - passed:
                print(name, 'BAD: tests fail:', sorted(stable - passed)[:4], out[-400:] if not passed else ''); continue
            rc, out = inside(tree, f'bash {d}/demo.sh')
            if rc == 0:
                print(name, 'BAD: demo passes with the patch'); continue
            if os.path.isdir(f'{SEEDED}/{name}'):
                shutil.rmtree(f'{SEEDED}/{name}')
            shutil.copytree(d, f'{SEEDED}/{name}')
            env = dict(os.environ, SPOC_REPO=tree)
            for prop in [b['property']] + b.get('also', []):
                r = subprocess.run(['python3', 'check.py', prop], cwd=os.path.dirname(HERE), env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1000)
                lines = [l for l in r.stdout.decode(errors='replace').splitlines() if 'VIOLATION' in l or 'ERROR' in l]
                print(name, 'KEPT', prop, 'CAUGHT' if r.returncode == 1 and lines else f'MISSED rc={r.returncode}',
                      (lines or [''])[-1][:160], flush=True)
        finally:
            shutil.rmtree(tmp)


main()
