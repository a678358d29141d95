#!/usr/bin/env python3
"""Mutation campaign: small random edits of /repo, each in a scratch copy, against the checks that cover the file.

usage: mutate.py SEED COUNT LOG [FILE-REGEX]

A line of LOG per edit: CAUGHT (by which check), NOBUILD or SURVIVED (for review: equivalent, or a gap).
"""
import os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'affine.h': 'P10 P08 P25', 'app_utils.h': 'P32 P13 P26 P04 P19 P10', 'asprs.h': 'P23', 'cmd.h': 'P32 P08 P26', 'compression.h': 'P02 P06 P05 P04',
       'contracts.h': 'P04 P07', 'extent.h': 'P29 P31 P17 P23', 'file.h': 'P07 P04 P01', 'header.h': 'P03 P04 P01 P30 P05', 'io.h': 'P01 P03 P05 P04 P06',
       'json.h': 'P33 P23', 'point.h': 'P29 P30 P31', 'point_record.h': 'P30 P01 P07 P22 P05', 'radius_search.h': 'P24 P25', 'subsampling.h': 'P14 P15',
       'utils.h': 'P30 P31 P10', 'voxel.h': 'P29 P14 P30 P21', 'compress': 'P01 P26 P04 P32', 'decompress': 'P01 P26 P04 P32', 'diff': 'P22 P26 P32', 'filter': 'P13 P14 P15 P26 P32',
       'info': 'P23 P26 P32', 'merge': 'P16 P26 P27 P32', 'srs': 'P27 P26 P32', 'tile': 'P17 P18 P26 P06 P32', 'tool': 'P19 P20 P21 P26 P09 P32', 'transform': 'P08 P09 P10 P11 P12 P26 P32'}
OPS = [(r'\bdouble (?=[a-z_]+[ ,;)=])', ['float ']), (r'\bsize_t\b', ['uint16_t', 'uint8_t', 'int32_t']), (r'\buint64_t\b', ['uint32_t']), (r'\buint32_t\b', ['uint16_t']),
       (r'\buint16_t\b', ['uint8_t']), (r'(?<=\w|\)) < (?=\w)', [' <= ']), (r' <= ', [' < ']), (r'(?<=\w|\)) > (?=\w)', [' >= ']), (r' >= ', [' > ']),
       (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']),
       (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])([2-9]|\d\d+)(?![\w.])', ['1', '16']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\.x\b', ['.y', '.z']), (r'\.y\b', ['.x', '.z']), (r'\.z\b', ['.x', '.y']), (r'\.r\b', ['.g', '.b']), (r'\.g\b', ['.r', '.b']), (r'\.b\b', ['.r', '.g']),
       (r'\.c\b', ['.p']), (r'\.p\b', ['.c']), (r'\bcontinue;', ['break;']), (r'\bif \((.*)\)$', ['if (false && (\\1))', 'if (true || (\\1))']),
       (r'\bminp\b', ['maxp']), (r'\bmaxp\b', ['minp']), (r'\+\+', ['--']), (r'!(?=[a-z])', ['']), (r'\bfloor\b', ['trunc', 'round']), (r'\btrunc\b', ['round', 'floor']),
       (r'\bmin \(', ['max (']), (r'\bmax \(', ['min (']), (r'^(\s+)[\w.:\[\]>-]+ ?(\(|=|\+=|-=|\*=|/=|<<|\.).*;$', ['\\1;']),
       (r'"([^"]{2,})"', ['"\\1 "']), (r'\bEXIT_SUCCESS\b|\breturn -1\b', ['return 0'])]


def sites():
    out = []
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'spoc', 'apps'], stdout=subprocess.PIPE, check=True).stdout.decode().split()
    for f in files:
        base = os.path.basename(f)
        if 'test' in f or 'benchmark' in f or not f.endswith(('.h', '.cpp')) or base in ('spoc.h', 'version.h'):
            continue
        key = base if f.startswith('spoc/') else f.split('/')[1]
        if key not in MAP:
            continue
        lines = open('/repo/' + f).read().split('\n')
        usage = False
        for n, s in enumerate(lines):
            if re.match(r'\s*(//|#|///|\*)', s) or 'assert' in s or 'using ' in s or 'include' in s:
                continue
            for pat, reps in OPS:
                for m in re.finditer(pat, s):
                    for rep in reps:
                        t = s[:m.start()] + m.expand(rep) + s[m.end():]
                        if t != s:
                            out.append((f, key, n, s, t))
    return out


def main():
    seed, count, log = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    r = random.Random(seed)
    S = [s for s in sites() if len(sys.argv) < 5 or re.search(sys.argv[4], s[0])]
    print(len(S), 'sites')
    lines = {}
    for s in S:
        lines.setdefault((s[0], s[2]), []).append(s)
    picks = r.sample(sorted(lines), min(count, len(lines)))
    for key in picks:
        f, k, n, old, new = r.choice(lines[key])
        d = tempfile.mkdtemp(prefix='mutc', dir='/tmp')
        try:
            for x in ('spoc', 'apps', 'spocpy'):
                shutil.copytree('/repo/' + x, d + '/' + x)
            p = d + '/' + f
            t = open(p).read().split('\n')
            assert t[n] == old
            t[n] = new
            open(p, 'w').write('\n'.join(t))
            verdict = 'SURVIVED'
            for c in MAP[k].split():
                try:
                    q = subprocess.run(['python3', 'check.py', c], cwd=HERE, env=dict(os.environ, SPOC_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1000)
                except subprocess.TimeoutExpired:
                    verdict = 'TIMEOUT ' + c
                    break
                o = q.stdout.decode(errors='replace')
                if q.returncode == 1 and 'VIOLATION' in o:
                    verdict = 'CAUGHT ' + c
                    break
                if q.returncode:
                    verdict = ('NOBUILD' if 'error:' in o else 'ERROR') + ' ' + c + ' ' + (o.strip().split('\n') or [''])[-1][:150]
                    break
            with open(log, 'a') as h:
                h.write('%s | %s:%d | %s => %s\n' % (verdict, f, n + 1, old.strip(), new.strip()))
        finally:
            shutil.rmtree(d)


main()
