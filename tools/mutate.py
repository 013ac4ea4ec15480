"""Mutation analysis of the checks (development tool; no check uses it).

mutate.py tests FILE N [-j J] [--seed S]: makes N random one line changes to FILE
(relative to /repo) and keeps those that pass the tests as /tmp/mut/*.diff.
mutate.py checks C01,C02 DIFF...: runs the checks against each until one fails."""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = '/tmp/mut'

SWAPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
         (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '),
         (r' \+= ', ' = '), (r' \|= ', ' = '), (r' & ', ' | '), (r' \| ', ' & '),
         (r'\+\+', '--'), (r'--', '++'), (r'<< ', '>> '), (r'>> ', '<< '),
         (r'uint64_t', 'uint32_t'), (r'int64_t', 'int32_t'), (r'uint32_t', 'uint16_t'),
         (r'uint32_t', 'int32_t'), (r'int32_t', 'uint32_t'), (r'uint64_t', 'int64_t'),
         (r'size_t', 'uint16_t'), (r'uint8_t', 'int8_t'), (r'\btrue\b', 'false'),
         (r'\bfalse\b', 'true'), (r'(if|while) \(', r'\1 (!'), (r'!(?=[\w(])', ''),
         (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r' and ', ' or '),
         (r' or ', ' and '), (r' not in ', ' in '), (r'(?<!not) in (?=.*:$)', ' not in '),
         (r' is None', ' is not None'), (r' is not None', ' is None'),
         (r'\bnot ', ''), (r'\bif (?=.*:$)', 'if not '), (r'\belif ', 'if '),
         (r'\.append\(', '.extend('), (r'\[:-1\]', ''), (r'\[1:\]', ''),
         (r'\[-1\]', '[0]'), (r'\[0\]', '[-1]'), (r'\.upper\(\)', ''),
         (r'\.lower\(\)', ''), (r'\.strip\(\)', ''), (r'_p->', '_p->next_p->'),
         (r'sizeof\(\*', 'sizeof('), (r'NULL', '(void *)1')]


def candidates(text, python):
    lines = text.split('\n')
    out = []
    comment = False
    for i, line in enumerate(lines):
        s = line.strip()
        if s.startswith('/*'):
            comment = True
        if comment:
            if '*/' in s:
                comment = False
            continue
        if not s or s.startswith(('#', '*', '//', 'import', 'from', '"""')):
            continue
        for pat, rep in SWAPS:
            for m in re.finditer(pat, line):
                out.append((i, line[:m.start()] + m.expand(rep) + line[m.end():]))
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', line):
            n = int(m.group(1), 0)
            for k in {n + 1, n - 1, 0, n * 2} - {n}:
                if k >= 0:
                    out.append((i, line[:m.start()] + str(k) + line[m.end():]))
        if line[:1] == ' ' and not python and s.endswith(';') and \
                not re.match(r'\s+(u?int|size_t|char|bool|struct|const|return \w)', line):
            out.append((i, ''))
            out.append((i, ''))
        if python and line[:1] == ' ' and not s.endswith((':', ',', '(', '[', "'", '{')):
            ind = re.match(' *', line).group()
            if re.match(r'[\w.\[\]]+( = |\(| \+= |\.).*[\w)\]]$', s):
                out.append((i, ind + 'pass'))
            if s.endswith(';'):
                out.append((i, ''))
    return [(i, x) for i, x in dict.fromkeys(out) if x != lines[i]]


def in_copy(script, tag):
    """Runs a python snippet of this file in a mount namespace with copies."""
    copy = tempfile.mkdtemp(prefix='mutcopy-')
    try:
        subprocess.run(['cp', '-a', '/repo', f'{copy}/repo'], check=True)
        subprocess.run(['rsync', '-a', '--exclude=.git', '--exclude=seeded', ROOT + '/',
                        f'{copy}/verif/'], check=False) \
            if shutil.which('rsync') else \
            subprocess.run(['cp', '-a', ROOT, f'{copy}/verif'], check=True)
        p = subprocess.run(['unshare', '-m', 'bash', '-c',
                            f'mount --bind {copy}/repo /repo && '
                            f'mount --bind {copy}/verif {ROOT} && {script}'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=3600)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, str(e.stdout)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def run_tests(args):
    file, index, (line, new) = args
    path = os.path.join('/repo', file)
    text = open(path).read()
    lines = text.split('\n')
    tag = f'{os.path.basename(os.path.dirname(file))}-{line + 1}-{index}'
    lines[line] = new
    mut = '\n'.join(lines)
    with tempfile.TemporaryDirectory(prefix='mutw-') as d:
        os.makedirs(os.path.join(d, 'a', os.path.dirname(file)))
        os.makedirs(os.path.join(d, 'b', os.path.dirname(file)))
        open(os.path.join(d, 'a', file), 'w').write(text)
        open(os.path.join(d, 'b', file), 'w').write(mut)
        diff = subprocess.run(['diff', '-u', f'a/{file}', f'b/{file}'], cwd=d,
                              capture_output=True, text=True).stdout
        name = os.path.join(d, 'x.diff')
        open(name, 'w').write(diff)
        # Does it compile?
        if file.endswith('.c'):
            p = subprocess.run(['gcc', '-c', '-Wall', '-Wextra', '-Wconversion', '-Werror',
                                '-Wfloat-equal', '-I/repo/lib/include', '-o', f'{d}/x.o',
                                f'{d}/b/{file}'], capture_output=True)
            if p.returncode:
                return tag, 'no-compile'
        else:
            try:
                compile(mut, file, 'exec')
            except SyntaxError:
                return tag, 'no-compile'
        rc, out = in_copy(f'cd /repo && git apply {name} && '
                          f'bash /opt/vp/test.sh {d}/t.json', tag)
    if '141 passed, 0 failed' not in out.strip().splitlines()[-1:][0]:
        return tag, 'killed'
    open(os.path.join(OUT, tag + '.diff'), 'w').write(diff)
    return tag, 'SURVIVED'


def run_checks(args):
    diff, checks, seed = args
    script = (f'cd /repo && git apply {diff} && cd {ROOT} && for c in {" ".join(checks)}; '
              f'do VERIF_SEED={seed} VERIF_TIER=quick timeout 850 python3-vt check.py $c quick; '
              f'rc=$?; echo RC $c $rc; '
              f'if [ $rc != 0 ]; then exit 0; fi; done')
    rc, out = in_copy(script, '')
    got = re.findall(r'^RC (\w+) (\d+)$', out, re.M)
    verdict = 'MISSED'
    for c, r in got:
        if r == '1':
            verdict = f'caught {c}'
        elif r != '0':
            verdict = f'ODD {c} {r}'
    if not got:
        verdict = 'ODD ' + out[-300:]
    msg = [x for x in out.splitlines() if x.startswith('VIOLATION')][:1]
    extra = ''
    i = out.find('VIOLATION')
    if i >= 0:
        extra = out[i:i + 300].replace('\n', ' | ')
    with open(diff + '.res', 'w') as f:
        f.write(verdict + '\n' + out[-4000:])
    return os.path.basename(diff), verdict, extra if 'caught' in verdict else out[-200:] if 'ODD' in verdict else ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('what')
    ap.add_argument('rest', nargs='*')
    ap.add_argument('-j', type=int, default=7)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--lines', default='')
    a = ap.parse_intermixed_args()
    os.makedirs(OUT, exist_ok=True)
    if a.mode == 'tests':
        text = open(os.path.join('/repo', a.what)).read()
        c = candidates(text, a.what.endswith('.py'))
        if a.lines:
            lo, hi = map(int, a.lines.split('-'))
            c = [x for x in c if lo <= x[0] + 1 <= hi]
        print(len(c), 'candidates', flush=True)
        random.Random(a.seed).shuffle(c)
        jobs = [(a.what, f'{a.seed}_{i}', x) for i, x in enumerate(c[:int(a.rest[0])])]
        count = {}
        with ThreadPoolExecutor(a.j) as ex:
            for tag, v in ex.map(run_tests, jobs):
                count[v] = count.get(v, 0) + 1
                if v == 'SURVIVED':
                    print(tag, v, flush=True)
        print(count)
    else:
        jobs = [(os.path.abspath(d), a.what.split(','), a.seed) for d in a.rest]
        with ThreadPoolExecutor(a.j) as ex:
            for r in ex.map(run_checks, jobs):
                print(*r, flush=True)


main()
