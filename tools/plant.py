"""Verifies planted bugs: plant.py [-j N] [-c all|own|none] ID...

Each one is tried in a copy of /repo mounted over /repo in a mount namespace of its
own: demo on the clean tree (must pass), patch, build, tests (must pass), demo (must
fail), then the checks. Prints one line for each bug."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'eda3faa'


def inner(bug, checks, seed):
    """Runs with a scratch copy of /repo mounted at /repo."""
    folder = os.path.join(ROOT, 'seeded', bug)
    work = tempfile.mkdtemp(prefix=f'plant-{bug}-')
    res = {}

    def run(cmd, timeout=900, **kw):
        try:
            return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, timeout=timeout,
                                  errors='replace', **kw)
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess(cmd, 99, str(e.stdout), '')

    demo = os.path.join(work, 'demo')
    shutil.copytree(folder, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    p = run('bash /opt/vp/build.sh')
    res['build0'] = p.returncode
    p = run(f'bash {demo}/demo.sh', cwd='/repo', timeout=300)
    res['demo0'] = p.returncode
    if p.returncode:
        res['demo0_out'] = p.stdout[-1500:]
    p = run(f'git apply {folder}/patch.diff', cwd='/repo')
    res['apply'] = p.returncode
    if p.returncode:
        res['apply_out'] = p.stdout[-1500:]
        return res
    # At least one changed line of the original.
    lines = [x[1:] for x in open(f'{folder}/patch.diff') if x.startswith('-')
             and not x.startswith('---')]
    files = re.findall(r'^\+\+\+ b/(.*)$', open(f'{folder}/patch.diff').read(), re.M)
    orig = ''.join(run(f'git show {BASE}:{f}', cwd='/repo').stdout for f in files)
    res['original'] = sum(1 for x in lines if x.strip() and x in orig)
    p = run('bash /opt/vp/build.sh')
    res['build'] = p.returncode
    if p.returncode:
        res['build_out'] = p.stdout[-1500:]
        return res
    p = run(f'bash /opt/vp/test.sh {work}/t.json')
    last = p.stdout.strip().splitlines()[-1]
    res['tests'] = last
    if ' 0 failed' not in last:
        res['tests_out'] = [x for x in p.stdout.splitlines() if 'FAIL' in x][:8]
    p = run(f'bash {demo}/demo.sh', cwd='/repo', timeout=300)
    res['demo'] = p.returncode
    res['demo_out'] = p.stdout[-400:]
    res['checks'] = {}
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER='quick')
    for c in checks:
        p = run(f'python3-vt check.py {c} quick', cwd=ROOT, env=env)
        out = [x for x in p.stdout.splitlines() if x.startswith('VIOLATION')]
        res['checks'][c] = (p.returncode, out[:1] or p.stdout.strip().splitlines()[-1:])
        if p.returncode:
            with open(os.path.join('/tmp/plant', f'{bug}-{c}.out'), 'w') as f:
                f.write(p.stdout)
    shutil.rmtree(work, ignore_errors=True)
    return res


def outer(bug, checks, seed):
    copy = tempfile.mkdtemp(prefix=f'plantrepo-{bug}-')
    out = os.path.join('/tmp/plant', f'{bug}.json')
    if os.path.exists(out):
        os.remove(out)
    ver = os.path.join(copy, 'verif')
    try:
        subprocess.run(['cp', '-a', '/repo', f'{copy}/repo'], check=True)
        # evidence and out folders of their own
        subprocess.run(['cp', '-a', ROOT, ver], check=True)
        subprocess.run(['unshare', '-m', 'bash', '-c',
                        f'mount --bind {copy}/repo /repo && mount --bind {ver} {ROOT} && '
                        f'python3 -B {ROOT}/tools/plant.py --inner {out} --seed {seed} '
                        f'--list {",".join(checks) or "-"} {bug}'])
        return json.load(open(out))
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', type=int, default=3)
    ap.add_argument('-c', default='own')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--inner')
    ap.add_argument('--list')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    if a.inner:
        checks = [] if a.list == '-' else a.list.split(',')
        res = inner(a.ids[0], checks, a.seed)
        json.dump(res, open(a.inner, 'w'), indent=1)
        return
    os.makedirs('/tmp/plant', exist_ok=True)
    ids = a.ids or sorted(os.listdir(os.path.join(ROOT, 'seeded')))

    def one(bug):
        meta = json.load(open(os.path.join(ROOT, 'seeded', bug, 'meta.json')))
        if a.c == 'own':
            checks = [meta['property']]
        elif a.c == 'none':
            checks = []
        elif a.c == 'all':
            checks = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
        else:
            checks = a.c.split(',')
        try:
            r = outer(bug, checks, a.seed)
        except Exception as e:
            print(bug, 'FAILED', e, flush=True)
            return
        good = (r.get('build0') == 0 and r.get('demo0') == 0 and r.get('apply') == 0
                and r.get('build') == 0 and ' 0 failed' in r.get('tests', '')
                and r.get('demo') and r.get('original'))
        caught = [c for c, v in r.get('checks', {}).items() if v[0] == 1]
        odd = {c: v for c, v in r.get('checks', {}).items() if v[0] not in (0, 1)}
        line = f'{bug}: {"valid" if good else "INVALID"} caught by {caught}'
        if odd:
            line += f' ODD {odd}'
        if not good:
            line += ' ' + json.dumps({k: v for k, v in r.items() if k != 'checks'})[:1500]
        print(line, flush=True)
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, ids))


main()
