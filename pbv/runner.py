"""Runs the jobs of a check in parallel, shrinks failures, writes evidence."""
import hashlib
import json
import multiprocessing
import os
import resource
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import cbuild
from .pbt import HarnessError, Src, Violation, shrink

VERIF = cbuild.VERIF
EVIDENCE = os.path.join(VERIF, 'evidence')


class Case:
    """What one generated case was."""

    __slots__ = ('key', 'nontrivial', 'classes', 'sample', 'evals')

    def __init__(self, key, nontrivial, classes=(), sample=None, evals=1):
        self.key = key
        self.nontrivial = nontrivial
        self.classes = classes
        self.sample = sample
        self.evals = evals


class Check:
    """Base of all checks. A check has jobs; a job prepares an environment
    (say, compiles a schema) and runs many cases in it.
    """
    id = None
    level = 'exploration'
    rule = ''
    assumptions = ()
    configs = ()

    def jobs(self, tier):
        """List of dicts, each with at least n, the number of cases."""
        raise NotImplementedError

    def prepare(self, env, src):
        """Set up env for a job. All choices from src."""

    def case(self, env, src):
        """Run one case. Returns Case or raises Violation."""
        raise NotImplementedError

    def finish(self, env):
        pass

    def describe(self, env):
        """Extra information on the environment for a replay file."""
        return {}


class Env:

    def __init__(self, shared, job, tmp):
        self.shared = shared
        self.job = job
        self.tmp = tmp
        self.mined = shared['mined']
        self.tier = shared['tier']
        self.lib = cbuild.Lib(shared['libroot'])
        self.servers = []

    def close(self):
        for s in self.servers:
            s.stop()


def seed_of(*parts):
    text = '/'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'little')


def digest(key):
    if not isinstance(key, bytes):
        key = repr(key).encode()
    return hashlib.blake2b(key, digest_size=8).digest()


def detail_of(e):
    return {k: (v if isinstance(v, (str, int, dict, list, type(None))) else repr(v))
            for k, v in e.detail.items()}


def run_job(args):
    check, shared, job = args
    tmp = tempfile.mkdtemp(prefix='job', dir=shared['tmp'])
    out = {'job': job, 'evals': 0, 'keys': set(), 'classes': Counter(), 'samples': [],
           'violation': None, 'error': None, 'skipped': False}
    if time.time() > shared['deadline']:
        out['skipped'] = True
        return out
    env = Env(shared, job, tmp)
    began = time.monotonic()
    try:
        src = Src(seed=seed_of(job['seed'], 'prepare'))
        try:
            check.prepare(env, src)
        except Violation as e:
            violation = shrink_prepare(check, shared, job, src.record, e, tmp)
            out['violation'] = violation
            out['evals'] = 1
            return out
        for i in range(job['n']):
            if i % 16 == 0 and time.time() > shared['deadline']:
                break
            src2 = Src(seed=seed_of(job['seed'], i))
            try:
                case = check.case(env, src2)
            except Violation as e:
                out['evals'] += 1
                out['violation'] = shrink_case(check, env, job, src.record,
                                               src2.record, e)
                break
            out['evals'] += case.evals
            out['classes'].update(case.classes)
            if case.nontrivial:
                # A list of keys stands for as many distinct inputs.
                new = [digest(k) for k in case.key] if isinstance(case.key, list) \
                    else [digest(case.key)]
                if not out['keys'].issuperset(new):
                    out['keys'].update(new)
                    if case.sample is not None and len(out['samples']) < 2:
                        text = case.sample() if callable(case.sample) else case.sample
                        out['samples'].append(text[:500])
        check.finish(env)
    except HarnessError as e:
        out['error'] = 'harness: ' + str(e)
    except Violation as e:
        out['error'] = 'violation outside a case: ' + str(e)
    except Exception:
        out['error'] = traceback.format_exc()
    finally:
        env.close()
        shutil.rmtree(tmp, ignore_errors=True)
        out['wall'] = time.monotonic() - began
    return out


def make_violation(check, env, job, prepared, choices, e, evals):
    detail = detail_of(e)
    try:
        extra = check.describe(env) if env is not None else {}
    except Exception:
        extra = {}
    return {'property': check.id, 'message': str(e), 'job': job,
            'prepare_choices': prepared, 'case_choices': choices,
            'shrink_evaluations': evals, 'detail': detail, 'environment': extra}


def shrink_case(check, env, job, prepared, choices, e):
    last = {'e': e}

    def fails(candidate):
        src = Src(choices=candidate)
        try:
            check.case(env, src)
        except Violation as e2:
            last['best'] = (src.record, e2)
            last.setdefault('all', {})[tuple(src.record)] = e2
            return src.record
        except (HarnessError, OverflowError, MemoryError):
            return None
        return None

    best, evals = shrink(choices, fails, max_evals=check_shrink(check), max_seconds=25)
    err = last.get('all', {}).get(tuple(best), e)
    return make_violation(check, env, job, prepared, best, err, evals)


def check_shrink(check):
    return getattr(check, 'shrink_evals', 600)


def shrink_prepare(check, shared, job, choices, e, tmp):
    found = {}

    def fails(candidate):
        src = Src(choices=candidate)
        sub = tempfile.mkdtemp(dir=tmp)
        env = Env(shared, job, sub)
        try:
            check.prepare(env, src)
        except Violation as e2:
            found[tuple(src.record)] = e2
            return src.record
        except Exception:
            return None
        finally:
            env.close()
            shutil.rmtree(sub, ignore_errors=True)
        return None

    best, evals = shrink(choices, fails, max_evals=120, max_seconds=40)
    err = found.get(tuple(best), e)
    return make_violation(check, None, job, best, None, err, evals)


# ------------------------------ top level ------------------------------

def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def shared_state(check, tier, seed, tmp, mined=None):
    quick = tier == 'quick'
    return {'tmp': tmp, 'libroot': os.path.join(tmp, 'lib'), 'tier': tier, 'seed': seed,
            'mined': cbuild.mined_constants() if mined is None else mined,
            'deadline': time.time() + (600 if quick else 4 * 3600)}


def known_findings(prop):
    """Open findings: lines 'finding: property=<id> <signature> | <text>'."""
    out = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as fin:
            for line in fin:
                if line.startswith('finding: property=' + prop + ' '):
                    rest = line.split(' ', 2)[2].strip()
                    sig, _, text = rest.partition(' | ')
                    out.append((sig, text))
    except FileNotFoundError:
        pass
    return out


def run_check(check, tier, seed):
    start = time.time()
    tmp = tempfile.mkdtemp(prefix=f'pbv-{check.id}-')
    try:
        return _run_check(check, tier, seed, tmp, start)
    finally:
        # Compilers of workers that were stopped may still write there.
        for _ in range(50):
            shutil.rmtree(tmp, ignore_errors=True)
            if not os.path.exists(tmp):
                break
            time.sleep(0.1)


def _run_check(check, tier, seed, tmp, start):
    limits()
    shared = shared_state(check, tier, seed, tmp)
    jobs = check.jobs(tier)
    for i, job in enumerate(jobs):
        job['index'] = i
        job['seed'] = f'{seed}/{check.id}/{i}'
    results = []
    violations = []
    errors = []
    lib = cbuild.Lib(shared['libroot'])
    os.makedirs(shared['libroot'])
    workers = min(int(os.environ.get('PBV_WORKERS', '8')), max(len(jobs), 1))
    with multiprocessing.get_context('fork').Pool(workers, initializer=limits) as pool:
        try:
            pool.map(lib.get, check.configs, chunksize=1)
        except Violation as e:
            violations.append({'property': check.id, 'message': str(e), 'job': None,
                               'prepare_choices': None, 'case_choices': None,
                               'detail': detail_of(e), 'environment': {}})
        except HarnessError as e:
            errors.append(str(e))
        if not violations and not errors:
            for r in pool.imap(run_job, [(check, shared, j) for j in jobs],
                               chunksize=1):
                results.append(r)
                if r['error']:
                    errors.append(f"job {r['job']}: {r['error']}")
                    break
                if r['violation']:
                    violations.append(r['violation'])
                    break
        pool.terminate()
    evals = sum(r['evals'] for r in results)
    keys = set().union(*(r['keys'] for r in results)) if results else set()
    classes = Counter()
    for r in results:
        classes.update(r['classes'])
    samples = []
    for r in results:
        for s in r['samples']:
            if len(samples) < 8:
                samples.append(s)
    known = known_findings(check.id)
    unlisted = []
    for v in violations:
        hit = [t for sig, t in known if sig and sig in v['message']]
        if not hit:
            unlisted.append(v)
    for sig, text in known:
        print(f'KNOWN-FINDING: property={check.id} {text}')
    replay = None
    if unlisted:
        folder = os.path.join(EVIDENCE, 'replays')
        os.makedirs(folder, exist_ok=True)
        replay = os.path.join(folder, f'{check.id}-{tier}-{seed}.json')
        v = dict(unlisted[0])
        v.update(tier=tier, seed=seed, mined=shared['mined'],
                 how=f'python3-vt check.py replay {os.path.relpath(replay, VERIF)}')
        with open(replay, 'w') as fout:
            json.dump(v, fout, indent=1)
        print(f'{check.id}: {v["message"]}')
        for k, d in v['detail'].items():
            print(f'  {k}: {str(d)[:600]}')
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
        'coverage': {'evaluations': evals, 'distinct_nontrivial': len(keys),
                     'rule': check.rule, 'samples': samples or ['none'],
                     'jobs': len(results),
                     'jobs_skipped_for_time': sum(r['skipped'] for r in results),
                     'classes': dict(sorted(classes.items())),
                     'constants_mined_from_source': len(shared['mined'])},
        'assumptions': list(check.assumptions),
        'wall_s': round(time.time() - start, 2),
        'violations': len(unlisted)}
    with open(os.path.join(EVIDENCE, f'{check.id}.json'), 'w') as fout:
        json.dump(evidence, fout, indent=1)
        fout.write('\n')
    if os.environ.get('PBV_TIMES'):
        for r in sorted(results, key=lambda r: -r.get('wall', 0))[:8]:
            print(round(r.get('wall', 0), 1), r['job'])
    if errors:
        print(f'ERROR property={check.id}: {errors[0][:4000]}', file=sys.stderr)
        return 2
    if unlisted:
        print(f'VIOLATION property={check.id} replay={replay}')
        return 1
    print(f'OK property={check.id} tier={tier} seed={seed} evaluations={evals} '
          f'nontrivial={len(keys)} wall={evidence["wall_s"]}s')
    return 0


def replay(path, checks):
    with open(path) as fin:
        v = json.load(fin)
    check = checks[v['property']]
    tmp = tempfile.mkdtemp(prefix='pbv-replay-')
    try:
        limits()
        shared = shared_state(check, v['tier'], v['seed'], tmp, v['mined'])
        os.makedirs(shared['libroot'])
        sub = os.path.join(tmp, 'job')
        os.makedirs(sub)
        env = Env(shared, v['job'] or {}, sub)
        try:
            for config in check.configs:
                env.lib.get(config)
            if v['prepare_choices'] is not None:
                check.prepare(env, Src(choices=v['prepare_choices']))
            if v['case_choices'] is not None:
                check.case(env, Src(choices=v['case_choices']))
        except Violation as e:
            print(f'reproduced: {e}')
            for k, d in detail_of(e).items():
                print(f'  {k}: {d}')
            print(f'VIOLATION property={check.id} replay={path}')
            return 1
        finally:
            env.close()
        print('not reproduced: the case passes')
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
