"""Development aid: profile one job of a check in this process."""
import cProfile, os, pstats, sys, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbv import runner
from pbv.checks import CHECKS
check = CHECKS[sys.argv[1]]
tmp = tempfile.mkdtemp()
shared = runner.shared_state(check, 'quick', 1, tmp)
os.makedirs(shared['libroot'])
job = check.jobs('quick')[int(sys.argv[2])]
job.update(index=int(sys.argv[2]), seed=f'1/{check.id}/{sys.argv[2]}')
p = cProfile.Profile()
t = time.time()
p.enable()
r = runner.run_job((check, shared, job))
p.disable()
print(time.time() - t, r['evals'], r['error'], r['violation'])
pstats.Stats(p).sort_stats('cumtime').print_stats(18)
shutil.rmtree(tmp)
