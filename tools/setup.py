"""Setup: there is nothing to build ahead, every check builds /repo itself. Only
tells early if a tool is missing.
"""
import os
import shutil
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
missing = [x for x in ('gcc', 'g++', 'clang', 'clang++', 'setarch') if not shutil.which(x)]
if missing:
    sys.exit('missing tools: ' + ' '.join(missing))
from pbv.checks import CHECKS
print('ready:', *sorted(CHECKS))
