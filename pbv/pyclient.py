"""Client of pyserver.py, and running the command line tool."""
import json
import os
import subprocess

from .cbuild import REPO, VERIF
from .pbt import HarnessError

PYTHON = os.environ.get('PBV_PYTHON', '/opt/venv/bin/python')

# Exceptions that mean that the program, not its input, is wrong.
INTERNAL = {'KeyError', 'IndexError', 'AttributeError', 'TypeError', 'NameError',
            'AssertionError', 'RecursionError', 'UnboundLocalError', 'MemoryError',
            'ZeroDivisionError', 'StopIteration', 'InternalError', 'SystemError',
            'NotImplementedError', 'RuntimeError'}


def environment(**more):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PBV_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO,
               LC_ALL='C.UTF-8')
    env.update(more)
    return env


def parse_request(file, paths, cwd):
    return {'op': 'parse', 'file': file, 'paths': list(paths), 'cwd': cwd}


def main_request(args, cwd):
    return {'op': 'main', 'args': list(args), 'cwd': cwd}


class Server:

    def __init__(self):
        self.proc = None

    def start(self):
        self.proc = subprocess.Popen(
            [PYTHON, '-B', os.path.join(VERIF, 'pbv', 'pyserver.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            env=environment(PYTHONHASHSEED='0'))

    def request(self, **req):
        if self.proc is None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps(req).encode() + b'\n')
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
            reply = json.loads(line)
        except (OSError, ValueError) as e:
            err = b''
            if self.proc is not None:
                self.proc.kill()
                err = self.proc.communicate()[1]
                self.proc = None
            raise HarnessError(f'server: {e!r} {err[-1500:]!r}')
        if 'harness' in reply:
            raise HarnessError('server: ' + reply['harness'])
        return reply

    def parse(self, file, paths=(), cwd='/', after=()):
        """In a process that has handled the requests `after` first."""
        return self.last(after, parse_request(file, paths, cwd))

    def main(self, args, cwd, after=()):
        return self.last(after, main_request(args, cwd))

    def last(self, after, request):
        if not after:
            return self.request(**request)
        reply = self.request(op='many', requests=[*after, request])
        return reply['replies'][-1] if 'replies' in reply else reply

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.communicate()
            self.proc = None


def cli(args, cwd, hashseed='0', timeout=60, **more):
    """(exit status, stdout, stderr) of a new process of the tool."""
    r = subprocess.run([PYTHON, '-B', '-m', 'pbtools'] + list(args), cwd=cwd,
                       env=environment(PYTHONHASHSEED=str(hashseed), **more),
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
    return r.returncode, r.stdout.decode('utf-8', 'replace'), \
        r.stderr.decode('utf-8', 'replace')
