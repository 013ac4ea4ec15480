"""Runs under the repository's Python: imports /repo's pbtools once and serves
requests, each in a forked child, so that nothing is carried over between them.

Request: one line of JSON. Reply: one line of JSON.
  {"op": "parse", "file": .., "paths": [..], "cwd": ..}
  {"op": "main", "args": [..], "cwd": ..}
  {"op": "write", "file": .., "text": ..}
  {"op": "tree", "root": .., "files": {..}}   these and no other proto files in root
  {"op": "many", "requests": [..]}      all of them in one process
"""
import contextlib
import io
import json
import os
import resource
import signal
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ['PBV_REPO'])
sys.setrecursionlimit(1000)

import pbtools                                                      # noqa: E402
from pbtools.errors import Error                                    # noqa: E402
try:
    from textparser import Error as TextError
except ImportError:
    TextError = Error

SECONDS = int(os.environ.get('PBV_SECONDS', '20'))


def field(f):
    return {'name': f.name, 'number': f.field_number, 'type': f.type,
            'full': f.full_type, 'kind': f.type_kind,
            'repeated': getattr(f, 'repeated', False),
            'optional': getattr(f, 'optional', False)}


def enum(e):
    return {'name': e.name, 'full': e.full_name,
            'values': [[f.name, f.field_number] for f in e.fields]}


def type_names(x):
    """Names of the types declared in x, if it says so."""
    names = getattr(x, 'type_names', None)
    return None if names is None else sorted(names)


def message(m):
    return {'type_names': type_names(m), 'name': m.name, 'full': m.full_name,
            'fields': [field(f) for f in m.fields],
            'oneofs': [{'name': o.name, 'full': o.full_name,
                        'fields': [field(f) for f in o.fields]} for o in m.oneofs],
            'enums': [enum(e) for e in m.enums],
            'messages': [message(x) for x in m.messages]}


def proto(p):
    return {'type_names': type_names(p), 'package': p.package, 'abspath': p.abspath,
            'imports': [{'type_names': type_names(i), 'path': i.path, 'abspath': i.abspath, 'package': i.package,
                         'enums': list(i.enums), 'messages': list(i.messages)}
                        for i in p.imports],
            'options': [[o.name, o.kind, o.value] for o in p.options],
            'services': [{'name': s.name,
                          'rpcs': [[r.name, r.request_type, r.request_stream,
                                    r.response_type, r.response_stream]
                                   for r in s.rpcs]} for s in p.services],
            'messages': [message(m) for m in p.messages],
            'enums': [enum(e) for e in p.enums]}


def handle(req):
    if req['op'] == 'many':
        return {'replies': [handle(r) for r in req['requests']]}
    if req['op'] == 'write':
        with open(req['file'], 'wb') as fout:
            fout.write(req['text'].encode())
        return {}
    if req['op'] == 'tree':
        for base, dirs, names in os.walk(req['root'], topdown=False):
            for name in names:
                if name.endswith('.proto'):
                    os.remove(os.path.join(base, name))
            for name in dirs:
                if name.endswith('.proto'):
                    os.rmdir(os.path.join(base, name))
        for path, text in req['files'].items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if text is None:
                os.mkdir(path)
                continue
            with open(path, 'wb') as fout:
                fout.write(text.encode())
        return {}
    os.chdir(req['cwd'])
    if req['op'] == 'parse':
        try:
            parsed = proto(pbtools.parse_file(req['file'], req['paths']))
        except BaseException as e:
            # What the command line would print, and whether it is a proper error.
            known = isinstance(e, (Error, TextError, OSError, UnicodeDecodeError))
            return {'error': str(e), 'type': type(e).__name__, 'known': known}
        return {'proto': parsed}
    sys.argv = ['pbtools'] + req['args']
    out, err = io.StringIO(), io.StringIO()
    code = 0
    known = True
    kind = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            pbtools._main()
        except SystemExit as e:
            cause = e.__context__
            kind = type(cause).__name__ if cause is not None else None
            known = cause is None or isinstance(cause, (Error, TextError, OSError,
                                                        UnicodeDecodeError))
            if isinstance(e.code, str):
                err.write(e.code + '\n')
                code = 1
            else:
                code = e.code or 0
        except BaseException as e:
            known = False
            kind = type(e).__name__
            err.write(repr(e))
            code = 1
    return {'code': code, 'stdout': out.getvalue(), 'stderr': err.getvalue(),
            'known': known, 'type': kind}


def main():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    inp, outp = sys.stdin.buffer, sys.stdout.buffer
    while True:
        line = inp.readline()
        if not line:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(SECONDS)
            resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
            try:
                data = json.dumps(handle(json.loads(line))).encode()
            except BaseException as e:
                data = json.dumps({'harness': repr(e)}).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            data = json.dumps({'signal': os.WTERMSIG(status)}).encode()
        outp.write(data + b'\n')
        outp.flush()


main()
