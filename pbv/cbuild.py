"""Generate C with the tool under test, compile it, and talk to the driver."""
import ast
import os
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

from . import model
from .pbt import HarnessError, Violation
from .schema import CTYPE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBV_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
LIBDIR = os.path.join(REPO, 'lib')

ASAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute',
        '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TRACE = '-fsanitize-coverage=trace-pc'
CONFIGS = {
    'asan': ('gcc', ASAN, []),
    # Calls of malloc() and friends inside the library are counted.
    'wrap': ('gcc', ASAN + ['-DPBV_WRAP'],
             ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']),
    # Basic blocks executed and bytes moved in the code under test are counted.
    'count': ('gcc', ['-O1', '-fno-builtin', '-DPBV_COUNT', TRACE],
              ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,'
               '--wrap=strlen']),
    'tsan': ('gcc', ['-g', '-O1', '-fsanitize=thread'], []),
    'gcc-O0': ('gcc', ['-O0'], []),
    'gcc-O2': ('gcc', ['-O2'], []),
    'gcc-O3': ('gcc', ['-O3'], []),
    'gcc-Os': ('gcc', ['-Os', '-fno-common'], []),
    'gcc-uchar': ('gcc', ['-O1', '-funsigned-char'], []),
    'gcc-m32': ('gcc', ['-O1', '-m32'], []),
    'clang-O0': ('clang', ['-O0'], []),
    'clang-O2': ('clang', ['-O2'], []),
    'clang-O3': ('clang', ['-O3'], []),
    'clang-ubsan': ('clang', ['-O1', '-g', '-fsanitize=undefined',
                              '-fno-sanitize=nonnull-attribute,function,pointer-overflow',
                              '-fno-sanitize-recover=all'], []),
    'msan': ('clang', ['-O1', '-g', '-fsanitize=memory',
                       '-fsanitize-memory-track-origins=0'], []),
    'nofloat': ('gcc', ['-O2', '-DPBTOOLS_CONFIG_FLOAT=0'], []),
    'nofloat-asan': ('gcc', ASAN + ['-DPBTOOLS_CONFIG_FLOAT=0'], []),
    'clang-nofloat': ('clang', ['-O1', '-DPBTOOLS_CONFIG_FLOAT=0'], []),
}

ENV = dict(os.environ)
ENV.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:'
                            'allocator_may_return_null=1:max_allocation_size_mb=3000',
            'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
            'TSAN_OPTIONS': 'exitcode=77:report_bugs=1',
            'MSAN_OPTIONS': 'exitcode=77',
            'LC_ALL': 'C', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': REPO})


def run_cli(args, cwd, env=None, timeout=120, python_args=()):
    """Run the pbtools command line. Returns (returncode, stdout, stderr)."""
    e = dict(ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run([PYTHON, *python_args, '-m', 'pbtools', *args], cwd=cwd,
                           env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, '', 'timeout'
    return (p.returncode, p.stdout.decode('utf-8', 'replace'),
            p.stderr.decode('utf-8', 'replace'))


def write_protos(files, root, render):
    for f in files:
        path = os.path.join(root, f.path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as fout:
            fout.write(render(f))


def compile_cmd(cmd, what, cwd, violation=True, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError('compiler timeout: ' + ' '.join(cmd))
    if p.returncode != 0:
        text = p.stdout.decode('utf-8', 'replace')
        if p.returncode < 0 or 'Killed' in text or 'No space left' in text:
            raise HarnessError('compiler died: ' + text[-2000:])
        if violation:
            raise Violation(f'{what} does not compile', output=text[:3000],
                            command=' '.join(cmd))
        raise HarnessError(f'{what} does not compile: ' + text[:3000])
    return p.stdout.decode('utf-8', 'replace')


class Lib:
    """The C library and the driver, compiled once per configuration."""

    def __init__(self, root):
        self.root = root

    def path(self, config):
        return os.path.join(self.root, 'lib-' + config)

    def get(self, config):
        cc, cflags, _ = CONFIGS[config]
        out = self.path(config)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        os.makedirs(out, exist_ok=True)
        base = [cc, *cflags, '-std=gnu11', '-I', os.path.join(LIBDIR, 'include')]
        compile_cmd([*base, '-c', os.path.join(LIBDIR, 'src', 'pbtools.c'),
                     '-o', os.path.join(out, 'pbtools.o')], 'the library', out)
        base = [x for x in base if x != TRACE]
        compile_cmd([*base, '-Wall', '-Wextra', '-fno-strict-aliasing', '-I',
                     os.path.join(VERIF, 'cdriver'), '-c',
                     os.path.join(VERIF, 'cdriver', 'driver.c'),
                     '-o', os.path.join(out, 'driver.o')], 'the driver', out, False)
        open(os.path.join(out, 'done'), 'w').close()
        return out


# ------------------------------ tables ------------------------------

KIND = {'int32': 'K_I32', 'sint32': 'K_I32', 'sfixed32': 'K_I32', 'int64': 'K_I64',
        'sint64': 'K_I64', 'sfixed64': 'K_I64', 'uint32': 'K_U32', 'fixed32': 'K_U32',
        'uint64': 'K_U64', 'fixed64': 'K_U64', 'float': 'K_F32', 'double': 'K_F64',
        'bool': 'K_BOOL', 'string': 'K_STRING', 'bytes': 'K_BYTES', 'enum': 'K_ENUM',
        'message': 'K_MSG'}


def member(f):
    """Name of the struct member holding the field."""
    t = model.tname(f)
    if f.label in ('repeated', 'map', 'optional'):
        return f.cname
    return f.cname + ('_p' if t in ('string', 'message') else '')


def table(files, upper=False):
    """C source of the tables for driver.c, and the messages in table order."""
    msgs = [m for f in files for m in f.all_messages()]
    index = {id(m): i for i, m in enumerate(msgs)}
    out = ['#include "driver.h"']
    for f in files:
        out.append(f'#include "{f.cstem}.h"')
    rows = []
    for i, m in enumerate(msgs):
        st = f'struct {m.cname}_t'
        flds = []
        for f in m.all_fields:
            t = model.tname(f)
            mem = member(f)
            label = {'plain': 'L_PLAIN', 'optional': 'L_OPTIONAL', 'oneof': 'L_ONEOF',
                     'repeated': 'L_REPEATED', 'map': 'L_REPEATED'}[f.label]
            choice, sub, off2 = '0', '-1', '0'
            alloc = alloc_n = select = 'NULL'
            off = f'offsetof({st}, {mem})'
            esize = f'sizeof((({st} *)0)->{mem})'
            func = f'{m.cname}_{f.cname}'
            if t == 'message':
                s = model.submsg(f)
                sub = str(index[id(s)])
                esize = f'sizeof(struct {s.cname}_t)'
            if label == 'L_REPEATED':
                alloc_n = f'(alloc_n_fn){func}_alloc'
                items = 'items_pp' if t == 'string' else 'items_p'
                esize = f'sizeof(*(({st} *)0)->{mem}.{items})'
            elif label == 'L_OPTIONAL':
                val = 'value_p' if t == 'string' else 'value'
                off = f'offsetof({st}, {mem}.{val})'
                off2 = f'offsetof({st}, {mem}.is_present)'
                esize = f'sizeof((({st} *)0)->{mem}.{val})'
            else:
                if t == 'message':
                    alloc = f'(alloc_fn){func}_alloc'
                elif label == 'L_ONEOF':
                    select = f'(select_fn){func}_init'
                if label == 'L_ONEOF':
                    off2 = f'offsetof({st}, {f.oneof.cname})'
                    choice = f'{f.oneof.cfull}_{f.cname}_e'
                    if upper:
                        choice = choice.upper()
            flds.append(f'    {{ {KIND[t]}, {label}, {f.number}u, {choice}, {sub}, {off}, '
                        f'{off2}, {esize}, {alloc}, {alloc_n}, {select} }},')
        if flds:
            out.append(f'static const struct fld f{i}[] = {{')
            out += flds
            out.append('};')
        if m.oneofs:
            out.append(f'static const size_t o{i}[] = {{ ' + ', '.join(
                f'offsetof({st}, {o.cname})' for o in m.oneofs) + ' };')
        if m.parent is None:
            fn = (f'(new_fn){m.cname}_new, (encode_fn){m.cname}_encode, '
                  f'(decode_fn){m.cname}_decode')
        else:
            fn = 'NULL, NULL, NULL'
        rows.append(f'    {{ "{m.full}", sizeof({st}), {len(flds)}, '
                    + (f'f{i}' if flds else 'NULL') + f', {len(m.oneofs)}, '
                    + (f'o{i}' if m.oneofs else 'NULL') + f', {fn} }},')
    out.append('const struct msg pbv_msgs[] = {')
    out += rows or ['    { "", 0, 0, NULL, 0, NULL, NULL, NULL, NULL }']
    out.append('};')
    out.append(f'const int pbv_nmsgs = {len(msgs)};')
    return '\n'.join(out) + '\n', msgs


def generate_c(files, root, render, opts=(), protos_dir='protos', out='out'):
    """Write the proto files and run the generator on them."""
    protos = os.path.join(root, protos_dir)
    write_protos(files, protos, render)
    code, stdout, stderr = run_cli(
        ['generate_c_source', *opts, '-I', protos, '-o', os.path.join(root, out),
         *[os.path.join(protos, f.path) for f in files]], root)
    if code != 0:
        raise Violation('the generator fails for valid proto files',
                        exit_code=code, stderr=stderr[-1500:],
                        proto={f.path: render(f) for f in files})
    return os.path.join(root, out)


class Program:
    """Generated code of a set of files with the driver, compiled."""

    def __init__(self, lib, root, files, render, configs=('asan',), upper=False):
        self.files = files
        self.root = root
        self.render = render
        opts = ['--enums-upper-case'] if upper else []
        self.out = generate_c(files, root, render, opts)
        text, self.msgs = table(files, upper)
        self.index = {id(m): i for i, m in enumerate(self.msgs)}
        self.tops = [m for m in self.msgs if m.parent is None]
        with open(os.path.join(root, 'table.c'), 'w') as fout:
            fout.write(text)
        self.exes = {}
        for config in configs:
            self.compile(lib, config)

    def compile(self, lib, config):
        cc, cflags, lflags = CONFIGS[config]
        exe = os.path.join(self.root, 'driver-' + config)
        lib_dir = lib.get(config)
        sources = [os.path.join(self.out, f.cstem + '.c') for f in self.files]
        for s in sources:
            if not os.path.exists(s):
                raise Violation('a source file was not generated: '
                                + os.path.basename(s),
                                proto={f.path: self.render(f) for f in self.files})
        try:
            compile_cmd([cc, *cflags, '-std=gnu11', '-w', '-I',
                         os.path.join(LIBDIR, 'include'), '-I', self.out, '-I',
                         os.path.join(VERIF, 'cdriver'),
                         os.path.join(self.root, 'table.c'), *sources,
                         os.path.join(lib_dir, 'pbtools.o'),
                         os.path.join(lib_dir, 'driver.o'), '-o', exe, '-lpthread',
                         *lflags], 'generated code (with the access tables)',
                        self.root)
        except Violation as e:
            e.detail['proto'] = {f.path: self.render(f) for f in self.files}
            raise
        self.exes[config] = exe

    def server(self, config='asan'):
        return Server(self.exes[config], self.root, config)

    def mindex(self, m):
        return self.index[id(m)]


class Server:
    """A running driver."""

    def __init__(self, exe, root, config):
        self.exe = exe
        self.config = config
        self.errfile = os.path.join(root, 'stderr-' + config)
        self.p = None
        self._sizes = None
        self.requests = 0

    def start(self):
        self.err = open(self.errfile, 'w+b')
        cmd = [self.exe]
        if self.config == 'tsan':
            cmd = ['setarch', '-R'] + cmd if shutil.which('setarch') else cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=ENV, bufsize=0)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def died(self, why):
        code = None
        if self.p is not None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                code = self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                code = 'hang'
            self.err.seek(0)
            text = self.err.read().decode('utf-8', 'replace')
            self.p.stdout.close()
            self.err.close()
            self.p = None
        else:
            text = ''
        if 'DRIVER-ERROR' in text or code in (96, 97):
            raise HarnessError('driver: ' + text[-2000:])
        if code in (-signal.SIGKILL, -signal.SIGTERM):
            raise HarnessError('the driver was killed from outside')
        if code == 98:
            what = re.search(r'DRIVER-FOUND: (.*)', text)
            raise Violation(what.group(1) if what else text[-300:])
        m = re.search(r'(ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*|'
                      r'WARNING: \w+Sanitizer: [^\n]*)', text)
        raise Violation(f'{why}: ' + (m.group(1) if m else f'exit code {code}'),
                        exit_code=code, stderr=text[:2500])

    def request(self, script, timeout=120):
        if self.p is None:
            self.start()
        self.requests += 1
        try:
            data = memoryview(struct.pack('<I', len(script)) + script)
            while data:
                data = data[self.p.stdin.write(data):]
        except (BrokenPipeError, OSError):
            self.died('crash')
        head = self._read(4, timeout)
        return self._read(struct.unpack('<I', head)[0], timeout)

    def _read(self, n, timeout):
        out = b''
        fd = self.p.stdout.fileno()
        deadline = time.monotonic() + timeout
        while len(out) < n:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                self.p.kill()
                self.p.wait()
                self.stop()
                raise Violation(f'no answer within {timeout} seconds (hang)')
            piece = os.read(fd, max(n - len(out), 1))
            if not piece:
                self.died('crash')
            out += piece
        return out

    def sizes(self, program):
        if self._sizes is None:
            data = self.request(b'I')
            n = struct.unpack('<I', data[:4])[0]
            values = struct.unpack(f'<{n}I', data[4:])
            self._sizes = {m.full: v for m, v in zip(program.msgs, values)}
        return self._sizes


# ----------------------------- scripts -----------------------------

class Script:
    """Builds a script and decodes the response."""

    def __init__(self):
        self.data = bytearray()
        self.readers = []

    def new(self, slot, mindex, size, mis=0, fill=0xee):
        self.data += struct.pack('<cBHIBB', b'N', slot, mindex, size, mis, fill)
        self.readers.append('u8')
        return self

    def giant_new(self, slot, mindex, size):
        self.data += struct.pack('<cBHQ', b'M', slot, mindex, size)
        self.readers.append('u8')
        return self

    def giant_encode(self, slot, size):
        self.data += struct.pack('<cBQ', b'K', slot, size)
        self.readers.append('encode')
        return self

    def giant_decode(self, slot, size, data):
        self.data += struct.pack('<cBQI', b'J', slot, size, len(data)) + data
        self.readers.append('i32')
        return self

    def giant_field(self, slot, idx, length, size):
        """Encode with a giant string or byte array. The slot is unusable then."""
        self.data += struct.pack('<cBHQI', b'P', slot, idx, length, size)
        self.readers.append('i32')
        return self

    def renew(self, slot, mindex):
        self.data += struct.pack('<cBH', b'R', slot, mindex)
        self.readers.append('u8')
        return self

    def build(self, slot, tree):
        self.data += struct.pack('<cBI', b'B', slot, len(tree)) + tree
        self.readers.append('i32')
        return self

    def alloc(self, slot, idx, n):
        self.data += struct.pack('<cBHi', b'A', slot, idx, n)
        self.readers.append('alloc')
        return self

    def encode(self, slot, size, mis=0):
        self.data += struct.pack('<cBIB', b'E', slot, size, mis)
        self.readers.append('encode')
        return self

    def decode(self, slot, data, mis=0):
        self.data += struct.pack('<cBBI', b'D', slot, mis, len(data)) + data
        self.readers.append('decode')
        return self

    def cost(self):
        self.data += b'X'
        self.readers.append('cost')
        return self

    def dump(self, slot):
        self.data += struct.pack('<cB', b'U', slot)
        self.readers.append('blob')
        return self

    def free(self, slot):
        self.data += struct.pack('<cB', b'F', slot)
        return self

    def shared(self, data):
        self.data += struct.pack('<cI', b'G', len(data)) + data
        return self

    def decode_shared(self, slot):
        self.data += struct.pack('<cB', b'H', slot)
        self.readers.append('i32')
        return self

    def ownership(self, slot):
        self.data += struct.pack('<cB', b'Q', slot)
        return self

    def text(self, code):
        self.data += struct.pack('<ci', b'S', code)
        self.readers.append('blob')
        return self

    def allocs(self):
        self.data += b'Z'
        self.readers.append('u32')
        return self

    def sweep(self, op, mindex, lo, hi, step, big, data, mis=0, fill=0xee):
        self.data += struct.pack('<cHIIIIBBI', op, mindex, lo, hi, step, big, mis, fill,
                                 len(data)) + data
        self.readers.append('sweep')
        return self

    def encode_sweep(self, slot, big, lo, hi, step=1, mis=0):
        self.data += struct.pack('<cBIIIIB', b'C', slot, big, lo, hi, step, mis)
        self.readers.append('csweep')
        return self

    def threads(self, scripts):
        self.data += struct.pack('<cB', b'T', len(scripts))
        for s in scripts:
            self.data += struct.pack('<I', len(s.data)) + s.data
        self.readers.append([s.readers for s in scripts])
        return self

    def run(self, server, timeout=120):
        response = server.request(bytes(self.data), timeout)
        out, pos = parse_response(self.readers, response, 0)
        if pos != len(response):
            raise HarnessError('trailing response')
        return out


def parse_response(readers, d, pos):
    out = []
    for r in readers:
        if isinstance(r, list):
            one = []
            for sub in r:
                n = struct.unpack_from('<I', d, pos)[0]
                got, p = parse_response(sub, d[pos + 4:pos + 4 + n], 0)
                if p != n:
                    raise HarnessError('trailing thread response')
                one.append(got)
                pos += 4 + n
            out.append(one)
        elif r == 'u8':
            out.append(d[pos])
            pos += 1
        elif r == 'i32':
            out.append(struct.unpack_from('<i', d, pos)[0])
            pos += 4
        elif r == 'u32':
            out.append(struct.unpack_from('<I', d, pos)[0])
            pos += 4
        elif r == 'cost':
            out.append(struct.unpack_from('<QQ', d, pos))
            pos += 16
        elif r == 'alloc':
            out.append(struct.unpack_from('<ii', d, pos))
            pos += 8
        elif r == 'encode':
            res = struct.unpack_from('<i', d, pos)[0]
            pos += 4
            data = b''
            if res > 0:
                data = bytes(d[pos:pos + res])
                pos += res
            out.append((res, data))
        elif r == 'decode':
            out.append(struct.unpack_from('<iB', d, pos))
            pos += 5
        elif r == 'blob':
            n = struct.unpack_from('<I', d, pos)[0]
            out.append(bytes(d[pos + 4:pos + 4 + n]))
            pos += 4 + n
        elif r == 'sweep':
            n, bad = struct.unpack_from('<Ii', d, pos)
            out.append((bad, bytes(d[pos + 8:pos + 8 + n]).decode()))
            pos += 8 + n
        elif r == 'csweep':
            length, n, bad = struct.unpack_from('<iIi', d, pos)
            out.append((length, bad, bytes(d[pos + 12:pos + 12 + n]).decode()))
            pos += 12 + n
        else:
            raise HarnessError(r)
    return out, pos


# ------------------------ constants of the source ------------------------

def mined_constants():
    """Integer literals in the code under test: a dictionary for generators."""
    found = set()
    for name in ('src/pbtools.c', 'include/pbtools.h'):
        try:
            with open(os.path.join(LIBDIR, name)) as fin:
                text = re.sub(r'/\*.*?\*/', ' ', fin.read(), flags=re.S)
        except OSError:
            continue
        for tok in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])', text):
            try:
                found.add(int(tok, 0) if not re.fullmatch(r'0\d+', tok)
                          else int(tok, 8))
            except ValueError:
                pass
        for a, b in re.findall(r'(\d+)[uUlL]*\)?\s*<<\s*(\d+)', text):
            if int(b) < 64:
                found.add(int(a) << int(b))
    for folder, _, names in os.walk(os.path.join(REPO, 'pbtools')):
        for name in names:
            if not name.endswith('.py') or 'rust' in folder or 'mys' in folder:
                continue
            try:
                with open(os.path.join(folder, name)) as fin:
                    tree = ast.parse(fin.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and type(node.value) is int:
                    found.add(node.value)
    return sorted(x for x in found if 3 <= x < (1 << 64))
