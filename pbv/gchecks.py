"""Checks of the generated C as C: C12 and C13."""
import json
import os
import shutil
import subprocess
import tempfile

from . import cbuild, schema
from .cbuild import LIBDIR, compile_cmd
from .pbt import HarnessError, Violation
from .pchecks import random_files, short, size_of, write
from .pyclient import Server
from .runner import Case, Check
from .schema import CTYPE

# The flags the project builds its own generated code with (tests/Makefile).
STRICT = ['-Wdouble-promotion', '-Wfloat-equal', '-Wformat=2', '-Wshadow', '-Werror',
          '-std=gnu11', '-Wconversion', '-Wno-sign-conversion', '-Wall', '-Wextra',
          '-Wpedantic']
CLANG = STRICT + ['-Wno-gnu-alignof-expression']
CPP = ['-Werror', '-Wall', '-Wextra', '-Wpedantic', '-Wshadow']
INCLUDE = os.path.join(LIBDIR, 'include')


# ------------------------------ the documented API ------------------------------

REPEATED = {'int32': 'int32', 'int64': 'int64', 'sint32': 'int32', 'sint64': 'int64',
            'uint32': 'uint32', 'uint64': 'uint64', 'fixed32': 'uint32',
            'fixed64': 'uint64', 'sfixed32': 'int32', 'sfixed64': 'int64',
            'float': 'float', 'double': 'double', 'bool': 'bool', 'string': 'string',
            'bytes': 'bytes'}


def value_member(f):
    """(name suffix, C type) of one value."""
    if f.is_msg:
        return '_p', f'struct {f.type.cname}_t *'
    if f.kind == 'enum':
        return '', f'enum {f.type.cname}_e'
    return ('_p' if f.type == 'string' else ''), CTYPE[f.type]


def members(m):
    """The members of the struct of a message: {name: type}, a type being a C type or a
    dict for anonymous structs. Anonymous unions are given as '(union <oneof>)'.
    """
    out = {'base': 'struct pbtools_message_base_t'}
    for f in m.fields:
        if f.entry is not None:
            out[f.cname] = f'struct {f.entry.cname}_repeated_t'
        elif f.label == 'repeated':
            if f.is_msg:
                out[f.cname] = f'struct {f.type.cname}_repeated_t'
            else:
                name = 'int32' if f.kind == 'enum' else REPEATED[f.type]
                out[f.cname] = f'struct pbtools_repeated_{name}_t'
        elif f.label == 'optional':
            suffix, ctype = value_member(f)
            out[f.cname] = {'is_present': 'bool', 'value' + suffix: ctype}
        else:
            suffix, ctype = value_member(f)
            out[f.cname + suffix] = ctype
    for o in m.oneofs:
        out[o.cname] = f'enum {o.cfull}_e'
        union = {}
        for f in o.fields:
            suffix, ctype = value_member(f)
            union[f.cname + suffix] = ctype
        out['(union %s)' % ' '.join(sorted(union))] = union
    return out


def functions(f):
    """{name: type} of the documented functions of a file."""
    out = {}
    for m in f.all_messages():
        st = f'struct {m.cname}_t *'
        if m.parent is None:
            out[f'{m.cname}_new'] = f'{st}(void *, size_t)'
            out[f'{m.cname}_encode'] = f'int ({st}, uint8_t *, size_t)'
            out[f'{m.cname}_decode'] = f'int ({st}, const uint8_t *, size_t)'
        for x in m.fields:
            if x.label in ('repeated', 'map'):
                out[f'{m.cname}_{x.cname}_alloc'] = f'int ({st}, int)'
            elif x.is_msg:
                out[f'{m.cname}_{x.cname}_alloc'] = f'int ({st})'
        for o in m.oneofs:
            for x in o.fields:
                if x.is_msg:
                    out[f'{m.cname}_{x.cname}_alloc'] = f'int ({st})'
                else:
                    out[f'{m.cname}_{x.cname}_init'] = f'void ({st})'
    return out


def documented(f, upper):
    """(structs, enums, functions) of a file."""
    structs, enums = {}, {}
    for m in f.all_messages():
        structs[f'{m.cname}_t'] = members(m)
        structs[f'{m.cname}_repeated_t'] = {'length': 'int',
                                            'items_p': f'struct {m.cname}_t *'}
        for o in m.oneofs:
            values = {f'{o.cfull}_none_e': 0}
            for i, x in enumerate(o.fields, 1):
                values[f'{o.cfull}_{x.cname}_e'] = i
            enums[f'{o.cfull}_e'] = values
    for e in f.all_enums():
        enums[f'{e.cname}_e'] = {e.enumerator(n, upper): v for n, v in e.values}
    return structs, enums, functions(f)


# ------------------------------ reading headers ------------------------------

def ast_of(header, out):
    p = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w',
                        '-std=gnu11', '-I', INCLUDE, '-I', out, '-x', 'c', header],
                       capture_output=True, timeout=120)
    if p.returncode != 0:
        raise Violation('a generated header does not compile',
                        output=p.stderr.decode('utf-8', 'replace')[:2000])
    return json.loads(p.stdout)


def record(node):
    """Members of a struct or union node, and the first member."""
    out = {}
    first = None
    anonymous = {}
    for n in node.get('inner', ()):
        if n['kind'] in ('RecordDecl', 'CXXRecordDecl') and 'name' not in n:
            anonymous[n.get('id')] = last = n
        if n['kind'] == 'FieldDecl':
            name = n.get('name')
            ctype = n['type']['qualType']
            if 'unnamed' in ctype or 'anonymous' in ctype:
                sub, _ = record(last)
                if last.get('tagUsed') == 'union':
                    name = '(union %s)' % ' '.join(sorted(sub)) if name is None else name
                ctype = sub
            out[name] = ctype
            if first is None:
                first = name
    return out, first


def constant(node):
    if 'value' in node:
        return int(node['value'])
    for n in node.get('inner', ()):
        v = constant(n)
        if v is not None:
            return v
    return None


def declarations(tree):
    """(structs, first members, enums, functions) of a translation unit."""
    structs, firsts, enums, funs = {}, {}, {}, {}
    for n in tree['inner']:
        name = n.get('name')
        if n['kind'] == 'RecordDecl' and n.get('completeDefinition') and name:
            structs[name], firsts[name] = record(n)
        elif n['kind'] == 'EnumDecl' and name:
            values, following = {}, 0
            for c in n.get('inner', ()):
                if c['kind'] == 'EnumConstantDecl':
                    v = constant({'inner': [x for x in c.get('inner', ())
                                            if 'Comment' not in x['kind']]})
                    values[c['name']] = following if v is None else v
                    following = values[c['name']] + 1
            enums[name] = values
        elif n['kind'] == 'FunctionDecl' and name:
            funs[name] = n['type']['qualType']
    return structs, firsts, enums, funs


def plain(ctype):
    """Spellings that mean the same."""
    if isinstance(ctype, str):
        return ctype.replace('_Bool', 'bool')
    if isinstance(ctype, dict):
        return {k: plain(v) for k, v in ctype.items()}
    return ctype


class GCheck(Check):
    configs = ()
    factor = 20
    shrink_evals = 60

    def jobs(self, tier):
        k = 1 if tier == 'quick' else self.factor
        out = [{'n': 1, 'matrix': v, 'upper': u} for v in range(3) for u in (0, 1)]
        return out + [{'n': self.cases} for _ in range(self.quick_jobs * k)]

    def prepare(self, env, src):
        env.py = Server()
        env.servers.append(env.py)

    def case(self, env, src):
        root = tempfile.mkdtemp(dir=env.tmp)
        try:
            if 'matrix' in env.job:
                files = schema.matrix(env.job['matrix'])
                upper = bool(env.job['upper'])
            else:
                files = random_files(src, most=4, c_safe=True, messages=(0, 6),
                                     fields=(0, 8), nest=src.int(0, 3), subdirs=True)
                upper = src.bool(30)
            texts = {f.path: schema.render(f) for f in files}
            out = self.generate(env, files, texts, root, upper)
            return self.check(env, src, root, files, texts, out, upper)
        except Violation as e:
            e.detail.setdefault('files', texts)
            raise
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def generate(self, env, files, texts, root, upper, out='out'):
        protos = os.path.join(root, 'protos')
        for path, text in texts.items():
            write(os.path.join(protos, path), text)
        r = env.py.main(['generate_c_source', *['--enums-upper-case'] * upper, '-I', protos,
                         '-o', os.path.join(root, out)]
                        + [os.path.join(protos, f.path) for f in files], root)
        if r.get('code') != 0:
            raise Violation('the generator fails for valid proto files', reply=r)
        for f in files:
            for ext in ('.h', '.c'):
                if not os.path.exists(os.path.join(root, out, f.cstem + ext)):
                    raise Violation(f'{f.cstem}{ext} is not generated for {f.path}')
        return os.path.join(root, out)


class C12(GCheck):
    id = 'C12'
    rule = ('A case is a set of one to four generated proto files (any declaration order, '
            'self and mutual references, nesting, imports over packages and directories, '
            'all naming styles, both enum options). Each generated source is compiled with '
            'gcc -O1 under the flags of tests/Makefile and -Werror, every second set with '
            'clang too; a C and a C++ program that include all headers in random order, '
            'some twice, and refer to every documented function are compiled with warnings '
            'as errors and linked with the objects and the library. Non-trivial: at least '
            'eight declarations and a reference to another type.')
    quick_jobs = 24
    cases = 7

    def prepare(self, env, src):
        super().prepare(env, src)
        env.lib_o = os.path.join(env.tmp, 'pbtools.o')
        compile_cmd(['gcc', *STRICT, '-O1', '-I', INCLUDE, '-c',
                     os.path.join(LIBDIR, 'src', 'pbtools.c'), '-o', env.lib_o],
                    'the library (with the flags of the project)', env.tmp)

    def check(self, env, src, root, files, texts, out, upper):
        sources = [f.cstem + '.c' for f in files]
        compile_cmd(['gcc', *STRICT, '-O1', '-I', INCLUDE, '-I', out, '-c', *sources],
                    'generated code (gcc)', out)
        clang = src.bool(50)
        if clang:
            compile_cmd(['clang', *CLANG, '-fsyntax-only', '-I', INCLUDE, '-I', out,
                         *sources], 'generated code (clang)', out)
        headers = [f.cstem + '.h' for f in files]
        for name, cc, flags, std in (
                ('main.c', 'gcc', STRICT, []),
                ('main.cpp', 'g++', CPP, ['-std=' + src.choice(['c++11', 'c++17',
                                                                'c++20'])])):
            order = src.shuffled(headers)
            order += [src.choice(headers) for _ in range(src.below(3))]
            if src.bool(30):
                order.insert(src.below(len(order) + 1), 'pbtools.h')
            lines = [f'#include "{h}"' for h in order]
            funs = sorted({n for f in files for n in functions(f)})
            lines += ['typedef void (*fun_t)(void);', 'extern fun_t volatile all[];',
                      f'fun_t volatile all[{len(funs) + 1}];', 'int main(void)', '{']
            lines += [f'    all[{i}] = (fun_t){n};' for i, n in enumerate(funs)]
            lines += ['    return 0;', '}', '']
            write(os.path.join(out, name), '\n'.join(lines))
            # Function pointer casts are ours, not the generator's.
            what = 'a C program' if cc == 'gcc' else 'a C++ program'
            compile_cmd([cc, *flags, *std, '-Wno-cast-function-type', '-I', INCLUDE, '-I',
                         out, '-c', name, '-o', name + '.o'],
                        f'{what} including the generated headers', out)
            compile_cmd([cc, name + '.o', *[f.cstem + '.o' for f in files], env.lib_o, '-o',
                         name + '.exe'], f'{what} linking generated code', out)
        size = sum(size_of(f) for f in files)
        linked = any(not isinstance(x.type, str) for f in files
                     for m in f.all_messages() for x in m.all_fields)
        return Case(repr(sorted(texts.items())) + str(upper), size >= 8 and linked,
                    ['clang'] * clang + ['upper'] * upper + [f'{len(files)} files']
                    + ['imports'] * any(f.imports for f in files)
                    + ['maps'] * any(x.entry is not None for f in files
                                     for m in f.all_messages() for x in m.fields),
                    lambda: short(texts[files[-1].path], 400), evals=3 + clang)


class C13(GCheck):
    id = 'C13'
    rule = ('A case is a set of generated proto files as for C12. Each generated header is '
            'read by clang (its syntax tree); structs with their members and types, enums '
            'with names and numbers, choice enums, unions, list structs and function types '
            'are compared with what the documented naming scheme gives for the schema; '
            'nothing but internal functions may be there in addition. Half of the sets are '
            'generated with the other enum option as well: only enum constants may differ. '
            'Non-trivial: at least eight declarations.')
    quick_jobs = 24
    cases = 10

    def prepare(self, env, src):
        super().prepare(env, src)
        empty = os.path.join(env.tmp, 'empty.h')
        write(empty, '#include "pbtools.h"\n')
        env.base = declarations(ast_of(empty, env.tmp))

    def check(self, env, src, root, files, texts, out, upper):
        self.compare(env, files, out, upper)
        if src.bool(50):
            other = self.generate(env, files, texts, root, not upper, 'other')
            self.compare(env, files, other, not upper)
        size = sum(size_of(f) for f in files)
        return Case(repr(sorted(texts.items())) + str(upper), size >= 8,
                    ['upper'] * upper + [f'{len(files)} files'],
                    lambda: short(texts[files[-1].path], 400), evals=len(files))

    def compare(self, env, files, out, upper):
        for f in files:
            got = declarations(ast_of(os.path.join(out, f.cstem + '.h'), out))
            own = documented(f, upper)
            reach = [f]
            for g in reach:
                reach += [i for i in g.imports if i not in reach]
            every = [dict(), dict(), dict()]
            for g in reach:
                for a, b in zip(every, documented(g, upper)):
                    a.update(b)
            for what, want, have, base in (
                    ('struct', own[0], got[0], env.base[0]),
                    ('enum', own[1], got[2], env.base[2]),
                    ('function', own[2], got[3], env.base[3])):
                for name, w in want.items():
                    if name not in have:
                        raise Violation(f'{what} {name} is missing in {f.cstem}.h',
                                        expected=w)
                    if plain(have[name]) != plain(w):
                        raise Violation(f'{what} {name} in {f.cstem}.h is not as '
                                        'documented', expected=w, got=have[name])
            for name in own[0]:
                first = 'length' if name.endswith('_repeated_t') and \
                    'items_p' in own[0][name] else 'base'
                if got[1][name] != first:
                    raise Violation(f'struct {name} does not start with {first}')
            for what, have, base, known in (
                    ('struct', got[0], env.base[0], every[0]),
                    ('enum', got[2], env.base[2], every[1])):
                odd = sorted(set(have) - set(base) - set(known))
                if odd:
                    raise Violation(f'{f.cstem}.h has {what}s that the schema does not '
                                    'declare', got=odd)
