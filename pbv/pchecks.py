"""Checks of the parser and the command line tool: C14-C18."""
import os
import re
import shutil
import tempfile

from . import prototext, schema, scoping
from .pbt import HarnessError, Violation
from .prototext import OPTION_NAMES, constant, option_name
from .pyclient import INTERNAL, Server, cli, main_request, parse_request
from .runner import Case, Check
from .schema import Enum, Field, File, Message, Oneof


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as fout:
        fout.write(text if isinstance(text, bytes) else text.encode())


def read(path):
    with open(path, 'rb') as fin:
        return fin.read()


def tree(root):
    """{relative path: content} of all files, directories as None."""
    out = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        for d in dirs:
            out[os.path.normpath(os.path.join(rel, d))] = None
        for f in files:
            out[os.path.normpath(os.path.join(rel, f))] = read(os.path.join(base, f))
    return out


def short(text, limit=3000):
    return text if len(text) <= limit else text[:limit] + f'... ({len(text)} characters)'


class PCheck(Check):
    """Base: one scratch directory per case, one server per job."""
    configs = ()
    quick_jobs = 24
    cases = 40
    factor = 20
    shrink_evals = 250

    def jobs(self, tier):
        k = 1 if tier == 'quick' else self.factor
        return [{'n': self.cases} for _ in range(self.quick_jobs * k)]

    def prepare(self, env, src):
        env.server = Server()
        env.servers.append(env.server)

    def case(self, env, src):
        root = tempfile.mkdtemp(dir=env.tmp)
        try:
            return self.check(env, src, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def healthy(self, reply, **detail):
        """No hang, no kill."""
        if 'signal' in reply:
            raise Violation(f'the parser hangs or dies (signal {reply["signal"]})',
                            **detail)
        return reply


def decorate(src, files):
    """Add options and services."""
    for f in files:
        f.options = []
        for _ in range(src.weighted([(3, 0), (3, 1), (2, 4)])):
            tokens, name = option_name(src)
            value_tokens, kind, value = constant(src)
            f.options.append((tokens, kind, value, value_tokens, name))
        f.services = []
        names = set()
        for _ in range(src.weighted([(3, 0), (3, 1), (1, 3)])):
            name = schema.styled(src, schema.TYPE_WORDS, camel=True) + 'Service'
            if name in names:
                continue
            names.add(name)
            rpcs = []
            for _ in range(src.weighted([(1, 0), (3, 1), (3, 4)])):
                rpc = schema.styled(src, schema.TYPE_WORDS + OPTION_NAMES, camel=True)
                io = []
                for _ in range(2):
                    m = src.choice(f.messages) if f.messages and src.bool(70) else None
                    dots = m is not None and src.bool(20)
                    name_ = m.full if m is not None and src.bool(70) else \
                        'foo.' + schema.styled(src, schema.TYPE_WORDS, camel=True)
                    io.append((dots, name_, src.bool(30)))
                # One flag tells for both whether there is a leading dot.
                dots = io[0][0]
                rpcs.append((rpc, io[0][1], io[0][2], io[1][1], io[1][2], dots))
            f.services.append((name, rpcs))


def random_files(src, most=3, c_safe=False, **kw):
    opts = dict(files=src.int(1, most), subdirs=src.bool(30), c_safe=c_safe,
                messages=(0, 4), fields=(0, 6), nest=src.int(0, 4))
    opts.update(kw)
    return schema.generate(src, schema.Cfg(**opts))


def history(src, root, files, texts, last):
    """Requests to handle before the file `last` in the same process."""
    def parse(f):
        return parse_request(os.path.join(root, f.path), [root], root)

    requests = []
    for _ in range(src.int(1, 3)):
        f = src.choice(files)
        if src.bool(50):
            text = src.choice(['syntax = "proto3";', 'syntax = "proto3"; package other;\n'
                               'message Other { int32 a = 1; }', '', texts[last.path]])
            path = os.path.join(root, f.path)
            requests += [dict(op='write', file=path, text=text), parse(src.choice(files)),
                         parse(last), dict(op='write', file=path, text=texts[f.path])]
        else:
            requests.append(parse(f))
    return requests


def size_of(f):
    ms = list(f.all_messages())
    return len(ms) + sum(len(m.all_fields) for m in ms) + len(list(f.all_enums()))


class C14(PCheck):
    id = 'C14'
    rule = ('A case is a set of one to three generated proto files: random packages, '
            'imports, options, enums, messages nested up to five deep, fields of all types '
            'and labels, oneofs, maps and services; keywords as names; rendered with random '
            'number bases, noise that must not matter (options, reserved, empty statements, '
            'field options) and one of four layouts (white space, line ends, comments). '
            'Every file is parsed in a fresh process and the object compared attribute by '
            'attribute with the schema; a file is parsed again from another layout, and the '
            'plain one, with the same expectation. Non-trivial: at least six declarations, '
            'and noise or a layout other than one blank between tokens.')
    quick_jobs = 32
    cases = 70

    def check(self, env, src, root):
        files = random_files(src)
        decorate(src, files)
        texts = {}
        styles = []
        for f in files:
            rich = src.bool(75)
            toks = prototext.tokens(src, f, rich)
            text, style = prototext.layout(src, toks)
            ok, _, _ = prototext.judge(text)
            if not ok:
                raise HarnessError('generated an invalid file: ' + text)
            styles.append(('rich ' if rich else 'bare ') + style)
            texts[f.path] = text
            write(os.path.join(root, f.path), text)
        self.compare(env, root, files, texts)
        f = src.choice(files)
        if src.bool(50):
            again, style = prototext.layout(src, prototext.tokens(src, f, src.bool()))
            write(os.path.join(root, f.path), again)
            texts[f.path] = again
            self.compare(env, root, [f], texts)
        # And in a process that has seen other files, and this one with other content.
        if src.bool(50):
            self.compare(env, root, [f], texts, history(src, root, files, texts, f))
            styles.append('one process')
        declared = sum(size_of(f) for f in files)
        return Case(repr(sorted(texts.items())), declared >= 6 and styles != ['bare plain'],
                    styles + ['options'] * any(f.options for f in files)
                    + ['services'] * any(f.services for f in files)
                    + ['imports'] * any(f.imports for f in files),
                    lambda: short(texts[files[-1].path], 400), evals=len(files))

    def compare(self, env, root, files, texts, after=()):
        for f in files:
            r = self.healthy(env.server.parse(os.path.join(root, f.path), [root], root,
                                              after), file=texts[f.path])
            if 'proto' not in r:
                raise Violation('a valid proto file is rejected', error=r['error'],
                                type=r['type'], files=texts, file=f.path, after=after)
            d = prototext.difference(prototext.expect(f), prototext.observed(r['proto']))
            if d:
                raise Violation('the parser reports something else than the file declares: '
                                + d, files=texts, file=f.path, after=after)


# ------------------------------ C15 ------------------------------

ALPHABET = ['A', 'B', 'C', 'a', 'b', 'c']
PACKAGES = [None, 'a', 'b', 'a.b', 'b.a', 'a.a', 'a.b.c', 'b.b', 'c.a.b', 'A', 'a.B']
C15_KNOWN = 'full name first'


class C15(PCheck):
    id = 'C15'
    rule = ('A case is a graph of one to four files with packages and types all named from '
            'a six letter alphabet, so that shadowing of types by types, types by packages '
            'and packages by packages is the rule; types nested to depth four. References '
            'with one to five parts, with and without leading dot, in plain, repeated, '
            'optional, oneof and map fields. A reference resolver written after the proto3 '
            'scoping rules says what each means. Some files have a reference that means '
            'nothing (unknown, in an indirectly imported file, or cut off by shadowing): the '
            'file must be rejected with the name in the message and no output written. '
            'Non-trivial: at least three references, of which one could have meant another '
            'type of the same last name, or one undefined reference.')
    assumptions = ('names whose full name form matches an imported type are excluded (known '
                   'finding) where proto3 scoping binds them differently',)
    quick_jobs = 32
    cases = 70

    def types(self, src, f, taken, scope, depth):
        """Types of one scope."""
        enums, messages = [], []
        for _ in range(src.weighted([(1, 0), (3, 1), (3, 2), (1, 3)]) if scope
                       else src.int(1, 3)):
            name = src.choice(ALPHABET)
            path = '.'.join(f.pkg + scope + [name])
            if path in taken:
                continue
            taken.add(path)
            if src.bool(35):
                e = Enum(name, scope, f)
                e.values = [(f'V{len(taken)}', 0)]
                enums.append(e)
            else:
                m = Message(name, scope, f)
                messages.append(m)
                if depth > 0:
                    m.enums, m.messages = self.types(src, f, taken, scope + [name],
                                                     depth - 1)
                    for x in m.messages:
                        x.parent = m
        return enums, messages

    def reference(self, src, table, m, valid):
        """A reference with its meaning, or None."""
        if valid and src.bool(60) and table.types:
            t = src.choice(list(table.types.values()))
            parts = t.full.split('.')
            ref = '.'.join(parts[src.below(len(parts)):])
            if src.bool(10):
                ref = '.' + t.full
        else:
            ref = '.'.join(src.choice(ALPHABET)
                           for _ in range(src.weighted([(4, 1), (4, 2), (2, 3), (1, 4)])))
            if not valid and src.bool(20):
                ref = src.choice(['Nowhere', 'a.Nowhere', '.Nowhere', 'A.Nowhere',
                                  'int33', 'Int32'])
            if src.bool(15):
                ref = '.' + ref.lstrip('.')
        t = table.resolve(m, ref)
        if (t is not None) != valid:
            return None
        return ref, t

    def check(self, env, src, root):
        files = []
        taken = set()
        reserved = set()
        depth = src.int(0, 3)
        for i in range(src.int(1, 4)):
            f = File(f'f{i}.proto', src.choice(PACKAGES))
            reserved |= set(scoping.pkg_scopes(f.package))
            files.append(f)
        taken |= reserved                       # No type is named like a package.
        for i, f in enumerate(files):
            f.imports = [g for g in files[:i] if src.bool(60)]
            f.enums, f.messages = self.types(src, f, taken, [], depth)
            f.order = f.enums + f.messages
            for m in f.all_messages():
                m.order = m.enums + m.messages
        broken = src.below(len(files)) if src.bool(35) else None
        refs = ambiguous = 0
        wrong = {}
        known = []
        for i, f in enumerate(files):
            table = scoping.Table(f)
            lasts = {}
            for t in table.types.values():
                lasts.setdefault(t.name, []).append(t)
            messages = list(f.all_messages())
            for m in messages:
                number = 0
                oneof = Oneof('choice', m)
                for _ in range(src.weighted([(1, 0), (2, 2), (2, 4)])):
                    bad = broken == i and i not in wrong and src.bool(30)
                    got = self.reference(src, table, m, not bad)
                    if got is None:
                        continue
                    ref, t = got
                    label = src.weighted([(4, 'plain'), (2, 'repeated'), (1, 'optional'),
                                          (2, 'oneof'), (1, 'map')])
                    if label == 'optional' and (t is None or t.kind != 'enum'):
                        label = 'plain'
                    full = None if ref.startswith('.') else table.full_name(ref)
                    odd = full is not None and full is not t
                    number += 1
                    refs += 1
                    field = Field(f'f{number}', number, t, label, ref,
                                  key='string' if label == 'map' else None,
                                  oneof=oneof if label == 'oneof' else None)
                    if odd:
                        # The known finding: it means the type of that full name.
                        if not self.listed():
                            raise Violation(C15_KNOWN, reference=ref, message=m.full)
                        known.append(ref)
                        if label == 'optional' and full.kind != 'enum':
                            number -= 1
                            refs -= 1
                            continue
                        field.type = full
                    elif bad:
                        wrong[i] = ref
                    elif len(lasts[t.name]) > 1:
                        ambiguous += 1
                    if label == 'oneof':
                        if not oneof.fields:
                            m.oneofs.append(oneof)
                            m.order.append(oneof)
                        oneof.fields.append(field)
                        continue
                    if label == 'map':
                        schema.add_map_entry(m, field)
                    m.fields.append(field)
                    m.order.insert(src.below(len(m.order) + 1), field)
                m.enums = [x for x in m.order if isinstance(x, Enum)]
                entries = [x for x in m.messages if x.is_entry]
                m.messages = [x for x in m.order if isinstance(x, Message)] + entries
                m.fields = [x for x in m.order if isinstance(x, Field)]
            f.enums = [x for x in f.order if isinstance(x, Enum)]
        texts = {f.path: schema.render(f) for f in files}
        for path, text in texts.items():
            write(os.path.join(root, path), text)
        for i, f in enumerate(files):
            after = history(src, root, files, texts, f) if src.bool(15) else ()
            r = self.healthy(env.server.parse(f.path, [root], root, after),
                             file=texts[f.path])
            if i in wrong:
                self.undefined(env, root, f, wrong[i], r, texts)
                continue
            if 'proto' not in r:
                raise Violation(f'valid references in {f.path} are rejected',
                                error=r['error'], type=r['type'], files=texts,
                                after=after)
            d = prototext.difference(prototext.expect(f), prototext.observed(r['proto']))
            if d:
                raise Violation(f'a type name in {f.path} is resolved wrongly: ' + d,
                                files=texts, after=after)
        return Case(repr(sorted(texts.items())), refs >= 3 and (ambiguous or wrong),
                    ['undefined'] * bool(wrong) + ['ambiguous'] * bool(ambiguous)
                    + ['known finding avoided'] * bool(known)
                    + [f'{len(files)} files'],
                    lambda: short(texts[files[-1].path], 400), evals=len(files))

    def listed(self):
        from .runner import known_findings
        if not hasattr(self, '_listed'):
            self._listed = any(sig == C15_KNOWN for sig, _ in known_findings('C15'))
        return self._listed

    def undefined(self, env, root, f, ref, reply, texts):
        last = ref.split('.')[-1]
        if 'proto' in reply:
            raise Violation(f'{f.path} refers to {ref}, which is not defined, and is '
                            'accepted', files=texts)
        if reply['type'] in INTERNAL or last not in reply['error']:
            raise Violation(f'{f.path} refers to {ref}, which is not defined, and the '
                            'error does not say so', error=reply['error'],
                            type=reply['type'], files=texts)
        out = os.path.join(root, 'out')
        r = self.healthy(env.server.main(['generate_c_source', '-I', root, '-o', out,
                                          f.path], root))
        if r['code'] == 0 or last not in r['stderr']:
            raise Violation(f'{f.path} refers to {ref}, which is not defined, and the tool '
                            'does not fail saying so', reply=r, files=texts)
        if os.path.isdir(out) and os.listdir(out):
            raise Violation(f'{f.path} refers to {ref}, which is not defined, and code is '
                            'generated', written=sorted(os.listdir(out)), files=texts)


# ------------------------------ C16 ------------------------------

POOL = ['{', '}', '(', ')', '[', ']', '<', '>', ';', '=', ',', '.', '"x"', '""', '-', '+',
        '1', '-1', '0x1f', '017', '08', '1.5', '.5', '1e3', "'proto3'", 'message', 'enum', 'oneof', 'map', 'option',
        'reserved', 'repeated', 'optional', 'required', 'import', 'package', 'syntax',
        'service', 'rpc', 'returns', 'stream', 'to', 'max', 'extend', 'extensions',
        'group', 'int32', 'Foo', 'foo', 'weak', 'public', '"proto3"', '"proto2"', ':', '/',
        "'a'", '@', 'inf', 'true']
CHARS = list('{}()[]<>;=,."\'/*\\ \n\t\r-+:0aZ_#@$&|!?~^%`') + [
    '/*', '*/', '//', '\x00', '\x0b', '\x0c', '\x7f', '\xa0', '\u2028', 'å', '中', '٣',
    '\U0001f600', '\ufeff', 'é', 'ª']


class C16(PCheck):
    id = 'C16'
    rule = ('A case is a generated valid file (as in C14) with one or two corruptions: '
            'tokens deleted, doubled, swapped, replaced, inserted or the rest cut off; '
            'characters (also control and non-ASCII ones) deleted, inserted or replaced; '
            'comments left open; or no header. A reference recogniser of the grammar (an '
            'incremental one that knows the first token at which no continuation is a proto '
            'file) tells whether the file must be rejected and where. The tool must then '
            'exit with an error that names that line and column, and write nothing; other '
            'files must not get a syntax error. No internal exception, no hang. '
            'The file is given alone, before or after a valid one, imported by a valid one, '
            'or to the Mys and Rust generators. '
            'Non-trivial: the file must be rejected, and the position is not on line 1.')
    assumptions = ('nested comments and lexically broken files are judged by membership of '
                   'the reported position in the set of offending positions',)
    quick_jobs = 32
    cases = 130

    def corrupt_tokens(self, src, toks):
        toks = list(toks)
        for _ in range(src.weighted([(5, 1), (1, 2)])):
            i = src.below(len(toks))
            k = src.below(8)
            if k == 0:
                del toks[i]
            elif k == 1:
                toks.insert(i, toks[i])
            elif k == 2 and i + 1 < len(toks):
                toks[i], toks[i + 1] = toks[i + 1], toks[i]
            elif k == 3:
                toks[i] = src.choice(POOL)
            elif k == 4:
                toks.insert(i, src.choice(POOL))
            elif k == 5:
                del toks[i:]
            elif k == 6:
                toks[i] = src.choice(toks)
            else:
                j = i + src.int(1, 6)
                toks[i:j] = []
            if not toks:
                toks = [';']
        return toks

    def corrupt_text(self, src, text):
        for _ in range(src.weighted([(5, 1), (1, 2)])):
            i = src.below(len(text) + 1)
            k = src.below(7)
            if k == 0:
                text = text[:i] + text[i + src.int(1, 3):]
            elif k in (1, 2):
                text = text[:i] + src.choice(CHARS) + text[i:]
            elif k == 3:
                text = text[:i] + src.choice(CHARS) + text[i + 1:]
            elif k == 4:
                text = text[:i]
            elif k == 5:
                j = text.find('*/', i)
                text = text[:j] + text[j + 2:] if j >= 0 else text + '/* open'
            else:
                text = text[:i] + src.choice(POOL) + text[i:]
        return text

    def check(self, env, src, root):
        files = random_files(src, most=1, subdirs=False, messages=(0, 3), fields=(0, 4),
                             nest=src.int(0, 3))
        decorate(src, files)
        f = files[-1]
        toks = prototext.tokens(src, f, src.bool(70))
        how = src.choice(['tokens', 'tokens', 'text', 'text', 'header'])
        if how == 'tokens':
            text, style = prototext.layout(src, self.corrupt_tokens(src, toks))
        elif how == 'text':
            text, style = prototext.layout(src, toks)
            text = self.corrupt_text(src, text)
        else:
            head = src.choice([[], ['syntax', '=', '"proto2"', ';'], [';'],
                               ['syntax', '=', 'proto3', ';'], ['syntax', '"proto3"', ';'],
                               ['syntax', '=', '"proto3"'], ['message'],
                               ['edition', '=', '"2023"', ';']])
            text, style = prototext.layout(src, head + (toks[4:] if src.bool(70) else []))
        # Whether a carriage return alone ends a line is left open.
        text = re.sub('\r(?!\n)', ' ', text)
        accept, reject, offsets = prototext.judge(text)
        path = os.path.join(root, f.path)
        write(path, text)
        out = os.path.join(root, 'out')
        # Mostly the C generator with this file alone; also next to a valid file on the
        # command line, imported by one, and given to the other generators.
        use = src.weighted([(12, 'c'), (3, 'after'), (3, 'before'), (4, 'imported'),
                            (1, 'mys'), (1, 'rust')])
        other = os.path.join(root, 'zz_other_file.proto')
        imports = f'import "{f.path}";\n' if use == 'imported' else ''
        write(other, f'syntax = "proto3";\n{imports}message ZzOther {{ int32 a = 1; }}\n')
        infiles = {'after': [other, path], 'before': [path, other],
                   'imported': [other]}.get(use, [path])
        mine = {'zz_other_file.c', 'zz_other_file.h'}
        kind = use if use in ('mys', 'rust') else 'c'
        if kind != 'c':
            os.makedirs(out)
        r = self.healthy(env.server.main([f'generate_{kind}_source', '-I', root, '-o', out,
                                          *infiles], root), text=text)
        detail = dict(text=text, use=use, exit_code=r['code'], stderr=r['stderr'][:600],
                      type=r['type'])
        written = sorted(os.listdir(out)) if os.path.isdir(out) else []
        if r['code'] == 0:
            if reject:
                raise Violation('a malformed proto file is accepted',
                                offending=self.places(text, offsets), **detail)
            if len(written) != (1 if kind != 'c' else 2 * len(infiles)):
                raise Violation('success without output', written=written, **detail)
        else:
            if use in ('after', 'before'):
                written = [x for x in written if x not in mine]
            if written:
                raise Violation('an error is reported and yet files are written',
                                written=written, **detail)
            # The other generators do not support everything that is valid.
            if (reject or kind == 'c') and (
                    r['type'] in INTERNAL or 'Traceback' in r['stderr']):
                raise Violation('internal error instead of an error message', **detail)
            if not r['stderr'].strip() and (reject or kind == 'c'):
                raise Violation('an error without any message', **detail)
            syntax = 'Invalid syntax' in r['stderr']
            if accept and syntax:
                raise Violation('a valid proto file gets a syntax error', **detail)
            if reject:
                places = self.places(text, offsets)
                if not any(f'line {line}, column {column}:' in r['stderr']
                           for line, column in places):
                    raise Violation('a syntax error is reported at the wrong position or '
                                    'without one', expected=places, **detail)
        deep = reject and min(self.places(text, offsets))[0] > 1
        return Case(text.encode('utf-8', 'surrogatepass'), deep,
                    [how, use, style, 'rejected' if reject else 'accepted' if accept else 'vague',
                     f'exit {r["code"]}'], lambda: short(text, 400))

    def places(self, text, offsets):
        return sorted({prototext.position(text, o) for o in offsets})


# ------------------------------ C17 ------------------------------

class C17(PCheck):
    id = 'C17'
    rule = ('A case generates code from one to four files with the real command line in '
            'several new processes: other hash seed, working directory, relative or '
            'absolute paths, order on the command line, one by one, protos elsewhere, '
            'output directory missing, nested, or full of old files, locale. The outputs '
            'must be byte-identical, exactly one header and source (Rust, Mys: one file) per '
            'input under its snake case name, and no other file is changed. An output that '
            'cannot be written gives an error. Non-trivial: at least two '
            'files, or two messages that use each other\'s types.')
    quick_jobs = 32
    cases = 4
    factor = 30

    def check(self, env, src, root):
        files = random_files(src, most=4, c_safe=True, messages=(1, 6), fields=(0, 8),
                             nest=2)
        protos = os.path.join(root, 'protos')
        for f in files:
            write(os.path.join(protos, f.path), schema.render(f)
                  + src.choice(['', '// å 中 \u2028\n', '/* \U0001f600 */']))
        upper = ['--enums-upper-case'] * src.bool(25)
        gen = src.weighted([(10, 'c'), (1, 'rust'), (1, 'mys')])
        upper = [f'generate_{gen}_source'] + (upper if gen == 'c' else [])
        try:
            want = self.run(root, files, upper, dict(protos='protos', out='first'), {})
        except Violation:
            if gen == 'c':
                raise
            return Case(b'', False)         # These are work in progress.
        exts = {'c': ('.h', '.c'), 'rust': ('.rs',), 'mys': ('.mys',)}[gen]
        names = sorted(f.cstem + ext for f in files for ext in exts)
        if sorted(want) != names:
            raise Violation('other output files than those of each input',
                            written=sorted(want), expected=names,
                            files=[f.path for f in files])
        kinds = []
        for i in range(src.int(3, 5)):
            how = dict(protos='protos', out=f'out{i}', seed=src.below(1 << 32))
            kind = src.choice(['seed', 'order', 'single', 'moved', 'relative', 'old',
                               'nested', 'locale', 'again'])
            old = {}
            if kind == 'order':
                how['order'] = src.shuffled(range(len(files)))
            elif kind == 'single':
                how['single'] = src.shuffled(range(len(files)))
            elif kind == 'moved':
                how['protos'] = f'other place{i}/x'
                shutil.copytree(protos, os.path.join(root, how['protos']))
            elif kind == 'relative':
                how['cwd'] = src.choice(['.', 'protos', 'deep/er'])
            elif kind == 'old':
                for name in names:
                    if src.bool(70):
                        k = src.below(len(want[name]))
                        old[name] = src.choice([b'old\n' * 20000, b'', want[name][:-5],
                                                want[name] + b'/* more */\n',
                                                want[name][:k] + b'?' + want[name][k + 1:],
                                                b'?' * len(want[name])])
                for name in ('keep.txt', 'pbtools.h', 'zzz.c', 'sub/' + names[0]):
                    if src.bool(50):
                        old[name] = b'mine'
            elif kind == 'nested':
                how['out'] = f'new{i}/a b/c'
            elif kind == 'locale':
                how['env'] = {'LC_ALL': src.choice(['C', 'POSIX']), 'PYTHONUTF8': '0',
                              'PYTHONCOERCECLOCALE': '0', 'TZ': 'Asia/Tokyo',
                              'HOME': '/nonexistent', 'COLUMNS': '20'}
            elif kind == 'again':
                how['out'] = 'first'
                old = want
            kinds.append(kind)
            got = self.run(root, files, upper, how, old)
            expected = dict(old)
            expected.update(want)
            if got != expected:
                odd = sorted(n for n in set(got) | set(expected)
                             if got.get(n) != expected.get(n))
                n = odd[0]
                raise Violation(f'output depends on the circumstances ({kind}): {n} is '
                                + ('not written' if n not in got else 'unexpected'
                                   if n not in expected else 'different'),
                                how=how, odd=odd, first=self.line(expected.get(n, b''),
                                                                  got.get(n, b'')),
                                files={f.path: schema.render(f) for f in files})
        if src.bool(40):
            kinds.append(self.unwritable(src, root, files, upper, names))
        linked = any(not isinstance(x.type, str) and x.type is not m
                     for f in files for m in f.all_messages() for x in m.all_fields)
        return Case(repr(sorted(want.items())) + repr(kinds), len(files) > 1 or linked,
                    kinds + [f'{len(files)} files', upper[0]],
                    lambda: f'{[f.path for f in files]} runs: {kinds}',
                    evals=len(kinds) + 1)

    def unwritable(self, src, root, files, upper, names):
        """An output that cannot be written is an error."""
        out = os.path.join(root, 'broken')
        kind = src.choice(['directory', 'full', 'full', 'file', 'parent'])
        name = os.path.join(out, src.choice(names))
        protos = os.path.join(root, 'protos')
        paths = [os.path.join(protos, f.path) for f in files]
        if src.bool():                  # So short that it is written when it is closed.
            paths = [os.path.join(root, 'q_tiny.proto')]
            write(paths[0], 'syntax = "proto3";\n' + src.choice(
                ['', 'enum E { Z = 0; }\n', 'message A { int32 a = 1; }\n']))
            name = os.path.join(out, 'q_tiny' + src.choice([os.path.splitext(n)[1]
                                                            for n in names]))
        if kind in ('directory', 'full'):
            os.makedirs(out)
            if kind == 'full':
                os.symlink('/dev/full', name)
            else:
                os.makedirs(name)
        else:
            write(out, b'mine')
            if kind == 'parent':
                out = os.path.join(out, 'sub')
        code, stdout, stderr = cli([*upper, '-I', protos, '-o', out, *paths], root)
        if code == 0 or not stderr.strip() or 'Traceback' in stderr:
            raise Violation(f'an output that cannot be written ({kind}) is not reported',
                            exit_code=code, stderr=stderr[-1000:], output=name,
                            files={f.path: schema.render(f) for f in files})
        if kind in ('file', 'parent') and read(os.path.join(root, 'broken')) != b'mine':
            raise Violation('a file in the place of the output directory is overwritten')
        return 'unwritable: ' + kind

    def line(self, a, b):
        for x, y in zip(a.split(b'\n'), b.split(b'\n')):
            if x != y:
                return f'{x!r} / {y!r}'
        return 'length'

    def run(self, root, files, upper, how, old):
        out = os.path.join(root, how['out'])
        for name, data in old.items():
            write(os.path.join(out, name), data)
        protos = os.path.join(root, how['protos'])
        cwd = os.path.join(root, how.get('cwd', '.'))
        os.makedirs(cwd, exist_ok=True)
        if upper[0] != 'generate_c_source':
            os.makedirs(out, exist_ok=True)
        before = tree(root)
        order = how.get('order', range(len(files)))
        paths = [os.path.join(protos, files[i].path) for i in order]
        dirs = [protos, out]
        if 'cwd' in how:
            dirs = [os.path.relpath(d, cwd) for d in dirs]
            paths = [os.path.relpath(p, cwd) for p in paths]
        groups = [paths]
        if 'single' in how:
            groups = [[paths[i]] for i in how['single']]
        for group in groups:
            code, stdout, stderr = cli([*upper, '-I', dirs[0], '-o',
                                        dirs[1], *group], cwd, how.get('seed', 0),
                                       **how.get('env', {}))
            if code != 0:
                raise Violation('the tool fails for valid files', how=how, exit_code=code,
                                stderr=stderr[-1000:],
                                files={f.path: schema.render(f) for f in files})
        after = tree(root)
        rel = os.path.normpath(os.path.relpath(out, root))
        inside = {}
        for name, data in after.items():
            if name.startswith(rel + '/') and data is not None:
                inside[name[len(rel) + 1:]] = data
            elif name != rel and not rel.startswith(name + '/') and \
                    not name.startswith(rel + '/') and before.get(name, 0) != data:
                raise Violation('a file outside the output directory is written or '
                                'changed: ' + name, how=how)
        for name in before:
            if name not in after:
                raise Violation('a file is removed: ' + name, how=how)
        return inside


# ------------------------------ C18 ------------------------------

class C18(PCheck):
    id = 'C18'
    rule = ('A case is a layout of up to five import directories (nested ones, the parent of a symbolic link, ones that do '
            'not exist, the working directory, relative and absolute, one given twice) over '
            'which candidates of up to three imported files are spread, each candidate '
            'declaring types that tell it apart or being a directory, and a file that '
            'imports them, with files of its own name around. The path of '
            'each import, the types that can be used (and those of the candidates not '
            'chosen, which cannot), the include lines of the generated header, and the error '
            'for an import that is nowhere are compared with a reference search. '
            'Non-trivial: an import with at least two candidates, or none.')
    quick_jobs = 32
    cases = 60

    PLACES = ['p0', 'p1', 'p0/sub', 'P 2', 'deep/er/p3', 'missing', 'p1/../p4', 'link/..']

    def layout(self, src, root):
        """Working directory, import directories as given and as they are, imports."""
        cwd = os.path.join(root, src.choice(['work', 'p0', '.']))
        places = self.PLACES + [os.path.relpath(cwd, root)]
        dirs = [src.choice(places) for _ in range(src.weighted([(1, 0), (2, 1), (4, 3),
                                                                 (2, 5)]))]
        # Not through relpath(): the parent of link is not this folder.
        given = [os.path.join(os.path.relpath(root, cwd), d) if src.bool(40)
                 else os.path.join(root, d) for d in dirs]
        given = [g + '/' * src.bool(10) for g in given]
        paths = []
        for path in src.sample(['one.proto', 'sub/two.proto', 'sub/one.proto',
                                'Sub_Dir/ThreeFour.proto', 'sub/sub/FIVE.proto',
                                './six.proto', 'sub/../seven.proto', 'e-i.g.proto'],
                               src.int(1, 3)):
            # The generated headers must not clash.
            if not any(self.header(path) == self.header(p) for p in paths):
                paths.append(path)
        main = src.choice(['main.proto', 'mainDir/MyMain.proto'])
        return cwd, dirs, given, paths, main

    def check(self, env, src, root):
        layout = self.layout(src, root)
        out = os.path.join(root, 'out')
        kinds, odd, detail, requests = self.tree(env, src, root, layout, out, [])
        if src.bool(40):
            # The same process sees other directories, or the same with other files.
            again = layout if src.bool(60) else self.layout(src, root)
            more, also, detail, _ = self.tree(env, src, root, again, out + '2', requests)
            odd |= also
            kinds += more + ['one process']
        return Case(repr(detail), odd, kinds,
                    lambda: repr({k: v for k, v in detail.items() if k != 'after'})[:500],
                    evals=2)

    def tree(self, env, src, root, layout, out, after):
        cwd, dirs, given, paths, main = layout
        places = self.PLACES + [os.path.relpath(cwd, root)]
        os.makedirs(os.path.join(root, 'deep', 'er'), exist_ok=True)
        if not os.path.islink(os.path.join(root, 'link')):
            os.symlink(os.path.join(root, 'deep', 'er'), os.path.join(root, 'link'))
        for d in set(places) - {'missing'}:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        content = {}
        texts = {}
        count = 0
        for path in paths:
            for d in sorted(set(places) - {'missing'}):
                if src.bool(30):
                    count += 1
                    full = os.path.realpath(os.path.join(root, d, path))
                    if full in content:
                        continue
                    package = src.choice([None, 'p', f'pkg{count}'])
                    kind = src.choice(['message', 'enum'])
                    content[full] = (f'T{count}', package, kind)
                    body = '{ V%d = 0; }' % count if kind == 'enum' else '{ int32 x = 1; }'
                    text = 'syntax = "proto3";\n'
                    if package:
                        text += f'package {package};\n'
                    texts[full] = text + f'{kind} T{count} {body}\n'
                elif src.bool(6):
                    # A directory of that name is not the file.
                    full = os.path.realpath(os.path.join(root, d, path))
                    texts.setdefault(full, None)
        # Sub-directory names of relative imports must exist to be found.
        for d in set(places) - {'missing'}:
            for path in paths:
                os.makedirs(os.path.dirname(os.path.join(root, d, path)), exist_ok=True)
        chosen = {}
        spelled = {}
        missing = []
        several = False
        for path in paths:
            found = [c for c in [os.path.join(root, d, path) for d in dirs]
                     + [os.path.join(cwd, path)]
                     if texts.get(os.path.realpath(c))]
            several |= len({os.path.realpath(c) for c in found}) > 1
            if found:
                chosen[path] = os.path.realpath(found[0])
                spelled[path] = os.path.abspath(found[0])
            else:
                missing.append(path)
        usable = [content[c] for c in chosen.values()]
        fields = []
        for i, (name, package, kind) in enumerate(usable, 1):
            ref = f'{package}.{name}' if package else name
            fields.append(f'  {ref} f{i} = {i};')
        hidden = sorted(set(content.values()) - set(usable), key=repr)
        extra = None
        if hidden and not missing and src.bool(25):
            name, package, kind = src.choice(hidden)
            extra = name
            fields.append(f'  {package}.{name} f99 = 99;' if package
                          else f'  {name} f99 = 99;')
        package = src.choice([None, 'p', 'my.main'])
        text = 'syntax = "proto3";\n' + (f'package {package};\n' if package else '')
        text += ''.join(f'import "{p}";\n' for p in paths)
        text += 'message Main {\n' + '\n'.join(fields) + '\n}\n'
        infile = name = os.path.join(root, 'home', main)
        if src.bool(40):
            # The file itself is not searched for.
            infile, name = os.path.join(cwd, main), main
            for d in sorted(set(places) - {'missing'}):
                if src.bool(25):
                    texts[os.path.realpath(os.path.join(root, d, main))] = \
                        'syntax = "proto3";\nmessage Decoy {}\n'
        infile = os.path.realpath(infile)
        texts[infile] = text
        requests = [
            dict(op='tree', root=root, files=texts), parse_request(name, given, cwd),
            main_request(['generate_c_source', *[x for d in given for x in ('-I', d)],
                          '-o', out, name], cwd)]
        detail = dict(main=text, import_directories=given, cwd=os.path.relpath(cwd, root),
                      files=sorted(os.path.relpath(c, os.path.realpath(root))
                                   for c in content), after=after)
        reply = self.healthy(env.server.request(op='many',
                                                requests=after + requests), **detail)
        r, g = reply['replies'][-2:]
        if missing or extra:
            self.rejected(r, g, missing, extra, out, detail)
        else:
            self.accepted(r, g, paths, chosen, spelled, content, infile, main, out, detail)
        return (['several candidates'] * several + ['missing'] * bool(missing)
                + ['shadowed type'] * bool(extra) + [f'{len(dirs)} directories'],
                several or bool(missing), detail, requests)

    def header(self, path):
        return schema.snake(path.rsplit('/', 1)[-1][:-len('.proto')])

    def rejected(self, r, g, missing, extra, out, detail):
        names = missing or [extra]
        what = 'an import that is nowhere' if missing else \
            'a type that only a file further down the import path declares'
        if 'proto' in r or g['code'] == 0:
            raise Violation(what + ' is accepted', names=names, **detail)
        for text in (r['error'], g['stderr']):
            if not any(n in text for n in names):
                raise Violation('the error for ' + what + ' does not name it',
                                error=text, names=names, **detail)
        if os.path.isdir(out) and os.listdir(out):
            raise Violation(what + ' is reported and yet code is generated', **detail)

    def accepted(self, r, g, paths, chosen, spelled, content, infile, main, out, detail):
        if 'proto' not in r:
            raise Violation('a file with proper imports is rejected', error=r['error'],
                            **detail)
        if os.path.realpath(r['proto']['abspath']) != infile or \
                not os.path.isabs(r['proto']['abspath']):
            raise Violation('another path than that of the file is reported',
                            got=r['proto']['abspath'], expected=infile, **detail)
        imports = r['proto']['imports']
        if [i['path'] for i in imports] != paths:
            raise Violation('imports are lost, invented or renamed', got=imports, **detail)
        for i in imports:
            # Whether the path reported keeps a link/.. is left open.
            if chosen[i['path']] != os.path.realpath(i['abspath']) and \
                    spelled[i['path']] != i['abspath'] or \
                    not os.path.isabs(i['abspath']):
                raise Violation(f'{i["path"]} is taken from the wrong place',
                                got=i['abspath'], expected=chosen[i['path']], **detail)
            name, package, kind = content[chosen[i['path']]]
            if [i['package'], i['enums'], i['messages']] != [
                    package, [name] * (kind == 'enum'), [name] * (kind == 'message')]:
                raise Violation(f'{i["path"]} is reported with other content', got=i,
                                **detail)
        got = r['proto']['messages'][0]['fields']
        for f, path in zip(got, paths):
            name, package, kind = content[chosen[path]]
            full = f'{package}.{name}' if package else name
            if (f['full'], f['kind']) != (full, kind):
                raise Violation('a type of an import resolves wrongly', got=f, **detail)
        if g['code'] != 0:
            raise Violation('the tool fails for a file with proper imports',
                            stderr=g['stderr'], **detail)
        header = read(os.path.join(out, self.header(main) + '.h')).decode()
        lines = [x.split('"')[1] for x in header.splitlines()
                 if x.startswith('#include "')]
        expected = ['pbtools.h'] + [self.header(p) + '.h' for p in paths]
        if sorted(lines) != sorted(expected):
            raise Violation('the header includes other files than those of its imports',
                            got=lines, expected=expected, **detail)
