"""Proto files as text: token streams of a schema, layout, and a reference
recogniser. Independent of the parser under test.
"""
import re

from .pbt import HarnessError
from .schema import Enum, Message, Oneof

# ------------------------------ tokens ------------------------------

OPTION_NAMES = ['java_package', 'optimize_for', 'deprecated', 'foo', 'my_option',
                'cc_enable_arenas', 'packed', 'default', 'max', 'to', 'option', 'message',
                'json_name', 'allow_alias', 'syntax', 'true', 'x1']
STRINGS = ['', 'foo', 'com.example.foo', '// no comment', '/* nor this */', '*/', '/*',
           'a; b { c } = 1', "it's", 'å 中', '  ', 'x//y', '[', '#', 'proto3', '$&%',
           'a' * 200, '"', "\\'", 'say "no"', 'a"//b"c', '\\\\', 'say \\"hi\\"', '\\n\\t\\x41', 'end\\\\', '\\"//\\"']
IDENTS = ['SPEED', 'foo', 'LITE_RUNTIME', 'a.b.c', 'inf', 'nan', 'message.max', 'x', 'to']


def signed(src, value, text):
    """Tokens of a number, the sign as a token of its own or not."""
    if value >= 0:
        return [text]
    return ['-', text] if src.bool(20) else ['-' + text]


def number(src, value):
    """Tokens of an integer literal."""
    k = src.below(12)
    v = abs(value)
    text = str(v)
    if k == 0:
        text = f'0x{v:x}'
    elif k == 1:
        text = f'0X{v:X}'
    elif k == 2:
        text = f'0{v:o}'
    elif k == 3 and src.bool(20):
        text = f'00{v:o}'
    return signed(src, value, text)


def quoted(src, s):
    """A string literal of text that is escaped where it needs to be."""
    plain = re.sub(r'\\.', '', s)
    marks = [q for q in '"\'' if q not in plain]
    if not marks:
        raise HarnessError(s)
    q = marks[-1] if src.bool(15) else marks[0]
    return q + s + q


def option_name(src):
    """(tokens, name)"""
    tokens = []
    name = ''
    for i in range(src.weighted([(6, 1), (2, 2), (1, 3)])):
        if i:
            tokens.append('.')
            name += '.'
        if src.bool(35 if i == 0 else 15):
            parts = [src.choice(['foo', 'bar', 'my', 'rpc', 'max', 'opt'])
                     for _ in range(src.int(1, 3))]
            dot = ['.'] if src.bool(15) else []
            tokens += ['('] + dot + join(parts) + [')']
            name += '(' + '.'.join([''] * len(dot) + parts) + ')'
        else:
            part = src.choice(OPTION_NAMES)
            tokens.append(part)
            name += part
    return tokens, name


def join(parts):
    out = []
    for i, p in enumerate(parts):
        out += ['.', p] if i else [p]
    return out


def constant(src):
    """(tokens, kind, value)"""
    kind = src.choice(['string', 'bool', 'ident', 'integer', 'float'])
    if kind == 'string':
        parts = [src.choice(STRINGS)
                 for _ in range(src.weighted([(8, 1), (1, 2), (1, 3)]))]
        return [quoted(src, s) for s in parts], kind, ''.join(parts)
    if kind == 'float':
        a, b = src.choice(['0', '1', '00', '08', '12', '999']), str(src.below(100))
        e = src.choice(['', '', 'e5', 'E-3', 'e+07', 'e0'])
        text = src.choice([a + '.' + b + e, a + '.' + e, '.' + b + e, a + (e or 'e1')])
        v = -1 if src.bool(30) else 1
        return signed(src, v, text), kind, v * float(text)
    if kind == 'bool':
        v = src.bool()
        return ['true' if v else 'false'], kind, v
    if kind == 'ident':
        s = src.choice(IDENTS)
        return join(s.split('.')), kind, s
    v = src.weighted([(3, src.int(0, 100)), (1, -src.int(1, 1000)),
                      (1, (1 << 31) - 1), (1, -(1 << 31)), (1, (1 << 64) - 1)])
    return number(src, v), kind, v


class Writer:
    """Turns a file into tokens. With rich it adds everything that must not matter."""

    def __init__(self, src, rich):
        self.src = src
        self.rich = rich
        self.out = []

    def put(self, *tokens):
        self.out += tokens

    def noise(self, kind, m=None):
        """Empty statements, options and reserved ranges."""
        src = self.src
        if not self.rich or not src.bool(12):
            return
        for _ in range(src.int(1, 2)):
            what = src.choice([';', 'option', 'reserved'])
            if what == 'reserved' and kind in ('message', 'enum'):
                self.reserved(m, kind)
            elif what == 'option':
                name, _ = option_name(src)
                value, _, _ = constant(src)
                self.put('option', *name, '=', *value, ';')
            else:
                self.put(';')

    def reserved(self, m, kind):
        src = self.src
        self.put('reserved')
        n = src.int(1, 3)
        if src.bool(35):
            for i in range(n):
                self.put(*[','] * bool(i), quoted(src, src.choice(
                    ['gone', 'old_name', 'proto3', 'x']) + str(src.below(99))))
        else:
            base = 19000
            for i in range(n):
                lo = base + src.below(100)
                base = lo + 200
                negative = kind == 'enum' and src.bool(30)
                self.put(*[','] * bool(i), *number(src, -lo if negative else lo))
                if src.bool(40):
                    if negative:
                        self.put('to', *number(src, -18900 + i))
                    else:
                        self.put('to', *number(src, lo + src.below(100)))
        self.put(';')

    def field_options(self):
        src = self.src
        if not self.rich or not src.bool(12):
            return
        self.put('[')
        for i in range(src.int(1, 3)):
            name, _ = option_name(src)
            value, _, _ = constant(src)
            self.put(*[','] * bool(i), *name, '=', *value)
        self.put(']')

    def ref(self, text):
        if text.startswith('.'):
            self.put('.')
            text = text[1:]
        self.put(*join(text.split('.')))

    def num(self, value):
        return number(self.src, value) if self.rich else [str(value)]

    def field(self, f):
        if f.label == 'map':
            self.put('map', '<', f.key, ',')
            self.ref(f.ref)
            self.put('>', f.name)
        else:
            if f.label in ('repeated', 'optional'):
                self.put(f.label)
            self.ref(f.ref)
            self.put(f.name)
        self.put('=', *self.num(f.number))
        self.field_options()
        self.put(';')

    def enum(self, e):
        self.put('enum', e.name, '{')
        self.noise('enum')
        for name, value in e.values:
            self.put(name, '=', *self.num(value))
            self.field_options()
            self.put(';')
            self.noise('enum')
        self.put('}')

    def message(self, m):
        self.put('message', m.name, '{')
        self.noise('message', m)
        for x in m.order:
            if isinstance(x, Enum):
                self.enum(x)
            elif isinstance(x, Message):
                self.message(x)
            elif isinstance(x, Oneof):
                self.put('oneof', x.name, '{')
                self.noise('oneof')
                for f in x.fields:
                    self.field(f)
                    self.noise('oneof')
                self.put('}')
            else:
                self.field(x)
            self.noise('message', m)
        self.put('}')

    def service(self, s):
        name, rpcs = s
        self.put('service', name, '{')
        self.noise('service')
        for rpc, req, reqs, resp, resps, dots in rpcs:
            self.put('rpc', rpc, '(', *['stream'] * reqs)
            self.ref('.' * dots + req)
            self.put(')', 'returns', '(', *['stream'] * resps)
            self.ref('.' * dots + resp)
            self.put(')')
            if self.src.bool(50):
                self.put('{')
                self.noise('rpc')
                self.put('}')
            else:
                self.put(';')
            self.noise('service')
        self.put('}')

    def file(self, f):
        src = self.src
        self.put('syntax', '=', quoted(src, 'proto3') if self.rich else '"proto3"', ';')
        head = [('package', f.package)] if f.package else []
        head += [('import', i) for i in f.imports]
        head += [('option', o) for o in f.options]
        rest = [('type', x) for x in f.order] + [('service', s) for s in f.services]
        if self.rich and src.bool(40):
            # Package, imports and options anywhere, in order among themselves.
            for item in reversed(head):
                limit = min([rest.index(x) for x in rest if x[0] == item[0]],
                            default=len(rest))
                rest.insert(src.below(limit + 1), item)
            head = []
        if self.rich and src.bool(30):
            services = [x for x in rest if x[0] == 'service']
            rest = [x for x in rest if x[0] != 'service']
            for s in reversed(services):
                limit = min([rest.index(x) for x in rest if x[0] == 'service'],
                            default=len(rest))
                rest.insert(src.below(limit + 1), s)
        for kind, x in head + rest:
            if self.rich and src.bool(8):
                self.put(';')
            if kind == 'package':
                self.put('package', *join(x.split('.')), ';')
            elif kind == 'import':
                weak = ['weak'] if self.rich and src.bool(10) else []
                path = quoted(src, x.path) if self.rich else '"' + x.path + '"'
                self.put('import', *weak, path, ';')
            elif kind == 'option':
                self.put('option', *x[0], '=', *x[3], ';')
            elif kind == 'service':
                self.service(x)
            elif isinstance(x, Enum):
                self.enum(x)
            else:
                self.message(x)
        if self.rich and src.bool(20):
            self.put(';')


def tokens(src, f, rich=True):
    w = Writer(src, rich)
    w.file(f)
    return w.out


# ------------------------------ layout ------------------------------

COMMENTS = ['/**/', '/* c */', '/*\n * many\n * lines\n */', '// line\n', '//\n',
            '// "quoted\n', '/* " */', '// /* no start\n', '/* // */', '/***/',
            '// å 中 message Foo {\n', '/* } ; { */', '//\ttab */\n', '/*/ */',
            '// ends with backslash \\\n', "/* it's */", '/*\r\n*/', '// crlf\r\n',
            '/* ' + 'x' * 150 + '\n*/']
SPACES = [' ', '  ', '\n', '\t', '\r\n', '\n\n', ' \t\n ']


def wordy(t):
    return t[:1].isalnum() or t[:1] == '_'


def separator(src, style, need):
    """Text between two tokens."""
    if style == 'plain':
        return ' '
    out = ''
    for _ in range(src.weighted([(6, 0), (3, 1), (1, 3)] if style == 'spaced'
                                else [(3, 0), (3, 1), (2, 2)])):
        if style == 'commented' and src.bool(40):
            out += src.choice(COMMENTS)
        else:
            out += src.choice(SPACES)
    if need and not out:
        return ' '
    return out


def layout(src, toks):
    """A text of the tokens: random white space and comments between them."""
    style = src.choice(['plain', 'lines', 'spaced', 'commented'])
    out = []
    if style == 'lines':
        ind = 0
        for i, t in enumerate(toks):
            if t == '}':
                ind -= 1
            if i and (toks[i - 1] in (';', '{', '}')):
                out.append('\n' + '    ' * max(ind, 0))
            elif i and not (t in (';', ',') or t == '.' or toks[i - 1] == '.'):
                out.append(' ')
            out.append(t)
            if t == '{':
                ind += 1
        text = ''.join(out) + src.choice(['\n', '', '\n\n', '\r\n', ' '])
        if src.bool(20):
            text = text.replace('\n', '\r\n')
        return text, style
    if style != 'plain' and src.bool(30):
        out.append(separator(src, style, False))
    for i, t in enumerate(toks):
        if i:
            prev = toks[i - 1]
            need = wordy(prev) and wordy(t)
            out.append(separator(src, style, need))
        out.append(t)
    if style != 'plain':
        out.append(separator(src, style, False))
        if style == 'commented' and src.bool(20):
            out.append(src.choice(['// the end', '/* the end */', '//']))
    return ''.join(out), style


# ------------------------------ expectation ------------------------------

def expect_field(f):
    entry = f.entry
    if entry is not None:
        return {'name': f.name, 'number': f.number, 'type': entry.name,
                'full': entry.full, 'kind': 'message', 'repeated': True,
                'optional': False}
    if isinstance(f.type, str):
        name, full, kind = f.type, f.type, 'scalar-value-type'
    else:
        name, full, kind = f.type.name, f.type.full, f.type.kind
    return {'name': f.name, 'number': f.number, 'type': name, 'full': full,
            'kind': kind, 'repeated': f.label == 'repeated',
            'optional': f.label == 'optional'}


def expect_enum(e):
    return {'name': e.name, 'full': e.full, 'values': [[n, v] for n, v in e.values]}


def by_name(items):
    """Messages are sorted by usage, so only compared by name."""
    out = {x['name']: x for x in items}
    if len(out) != len(items):
        out['(number of items)'] = len(items)
    return out


def expect_types(x):
    return sorted(t.name for t in x.enums + x.messages)


def expect_message(m):
    return {'type_names': expect_types(m), 'name': m.name, 'full': m.full,
            'fields': [expect_field(f) for f in m.fields],
            'oneofs': [{'name': o.name, 'full': o.full,
                        'fields': [expect_field(f) for f in o.fields]}
                       for o in m.oneofs],
            'enums': [expect_enum(e) for e in m.enums],
            'messages': by_name([expect_message(x) for x in m.messages])}


def expect(f):
    return {'type_names': expect_types(f), 'package': f.package,
            'imports': [{'type_names': expect_types(i), 'path': i.path, 'package': i.package,
                         'enums': sorted(e.name for e in i.enums),
                         'messages': sorted(m.name for m in i.messages)}
                        for i in f.imports],
            'options': [[name, kind, value] for _, kind, value, _, name in
                        (tuple(o) for o in f.options)],
            'services': [{'name': name,
                          'rpcs': [list(r[:5]) for r in rpcs]}
                         for name, rpcs in f.services],
            'messages': by_name([expect_message(m) for m in f.messages]),
            'enums': [expect_enum(e) for e in f.enums]}


def observed(p):
    """The server's report in the form of expect()."""
    def message(m):
        m = dict(m)
        m['messages'] = by_name([message(x) for x in m['messages']])
        return m

    out = dict(p)
    out.pop('abspath')
    out['imports'] = [{'type_names': i['type_names'], 'path': i['path'], 'package': i['package'],
                       'enums': sorted(i['enums']), 'messages': sorted(i['messages'])}
                      for i in p['imports']]
    out['messages'] = by_name([message(m) for m in p['messages']])
    return out


def difference(want, got, path=''):
    """First difference of two nested structures, or None."""
    if got is None and path.endswith('.type_names'):
        return None
    if type(want) is not type(got):
        return f'{path}: expected {want!r}, got {got!r}'
    if isinstance(want, dict):
        for k in want:
            if k not in got:
                return f'{path}.{k} is missing'
            d = difference(want[k], got[k], f'{path}.{k}')
            if d:
                return d
        for k in got:
            if k not in want:
                return f'{path}.{k} is not declared'
        return None
    if isinstance(want, list):
        for i, (x, y) in enumerate(zip(want, got)):
            d = difference(x, y, f'{path}[{i}]')
            if d:
                return d
        if len(want) != len(got):
            return f'{path}: expected {len(want)} items, got {len(got)}'
        return None
    return None if want == got else f'{path}: expected {want!r}, got {got!r}'


# ------------------------------ recogniser ------------------------------

TOKEN = re.compile(r'''(?P<word>[a-zA-Z][a-zA-Z0-9_]*)|
                       (?P<float>[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?|
                                 \.[0-9]+(?:[eE][+-]?[0-9]+)?|
                                 [0-9]+[eE][+-]?[0-9]+)|
                       (?P<int>0[xX][a-fA-F0-9]+|0[0-7]*(?![0-9])|[1-9][0-9]*)|
                       (?P<str>"(?:\\[^\n]|[^"\\\n])*"|'(?:\\[^\n]|[^'\\\n])*')|
                       (?P<punct>[.,=;{}()<>\[\]-])''', re.X)


def scan(text):
    """(tokens in front of the first lexical offence, offsets of offences, vague).
    A token is (kind, text, offset).
    """
    toks = []
    bad = []
    vague = False
    pos = 0
    n = len(text)
    while pos < n:
        c = text[pos]
        if c in ' \t\r\n':
            pos += 1
        elif text.startswith('//', pos):
            end = text.find('\n', pos)
            pos = n if end < 0 else end
        elif text.startswith('/*', pos):
            end = text.find('*/', pos + 2)
            inner = text.find('/*', pos + 2)
            if end < 0 or 0 <= inner < end:
                if 0 <= inner < end and text[inner - 1] == '/':
                    vague = True        # Nested or not is a matter of taste.
                bad.append(pos)
                pos += 2
            else:
                pos = end + 2
        else:
            m = TOKEN.match(text, pos)
            if m is None:
                bad.append(pos)
                pos += 1
            else:
                if not bad:
                    toks.append((m.lastgroup, m.group(), pos))
                pos = m.end()
    return toks, bad, vague


class Node:
    """A grammar node."""

    def __init__(self, op, items):
        self.op = op
        self.items = items


def node(x):
    return Node('terminal', x) if isinstance(x, str) else x


def seq(*x):
    return Node('seq', [node(i) for i in x])


def alt(*x):
    return Node('alt', [node(i) for i in x])


def star(x):
    return Node('star', node(x))


def opt(x):
    return alt(x, seq())


def ref(name):
    return Node('ref', name)


def dlist(x, by):
    return seq(x, star(seq(by, x)))


STATEMENTS = {'message', 'enum', 'oneof', 'option', 'reserved', 'repeated', 'optional',
              'map', 'extend', 'extensions', 'group'}


def grammar(strict):
    ident = '<word>'
    full = dlist(ident, '.')
    # A type name in a strict grammar does not start like another statement.
    first = '<type>' if strict else ident
    mtype = alt(seq('.', full), seq(first, star(seq('.', ident))))
    sint = seq(opt('-'), '<int>')
    const = alt(seq('<const>' if strict else ident, star(seq('.', ident))), 'true', 'false',
                seq('<str>', star('<str>')), sint, seq(opt('-'), '<float>'))
    name = dlist(alt(ident, seq('(', opt('.'), full, ')')), '.')
    options = opt(seq('[', dlist(seq(name, '=', const), ','), ']'))
    option = seq('option', name, '=', const, ';')
    reserved, ereserved = [
        seq('reserved', alt(dlist(seq(i, opt(seq('to', alt(i, 'max')))), ','),
                            dlist('<str>', ',')), ';') for i in ('<int>', sint)]
    enum = seq('enum', ident, '{',
               star(alt(option, ereserved, seq('<value>' if strict else ident, '=', sint,
                                               options, ';'), ';')), '}')
    oneof = seq('oneof', ident, '{',
                star(alt(option, seq(mtype, ident, '=', '<int>', options, ';'), ';')),
                '}')
    mapf = seq('map', '<', ident, ',', alt(seq('.', full), full), '>', ident, '=',
               '<int>', options, ';')
    field = seq(opt(alt('repeated', 'optional')), mtype, ident, '=', '<int>', options,
                ';')
    message = seq('message', ident, '{',
                  star(alt(option, field, enum, ref('message'), oneof, mapf, reserved,
                           ';')), '}')
    stream = opt('stream')
    rtype = alt(seq('.', full), seq('<rtype>' if strict else ident,
                                    star(seq('.', ident))))
    rpc = seq('rpc', ident, '(', stream, rtype, ')', 'returns', '(', stream, rtype, ')',
              alt(seq('{', star(alt(option, ';')), '}'), ';'))
    service = seq('service', ident, '{', star(alt(option, rpc, ';')), '}')
    import_ = seq('import', opt(alt('weak', 'public')), '<str>', ';')
    package = seq('package', full, ';')
    proto = seq('syntax', '=', alt('"proto3"', "'proto3'"), ';',
                star(alt(import_, package, option, message, enum, service, ';')))
    return {'message': message, 'proto': proto}


GRAMMARS = {strict: grammar(strict) for strict in (False, True)}


def matches(terminal, tok):
    kind, text, _ = tok
    if terminal == '<word>':
        return kind == 'word'
    if terminal == '<type>':
        return kind == 'word' and text not in STATEMENTS
    if terminal == '<rtype>':
        return kind == 'word' and text != 'stream'
    if terminal == '<const>':
        return kind == 'word' and text not in ('true', 'false')
    if terminal == '<value>':
        return kind == 'word' and text not in ('option', 'reserved')
    if terminal in ('<int>', '<float>'):
        return kind == terminal[1:-1]
    if terminal == '<str>':
        return kind == 'str'
    return text == terminal


def recognise(toks, text_length, strict):
    """None if the tokens are a proto file, else the offset of the first token that
    cannot continue any proto file (the length of the text at its end).
    """
    rules = GRAMMARS[strict]
    cells = {}

    def push(item, rest):
        """Stacks are shared cells (item, rest), so that equal ones are identical."""
        key = (id(item), id(rest))
        cell = cells.get(key)
        if cell is None:
            cell = cells[key] = [item, rest]
        return cell

    def closure(stacks):
        """[(terminal, rest)], and whether the end is possible."""
        out = []
        seen = set()
        todo = list(stacks)
        end = False
        while todo:
            s = todo.pop()
            if id(s) in seen:
                continue
            seen.add(id(s))
            if s is None:
                end = True
                continue
            item, rest = s
            if item.op == 'terminal':
                out.append((item.items, rest))
            elif item.op == 'seq':
                for x in reversed(item.items):
                    rest = push(x, rest)
                todo.append(rest)
            elif item.op == 'alt':
                todo += [push(x, rest) for x in item.items]
            elif item.op == 'star':
                todo.append(rest)
                todo.append(push(item.items, s))
            else:
                todo.append(push(rules[item.items], rest))
        return out, end

    stacks = [push(rules['proto'], None)]
    for tok in toks:
        terminals, _ = closure(stacks)
        stacks = [rest for t, rest in terminals if matches(t, tok)]
        if not stacks:
            return tok[2]
    return None if closure(stacks)[1] else text_length


def judge(text):
    """(must be accepted as syntax, must be rejected, offsets an error may name)"""
    toks, bad, vague = scan(text)
    offsets = set(bad)
    results = [recognise(toks, len(text), strict) for strict in (True, False)]
    offsets |= {r for r in results if r is not None and not (bad and r == len(text))}
    if results[0] != results[1]:
        # Keywords as type names: how far that makes sense is a matter of taste.
        first = min(r for r in results if r is not None)
        last = max(len(text) + 1 if r is None else r for r in results)
        offsets |= {t[2] for t in toks if first <= t[2] <= last}
    if bad:
        return False, not vague, offsets
    return results[0] is None, results[1] is not None, offsets


def position(text, offset):
    """(line, column), from 1."""
    start = text.rfind('\n', 0, offset) + 1
    return text.count('\n', 0, offset) + 1, offset - start + 1
