"""Model of proto3 schemas, a random generator for them, and rendering to text.

Nothing here uses the code under test. Naming rules (snake case conversion,
names of generated C identifiers) are written down independently below.
"""
from .pbt import HarnessError
from .scoping import Table, fix_refs

SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64',
           'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'float', 'double',
           'bool', 'string', 'bytes']
MAP_KEYS = [s for s in SCALARS if s not in ('float', 'double', 'bytes')]

CTYPE = {'int32': 'int32_t', 'int64': 'int64_t', 'sint32': 'int32_t',
         'sint64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t',
         'fixed32': 'uint32_t', 'fixed64': 'uint64_t', 'sfixed32': 'int32_t',
         'sfixed64': 'int64_t', 'float': 'float', 'double': 'double',
         'bool': 'bool', 'string': 'char *', 'bytes': 'struct pbtools_bytes_t'}

NUMBER_EDGES = [1, 2, 15, 16, 17, 127, 128, 2047, 2048, 2049, 16383, 16384,
                262143, 262144, 262145, 1 << 20, (1 << 21) - 1, 1 << 21,
                33554431, 33554432, 33554433, 1 << 28, (1 << 29) - 2, (1 << 29) - 1]


def snake(name):
    """Documented naming scheme: CamelCase and dots to snake_case."""
    s = ''.join(c if c.isalnum() and c.isascii() else '_' for c in name)
    # A capital followed by small letters or digits starts a word (unless first
    # or what is in front of it was consumed by the word before).
    out = []
    i = 0
    n = len(s)
    while i < n:
        # Mirrors leftmost, non-overlapping matching of (.)([A-Z][a-z]+).
        if i + 2 < n + 0 and s[i + 1:i + 2].isupper() and s[i + 2:i + 3].islower():
            j = i + 2
            while j < n and s[j].islower():
                j += 1
            out.append(s[i] + '_' + s[i + 1:j])
            i = j
        else:
            out.append(s[i])
            i += 1
    s = ''.join(out)
    while '__' in s:
        s = s.replace('__', '_')
    out = []
    for i, c in enumerate(s):
        if i and c.isupper() and (s[i - 1].islower() or s[i - 1].isdigit()):
            out.append('_')
        out.append(c)
    return ''.join(out).lower()


class Enum:
    kind = 'enum'

    def __init__(self, name, scope, file):
        self.name = name
        self.scope = scope              # List of message names, outermost first.
        self.file = file
        self.values = []                # (name, number)

    @property
    def path(self):
        return self.file.pkg + self.scope + [self.name]

    @property
    def full(self):
        return '.'.join(self.path)

    @property
    def cname(self):
        return snake(self.full)

    def enumerator(self, name, upper=False):
        s = snake('.'.join(self.file.pkg + self.scope)) + '_' + snake(name) + '_e'
        return s.upper() if upper else s


class Field:

    def __init__(self, name, number, type, label, ref=None, key=None, oneof=None):
        self.name = name
        self.number = number
        self.type = type                # Scalar name, Enum or Message.
        self.label = label              # plain optional repeated map oneof
        self.ref = ref                  # Type as written.
        self.key = key                  # Map key type.
        self.oneof = oneof
        self.entry = None               # Map: the entry message.

    @property
    def cname(self):
        return snake(self.name)

    @property
    def kind(self):
        return 'scalar' if isinstance(self.type, str) else self.type.kind

    @property
    def is_msg(self):
        return not isinstance(self.type, str) and self.type.kind == 'message'


class Oneof:

    def __init__(self, name, message):
        self.name = name
        self.message = message
        self.fields = []

    @property
    def cname(self):
        return snake(self.name)

    @property
    def full(self):
        return '.'.join(self.message.path + [self.name])

    @property
    def cfull(self):
        return snake(self.full)


class Message:
    kind = 'message'

    def __init__(self, name, scope, file, parent=None):
        self.name = name
        self.scope = scope
        self.file = file
        self.parent = parent
        self.fields = []                # Not oneof members; maps included.
        self.oneofs = []
        self.enums = []
        self.messages = []
        self.is_entry = False
        self.order = []                 # Declaration order for rendering.

    @property
    def path(self):
        return self.file.pkg + self.scope + [self.name]

    @property
    def full(self):
        return '.'.join(self.path)

    @property
    def cname(self):
        return snake(self.full)

    @property
    def all_fields(self):
        """Wire level fields: maps as repeated entry messages, then oneofs."""
        return self.fields + [f for o in self.oneofs for f in o.fields]

    def walk(self):
        yield self
        for m in self.messages:
            yield from m.walk()


class File:

    def __init__(self, path, package):
        self.path = path                # As imported, for example sub/foo.proto.
        self.package = package          # None or 'a.b'.
        self.imports = []
        self.options = []               # (name, kind, value, text)
        self.enums = []
        self.messages = []
        self.services = []              # (name, [(rpc, req, reqs, resp, resps)])
        self.order = []

    @property
    def pkg(self):
        return [] if self.package is None else [self.package]

    @property
    def stem(self):
        return self.path.rsplit('/', 1)[-1].rsplit('.', 1)[0]

    @property
    def cstem(self):
        return snake(self.stem)

    def all_messages(self):
        for m in self.messages:
            yield from m.walk()

    def all_enums(self):
        yield from self.enums
        for m in self.all_messages():
            yield from m.enums


def add_map_entry(message, field):
    """The entry message of a map field, as pbtools declares it."""
    title = []
    up = True
    for c in field.name:                # str.title() for identifiers.
        if c.isalpha():
            title.append(c.upper() if up else c.lower())
            up = False
        else:
            title.append(c)
            up = True
    entry = Message('PbtoolsMap' + ''.join(title), message.scope + [message.name],
                    message.file, message)
    entry.is_entry = True
    entry.fields = [Field('key', 1, field.key, 'plain', ref=field.key),
                    Field('value', 2, field.type, 'plain', ref=field.ref)]
    field.entry = entry
    message.messages.append(entry)


# ------------------------------ generation ------------------------------

TYPE_WORDS = ['foo', 'bar', 'fie', 'person', 'phone', 'address', 'book', 'status',
              'item', 'node', 'tree', 'leaf', 'event', 'sensor', 'reading', 'frame',
              'packet', 'color', 'shape', 'point', 'line', 'user', 'team', 'config',
              'entry', 'mode', 'level', 'kind', 'a', 'b', 'x', 'data']
FIELD_WORDS = ['foo', 'bar', 'v', 'id', 'name', 'value', 'length', 'size', 'items',
               'count', 'key', 'is_present', 'wire_type', 'self_p', 'buf_p', 'heap_p',
               'tag', 'index', 'i', 'pos', 'code', 'x', 'y', 'flag', 'text', 'time',
               'payload', 'message', 'option', 'package', 'rpc', 'stream', 'map',
               'to', 'max', 'optional', 'oneof', 'syntax', 'service', 'reserved',
               'import', 'weak', 'decoder_p', 'encoder_p', 'res', 'data', 'list',
               'a', 'b', 'e', 'field', 'number', 'repeated_info']
SCALAR_LIKE = ['String', 'Bytes', 'Bool', 'Fixed32', 'Sint64', 'Enum', 'STRING', 'BYTES',
               'Bool', 'BOOL', 'String', 'Bytes', 'SFixed64', 'Map', 'Message']
PARSE_ONLY_WORDS = ['enum', 'true', 'false', 'public', 'returns', 'int', 'class',
                    'base', 'int32', 'string', 'bytes', 'float', 'double', 'bool']
PKG1 = ['foo', 'bar', 'com', 'Alpha', 'beta2', 'my_pkg', 'zed', 'HTTPApi']
PKG2 = ['inner', 'v1', 'SubPart', 'deep_er', 'x', 'tools']


def styled(src, words, camel=False, fancy=True):
    n = src.weighted([(6, 1), (4, 2), (1, 3)])
    parts = [src.choice(words) for _ in range(n)]
    if src.bool(8):
        # Any letters.
        parts[src.below(n)] = ''.join(chr(ord('a') + src.below(26))
                                      for _ in range(src.int(2, 5)))
    if src.bool(30):
        i = n - 1 if src.bool(50) else src.below(n)
        parts[i] = parts[i] + str(src.choice([src.below(10), 10, 64, 100, 1 << 31]))
    style = src.weighted([(5, 'pascal'), (1, 'camel'), (1, 'snake'), (1, 'upper'),
                          (1, 'odd')] if camel else
                         [(6, 'snake'), (2, 'camel'), (1, 'pascal'), (1, 'upper'),
                          (1, 'odd')])
    if style == 'odd' and not fancy:
        style = 'snake'
    if style == 'pascal':
        return ''.join(p[:1].upper() + p[1:] for p in parts)
    if style == 'camel':
        return parts[0] + ''.join(p[:1].upper() + p[1:] for p in parts[1:])
    if style == 'snake':
        return '_'.join(parts)
    if style == 'upper':
        return '_'.join(parts).upper()
    odd = src.below(5)
    if odd == 0:
        return parts[0].upper() + ''.join(p[:1].upper() + p[1:] for p in parts[1:])
    if odd == 1:
        return parts[0] + '_' + ''.join(p[:1].upper() + p[1:] for p in parts)
    if odd == 2:
        return '__'.join(parts + ['z'])
    if odd == 3:
        return parts[0][:1].upper() + parts[0] + 'ID' + str(src.below(10))
    return parts[0] + '_'


# Identifiers that may not be struct members or that are macros.
C_BAD = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch
char char16_t char32_t class compl const constexpr const_cast continue decltype
default delete do double dynamic_cast else enum explicit export extern false float
for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr
operator or or_eq private protected public register reinterpret_cast return short
signed sizeof static static_assert static_cast struct switch template this
thread_local throw true try typedef typeid typename union unsigned using virtual
void volatile wchar_t while xor xor_eq restrict typeof concept requires base linux
unix i386 errno stdin stdout stderr'''.split())


class Cfg:
    """Knobs of the schema generator."""

    def __init__(self, **kw):
        self.files = 1
        self.messages = (1, 6)
        self.fields = (0, 8)
        self.nest = 2
        self.maps = True
        self.optional = True
        self.oneofs = True
        self.refs = True
        self.floats = True
        self.package = None             # None: random.
        self.c_safe = True
        self.subdirs = False
        self.services = False
        self.options = False
        self.shadow = False
        self.numbers = []               # Extra interesting numbers.
        self.wide = False               # Now and then a message with many fields.
        for k, v in kw.items():
            if not hasattr(self, k):
                raise HarnessError(k)
            setattr(self, k, v)


class Gen:

    def __init__(self, src, cfg):
        self.src = src
        self.cfg = cfg
        self.used = set()               # Full C names of all entities.
        self.files = []

    # -- names --

    def unique(self, make, prefix, extra=(), local=None):
        """A name whose full C name, and member names, are new."""
        for i in range(200):
            name = make()
            if i > 20:
                name += str(i)
            s = snake(name)
            if self.cfg.c_safe and s in C_BAD:
                continue
            if s[:1] == '_' or not s:
                continue
            full = snake(prefix + '.' + name) if prefix else s
            names = {full.strip('_')} | {snake(x) for x in extra}
            if names & self.used:
                continue
            if local is not None:
                # Types of map fields are named after them regardless of case.
                mine = {s, s + '_p', 'case of ' + name.lower()}
                if mine & local:
                    continue
                local |= mine
            self.used |= names
            return name
        raise HarnessError('no unique name')

    def type_name(self, scope_path):
        if self.src.bool(4):
            # In C only the case tells them from scalar value types.
            name = self.src.choice(SCALAR_LIKE)
            s = snake('.'.join(scope_path + [name])).strip('_')
            if s not in self.used:
                self.used.add(s)
                return name
        return self.unique(lambda: styled(self.src, TYPE_WORDS, camel=True),
                           '.'.join(scope_path))

    def field_name(self, message, local):
        words = FIELD_WORDS if self.cfg.c_safe else FIELD_WORDS + PARSE_ONLY_WORDS
        return self.unique(lambda: styled(self.src, words), message.full, local=local)

    def number(self, used):
        src = self.src
        for _ in range(100):
            k = src.weighted([(5, 0), (3, 1), (1, 2), (1 if self.cfg.numbers else 0, 3)])
            if k == 0:
                n = src.int(1, 20)
            elif k == 1:
                n = src.choice(NUMBER_EDGES)
            elif k == 2:
                n = src.int(1, (1 << src.int(5, 29)) - 1)
            else:
                n = src.choice(self.cfg.numbers) + src.int(-1, 1)
            if 1 <= n < (1 << 29) and not 19000 <= n <= 19999 and n not in used:
                used.add(n)
                return n
        n = max(used) + 1 if max(used) < (1 << 29) - 1 else min(
            x for x in range(1, 18000) if x not in used)
        while 19000 <= n <= 19999 or n in used:
            n += 1
        used.add(n)
        return n

    # -- structure --

    def enum(self, scope, file):
        src = self.src
        ns = file.pkg + scope
        e = Enum(self.type_name(ns), scope, file)
        n = src.weighted([(1, 1), (4, 3), (1, 8)])
        nums = [0]
        while len(nums) < n:
            x = src.weighted([(4, src.int(1, 10)), (1, src.int(-10, -1)),
                              (1, src.choice([127, 128, 255, 256, 65535, 65536,
                                              2147483647, -2147483648, -1,
                                              16383, 16384]))])
            while x in nums:
                x = x + 1 if x < 2147483647 else 1
            nums.append(x)
        for x in nums:
            e.values.append((self.enum_value(ns), x))
        return e

    def enum_value(self, ns):
        for i in range(100):
            name = styled(self.src, TYPE_WORDS + ['none', 'unknown', 'ok', 'option',
                                                  'reserved', 'repeated'], fancy=False)
            if self.src.bool(40):
                name = name.upper()
            if i > 20:
                name += str(i)
            if name in ('option', 'reserved'):      # Would start a statement.
                name += 's'
            full = 'value:' + (snake('.'.join(ns)) + '_' + snake(name)).strip('_')
            # Choice enumerators are <message>_<oneof>_<field>; keep apart.
            if full in self.used or full[6:] in self.used:
                continue
            self.used.add(full)
            self.used.add(full[6:])
            return name
        raise HarnessError('enum value')

    def message(self, scope, file, parent, depth):
        src = self.src
        m = Message(self.type_name(file.pkg + scope), scope, file, parent)
        inner = scope + [m.name]
        if depth > 0:
            for _ in range(src.weighted([(6, 0), (3, 1), (1, 2)])):
                m.messages.append(self.message(inner, file, m, depth - 1))
            for _ in range(src.weighted([(6, 0), (3, 1), (1, 2)])):
                m.enums.append(self.enum(inner, file))
        return m

    def visible(self, m):
        """(type, [ways to write it]) for references inside message m."""
        table = Table(m.file)
        return [(t, table.spellings(m, t)) for t in table.types.values()]

    def fill(self, m):
        src, cfg = self.src, self.cfg
        for sub in list(m.messages):
            self.fill(sub)
        visible = self.visible(m) if cfg.refs else []
        used = set()
        local = set()
        scalars = [s for s in SCALARS if cfg.floats or s not in ('float', 'double')]
        lo, hi = cfg.fields
        n = src.int(lo, hi)
        if cfg.wide and src.bool(5):
            n = src.int(20, 60)

        def pick(allow_msg=True):
            if visible and src.bool(45):
                t, ways = src.choice(visible)
                if allow_msg or t.kind == 'enum':
                    return t, src.choice(ways)
            s = src.choice(scalars)
            return s, s

        i = 0
        while i < n:
            i += 1
            label = src.weighted([(5, 'plain'), (5, 'repeated'),
                                  (3 if cfg.optional else 0, 'optional'),
                                  (2 if cfg.oneofs else 0, 'oneof'),
                                  (1 if cfg.maps else 0, 'map')])
            if label == 'oneof':
                name = self.unique(lambda: styled(src, FIELD_WORDS), m.full,
                                   local=local)
                o = Oneof(name, m)
                for _ in range(src.int(1, 5)):
                    t, ref = pick()
                    f = Field(self.field_name(m, local), self.number(used), t,
                              'oneof', ref, oneof=o)
                    # Choice enumerators, apart from enum values.
                    self.used.add(snake(o.full + '.' + f.name))
                    o.fields.append(f)
                m.oneofs.append(o)
                m.order.append(o)
                continue
            if label == 'map':
                t, ref = pick()
                f = Field(self.field_name(m, local), self.number(used), t, 'map', ref,
                          key=src.choice(MAP_KEYS))
                ename = 'PbtoolsMap' + f.name.title()
                if any(x.name == ename for x in m.messages) or \
                        snake(m.full + '.' + ename) in self.used:
                    continue
                self.used.add(snake(m.full + '.' + ename))
                add_map_entry(m, f)
            else:
                t, ref = pick(allow_msg=(label != 'optional'))
                f = Field(self.field_name(m, local), self.number(used), t, label, ref)
            m.fields.append(f)
            m.order.append(f)
        types = m.enums + [x for x in m.messages if not x.is_entry]
        for t in types:                          # Types anywhere among the fields.
            m.order.insert(src.below(len(m.order) + 1), t)
        # Relative order of nested types is part of the declaration order.
        m.enums = [x for x in m.order if isinstance(x, Enum)]
        nested = [x for x in m.order if isinstance(x, Message)]
        entries = [x for x in m.messages if x.is_entry]
        m.messages = nested + entries

    def package(self):
        src = self.src
        k = src.weighted([(4, 1), (3, 2), (2, 0), (1, 3)])
        if k == 0:
            return None
        parts = [src.choice(PKG1)]
        while len(parts) < k:
            parts.append(src.choice(PKG2))
        return '.'.join(parts)

    def run(self):
        src, cfg = self.src, self.cfg
        stems = set()
        for i in range(cfg.files):
            while True:
                stem = styled(src, ['alpha', 'beta', 'gamma', 'defs', 'types', 'main',
                                    'proto', 'x1'], fancy=False)
                if src.bool(25):
                    stem += src.choice(['.v1', '-api', '.pb', '.V2beta', '-x.y', '..z'])
                if snake(stem) not in stems:
                    stems.add(snake(stem))
                    break
                if len(stems) > 3 and i > 3:
                    stem += str(i)
            folder = ''
            if cfg.subdirs:
                folder = src.choice(['', '', 'sub/', 'sub/dir/', 'Other_Dir/'])
            if cfg.package is not None:
                package = cfg.package or None
            elif self.files and src.bool(40):
                package = src.choice(self.files).package
            else:
                package = self.package()
            f = File(folder + stem + '.proto', package)
            for g in self.files:
                if src.bool(60):
                    f.imports.append(g)
            self.files.append(f)
            for _ in range(src.weighted([(3, 0), (4, 1), (2, 3)])):
                f.enums.append(self.enum([], f))
            for _ in range(src.int(*cfg.messages)):
                f.messages.append(self.message([], f, None, cfg.nest))
            for m in f.messages:
                self.fill(m)
            if not f.messages and not f.enums:
                f.messages.append(self.message([], f, None, 0))
            f.order = src.shuffled(f.enums + f.messages)
            f.enums = [x for x in f.order if isinstance(x, Enum)]
            f.messages = [x for x in f.order if isinstance(x, Message)]
        fix_refs(self.files)
        return self.files


def generate(src, cfg):
    return Gen(src, cfg).run()


# ------------------------------ rendering ------------------------------

def render_enum(e, out, ind=''):
    out.append(f'{ind}enum {e.name} {{')
    for name, number in e.values:
        out.append(f'{ind}    {name} = {number};')
    out.append(f'{ind}}}')


def render_field(f, out, ind):
    if f.label == 'map':
        out.append(f'{ind}map<{f.key}, {f.ref}> {f.name} = {f.number};')
    else:
        label = '' if f.label in ('plain', 'oneof') else f.label + ' '
        out.append(f'{ind}{label}{f.ref} {f.name} = {f.number};')


def render_message(m, out, ind=''):
    out.append(f'{ind}message {m.name} {{')
    sub = ind + '    '
    for x in m.order:
        if isinstance(x, Enum):
            render_enum(x, out, sub)
        elif isinstance(x, Message):
            render_message(x, out, sub)
        elif isinstance(x, Oneof):
            out.append(f'{sub}oneof {x.name} {{')
            for f in x.fields:
                render_field(f, out, sub + '    ')
            out.append(f'{sub}}}')
        else:
            render_field(x, out, sub)
    out.append(f'{ind}}}')


def render(file):
    out = ['syntax = "proto3";', '']
    if file.package:
        out += [f'package {file.package};', '']
    for imp in file.imports:
        out.append(f'import "{imp.path}";')
    for x in file.order:
        out.append('')
        if isinstance(x, Enum):
            render_enum(x, out)
        else:
            render_message(x, out)
    return '\n'.join(out) + '\n'


# --------------------------- fixed schemas ---------------------------

def matrix(variant, floats=True):
    """Every type with every label. The variants differ in field numbers,
    package and order.
    """
    f = File(['matrix.proto', 'sub/Matrix2.proto', 'MATRIX_three.proto'][variant],
             [None, 'my_pkg.V1.deep', 'PKG'][variant])
    scalars = [s for s in SCALARS if floats or s not in ('float', 'double')]
    if variant == 2:
        scalars = scalars[::-1]

    def numbers(n):
        if variant == 0:
            return list(range(1, n + 1))
        if variant == 1:
            base = [x for x in NUMBER_EDGES]
            k = 1
            out = []
            while len(out) < n:
                for b in base:
                    x = b + (0 if k == 1 else 13 * (k - 1))
                    if 1 <= x < (1 << 29) and not 19000 <= x <= 19999 and x not in out:
                        out.append(x)
                k += 1
            return out[:n]
        return [16 + 3 * i for i in range(n)][::-1]

    color = Enum('Color', [], f)
    color.values = [('RED', 0), ('GREEN', 1), ('BLUE', 2), ('NEG', -1),
                    ('BIG', 2147483647), ('LOW', -2147483648), ('MID', 128)]
    f.enums.append(color)

    def message(name, scope=(), parent=None):
        m = Message(name, list(scope), f, parent)
        if parent is None:
            f.messages.append(m)
        else:
            parent.messages.append(m)
        return m

    def add(m, rows):
        """rows: (name, type, label) with label a string or ('oneof', Oneof)."""
        nums = numbers(len(rows))
        for (name, t, label, key), n in zip(rows, nums):
            ref = t if isinstance(t, str) else t.name
            if isinstance(label, Oneof):
                fld = Field(name, n, t, 'oneof', ref, oneof=label)
                label.fields.append(fld)
                if label not in m.oneofs:
                    m.oneofs.append(label)
                    m.order.append(label)
                continue
            fld = Field(name, n, t, label, ref, key=key)
            if label == 'map':
                add_map_entry(m, fld)
            m.fields.append(fld)
            m.order.append(fld)

    sub = message('Sub')
    empty = message('Empty')
    add(sub, [('a', 'int32', 'plain', None), ('s', 'string', 'plain', None),
              ('r', 'uint32', 'repeated', None), ('o', 'bool', 'optional', None),
              ('next', sub, 'plain', None), ('list', sub, 'repeated', None),
              ('data', 'bytes', 'plain', None)])
    plain = message('Plain')
    nested = message('Nested', ['Plain'], plain)
    kind = Enum('Kind', ['Plain'], f)
    kind.values = [('NONE', 0), ('SOME', 5), ('MINUS', -7)]
    plain.enums.append(kind)
    plain.order += [kind, nested]
    add(nested, [('x', 'sint64', 'plain', None), ('y', 'string', 'repeated', None)])
    types = [(s, s) for s in scalars] + [('color', color), ('sub', sub),
                                         ('empty', empty)]
    inner = types + [('nested', nested), ('kind', kind)]
    add(plain, [(f'p_{n}', t, 'plain', None) for n, t in inner])
    opt = message('Optional')
    add(opt, [(f'o_{n}', t, 'optional', None) for n, t in types
              if isinstance(t, str) or t.kind == 'enum'])
    rep = message('Repeated')
    add(rep, [(f'r_{n}', t, 'repeated', None) for n, t in types])
    one = message('OneOf')
    a, b = Oneof('first', one), Oneof('Second', one)
    rows = [('before', 'int32', 'plain', None)]
    rows += [(f'a_{n}', t, a, None) for n, t in types]
    rows += [('between', 'string', 'plain', None)]
    rows += [(f'b_{n}', t, b, None) for n, t in types[::-1]]
    add(one, rows)
    maps = message('Maps')
    add(maps, [(f'k_{k}', 'int32', 'map', k) for k in MAP_KEYS]
        + [(f'v_{n}', t, 'map', 'string' if i % 2 else 'uint32')
           for i, (n, t) in enumerate(types)])
    mixed = message('Mixed')
    rows = []
    for i, t in enumerate([plain, opt, rep, one, maps]):
        rows.append((f'one_{i}', t, 'plain', None))
        rows.append((f'many_{i}', t, 'repeated', None))
    rows.append(('again', mixed, 'plain', None))
    rows += [(f'ch_{i}', t, Oneof('choice', mixed) if i == 0 else None, None)
             for i, t in enumerate([plain, mixed, rep])]
    choice = rows[-3][2]
    rows = [(n, t, choice if lab is None else lab, k) for n, t, lab, k in rows]
    add(mixed, rows)
    if variant == 2:
        f.messages.reverse()
    f.order = ([color] + f.messages) if variant != 2 else (f.messages + [color])
    return [f]


# --------------------------- derived schemas ---------------------------

def older(src, files):
    """A copy of the files with some fields removed, and the map from ids of
    messages to their counterparts in the copy.
    """
    import copy
    memo = {}
    out = copy.deepcopy(files, memo)
    keep = {}
    percent = src.choice([15, 40, 70])
    for f in files:
        for m in f.all_messages():
            keep[id(m)] = memo[id(m)]
    for f in out:
        for m in list(f.all_messages()):
            if m.is_entry:
                continue
            for x in list(m.fields):
                if src.bool(percent):
                    m.fields.remove(x)
                    m.order.remove(x)
                    if x.entry is not None:
                        m.messages.remove(x.entry)
            for o in list(m.oneofs):
                for x in list(o.fields):
                    if src.bool(percent):
                        o.fields.remove(x)
                if not o.fields:
                    m.oneofs.remove(o)
                    m.order.remove(o)
    return out, keep


def map_twins(src, numbers=()):
    """Files whose last one has messages with map fields, each with a twin
    that has the equivalent repeated fields.
    """
    cfg = Cfg(files=src.weighted([(2, 1), (3, 2)]), messages=(1, 3), fields=(1, 4),
              numbers=list(numbers), subdirs=src.bool(20))
    g = Gen(src, cfg)
    files = g.run()
    f = files[-1]
    if len(files) > 1 and not f.imports:
        f.imports.append(files[0])
    f.twins = []
    for k in range(src.int(1, 2)):
        a = Message(g.type_name(f.pkg), [], f)
        b = Message(g.type_name(f.pkg), [], f)
        f.messages += [a, b]
        f.order += [a, b]
        # A nested enum and message to use as values.
        inner = []
        if src.bool(60):
            e = g.enum([a.name], f)
            a.enums.append(e)
            a.order.append(e)
            inner.append(e)
        if src.bool(60):
            sub = Message(g.type_name(a.path), [a.name], f, a)
            a.messages.append(sub)
            a.order.append(sub)
            sub.fields = [Field('x', 1, 'int32', 'plain', 'int32'),
                          Field('s', 2, 'string', 'plain', 'string')]
            sub.order = list(sub.fields)
            inner.append(sub)
        # Types and spellings that mean the same in both (a's own may shadow).
        inside = {(id(t), w) for t, ways in g.visible(a) for w in ways}
        shared = [(t, [w for w in ways if (id(t), w) in inside])
                  for t, ways in g.visible(b)]
        shared = [(t, ways) for t, ways in shared if ways]
        used = set()
        la, lb = set(), set()
        for i in range(src.int(1, 6)):
            key = src.choice(MAP_KEYS)
            local = src.bool(25) and inner
            if local:
                t = src.choice(inner)
                ra = t.name
            elif src.bool(45) and shared:
                t, ways = src.choice(shared)
                ra = src.choice(ways)
            else:
                t = src.choice(SCALARS)
                ra = t
            name = g.field_name(a, la)
            ename = 'PbtoolsMap' + name.title()
            if any(x.name == ename for x in a.messages) or \
                    snake(a.full + '.' + ename) in g.used:
                continue
            g.used.add(snake(a.full + '.' + ename))
            n = g.number(used)
            fa = Field(name, n, t, 'map', ra, key=key)
            add_map_entry(a, fa)
            a.fields.append(fa)
            a.order.append(fa)
            if local:
                continue
            entry = Message(f'TwinEntry{i}', [b.name], f, b)
            entry.fields = [Field('key', 1, key, 'plain', key),
                            Field('value', 2, t, 'plain', ra)]
            entry.order = list(entry.fields)
            b.messages.append(entry)
            b.order.append(entry)
            fb = Field(g.field_name(b, lb), n, entry, 'repeated', entry.name)
            b.fields.append(fb)
            b.order.append(fb)
        a.messages = [x for x in a.messages if not x.is_entry] + [
            x for x in a.messages if x.is_entry]
        f.twins.append((a, b))
    fix_refs(files)
    return files
