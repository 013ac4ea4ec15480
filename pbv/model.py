"""Reference model of proto3 messages: values, encoding, decoding.

A value of a message is a list with one item per field, in the order of
Message.all_fields:

  plain scalar   int (floats as their bits), bytes for string and bytes
  plain message  None or a value
  optional       None or scalar
  repeated, map  list of scalars or values
  oneof          None if not the selected member, else scalar or value
"""
import struct

from .pbt import HarnessError

VARINT, BITS64, LEN, BITS32 = 0, 1, 2, 5
M64 = (1 << 64) - 1
M32 = (1 << 32) - 1

WIRE = {'int32': VARINT, 'int64': VARINT, 'sint32': VARINT, 'sint64': VARINT,
        'uint32': VARINT, 'uint64': VARINT, 'bool': VARINT, 'enum': VARINT,
        'fixed32': BITS32, 'sfixed32': BITS32, 'float': BITS32,
        'fixed64': BITS64, 'sfixed64': BITS64, 'double': BITS64,
        'string': LEN, 'bytes': LEN, 'message': LEN}
RANGE = {'int32': (-(1 << 31), (1 << 31) - 1), 'sint32': (-(1 << 31), (1 << 31) - 1),
         'sfixed32': (-(1 << 31), (1 << 31) - 1), 'enum': (-(1 << 31), (1 << 31) - 1),
         'int64': (-(1 << 63), (1 << 63) - 1), 'sint64': (-(1 << 63), (1 << 63) - 1),
         'sfixed64': (-(1 << 63), (1 << 63) - 1),
         'uint32': (0, M32), 'fixed32': (0, M32), 'float': (0, M32),
         'uint64': (0, M64), 'fixed64': (0, M64), 'double': (0, M64), 'bool': (0, 1)}


def tname(f):
    """Scalar name, 'enum' or 'message'."""
    try:
        return f.tn
    except AttributeError:
        pass
    if f.label == 'map':
        f.tn = 'message'
    else:
        f.tn = f.type if isinstance(f.type, str) else f.type.kind
    return f.tn


def submsg(f):
    return f.entry if f.label == 'map' else f.type


def is_rep(f):
    return f.label in ('repeated', 'map')


def default(f):
    try:
        return f.dflt if f.dflt != [] else []
    except AttributeError:
        pass
    if is_rep(f):
        f.dflt = []
    elif f.label in ('optional', 'oneof') or tname(f) == 'message':
        f.dflt = None
    else:
        f.dflt = b'' if tname(f) in ('string', 'bytes') else 0
    return default(f)


def empty(m):
    return [default(f) for f in m.all_fields]


# ------------------------------ encoding ------------------------------

def varint(v, pad=0):
    """Minimal varint, or one of at least pad bytes."""
    v &= M64
    out = bytearray()
    while v >= 0x80:
        out.append(v & 0x7f | 0x80)
        v >>= 7
    out.append(v)
    while len(out) < pad:
        out[-1] |= 0x80
        out.append(0)
    return bytes(out)


def zigzag(v):
    return (v << 1) if v >= 0 else ((-v << 1) - 1)


def scalar_payload(t, v):
    """Wire bytes of a scalar without tag and length."""
    if t in ('int32', 'int64', 'enum', 'uint32', 'uint64', 'bool'):
        return varint(v)
    if t in ('sint32', 'sint64'):
        return varint(zigzag(v))
    if t in ('fixed32', 'sfixed32', 'float'):
        return (v & M32).to_bytes(4, 'little')
    if t in ('fixed64', 'sfixed64', 'double'):
        return (v & M64).to_bytes(8, 'little')
    return v


def tag(number, wire):
    return varint(number << 3 | wire)


def record(number, wire, payload):
    if wire == LEN:
        return tag(number, wire) + varint(len(payload)) + payload
    return tag(number, wire) + payload


def encode(m, vals):
    """Canonical encoding with fields sorted by number."""
    out = []
    for f, v in zip(m.all_fields, vals):
        t = tname(f)
        n = f.number
        if is_rep(f):
            if not v:
                continue
            if t == 'message':
                data = b''.join(record(n, LEN, encode(submsg(f), x)) for x in v)
            elif t in ('string', 'bytes'):
                data = b''.join(record(n, LEN, x) for x in v)
            else:
                data = record(n, LEN, b''.join(scalar_payload(t, x) for x in v))
        elif v is None:
            continue
        elif t == 'message':
            data = record(n, LEN, encode(submsg(f), v))
        elif f.label == 'plain' and v == default(f):
            continue
        else:
            data = record(n, WIRE[t], scalar_payload(t, v))
        out.append((n, data))
    out.sort(key=lambda x: x[0])
    return b''.join(d for _, d in out)


# ------------------------------ decoding ------------------------------

class Bad(Exception):
    pass


class Notes:
    """What a decode met that the properties say nothing about."""

    def __init__(self):
        self.wide_tag = False           # Tag beyond 32 bits: anything goes.
        self.vague = False              # Content not specified, acceptance is.
        self.depth = 0
        self.unknown = 0


def read_varint(data, pos, end):
    v = 0
    for i in range(10):
        if pos >= end:
            raise Bad('truncated varint')
        b = data[pos]
        pos += 1
        v |= (b & 0x7f) << (7 * i)
        if b < 0x80:
            return v & M64, pos
    raise Bad('varint of more than ten bytes')


def scalar_from_varint(t, v, notes):
    if t in ('int32', 'enum'):
        v &= M32
        return v - (1 << 32) if v >> 31 else v
    if t == 'int64':
        return v - (1 << 64) if v >> 63 else v
    if t == 'uint32':
        return v & M32
    if t == 'uint64':
        return v
    if t == 'bool':
        return int(v != 0)
    z = (v >> 1) ^ -(v & 1)
    if t == 'sint32' and v > M32:
        notes.vague = True
        return 0
    return z


def read_scalar(t, wire, data, pos, end, notes):
    if wire != WIRE[t]:
        raise Bad('wrong wire type')
    if wire == VARINT:
        v, pos = read_varint(data, pos, end)
        return scalar_from_varint(t, v, notes), pos
    if wire == LEN:
        n, pos = read_varint(data, pos, end)
        if n > end - pos:
            raise Bad('length beyond the end')
        v = data[pos:pos + n]
        if t == 'string' and b'\0' in v:
            v = v[:v.index(b'\0')]
        return v, pos + n
    size = 4 if wire == BITS32 else 8
    if end - pos < size:
        raise Bad('truncated fixed size value')
    v = int.from_bytes(data[pos:pos + size], 'little')
    if t in ('sfixed32', 'sfixed64') and v >> (size * 8 - 1):
        v -= 1 << (size * 8)
    return v, pos + size


def decode(m, data, notes=None, pos=0, end=None, depth=0, into=None):
    """Decode, strictly. Raises Bad if not a valid serialisation."""
    if notes is None:
        notes = Notes()
    notes.depth = max(notes.depth, depth)
    if end is None:
        end = len(data)
    vals = empty(m) if into is None else list(into)
    byno = {f.number: (i, f) for i, f in enumerate(m.all_fields)}
    seen = set()
    fresh = set()
    while pos < end:
        at = pos
        key, pos = read_varint(data, pos, end)
        if key > M32 or pos - at > 5:
            notes.wide_tag = True
        key &= M32
        number, wire = key >> 3, key & 7
        if number == 0:
            raise Bad('field number zero')
        if number not in byno:
            notes.unknown += 1
            if wire == VARINT:
                _, pos = read_varint(data, pos, end)
            elif wire in (BITS32, BITS64):
                pos += 4 if wire == BITS32 else 8
            elif wire == LEN:
                n, pos = read_varint(data, pos, end)
                pos += n
            else:
                raise Bad('bad wire type')
            if pos > end:
                raise Bad('unknown field beyond the end')
            continue
        i, f = byno[number]
        t = tname(f)
        if t == 'message':
            if wire != LEN:
                raise Bad('wrong wire type')
            n, pos = read_varint(data, pos, end)
            if n > end - pos:
                raise Bad('length beyond the end')
            v = decode(submsg(f), data, notes, pos, pos + n, depth + 1)
            pos += n
        elif is_rep(f) and wire == LEN and WIRE[t] != LEN:
            n, pos = read_varint(data, pos, end)
            if n > end - pos:
                raise Bad('length beyond the end')
            stop = pos + n
            v = []
            while pos < stop:
                x, pos = read_scalar(t, WIRE[t], data, pos, stop, notes)
                v.append(x)
            if i not in fresh and not v and vals[i]:
                notes.vague = True              # Nothing in a list with content.
            if i not in fresh and v:
                vals[i] = []
                fresh.add(i)
            vals[i] = vals[i] + v
            continue
        else:
            v, pos = read_scalar(t, wire, data, pos, end, notes)
        if is_rep(f):
            if i not in fresh:
                vals[i] = []
                fresh.add(i)
            vals[i].append(v)
        else:
            if t == 'message' and i in seen:
                notes.vague = True
            seen.add(i)
            vals[i] = v
            if f.label == 'oneof':
                for j, g in enumerate(m.all_fields):
                    if g.label == 'oneof' and g.oneof is f.oneof and j != i:
                        vals[j] = None
    return vals


def normalise(m, data):
    """Records sorted by field number, at all levels. For comparing encodings
    whatever their field order.
    """
    byno = {f.number: f for f in m.all_fields}
    out = []
    pos = 0
    end = len(data)
    while pos < end:
        key, pos = read_varint(data, pos, end)
        number, wire = key >> 3, key & 7
        start = pos
        if wire == VARINT:
            v, pos = read_varint(data, pos, end)
            payload = varint(v)
        elif wire == BITS64 or wire == BITS32:
            pos += 8 if wire == BITS64 else 4
            payload = data[start:pos]
        elif wire == LEN:
            n, pos = read_varint(data, pos, end)
            payload = data[pos:pos + n]
            pos += n
            f = byno.get(number)
            if f is not None and tname(f) == 'message':
                payload = normalise(submsg(f), payload)
            payload = varint(len(payload)) + payload
        else:
            raise Bad('bad wire type %d' % wire)
        if pos > end:
            raise Bad('record beyond the end')
        out.append((number, tag(number, wire) + payload))
    out.sort(key=lambda x: x[0])
    return b''.join(x for _, x in out)


# ------------------------ driver trees (see driver.c) ------------------------

def put_scalar(t, v):
    if t in ('string', 'bytes'):
        return struct.pack('<I', len(v)) + v
    return struct.pack('<Q', v & M64)


def tree(m, vals, only=None, mode=1):
    """Build script. mode 1 allocates, 2 edits in place. only: field indexes
    to set (default: those that are not at their default).
    """
    out = []
    fields = m.all_fields
    for i, (f, v) in enumerate(zip(fields, vals)):
        if only is not None:
            if i not in only:
                continue
        elif v == default(f):
            continue
        out.append(struct.pack('<H', i) + tree_field(f, v, mode))
    return struct.pack('<H', len(out)) + b''.join(out)


def tree_field(f, v, mode=1):
    t = tname(f)
    if is_rep(f):
        if mode == 1 and v is None:
            return struct.pack('<BI', 0, 0)
        head = struct.pack('<BI', mode, len(v))
        if t == 'message':
            return head + b''.join(tree(submsg(f), x, mode=1 if mode == 1 else mode)
                                   for x in v)
        return head + b''.join(put_scalar(t, x) for x in v)
    if t == 'message':
        if v is None:
            return b'\0'
        return bytes([mode]) + tree(submsg(f), v, mode=mode)
    if f.label == 'optional':
        if v is None:
            return b'\0'
        return b'\1' + put_scalar(t, v)
    if f.label == 'oneof':
        if v is None:
            raise HarnessError('oneof member not selected')
        return bytes([mode]) + put_scalar(t, v)
    return put_scalar(t, v)


class DumpReader:

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def take(self, n):
        v = self.data[self.pos:self.pos + n]
        if len(v) != n:
            raise HarnessError('short dump')
        self.pos += n
        return v

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return int.from_bytes(self.take(2), 'little')

    def u32(self):
        return int.from_bytes(self.take(4), 'little')

    def scalar(self, t):
        if t in ('string', 'bytes'):
            return bytes(self.take(self.u32()))
        v = int.from_bytes(self.take(8), 'little')
        if RANGE[t][0] < 0 and v >> 63:
            v -= 1 << 64
        return v

    def message(self, m):
        fields = m.all_fields
        vals = [None if f.label == 'oneof' else default(f) for f in fields]
        for _ in range(self.u16()):
            i = self.u16()
            f = fields[i]
            t = tname(f)
            if is_rep(f):
                self.u8()
                n = self.u32()
                if t == 'message':
                    vals[i] = [self.message(submsg(f)) for _ in range(n)]
                else:
                    vals[i] = [self.scalar(t) for _ in range(n)]
            elif t == 'message':
                vals[i] = self.message(submsg(f)) if self.u8() else None
            elif f.label == 'optional':
                vals[i] = self.scalar(t) if self.u8() else None
            elif f.label == 'oneof':
                self.u8()
                vals[i] = self.scalar(t)
            else:
                vals[i] = self.scalar(t)
        return vals


def parse_dump(m, data):
    r = DumpReader(data)
    vals = r.message(m)
    if r.pos != len(data):
        raise HarnessError('trailing dump bytes')
    return vals


def show(m, vals, depth=0):
    """Readable form, defaults left out."""
    out = []
    for f, v in zip(m.all_fields, vals):
        if v == default(f):
            continue
        t = tname(f)
        if is_rep(f):
            if t == 'message':
                s = '[' + ', '.join(show(submsg(f), x) for x in v[:8]) + (
                    ', ...' if len(v) > 8 else '') + ']'
            else:
                s = '[' + ', '.join(show_scalar(x) for x in v[:8]) + (
                    ', ... %d items' % len(v) if len(v) > 8 else '') + ']'
        elif t == 'message':
            s = show(submsg(f), v)
        else:
            s = show_scalar(v)
        out.append(f'{f.name}: {s}')
    return '{' + ', '.join(out) + '}'


def show_scalar(v):
    if isinstance(v, bytes):
        return repr(v) if len(v) <= 20 else f'<{len(v)} bytes {v[:8]!r}...>'
    return str(v)


# --------------------------- generating values ---------------------------

LENGTHS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126,
           127, 128, 129, 130, 200, 254, 255, 256, 257, 300]
BIG_LENGTHS = [1000, 1023, 1024, 2047, 2048, 4095, 4096, 16382, 16383, 16384, 16385,
               32767, 32768, 65535, 65536, 70000]
HUGE_LENGTHS = [131072, 262144, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1]
FLOAT_BITS = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000,
              0x7fc00000, 0x7f800001, 0xffffffff, 1, 0x80000001, 0x007fffff,
              0x7f7fffff, 0x00800000]
DOUBLE_BITS = [0, 1 << 63, 0x3ff0 << 48, 0xbff0 << 48, 0x7ff0 << 48, 0xfff0 << 48,
               0x7ff8 << 48, (0x7ff0 << 48) + 1, M64, 1, (1 << 63) + 1,
               (1 << 52) - 1, 0x7fefffffffffffff, 1 << 52, 1 << 32, M32,
               0x8000000000000000 >> 32]


class ValueGen:
    """Values biased to boundaries. budget bounds the total size of one value."""

    def __init__(self, src, mined=(), big=False, depth=4, budget=3000, fill=55,
                 huge=False):
        self.src = src
        self.mined = list(mined)
        self.big = big
        self.huge = huge
        self.depth = depth
        self.budget = budget
        self.fill = fill

    def integer(self, t):
        src = self.src
        lo, hi = RANGE[t]
        bits = 64 if hi > M32 or lo < -(1 << 31) else 32
        k = src.weighted([(3, 0), (4, 1), (2, 2), (2, 3), (1 if self.mined else 0, 4)])
        if k == 0:
            v = src.int(0, 3)
        elif k == 1:                            # Around powers of two.
            v = (1 << src.int(0, bits)) + src.int(-2, 1)
        elif k == 2:                            # Varint size boundaries.
            v = (1 << (7 * src.int(1, 9))) + src.int(-1, 1)
        elif k == 3:
            v = src.below(1 << src.int(1, bits))
        else:
            v = src.choice(self.mined) + src.int(-1, 1)
        if lo < 0:
            j = src.below(4)
            if j == 1:
                v = -v
            elif j == 2 and t in ('sint32', 'sint64'):      # Zigzag boundaries.
                v = -(v >> 1) - 1
            elif j == 3:
                v = src.choice([lo, lo + 1, hi, hi - 1, -1, -2])
        if v > hi or v < lo:
            v &= (1 << bits) - 1
            if lo < 0 and v >> (bits - 1):
                v -= 1 << bits
        return v

    def length(self):
        """A length of a string, byte array or list."""
        src = self.src
        k = src.weighted([(6, 0), (3, 1), (1 if self.big else 0, 2),
                          (1 if self.mined else 0, 3), (1 if self.huge else 0, 4)])
        if k == 0:
            n = src.int(0, 6)
        elif k == 1:
            n = src.choice(LENGTHS)
        elif k == 2:
            n = src.choice(BIG_LENGTHS) + src.int(-3, 3)
        elif k == 3:
            n = src.choice(self.mined) + src.int(-1, 1)
            if not 0 <= n <= 80000:
                n = src.int(0, 6)
        else:
            n = src.choice(HUGE_LENGTHS) + src.int(-3, 3)
        if n > self.budget:
            n = src.int(0, min(max(self.budget, 0), 6))
        self.budget -= n
        return n

    def blob(self, n, nul):
        src = self.src
        k = src.below(4)
        if n <= 8:
            data = src.data(n)
        elif k == 0:
            data = bytes([src.below(256)]) * n
        else:
            piece = src.data(min(n, 1 + src.below(12)))
            data = (piece * (n // len(piece) + 1))[:n]
        if not nul:
            data = data.replace(b'\0', b'a')
        return data

    def scalar(self, t):
        src = self.src
        if t == 'bool':
            return src.below(2)
        if t == 'float':
            if src.bool(60):
                return src.choice(FLOAT_BITS)
            return src.below(1 << 32)
        if t == 'double':
            if src.bool(60):
                return src.choice(DOUBLE_BITS)
            return src.below(1 << 64)
        if t in ('string', 'bytes'):
            return self.blob(self.length(), t == 'bytes')
        return self.integer(t)

    def one(self, f):
        t = tname(f)
        if t == 'message':
            return self.message(submsg(f))
        if t == 'enum' and self.src.bool(60):
            return self.src.choice(f.type.values)[1]
        return self.scalar(t)

    def field(self, f):
        src = self.src
        t = tname(f)
        if is_rep(f):
            n = self.length()
            if t == 'message':
                if self.depth <= 0:
                    return []
                n = min(n, 300) if self.depth > 2 else min(n, 8)
                if n > 12 and not self.big and src.bool(80):
                    n = src.int(0, 6)
                # Long lists of small items.
                if n > 6:
                    fill, self.fill = self.fill, 8
                    out = [self.one(f) for _ in range(n)]
                    self.fill = fill
                    return out
                return [self.one(f) for _ in range(n)]
            if t in ('string', 'bytes'):
                n = min(n, 400)
                if n > 20:
                    cap, self.budget = self.budget, 200
                    out = [self.one(f) for _ in range(n)]
                    self.budget = cap
                    return out
                return [self.one(f) for _ in range(n)]
            if n > 24:                          # Few draws for long lists.
                pattern = [self.one(f) for _ in range(src.int(1, 6))]
                return (pattern * (n // len(pattern) + 1))[:n]
            return [self.one(f) for _ in range(n)]
        if t == 'message' and self.depth <= 0:
            return None
        if f.label == 'oneof':
            return self.one(f)
        return self.one(f)

    def message(self, m):
        src = self.src
        self.depth -= 1
        self.budget -= 4
        vals = empty(m)
        groups = {}
        for i, f in enumerate(m.all_fields):
            if f.label == 'oneof':
                groups.setdefault(id(f.oneof), []).append(i)
            elif src.bool(self.fill) and self.budget > 0:
                vals[i] = self.field(f)
        for idxs in groups.values():
            if src.bool(max(self.fill, 40)) and self.budget > 0:
                i = src.choice(idxs)
                vals[i] = self.field(m.all_fields[i])
        self.depth += 1
        return vals


def memory(m, vals, sizes, top=True):
    """Upper bound of the workspace bytes for building or decoding vals."""
    n = 64 + sizes[m.full] if top else 0
    for f, v in zip(m.all_fields, vals):
        if v is None:
            continue
        t = tname(f)
        if is_rep(f):
            if t == 'message':
                sub = submsg(f)
                n += 8 + sizes[sub.full] * len(v)
                n += sum(memory(sub, x, sizes, False) for x in v)
            elif t in ('string', 'bytes'):
                n += 8 + 16 * len(v) + sum(len(x) + 1 for x in v)
            else:
                n += 8 + 8 * len(v)
        elif t == 'message':
            n += 8 + sizes[submsg(f).full] + memory(submsg(f), v, sizes, False)
        elif t in ('string', 'bytes'):
            n += len(v) + 1
    return n


# ----------------------- alternative serialisations -----------------------

class AltGen:
    """Serialise a value in a random valid way."""

    def __init__(self, src, mined=(), unknown=0, reorder=True, redundant=True,
                 overlong=True, split=True):
        self.src = src
        self.mined = mined
        self.unknown = unknown                  # Percent per gap.
        self.reorder = reorder
        self.redundant = redundant
        self.overlong = overlong
        self.split = split
        self.stats = {'overlong': 0, 'unpacked': 0, 'mixed': 0, 'redundant': 0,
                      'unknown': 0, 'explicit_default': 0, 'reordered': 0, 'wide': 0}

    def vint(self, v, limit=10):
        n = len(varint(v))
        if self.overlong and self.src.bool(12) and n < limit:
            self.stats['overlong'] += 1
            return varint(v, self.src.int(n + 1, limit))
        return varint(v)

    def tag(self, number, wire):
        return self.vint(number << 3 | wire, 5)

    def payload(self, t, v):
        src = self.src
        if WIRE[t] != VARINT:
            return scalar_payload(t, v)
        if t in ('sint32', 'sint64'):
            return self.vint(zigzag(v))
        if self.overlong and src.bool(8):
            if t in ('int32', 'uint32', 'enum'):
                self.stats['wide'] += 1
                return self.vint((src.below(1 << 32) << 32) | (v & M32))
            if t == 'bool' and v:
                self.stats['wide'] += 1
                w = src.choice([2, 127, 128, 1 << 31, 1 << 32, 1 << 63, M64, M64 << 32])
                return self.vint(w & M64)
        return self.vint(v & M64)

    def rec(self, number, wire, payload):
        out = self.tag(number, wire)
        if wire == LEN:
            out += self.vint(len(payload), 5)
        return out + payload

    def scalar_rec(self, f, v):
        t = tname(f)
        return self.rec(f.number, WIRE[t], self.payload(t, v))

    def junk(self, f):
        """Some other value of the field."""
        t = tname(f)
        g = ValueGen(self.src, self.mined, budget=40, depth=1, fill=30)
        if t == 'message':
            return self.rec(f.number, LEN, self.message(submsg(f), g.message(submsg(f))))
        return self.scalar_rec(f, g.one(f))

    def field(self, f, v):
        """Records of one field, in order."""
        src = self.src
        t = tname(f)
        n = f.number
        if is_rep(f):
            if t == 'message':
                return [self.rec(n, LEN, self.message(submsg(f), x)) for x in v]
            if t in ('string', 'bytes'):
                return [self.rec(n, LEN, x) for x in v]
            how = src.below(4) if self.split else 0
            if how == 0:
                return [self.rec(n, LEN, b''.join(self.payload(t, x) for x in v))] \
                    if v or (self.split and src.bool(20)) else []
            out = []
            i = 0
            while i < len(v):
                if how == 1 or (how == 2 and src.bool()):
                    self.stats['unpacked'] += 1
                    out.append(self.rec(n, WIRE[t], self.payload(t, v[i])))
                    i += 1
                else:
                    k = src.int(0, 5)
                    self.stats['mixed'] += 1
                    out.append(self.rec(n, LEN, b''.join(
                        self.payload(t, x) for x in v[i:i + k])))
                    i += k
                if len(out) > 60:
                    out.append(self.rec(n, LEN, b''.join(
                        self.payload(t, x) for x in v[i:])))
                    break
            return out
        out = []
        if t == 'message':
            if v is None:
                return []
            return [self.rec(n, LEN, self.message(submsg(f), v))]
        if v is None:
            return []
        if self.redundant and src.bool(15):
            for _ in range(src.int(1, 2)):
                self.stats['redundant'] += 1
                out.append(self.junk(f))
        if f.label == 'plain' and v == default(f) and not out:
            if not (self.redundant and src.bool(15)):
                return []
            self.stats['explicit_default'] += 1
        out.append(self.scalar_rec(f, v))
        return out

    def unknown_rec(self, m):
        src = self.src
        known = {f.number for f in m.all_fields}
        while True:
            k = src.below(4)
            if k == 0:
                n = src.int(1, 20)
            elif k == 1:                        # Neighbours of known numbers.
                n = src.choice(sorted(known) or [1]) + src.choice([-1, 1, 8, -8, 16,
                                                                   128, 256, 1 << 16,
                                                                   1 << 24])
            elif k == 2:
                n = 1 << src.int(0, 28)
            else:
                n = src.int(1, (1 << 29) - 1)
            if 1 <= n < (1 << 29) and n not in known:
                break
            n = 1
            while n in known:
                n += 1
            break
        self.stats['unknown'] += 1
        wire = src.choice([VARINT, BITS64, LEN, BITS32])
        if wire == VARINT:
            return self.tag(n, wire) + self.vint(src.below(1 << src.int(1, 64)))
        if wire == BITS64:
            return self.tag(n, wire) + src.data(8)
        if wire == BITS32:
            return self.tag(n, wire) + src.data(4)
        size = src.weighted([(6, src.int(0, 12)), (2, src.choice(LENGTHS)),
                             (1, src.choice([1000, 16383, 16384, 20000]))])
        body = src.data(min(size, 16))
        if size > 16:
            body = (body * (size // 16 + 1))[:size]
        return self.rec(n, LEN, body)

    def message(self, m, vals):
        src = self.src
        groups = []
        oneofs = {}
        for f, v in zip(m.all_fields, vals):
            if f.label == 'oneof':
                oneofs.setdefault(id(f.oneof), []).append((f, v))
            else:
                recs = self.field(f, v)
                if recs:
                    groups.append(recs)
        for members in oneofs.values():
            chosen = [(f, v) for f, v in members if v is not None]
            if not chosen:
                continue
            f, v = chosen[0]
            recs = []
            if self.redundant and src.bool(30):
                others = [g for g, _ in members
                          if g is not f or tname(g) != 'message']
                for _ in range(src.int(1, 3)):
                    if others:
                        self.stats['redundant'] += 1
                        recs.append(self.junk(src.choice(others)))
            if tname(f) == 'message':
                recs.append(self.rec(f.number, LEN, self.message(submsg(f), v)))
            else:
                recs.append(self.scalar_rec(f, v))
            groups.append(recs)
        if self.unknown:
            for _ in range(3):
                if src.bool(self.unknown):
                    groups.append([self.unknown_rec(m)
                                   for _ in range(src.int(1, 3))])
        out = []
        if self.reorder and len(groups) > 1 and src.bool(85):
            self.stats['reordered'] += 1
            groups = [list(g) for g in groups]
            total = sum(len(g) for g in groups)
            if total > 80:
                groups = src.shuffled(groups)
                out = [r for g in groups for r in g]
            else:
                while groups:
                    g = src.below(len(groups))
                    out.append(groups[g].pop(0))
                    if not groups[g]:
                        groups.pop(g)
        else:
            out = [r for g in groups for r in g]
        return b''.join(out)


# ------------------------------- extras -------------------------------

def chain(gen, m, length):
    """A value nested length levels deep through recursive messages, or None."""
    src = gen.src

    def back(a, depth):
        """Fields of a that lead to a message that can go on."""
        return [i for i, f in enumerate(a.all_fields)
                if tname(f) == 'message' and any(
                    tname(g) == 'message' for g in submsg(f).all_fields)]

    path = []
    at = m
    for _ in range(length):
        ways = back(at, 0)
        if not ways:
            break
        i = src.choice(ways)
        path.append((at, i))
        at = submsg(at.all_fields[i])
    if len(path) < 3:
        return None
    depth, gen.depth = gen.depth, 1
    gen.fill = 8 if len(path) < 200 else 1
    v = gen.message(at)
    for a, i in reversed(path):
        outer = gen.message(a)
        f = a.all_fields[i]
        if f.label == 'oneof':
            for j, g in enumerate(a.all_fields):
                if g.label == 'oneof' and g.oneof is f.oneof:
                    outer[j] = None
        outer[i] = [v] if is_rep(f) else v
        v = outer
    gen.depth = depth
    return v


def decode_memory(m, data, sizes, depth=0):
    """Upper bound of the workspace for decoding any bytes into m."""
    n = (80 + sizes[m.full]) if depth == 0 else 0
    byno = {f.number: f for f in m.all_fields}
    pos, end = 0, len(data)
    while pos < end:
        try:
            key, pos = read_varint(data, pos, end)
            number, wire = (key & M32) >> 3, key & 7
            f = byno.get(number)
            start = pos
            if wire == VARINT:
                _, pos = read_varint(data, pos, end)
                size = 10
            elif wire == LEN:
                size, pos = read_varint(data, pos, end)
                start = pos
                pos = min(pos + size, end)
                size = pos - start
            elif wire in (BITS64, BITS32):
                pos += 8 if wire == BITS64 else 4
                size = 8
            else:
                break
        except Bad:
            break
        if f is None:
            continue
        n += 32
        t = tname(f)
        if t == 'message' and wire == LEN:
            sub = submsg(f)
            n += sizes[sub.full] + 16
            n += decode_memory(sub, data[start:pos], sizes, depth + 1)
        elif is_rep(f) and WIRE[t] != LEN:
            n += 8 * size + 16
        else:
            n += size + 40
    return n


# Bytes of an element of a repeated field in its documented C type.
ITEM = {'bool': 1, 'int32': 4, 'sint32': 4, 'uint32': 4, 'enum': 4, 'fixed32': 4,
        'sfixed32': 4, 'float': 4, 'int64': 8, 'sint64': 8, 'uint64': 8, 'fixed64': 8,
        'sfixed64': 8, 'double': 8, 'string': 8, 'bytes': 16}
# For alignment, and whatever else an allocated part needs.
PART = 8
BASE = 64


def build_need(m, vals, sizes):
    """Workspace that suffices for the parts of a message that is built."""
    n = 0
    for f, v in zip(m.all_fields, vals):
        t = tname(f)
        if v is None:
            continue
        if t == 'message':
            for x in v if is_rep(f) else [v]:
                n += sizes[submsg(f).full] + PART + build_need(submsg(f), x, sizes)
            n += PART
        elif is_rep(f):
            n += PART + ITEM[t] * len(v)
    return n


def decode_need(m, data, sizes):
    """Workspace that suffices for the parts of a message decoded from valid data."""
    n = 0
    byno = {f.number: f for f in m.all_fields}
    lists = set()
    pos, end = 0, len(data)
    while pos < end:
        key, pos = read_varint(data, pos, end)
        f, wire = byno.get((key & M32) >> 3), key & 7
        start = pos
        if wire == VARINT:
            _, pos = read_varint(data, pos, end)
        elif wire == LEN:
            size, start = read_varint(data, pos, end)
            pos = start + size
        else:
            pos += 8 if wire == BITS64 else 4
        if f is None:
            continue
        t = tname(f)
        if is_rep(f) and f.number not in lists:
            lists.add(f.number)
            n += PART
        if t == 'message':
            n += sizes[submsg(f).full] + PART
            n += decode_need(submsg(f), data[start:pos], sizes)
        elif t in ('string', 'bytes'):
            n += pos - start + PART + (ITEM[t] if is_rep(f) else 0)
        elif is_rep(f):
            count = 1
            if wire == LEN:
                if WIRE[t] == VARINT:
                    count = sum(b < 0x80 for b in data[start:pos])
                else:
                    count = (pos - start) // (8 if WIRE[t] == BITS64 else 4)
            n += ITEM[t] * count
    return n


def inject_big(gen, m, vals):
    """Give one list, string or byte array of the message a big length."""
    src = gen.src
    ways = []
    for i, f in enumerate(m.all_fields):
        t = tname(f)
        if f.label == 'oneof' and vals[i] is None:
            continue
        if is_rep(f) or t in ('string', 'bytes'):
            ways.append(i)
        elif t == 'message' and vals[i] is not None:
            ways += [i, i]
    if not ways:
        return
    i = src.choice(ways)
    f = m.all_fields[i]
    t = tname(f)
    n = src.choice(BIG_LENGTHS) + src.int(-3, 3)
    gen.budget = 100
    if is_rep(f):
        if t == 'message':
            if vals[i] and src.bool(70):
                inject_big(gen, submsg(f), src.choice(vals[i]))
                return
            n = min(n, src.choice([300, 1000, 3000]))
            depth, gen.depth = gen.depth, 1
            pattern = [gen.one(f) for _ in range(src.int(1, 3))]
            gen.depth = depth
        else:
            if t in ('string', 'bytes'):
                n = min(n, src.choice([600, 5000]))
            elif src.bool(75):
                n = min(n, src.choice([4099, 8195, 16387]))
            pattern = [gen.one(f) for _ in range(src.int(1, 4))]
        vals[i] = (pattern * (n // len(pattern) + 1))[:n]
    elif t == 'message':
        inject_big(gen, submsg(f), vals[i])
    else:
        vals[i] = gen.blob(n, t == 'bytes')


def inject_huge(gen, m, vals):
    """A string or byte array whose length takes four bytes, or nearly."""
    src = gen.src
    ways = [i for i, f in enumerate(m.all_fields)
            if tname(f) in ('string', 'bytes', 'message')
            and not (f.label == 'oneof' and vals[i] is None)]
    if not ways:
        return
    i = src.choice(ways)
    f = m.all_fields[i]
    t = tname(f)
    n = src.choice(HUGE_LENGTHS) + src.int(-12, 3)
    if t == 'message':
        gen.budget = 50
        sub = gen.message(submsg(f))
        inject_huge(gen, submsg(f), sub)
        vals[i] = [sub] if is_rep(f) else sub
        return
    v = gen.blob(n, t == 'bytes')
    vals[i] = [b'a', v, b''] if is_rep(f) else v
