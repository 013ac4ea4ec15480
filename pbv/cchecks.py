"""Checks that run generated C code: C01-C11, C19, C20."""
import os
import struct
import subprocess

from . import cbuild, model, schema
from .cbuild import Program, Script
from .pbt import HarnessError, Src, Violation
from .runner import Case, Check

FILLS = [0xee, 0x00, 0xa5, 0xff]


def make_files(src, job, mined=()):
    """The schema of a job."""
    kind = job['schema']
    floats = job.get('floats', True)
    if kind.startswith('matrix'):
        return schema.matrix(int(kind[6:]), floats)
    cfg = dict(numbers=[x for x in mined if 0 < x < (1 << 29)], floats=floats,
               files=src.weighted([(5, 1), (3, 2), (2, 3)]), subdirs=src.bool(20),
               wide=True)
    if kind == 'small':
        cfg.update(files=1, messages=(1, 3), fields=(1, 5))
    if kind == 'maps':
        return schema.map_twins(src, cfg['numbers'])
    return schema.generate(src, schema.Cfg(**cfg))


def hexs(data, limit=200):
    text = data.hex()
    return text if len(text) <= 2 * limit else f'{text[:2 * limit]}... ({len(data)} bytes)'


def rounded(n):
    return (n + 7) & ~7


class CCheck(Check):
    configs = ('asan',)
    schemas = [('matrix0', 1), ('matrix1', 1), ('matrix2', 1), ('random', 40)]
    cases = 250
    factor = 12                         # Thorough: this many times the jobs.
    upper = False
    huge = 0                            # Jobs with lengths past 2 ** 21.

    def jobs(self, tier):
        k = 1 if tier == 'quick' else self.factor
        out = []
        for kind, count in self.schemas:
            matrix = kind.startswith('matrix')
            for i in range(count * k * (2 if matrix else 1)):
                out.append({'schema': kind, 'n': self.cases * (2 if matrix else 1)})
        for i in range(self.huge * k):
            out.insert(0, {'schema': f'matrix{i % 3}', 'n': 6, 'huge': True})
        return out

    def prepare(self, env, src):
        env.files = make_files(src, env.job, env.mined)
        env.program = Program(env.lib, env.tmp, env.files, schema.render, self.configs,
                              self.upper)
        env.server = env.program.server(self.configs[0])
        env.servers.append(env.server)
        env.tops = [m for m in env.program.tops]

    def describe(self, env):
        return {'proto': {f.path: schema.render(f) for f in getattr(env, 'files', [])}}

    # -- drawing --

    def pick(self, env, src):
        """A top level message, mostly one with content."""
        tops = env.tops
        if not tops:
            return None
        for _ in range(3):
            m = src.choice(tops)
            if m.all_fields:
                break
        return m

    def valuegen(self, env, src, **kw):
        k = src.weighted([(12, 'normal'), (6, 'sparse'), (4, 'dense'), (2, 'deep'),
                          (3, 'big')])
        opts = dict(budget=1500, fill=45, depth=4)
        if k == 'sparse':
            opts.update(fill=12)
        elif k == 'dense':
            opts.update(fill=92, budget=2500)
        elif k == 'deep':
            opts.update(fill=25, depth=12, budget=800)
        elif k == 'big':
            opts.update(big=True, fill=15, budget=90000, depth=3)
        opts.update(kw)
        return model.ValueGen(src, env.mined, **opts)

    def value(self, env, src, m, **kw):
        if env.job.get('huge'):
            g = self.valuegen(env, src, fill=20, budget=200)
            v = g.message(m)
            model.inject_huge(g, m, v)
            return v
        if src.bool(6):
            length = src.weighted([(12, src.int(5, 60)), (3, src.int(60, 260)),
                                   (1, src.int(260, 1200))])
            v = model.chain(self.valuegen(env, src, budget=200), m, length)
            if v is not None:
                return v
        g = self.valuegen(env, src, **kw)
        v = g.message(m)
        if g.big and not kw:
            model.inject_big(g, m, v)
        return v

    def room(self, env, m, *vals):
        """A workspace size that is surely enough for the values."""
        sizes = env.server.sizes(env.program)
        return sum(model.memory(m, v, sizes) for v in vals) + 64

    def place(self, src):
        """Misalignment and fill of a workspace."""
        return {'mis': src.weighted([(3, 0), (1, src.below(16))]),
                'fill': src.choice(FILLS)}


def classes_of(m, vals, encoded):
    out = []
    n = len(encoded)
    out.append('size:' + ('0' if n == 0 else '1-127' if n < 128 else '128-16383'
                          if n < 16384 else '16384+'))
    for f, v in zip(m.all_fields, vals):
        if v != model.default(f):
            out.append(f'{f.label}:{model.tname(f)}')
    return sorted(set(out))


def nontrivial(m, vals):
    """At least two fields set, or one with inner structure."""
    count = 0
    for f, v in zip(m.all_fields, vals):
        if v != model.default(f):
            count += 1
            if isinstance(v, list) and v:
                count += 1
    return count >= 2


INT_MAX = (1 << 31) - 1


def giant_size(src, n):
    """A size around or above what an int holds, or wrapping to about n."""
    k = src.below(4)
    if k == 0:
        return INT_MAX + src.int(-1, 2)
    if k == 1:
        return (src.choice([1, 2]) << 32) + src.int(-1, 1)
    if k == 2:
        return (src.choice([1, 2]) << 32) + max(0, n + src.int(-1, 2))
    return src.int(INT_MAX - 100, 6 << 30)


def check_encoding(m, vals, data, where='encode()'):
    """The bytes are the canonical serialisation of exactly vals."""
    notes = model.Notes()
    want = model.encode(m, vals)
    try:
        back = model.decode(m, data, notes)
        norm = model.normalise(m, data)
    except model.Bad as e:
        raise Violation(f'{where} gives bytes that are no valid serialisation ({e})',
                        message=m.full, value=model.show(m, vals), encoded=hexs(data),
                        reference=hexs(want))
    if back != vals:
        raise Violation(f'{where} gives bytes of another message', message=m.full,
                        value=model.show(m, vals), encoded=hexs(data),
                        means=model.show(m, back), reference=hexs(want))
    if norm != model.normalise(m, want):
        raise Violation(f'{where} gives a serialisation that is not canonical',
                        message=m.full, value=model.show(m, vals), encoded=hexs(data),
                        reference=hexs(want))


def expect_content(m, got, want, what, **detail):
    got = model.parse_dump(m, got)
    if got != want:
        raise Violation(what, message=m.full, expected=model.show(m, want),
                        got=model.show(m, got), **detail)


class C01(CCheck):
    id = 'C01'
    huge = 2
    rule = ('A case builds a random message of a generated (or every-type matrix) schema '
            'through the generated API, encodes, decodes into a fresh workspace, compares '
            'the content field by field with the model and encodes again. Values are '
            'biased to zero, limits, powers of two, varint and length boundaries and '
            'constants of the source. Non-trivial: at least two fields set or one '
            'non-empty list or sub-message; distinct by schema, message and encoding.')
    cases = 400

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        vals = self.value(env, src, m)
        want = model.encode(m, vals)
        room = self.room(env, m, vals)
        slack = src.weighted([(2, 0), (1, 1), (2, src.int(0, 300))])
        i = env.program.mindex(m)
        s = Script()
        s.new(0, i, room, **self.place(src)).build(0, model.tree(m, vals))
        s.encode(0, len(want) + slack, src.below(4))
        ok, built, (res, enc) = s.run(env.server)
        detail = dict(value=model.show(m, vals))
        if not ok or built != 0:
            raise Violation('a message cannot be built in a large workspace',
                            message=m.full, new=ok, build=built, **detail)
        if res < 0:
            raise Violation(f'encode() fails with {res} for a large enough buffer',
                            message=m.full, needed=len(want), buffer=len(want) + slack,
                            **detail)
        s = Script()
        s.new(1, i, room, **self.place(src)).decode(1, enc, src.below(4)).dump(1)
        s.encode(1, len(enc) + slack).free(0).free(1)
        ok, (dres, modified), dump, (res2, enc2) = s.run(env.server)
        if dres != len(enc):
            raise Violation(f'decode() of an encoded message returns {dres}, not '
                            f'{len(enc)}', message=m.full, encoded=hexs(enc), **detail)
        expect_content(m, dump, vals, 'the decoded message differs from the encoded one',
                       encoded=hexs(enc))
        if enc2 != enc or res2 != res:
            raise Violation('encoding the decoded message gives other bytes',
                            message=m.full, first=hexs(enc), second=hexs(enc2), **detail)
        return Case((env.job['index'], m.full, enc), nontrivial(m, vals),
                    classes_of(m, vals, enc),
                    lambda: f'{m.full} {model.show(m, vals)} -> {hexs(enc, 60)}')


class C02(CCheck):
    id = 'C02'
    huge = 2
    rule = ('A case encodes a random message and compares the bytes with a reference '
            'encoder and a strict reference decoder written from the proto3 '
            'specification (field order left free). Non-trivial as in C01.')
    cases = 500

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        vals = self.value(env, src, m)
        want = model.encode(m, vals)
        i = env.program.mindex(m)
        s = Script().new(0, i, self.room(env, m, vals), **self.place(src))
        s.build(0, model.tree(m, vals)).encode(0, len(want) * 2 + 64).free(0)
        ok, built, (res, enc) = s.run(env.server)
        if not ok or built != 0 or res < 0:
            raise Violation('building or encoding fails with ample room',
                            message=m.full, new=ok, build=built, encode=res,
                            value=model.show(m, vals))
        check_encoding(m, vals, enc)
        if res != len(want):
            raise Violation(f'encode() returns {res} for a message of {len(want)} bytes',
                            message=m.full, value=model.show(m, vals))
        return Case((env.job['index'], m.full, enc), nontrivial(m, vals),
                    classes_of(m, vals, enc),
                    lambda: f'{m.full} {model.show(m, vals)} -> {hexs(enc, 60)}')


class C03(CCheck):
    id = 'C03'
    huge = 1
    rule = ('A case serialises a random message in a random valid way (fields shuffled '
            'and interleaved, packed, unpacked and split lists, padded varints, explicit '
            'defaults, superseded scalars and oneof members, over-wide integers), checks '
            'it with the reference decoder and decodes it. A quarter of the cases mutate '
            'bytes freely and keep what the reference decoder accepts. Non-trivial: the '
            'bytes differ from the canonical serialisation.')
    cases = 600
    unknown = 0

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        vals = self.value(env, src, m)
        mutated = src.bool(25)
        # Superseded values are not seen by memory(); give room for them.
        alt = model.AltGen(src, env.mined, unknown=self.unknown)
        data = alt.message(m, vals)
        if mutated:
            data = mutate(src, data)
        notes = model.Notes()
        try:
            want = model.decode(m, data, notes)
        except model.Bad as e:
            if mutated:
                return Case(b'', False, ['mutant:invalid'])
            raise HarnessError(f'invalid serialisation generated: {e}')
        if notes.wide_tag or notes.vague:
            return Case(b'', False, ['unspecified'])
        if not mutated and want != vals:
            raise HarnessError('serialisation of another message generated')
        i = env.program.mindex(m)
        sizes = env.server.sizes(env.program)
        room = model.decode_memory(m, data, sizes)
        s = Script().new(0, i, room, **self.place(src)).decode(0, data, src.below(4))
        s.dump(0).free(0)
        ok, (res, modified), dump = s.run(env.server)
        if res != len(data):
            raise Violation(f'decode() returns {res} for a valid serialisation of '
                            f'{len(data)} bytes', message=m.full, encoded=hexs(data),
                            meaning=model.show(m, want))
        expect_content(m, dump, want, 'a valid serialisation decodes to other content',
                       encoded=hexs(data))
        classes = [k for k, v in alt.stats.items() if v]
        if mutated:
            classes.append('mutant:valid')
        if notes.depth > 2:
            classes.append('depth>2')
        return Case((env.job['index'], m.full, data), data != model.encode(m, want),
                    classes, lambda: f'{m.full} {hexs(data, 60)} = {model.show(m, want)}')


MUTATION_BYTES = [0, 1, 0x7f, 0x80, 0xff, 0x08, 0x0a, 0x0d, 0x09, 0x0b, 0x0c]


def mutate(src, data):
    """A few random byte level edits."""
    data = bytearray(data)
    for _ in range(src.weighted([(5, 1), (3, 2), (1, 5)])):
        k = src.below(7)
        n = len(data)
        at = src.below(n + 1)
        if k == 0 and n:
            data[at % n] ^= 1 << src.below(8)
        elif k == 1 and n:
            data[at % n] = src.choice(MUTATION_BYTES)
        elif k == 2 and n:
            data[at % n] = src.below(256)
        elif k == 3:
            del data[at:at + src.int(1, 4)]
        elif k == 4:
            data[at:at] = src.data(src.int(1, 4))
        elif k == 5 and n:
            b = src.below(n)
            data[at:at] = data[b:b + src.int(1, 8)]
        else:
            del data[at:]
    return bytes(data)


class C04(CCheck):
    id = 'C04'
    rule = ('Half of the cases insert random unknown records (all wire types, any number, '
            'any depth) into a valid serialisation and compare with the content without '
            'them. The others encode with a newer or older version of the schema (fields '
            'removed at random, in its own program) and decode with the other one, against '
            'the projection of the message. Non-trivial: at least one unknown record or a '
            'removed field that was set.')
    schemas = [('matrix0', 1), ('matrix1', 1), ('random', 34)]
    cases = 350

    def prepare(self, env, src):
        super().prepare(env, src)
        env.old = None
        if env.job['schema'] == 'random' and env.job['index'] % 2:
            env.old, env.keep = schema.older(src, env.files)
            root = os.path.join(env.tmp, 'old')
            os.makedirs(root)
            env.old_program = Program(env.lib, root, env.old, schema.render,
                                      self.configs)
            env.old_server = env.old_program.server('asan')
            env.servers.append(env.old_server)

    def describe(self, env):
        out = super().describe(env)
        if env.old:
            out['older proto'] = {f.path: schema.render(f) for f in env.old}
        return out

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        if env.old is not None and src.bool(60):
            return self.versions(env, src, m)
        vals = self.value(env, src, m)
        alt = model.AltGen(src, env.mined, unknown=src.choice([15, 40, 80]),
                           reorder=src.bool(), redundant=False, split=src.bool(),
                           overlong=src.bool(30))
        data = alt.message(m, vals)
        notes = model.Notes()
        want = model.decode(m, data, notes)
        if want != vals or notes.vague or notes.wide_tag:
            raise HarnessError('bad serialisation generated')
        room = model.decode_memory(m, data, env.server.sizes(env.program))
        s = Script().new(0, env.program.mindex(m), room, **self.place(src))
        s.decode(0, data, src.below(4)).dump(0).free(0)
        ok, (res, modified), dump = s.run(env.server)
        if res != len(data):
            raise Violation(f'decode() returns {res} for valid data with unknown fields '
                            f'({len(data)} bytes)', message=m.full, encoded=hexs(data),
                            meaning=model.show(m, want))
        expect_content(m, dump, want, 'unknown fields change the content',
                       encoded=hexs(data))
        return Case((env.job['index'], m.full, data), notes.unknown > 0,
                    ['unknown records:' + str(min(notes.unknown, 8)),
                     'depth:' + str(min(notes.depth, 6))],
                    lambda: f'{m.full} {hexs(data, 60)} = {model.show(m, want)}')

    def versions(self, env, src, new):
        """Newer writer and older reader, or the other way round."""
        old = env.keep[id(new)]
        forward = src.bool()
        w, r = (new, old) if forward else (old, new)
        wp, rp = ((env.program, env.old_program) if forward
                  else (env.old_program, env.program))
        ws, rs = ((env.server, env.old_server) if forward
                  else (env.old_server, env.server))
        vals = self.value(env, src, w)
        want = project(w, r, vals)
        data = model.encode(w, vals)
        sizes = ws.sizes(wp)
        s = Script().new(0, wp.mindex(w), model.memory(w, vals, sizes) + 64)
        s.build(0, model.tree(w, vals)).encode(0, len(data)).free(0)
        ok, built, (res, enc) = s.run(ws)
        if not ok or built or res != len(data):
            raise Violation('building or encoding fails with ample room',
                            message=w.full, value=model.show(w, vals), result=res)
        room = model.decode_memory(r, enc, rs.sizes(rp))
        s = Script().new(0, rp.mindex(r), room, **self.place(src))
        s.decode(0, enc).dump(0).free(0)
        ok, (res, modified), dump = s.run(rs)
        what = 'newer' if forward else 'older'
        if res != len(enc):
            raise Violation(f'decode() returns {res} for data of a {what} schema version '
                            f'({len(enc)} bytes)', message=r.full, encoded=hexs(enc),
                            written=model.show(w, vals))
        expect_content(r, dump, want, f'data of a {what} schema version decodes wrongly',
                       encoded=hexs(enc), written=model.show(w, vals))
        lost = model.encode(r, want) != data
        return Case((env.job['index'], w.full, enc), lost,
                    [f'written by {what} schema'],
                    lambda: f'{what} {w.full} {model.show(w, vals)} read as '
                            f'{model.show(r, want)}')


def project(a, b, vals):
    """What a reader with message b makes of vals of message a."""
    out = model.empty(b)
    src = {f.number: (f, v) for f, v in zip(a.all_fields, vals)}
    for i, f in enumerate(b.all_fields):
        if f.number not in src:
            continue
        g, v = src[f.number]
        if v is None:
            continue
        if model.tname(f) == 'message':
            sa, sb = model.submsg(g), model.submsg(f)
            v = ([project(sa, sb, x) for x in v] if model.is_rep(f)
                 else project(sa, sb, v))
        out[i] = v
    return out


class C05(CCheck):
    id = 'C05'
    rule = ('A case damages a valid serialisation: cut at any point, padded varints past '
            'ten bytes, lengths beyond the enclosing message, broken packed runs, field '
            'number zero, reserved and group wire types, wrong wire types of known '
            'fields, at a random depth with the outer lengths repaired, and free byte '
            'mutations. Where the strict reference decoder rejects the bytes, decode() has '
            'to return a documented error, and the one that names the defect where the damage '
            'is a single defect; where it accepts, decode() may not fail '
            'otherwise than documented. Error strings are checked for random and all small '
            'codes. Non-trivial: the reference rejects the bytes.')
    cases = 700

    def case(self, env, src):
        if src.bool(2):
            return self.strings(env, src)
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        if src.bool(1):
            return self.giant(env, src, m)
        vals = self.value(env, src, m, budget=400)
        alt = model.AltGen(src, env.mined, unknown=src.choice([0, 15]),
                           reorder=src.bool(), redundant=False, split=src.bool(),
                           overlong=src.bool(20))
        data = alt.message(m, vals)
        how = src.weighted([(8, 'damage'), (2, 'cut'), (2, 'mutate')])
        if how == 'damage':
            data, what = damage(src, m, data)
        elif how == 'cut':
            data, what = data[:src.below(len(data) + 1)], 'cut'
        else:
            data, what = mutate(src, data), 'mutate'
        notes = model.Notes()
        try:
            want, why = model.decode(m, data, notes), None
        except model.Bad as e:
            want, why = None, str(e)
        if notes.wide_tag:
            return Case(b'', False, ['unspecified'])
        # One defect at a known place has to be reported as what it is.
        named = why is not None and what.split()[-1] in ONE_DEFECT
        room = model.decode_memory(m, data, env.server.sizes(env.program))
        if named:
            room = room * 4 + 65536
        s = Script().new(0, env.program.mindex(m), room, **self.place(src))
        s.decode(0, data, src.below(4)).free(0)
        ok, (res, modified) = s.run(env.server)
        if why is not None and res >= 0:
            raise Violation(f'decode() accepts invalid bytes ({why})', message=m.full,
                            encoded=hexs(data), returned=res, damage=what)
        if named and res not in code_of(why):
            raise Violation(f'decode() returns {res} for a {why}', message=m.full,
                            encoded=hexs(data), damage=what)
        if res < -8 or (res < 0 and why is None and not notes.vague):
            raise Violation(f'decode() returns {res} for '
                            + ('valid' if why is None else 'invalid') + ' bytes',
                            message=m.full, encoded=hexs(data), reason=why)
        if res >= 0 and res != len(data):
            raise Violation(f'decode() returns {res} for {len(data)} bytes',
                            message=m.full, encoded=hexs(data))
        return Case((env.job['index'], m.full, data), why is not None,
                    [what + (': rejected' if why else ': still valid')]
                    + ([why] if why else []),
                    lambda: f'{m.full} {hexs(data, 60)}: {why}')

    def giant(self, env, src, m):
        """More input than a result can tell, ending with zeros (that are no tags), or
        almost that and ending with one field.
        """
        vals = self.value(env, src, m, budget=60)
        data = model.encode(m, vals)
        off, fits = None, True
        if src.bool():
            number = src.choice([n for n in (1, 16, 99, 5000, (1 << 29) - 1)
                                 if not any(f.number == n for f in m.all_fields)])
            known = [f.number for f in m.all_fields
                     if f.type in ('string', 'bytes') and f.label != 'map']
            fits = not known or src.bool(70)
            if not fits:
                number = src.choice(known)
            head = model.varint(number << 3 | 2)
            length = INT_MAX - len(data) - len(head) - 5 - src.choice(
                [0, 0, 1, 1, 2, 5, 1000, 1 << 20])
            data += head + model.varint(length)
            off = src.choice([0, 0, -1, 1])
            size = len(data) + length + off
        else:
            size = max(giant_size(src, len(data)), INT_MAX + 1)
        good = off == 0 and size <= INT_MAX and fits
        room = model.decode_memory(m, data, env.server.sizes(env.program)) \
            if off is None else self.room(env, m, vals)
        s = Script().new(0, env.program.mindex(m), room, **self.place(src))
        s.giant_decode(0, size, data).free(0)
        ok, res = s.run(env.server)
        if not (res == size if good else -8 <= res < 0):
            raise Violation(f'decode() returns {res} for {size} bytes, mostly zero',
                            message=m.full, starts=hexs(data))
        return Case((env.job['index'], m.full, data, size), not good,
                    ['giant input' + (': still valid' if good else ': rejected')],
                    f'{m.full} {hexs(data, 60)} and zeros, {size} bytes: {res}')

    def strings(self, env, src):
        codes = list(range(1, 9))
        other = [src.choice([0, 9, 10, 20, 99, 127, 128, 255, 256, 1 << 31, (1 << 31) - 1,
                             (1 << 32) - 1])
                 if src.bool() else src.below(1 << 32) for _ in range(12)]
        other += [9, 0, 10]
        signed = [x - (1 << 32) if x >> 31 else x for x in other]
        s = Script()
        for c in codes:
            s.text(-c)
        for c in signed:
            s.text(c)
        texts = s.run(env.server)
        mine = texts[:8]
        unknown = texts[8:]
        known = {-c: t for c, t in zip(codes, mine)}
        if len(set(mine)) != 8 or b'' in mine:
            raise Violation('two error codes share a description',
                            texts={str(-c): t.decode() for c, t in zip(codes, mine)})
        plain = None
        for c, t in zip(signed, unknown):
            if -8 <= c <= 8:
                continue
            if t in mine or (plain is not None and t != plain):
                raise Violation(f'error_code_to_string({c}) gives {t.decode()!r}')
            plain = t
        del known
        return Case(repr(signed), True, ['error strings'],
                    f'error strings of {signed}')


# The ways of damage() that break one thing and nothing as a consequence of it.
ONE_DEFECT = ('zero', 'wiretype', 'wrongtype', 'longvarint', 'append', 'packed', 'length',
              'cutlast')


def code_of(why):
    """The error codes that describe a defect. A length beyond the end may be met as such,
    as too little data, or by allocating that much first.
    """
    if why == 'field number zero':
        return (-5,)
    if why in ('wrong wire type', 'bad wire type'):
        return (-1,)
    if why.startswith('varint of more'):
        return (-6,)
    if why.startswith('truncated'):
        return (-2,)
    if why.endswith('beyond the end'):
        return (-2, -3, -7, -8)
    raise HarnessError(f'no code for {why}')


def records(data):
    """Split valid bytes: (tag position, number, wire, payload start, end)."""
    out = []
    pos = 0
    while pos < len(data):
        at = pos
        key, pos = model.read_varint(data, pos, len(data))
        wire = key & 7
        body = pos
        if wire == 0:
            _, pos = model.read_varint(data, pos, len(data))
        elif wire == 1:
            pos += 8
        elif wire == 5:
            pos += 4
        elif wire == 2:
            n, body = model.read_varint(data, pos, len(data))
            pos = body + n
        out.append((at, key >> 3, wire, body, pos))
    return out


def damage(src, m, data):
    """Break a valid serialisation of m at one place, maybe deep inside."""
    byno = {f.number: f for f in m.all_fields}
    recs = records(data)
    # Descend?
    subs = [r for r in recs if r[2] == 2 and r[1] in byno
            and model.tname(byno[r[1]]) == 'message']
    if subs and src.bool(65):
        at, n, wire, body, end = src.choice(subs)
        inner, what = damage(src, model.submsg(byno[n]), data[body:end])
        return (data[:at] + model.record(n, 2, inner) + data[end:],
                what if what.startswith('deep ') else 'deep ' + what)
    ways = ['zero', 'wiretype', 'append']
    if byno:
        ways += ['wrongtype', 'packed', 'longvarint', 'length']
    if recs:
        ways += ['cutrecord', 'retype', 'length2', 'renumber', 'cutlast']
    what = src.choice(ways)
    pos = src.choice([r[0] for r in recs] + [len(data)])
    number = src.choice(list(byno)) if byno else 1
    if what == 'zero':                      # Field number zero.
        rec = bytes([src.choice([0, 1, 2, 5])])
        rec += {0: b'\1', 1: bytes(8), 2: b'\0', 5: bytes(4)}[rec[0]]
        return data[:pos] + rec + data[pos:], what
    if what == 'wiretype':                  # Groups and reserved types.
        n = number if src.bool() else src.int(1, 1 << src.int(1, 28))
        rec = model.tag(n, src.choice([3, 4, 6, 7]))
        if src.bool():
            rec += src.data(src.int(0, 3))
        if src.bool(30):
            rec += model.tag(n, 4)
        return data[:pos] + rec + data[pos:], what
    if what == 'append':                    # Something incomplete at the end.
        n = number if src.bool(70) else src.int(1, 1 << src.int(1, 28))
        wire = src.choice([0, 1, 2, 5])
        rec = model.tag(n, wire)
        if wire == 0:
            rec += bytes([0x80 | src.below(128)]) * src.int(0, 9)
        elif wire == 2:
            size = src.choice([1, 2, 5, 127, 128, 1 << 14, 1 << 28, (1 << 31) - 1, 1 << 31,
                               (1 << 32) - 1, 1 << 32, (1 << 64) - 1, (1 << 63) + 5])
            rec += model.varint(size)
            rec += bytes(src.below(min(size, 12)))
        else:
            rec += src.data(src.below(8 if wire == 1 else 4))
        return data + rec, what
    if what == 'wrongtype':
        f = byno[number]
        good = model.WIRE[model.tname(f)]
        ok = {good, 2} if model.is_rep(f) else {good}
        bad = [w for w in (0, 1, 2, 5) if w not in ok] or [3]
        wire = src.choice(bad)
        rec = model.tag(number, wire) + {
            0: b'\1', 1: bytes(8), 2: b'\2\1\1', 5: bytes(4), 3: b''}[wire]
        return data[:pos] + rec + data[pos:], what
    if what == 'packed':
        reps = [f for f in m.all_fields if model.is_rep(f)
                and model.WIRE[model.tname(f)] != 2]
        if not reps:
            return damage_long(src, number, data, pos), 'longvarint'
        f = src.choice(reps)
        t = model.tname(f)
        if model.WIRE[t] == 0:
            run = b'\1' * src.int(0, 4) + bytes([0x80 + src.below(128)]) * src.choice(
                [1, 1, 2, 9, 10, 11])
            if src.bool(30):
                run += b'\1'
        else:
            size = 4 if model.WIRE[t] == 5 else 8
            run = bytes(size * src.int(0, 3) + src.int(1, size - 1))
        return data[:pos] + model.record(f.number, 2, run) + data[pos:], what
    if what == 'longvarint':
        return damage_long(src, number, data, pos), what
    if what == 'length':                    # Any field, a length beyond the end.
        left = len(data) - pos
        size = left + src.choice([1, 1, 2, 100, 1 << 16, (1 << 31) - 1 - left, 1 << 31,
                                  1 << 32, (1 << 32) + 1, 1 << 63])
        if size <= left:
            size = left + 1
        return data[:pos] + model.tag(number, 2) + model.varint(size) + data[pos:], what
    at, n, wire, body, end = src.choice(recs)
    if what == 'cutrecord':                 # The record without its end.
        cut = src.int(at + 1, max(end - 1, at + 1))
        return data[:cut] + data[end:], what
    if what == 'cutlast':
        return data[:src.below(len(data))], what
    if what == 'retype':
        return (data[:at] + model.tag(n, src.below(8))
                + data[at + len(model.tag(n, wire)):]), what
    if what == 'renumber':
        n2 = number if byno else n + 1
        return (data[:at] + model.tag(n2, wire)
                + data[at + len(model.tag(n, wire)):]), what
    if wire != 2:
        return data[:end - 1] + data[end:], 'cutrecord'
    size = max(0, end - body + src.choice([-3, -2, -1, 1, 2, 3, 127, 1 << 20]))
    return (data[:at] + model.tag(n, 2) + model.varint(size) + data[body:]), what


def damage_long(src, number, data, pos):
    """A varint of more than ten bytes: value, length or tag."""
    k = src.below(3)
    pad = bytes([0x80 | src.below(128)]) * src.choice([10, 10, 11, 15])
    if k == 0:
        rec = model.tag(number, 0) + pad + b'\1'
    elif k == 1:
        rec = model.tag(number, 2) + b'\x81' + b'\x80' * src.int(9, 12) + b'\0' + b'a'
    else:
        n = src.int(2000, 1 << 20)
        rec = model.tag(n, 0) + pad + b'\0'
    return data[:pos] + rec + data[pos:]


def any_bytes(check, env, src, m):
    """Bytes for m from pure noise to nearly valid."""
    how = src.weighted([(2, 'noise'), (3, 'taggy'), (4, 'mutate'), (3, 'damage'),
                        (2, 'valid')])
    if how == 'noise':
        return src.data(src.int(0, 40)), how
    if how == 'taggy':                      # Records with random payloads.
        out = b''
        numbers = [f.number for f in m.all_fields] + [1, 2]
        for _ in range(src.int(1, 6)):
            out += model.tag(src.choice(numbers), src.choice([0, 1, 2, 2, 5]))
            k = src.below(4)
            if k == 0:
                out += src.data(src.int(0, 12))
            elif k == 1:
                body = src.data(src.int(0, 20))
                out += model.varint(len(body)) + body
            elif k == 2:
                out += model.varint(src.below(1 << src.int(1, 64)))
            else:
                out += bytes(src.choice([4, 8]))
        return out, how
    vals = check.value(env, src, m, budget=500)
    data = model.AltGen(src, env.mined, unknown=10).message(m, vals)
    if how == 'mutate':
        data = mutate(src, data)
    elif how == 'damage':
        data, _ = damage(src, m, data)
    return data, how


C06_KNOWN = 'nesting exhausts the stack'


class C06(CCheck):
    id = 'C06'
    rule = ('Random jobs: bytes from noise over random records to damaged and valid '
            'serialisations, decoded under AddressSanitizer and UBSan from an exactly '
            'sized, then scrambled and freed input, into workspaces from tiny to ample. '
            'Fuzz jobs: coverage-guided libFuzzer on the every-type schemas with the same '
            'checks inside the target, run for a fixed number of inputs. Messages nested '
            'to 2000 levels. Accepted content '
            'has to lie in the workspace and survive encoding and decoding. Non-trivial: '
            'distinct inputs accepted or rejected after the first byte; for fuzz jobs the '
            'inputs that reached new coverage.')
    assumptions = ('nesting that exhausts the stack (known finding) is left out',)
    schemas = [('matrix0', 1), ('matrix1', 1), ('matrix2', 1), ('random', 32)]
    cases = 500
    fuzz_runs = 250000

    def jobs(self, tier):
        out = [{'schema': f'matrix{i % 3}', 'n': 1, 'fuzz': True,
                'runs': self.fuzz_runs * (1 if tier == 'quick' else 40)}
               for i in range(4 if tier == 'quick' else 24)]
        out += [{'schema': 'random', 'n': 1, 'fuzz': True,
                 'runs': self.fuzz_runs * (1 if tier == 'quick' else 20) // 2}
                for i in range(2 if tier == 'quick' else 24)]
        out.append({'schema': 'matrix0', 'n': 1, 'deep': True})
        return out + super().jobs(tier)

    def prepare(self, env, src):
        super().prepare(env, src)
        if env.job.get('fuzz'):
            env.fuzz_exe = build_fuzzer(env)

    def case(self, env, src):
        if env.job.get('fuzz'):
            return self.fuzz(env, src)
        if env.job.get('deep'):
            return self.exhaust(env, src)
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        if src.bool(1):
            made = deep_bytes(src, m, src.int(200, 2000))
            if made is not None:
                self.deep(env, m, *made)
                return Case((env.job['index'], m.full, made[0]), True, ['deep'],
                            lambda: f'{m.full} {len(made[1])} levels deep')
        data, how = any_bytes(self, env, src, m)
        sizes = env.server.sizes(env.program)
        ample = model.decode_memory(m, data, sizes)
        room = src.weighted([(3, ample), (2, src.below(ample + 1)),
                             (1, src.below(sizes[m.full] + 64))])
        i = env.program.mindex(m)
        place = self.place(src)
        ok, = Script().new(0, i, room, **place).run(env.server)
        if not ok:
            return Case((env.job['index'], data, room), False, ['no message'])
        (res, modified), = Script().decode(0, data, src.below(4)).run(env.server)
        detail = dict(message=m.full, encoded=hexs(data), workspace=room)
        if modified:
            raise Violation('decode() modifies its input', **detail)
        if res >= 0 and res != len(data) or res < -8:
            raise Violation(f'decode() of {len(data)} bytes returns {res}', **detail)
        if res >= 0:
            s = Script().ownership(0).dump(0).encode(0, 12 * len(data) + 64)
            dump, (eres, enc) = s.run(env.server)
            vals = model.parse_dump(m, dump)
            if eres < 0:
                raise Violation(f'an accepted message cannot be encoded ({eres})',
                                content=model.show(m, vals), **detail)
            s = Script().new(1, i, self.room(env, m, vals)).decode(1, enc).dump(1)
            ok, (res2, _), dump2 = s.free(0).free(1).run(env.server)
            if res2 != len(enc):
                raise Violation(f'own encoding is not accepted ({res2})',
                                reencoded=hexs(enc), **detail)
            expect_content(m, dump2, vals, 'encoding and decoding an accepted message '
                           'changes it', encoded=hexs(data), reencoded=hexs(enc))
        return Case((env.job['index'], m.full, data, room), len(data) > 1,
                    [how, 'result:' + ('accepted' if res >= 0 else str(res))],
                    lambda: f'{m.full} {hexs(data, 60)} in {room}: {res}')

    def deep(self, env, m, data, path):
        """A message of many levels is accepted, and encoded as it was."""
        sizes = env.server.sizes(env.program)
        room = 256 + sizes[m.full] + sum(sizes[model.submsg(f).full] + 64 for f in path)
        i = env.program.mindex(m)
        s = Script().new(0, i, room).decode(0, data).encode(0, 4 * len(data) + 64)
        ok, (res, modified), (eres, enc) = s.free(0).run(env.server)
        detail = dict(message=m.full, levels=len(path), encoded=hexs(data))
        if modified:
            raise Violation('decode() modifies its input', **detail)
        if res != len(data):
            raise Violation(f'decode() of a message {len(path)} levels deep returns {res}',
                            **detail)
        if eres < 0 or not any(f.label == 'map' for f in path) and enc != data:
            raise Violation('a deep message is encoded as another one', result=eres,
                            reencoded=hexs(enc), **detail)

    def exhaust(self, env, src):
        """The known finding: so many levels that the stack is too small."""
        from .runner import known_findings
        levels = 400000
        m = next(m for m in env.tops if m.name == 'Sub')
        data, path = deep_bytes(src, m, levels)
        classes = ['deep']
        try:
            self.deep(env, m, data, path)
        except Violation as e:
            if 'stack-overflow' not in str(e):
                raise
            if not any(sig == C06_KNOWN for sig, _ in known_findings('C06')):
                raise Violation(f'{C06_KNOWN} ({levels} levels): {e}',
                                message=m.full, encoded=hexs(data))
            classes = ['known finding met']
        return Case((env.job['index'], levels), False, classes)

    def fuzz(self, env, src):
        seed = 1 + src.below(1 << 31)
        runs = env.job['runs']
        stats, units = run_fuzzer(self, env, src, seed, runs)
        case = Case(('fuzz', env.job['index']), False, ['fuzz:runs'] * 0, evals=runs)
        case.key = [('fuzz', env.job['index'], u) for u in units]
        case.nontrivial = bool(units)
        case.sample = f'libFuzzer {stats}'
        return case


def deep_bytes(src, m, levels):
    """A valid serialisation nested that deep and the messages on the way, or None."""
    ways = {}
    at = m
    path = []
    while len(path) < levels:
        if id(at) not in ways:
            ways[id(at)] = [f for f in at.all_fields if model.tname(f) == 'message'
                            and any(model.tname(g) == 'message'
                                    for g in model.submsg(f).all_fields)]
        if not ways[id(at)]:
            return None
        f = src.choice(ways[id(at)])
        path.append(f)
        at = model.submsg(f)
    pieces = []
    length = 0
    for f in reversed(path):
        pieces.append(model.tag(f.number, 2) + model.varint(length))
        length += len(pieces[-1])
    return b''.join(reversed(pieces)), path


def build_fuzzer(env):
    exe = os.path.join(env.tmp, 'fuzzer')
    flags = ['-g', '-O1', '-std=gnu11', '-w', '-DPBV_FUZZ',
             '-fsanitize=fuzzer,address,undefined', '-fno-strict-aliasing',
             '-fno-sanitize=nonnull-attribute,function,pointer-overflow', '-fno-sanitize-recover=all']
    cbuild.compile_cmd(
        ['clang', *flags, '-I', os.path.join(cbuild.LIBDIR, 'include'), '-I',
         env.program.out, '-I', os.path.join(cbuild.VERIF, 'cdriver'),
         os.path.join(cbuild.LIBDIR, 'src', 'pbtools.c'),
         os.path.join(cbuild.VERIF, 'cdriver', 'driver.c'),
         os.path.join(env.tmp, 'table.c'),
         *[os.path.join(env.program.out, f.cstem + '.c') for f in env.files],
         '-o', exe, '-lpthread'], 'the fuzz target', env.tmp)
    return exe


def run_fuzzer(check, env, src, seed, runs):
    corpus = os.path.join(env.tmp, f'corpus-{seed}')
    os.makedirs(corpus, exist_ok=True)
    tops = env.tops
    order = {id(m): env.program.mindex(m) for m in tops}
    for i in range(60):
        m = src.choice(tops)
        vals = check.value(env, src, m, budget=60)
        data = model.AltGen(src, env.mined).message(m, vals)[:300]
        head = bytes([order[id(m)] & 255, src.choice([0, 64, 200]), src.below(256),
                      src.below(128)])
        with open(os.path.join(corpus, f'seed{i}'), 'wb') as fout:
            fout.write(head + data)
    art = os.path.join(env.tmp, 'crash-')
    cmd = [env.fuzz_exe, f'-seed={seed}', f'-runs={runs}', '-max_len=320',
           '-timeout=30', '-rss_limit_mb=3000', '-print_final_stats=1', '-verbosity=1',
           '-close_fd_mask=1', f'-artifact_prefix={art}', corpus]
    try:
        env2 = dict(cbuild.ENV)
        env2['ASAN_OPTIONS'] += ':quarantine_size_mb=8'
        p = subprocess.run(cmd, cwd=env.tmp, env=env2, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=3600)
    except subprocess.TimeoutExpired:
        raise HarnessError('the fuzzer did not finish')
    text = p.stderr.decode('utf-8', 'replace')
    if p.returncode != 0:
        crashes = [n for n in os.listdir(env.tmp) if n.startswith('crash-')]
        if not crashes:
            raise HarnessError(f'fuzzer exit code {p.returncode}: {text[-1500:]}')
        with open(os.path.join(env.tmp, crashes[0]), 'rb') as fin:
            data = fin.read()
        report = text[max(text.find('ERROR'), text.find('runtime error') - 200,
                          text.find('DRIVER-FOUND'), 0):]
        what = 'sanitizer report'
        for line in text.splitlines():
            if ('DRIVER-FOUND' in line or 'Sanitizer:' in line
                    or 'runtime error' in line):
                what = line.strip()
                break
        raise Violation(f'fuzzing: {what}', input=data.hex(), format='message index, '
                        'size mode, size, placement, then the encoded bytes',
                        report=report[:2000])
    done = [x for x in text.splitlines() if ' DONE ' in x or 'DONE  ' in x]
    units = []
    for name in sorted(os.listdir(corpus)):
        with open(os.path.join(corpus, name), 'rb') as fin:
            units.append(fin.read())
    return (done[-1].strip() if done else '') + f' seed={seed}', units


class C07(CCheck):
    id = 'C07'
    rule = ('A case takes a message, builds it or decodes a serialisation of it in '
            'workspaces of every size from zero to ample (large ones: a coarse sweep and '
            'a dense one around the threshold), exactly sized under AddressSanitizer, and '
            'compares with an ample workspace: no message, then out of memory, then '
            'complete success for good. Another fifth of the cases allocates absurd and '
            'negative element counts. Non-trivial: sweeps where creation succeeds and the '
            'content does not fit at some size.')
    schemas = [('matrix0', 1), ('matrix1', 1), ('matrix2', 1), ('random', 36)]
    cases = 50

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        if src.bool(20):
            return self.absurd(env, src, m)
        if src.bool(4):
            return self.giant(env, src, m)
        build = src.bool(40)
        if src.bool(85):
            vals = self.value(env, src, m, budget=src.choice([60, 300, 700]))
        else:
            vals = self.value(env, src, m)
        sizes = env.server.sizes(env.program)
        if build:
            op, data = b'V', model.tree(m, vals)
            room = self.room(env, m, vals)
        else:
            op = b'W'
            data = model.AltGen(src, env.mined, unknown=8,
                                redundant=src.bool()).message(m, vals)
            room = model.decode_memory(m, data, sizes)
        i = env.program.mindex(m)
        place = self.place(src)
        if place['fill'] == 0xff:
            place['fill'] = 0xee
        big = room * 2 + 4096
        lo, hi, count = 0, room, 0
        codes = first = None
        points = max(12, min(300, 20000000 // big))
        while True:
            step = max(1, (hi - lo) // points)
            s = Script().sweep(op, i, lo, hi, step, big, data, **place)
            (bad, codes), = s.run(env.server)
            self.judge(m, vals, codes, bad, lo, step, big, op, place)
            first = first or codes
            count += len(codes)
            if step == 1 or 'K' not in codes[1:]:
                break
            at = lo + (codes.index('K', 1) - 1) * step
            lo, hi = max(0, at - step), at + 2
        classes = ['build' if build else 'decode',
                   'codes:' + ''.join(c for c in 'NMK' if c in first[1:])]
        return Case((env.job['index'], op, m.full, data), 'M' in first,
                    classes, lambda: f'{"build" if build else "decode"} {m.full} '
                    f'{model.show(m, vals)}: sizes 0..{room}: none '
                    f'{first.count("N")}, out of memory {first.count("M")}, ok '
                    f'{first.count("K")}', evals=count)

    def judge(self, m, vals, codes, bad, lo, step, big, op, place):
        verb = 'building' if op == b'V' else 'decoding'
        detail = dict(message=m.full, value=model.show(m, vals), placement=str(place))
        if codes[0] != 'K':
            raise Violation(f'{verb} fails in a workspace of {big} bytes: {codes[0]} '
                            f'{bad}', **detail)
        rank = -1
        for k, c in enumerate(codes[1:]):
            size = lo + k * step
            if c == 'X':
                raise Violation(f'{verb} in a workspace of {size} bytes succeeds with '
                                'other content than in a huge one', **detail)
            if c == 'E':
                raise Violation(f'{verb} in a workspace of {size} bytes returns {bad}',
                                **detail)
            r = 'NMK'.index(c)
            if r < rank:
                raise Violation(f'{verb} fails in a workspace of {size} bytes, but not '
                                'in a smaller one', **detail)
            rank = r

    def giant(self, env, src, m):
        """A workspace with a size of more than an int holds is sufficient, too."""
        vals = self.value(env, src, m, budget=300)
        data = model.encode(m, vals)
        size = giant_size(src, self.room(env, m, vals))
        decode = src.bool()
        s = Script().giant_new(0, env.program.mindex(m), size)
        if decode:
            s.decode(0, data)
        else:
            s.build(0, model.tree(m, vals))
        s.dump(0).encode(0, len(data)).free(0)
        detail = dict(message=m.full, value=model.show(m, vals), workspace=size)
        (ok,) = Script().giant_new(1, env.program.mindex(m), size).free(1).run(env.server)
        if not ok:
            raise Violation(f'no message in a workspace of {size} bytes', **detail)
        ok, res, dump, (n, enc) = s.run(env.server)
        if decode:
            res = res[0] - len(data)
        if res:
            raise Violation(f'out of memory in a workspace of {size} bytes', **detail)
        expect_content(m, dump, vals, f'other content in a workspace of {size} bytes')
        check_encoding(m, vals, enc)
        return Case(('giant', env.job['index'], m.full, data, size), bool(data),
                    ['giant workspace'], lambda: f'{m.full} {model.show(m, vals)} '
                    f'{"decoded" if decode else "built"} in {size} bytes')

    def absurd(self, env, src, m):
        reps = [i for i, f in enumerate(m.all_fields) if model.is_rep(f)]
        if not reps:
            return Case(b'', False, ['no list'])
        idx = src.choice(reps)
        small = [i for i in reps if m.all_fields[i].type == 'bool']
        if small and src.bool(40):
            idx = src.choice(small)
        sizes = env.server.sizes(env.program)
        room = sizes[m.full] + src.int(64, 6000)
        k = src.below(6)
        if k == 0:
            n = src.choice([-1, -2, -(1 << 31), -(1 << 31) + 1, (1 << 31) - 1, 0, 1])
        elif k == 1:
            n = (1 << src.int(16, 30)) + src.int(-2, 2)
        elif k == 2:
            n = -(1 << src.int(0, 30)) + src.int(-2, 2)
        elif k == 3:
            # Close to overflow for some element size.
            n = ((1 << src.choice([31, 32, 33, 34])) // src.choice(
                [1, 2, 4, 8, 16, 24, 32, 40, 48, 56, 88, 152])) + src.int(-3, 3)
        elif k == 4:
            # With the alignment added, such sizes may come out as small ones.
            n = -src.int(1, 16)
        else:
            n = src.below(4000)
        n = max(-(1 << 31), min(n, (1 << 31) - 1))
        before = [(src.choice(small), src.int(1, 8))] if small and src.bool(60) else []
        data = b''
        if src.bool():
            # Strings and bytes leave the next free byte at any address.
            vals = self.value(env, src, m, budget=src.choice([60, 300]))
            data = model.encode(m, vals)
            room += self.room(env, m, vals)
        s = Script().new(0, env.program.mindex(m), room, **self.place(src))
        s.decode(0, data)
        for i, k in before:
            s.alloc(0, i, k)
        s.alloc(0, idx, n)
        ok, res, *_, (res, length) = s.run(env.server)
        detail = dict(message=m.full, field=m.all_fields[idx].name, workspace=room,
                      decoded_before=data.hex(), allocated_before=before)
        if not ok:
            raise Violation('no message in a sufficient workspace', **detail)
        if n < 0 and res >= 0:
            raise Violation(f'allocating {n} elements succeeds', **detail)
        if n > room and res >= 0:
            raise Violation(f'allocating {n} elements in {room} bytes succeeds',
                            **detail)
        if res > 0:
            raise Violation(f'allocation returns {res}', **detail)
        if res == 0:
            # All elements must be usable: written, dumped and encoded.
            (dump,) = Script().dump(0).run(env.server)
            vals = model.parse_dump(m, dump)
            if len(vals[idx]) != n:
                raise Violation('allocation succeeds with another length', **detail)
        elif n == 0:
            raise Violation(f'allocating no elements fails with {res}', **detail)
        Script().free(0).run(env.server)
        return Case(('alloc', env.job['index'], m.full, idx, n, room), abs(n) > 4000,
                    ['absurd count' if abs(n) > 4000 or n < 0 else 'count']
                    + ['used workspace'] * bool(data or before),
                    f'{m.full}.{m.all_fields[idx].name} alloc({n}) in {room}: {res}')


class C08(CCheck):
    id = 'C08'
    rule = ('A case encodes one random message into exactly sized buffers of every size '
            'from zero to past the encoded size (large messages: every size near both '
            'ends and a coarse sweep between) under AddressSanitizer. Sizes below the '
            'encoded size have to give buffer full, all others the same bytes. '
            'Non-trivial: encoded size at least two, distinct encodings.')
    schemas = [('matrix0', 1), ('matrix1', 1), ('matrix2', 1), ('random', 40)]
    cases = 150

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        if src.bool(2):
            return self.giant_field(env, src, m)
        vals = self.value(env, src, m)
        n = len(model.encode(m, vals))
        if src.bool(3):
            return self.giant(env, src, m, vals, n)
        s = Script().new(0, env.program.mindex(m), self.room(env, m, vals),
                         **self.place(src)).build(0, model.tree(m, vals))
        mis = src.below(4)
        big = n + src.choice([0, 1, 5, 100, 5000])
        points = max(10, min(150, 1000000 // (n + 1)))
        ranges = ([(0, n + 6, 1)] if n <= 500 else
                  [(0, 20, 1), (n - points, n + 6, 1),
                   (20, n - points, max(1, n // points))])
        for lo, hi, step in ranges:
            s.encode_sweep(0, big, lo, hi, step, mis)
        s.encode(0, big).free(0)
        ok, built, *sweeps, (res, enc) = s.run(env.server)
        detail = dict(message=m.full, value=model.show(m, vals), needed=n)
        if not ok or built:
            raise Violation('building fails with ample room', **detail)
        count = 0
        for (lo, hi, step), (length, bad, codes) in zip(ranges, sweeps):
            if length != n:
                raise Violation(f'encode() into {big} bytes returns {length} for a '
                                f'message of {n} bytes', **detail)
            for k, c in enumerate(codes):
                size = lo + k * step
                want = 'K' if size >= n else 'F'
                if c != want:
                    raise Violation(
                        f'encode() into {size} bytes: ' + {
                            'K': 'succeeds in a too small buffer',
                            'F': 'buffer full though the buffer is large enough',
                            'X': f'returns {bad} or gives other bytes'}[c], **detail)
            count += len(codes)
        return Case((env.job['index'], m.full, enc), n >= 2, classes_of(m, vals, enc)[:1]
                    + [c for c in classes_of(m, vals, enc) if c.startswith('size')],
                    lambda: f'{m.full} {model.show(m, vals)}: {n} bytes, {count} buffer '
                    'sizes', evals=count)


    def giant(self, env, src, m, vals, n):
        """A buffer of more than an int holds is large enough."""
        s = Script().new(0, env.program.mindex(m), self.room(env, m, vals),
                         **self.place(src)).build(0, model.tree(m, vals))
        size = giant_size(src, n)
        ok, built, (want, enc), (res, got) = s.encode(0, n).giant_encode(0, size).free(
            0).run(env.server)
        detail = dict(message=m.full, value=model.show(m, vals), needed=n)
        if not ok or built:
            raise Violation('building fails with ample room', **detail)
        if want != n:
            raise Violation(f'encode() into {n} bytes returns {want}', **detail)
        if res != n or got != enc:
            raise Violation(f'encode() into {size} bytes returns {res} or gives other '
                            'bytes', **detail)
        return Case(('giant', env.job['index'], m.full, enc, size), n >= 2,
                    ['giant buffer'], lambda: f'{m.full} {model.show(m, vals)} into '
                    f'{size} bytes: {res}')

    def giant_field(self, env, src, m):
        """Content of more than an int holds fits no buffer."""
        idxs = [i for i, f in enumerate(m.all_fields)
                if f.type in ('string', 'bytes') and f.label != 'map']
        if not idxs:
            return Case(b'', False, ['no string'])
        idx = src.choice(idxs)
        f = m.all_fields[idx]
        size = src.int(0, 200)
        vals = self.value(env, src, m, fill=20, budget=60)
        if f.type == 'bytes' or src.bool(20):
            length = giant_size(src, size)
        else:
            length = (1 << 32) + src.below(size + 1)
        s = Script().new(0, env.program.mindex(m), self.room(env, m, vals) + 256,
                         **self.place(src)).build(0, model.tree(m, vals))
        ok, built, res = s.giant_field(0, idx, length, size).free(0).run(env.server)
        if not ok or built:
            raise Violation('building fails with ample room', message=m.full)
        if res != -4:
            raise Violation(f'encode() of {m.full} with {length} bytes in {f.name} into '
                            f'{size} bytes returns {res}')
        return Case(('field', env.job['index'], m.full, idx, length, size), True,
                    ['giant content'], f'{m.full}.{f.name} of {length} bytes into {size}: '
                    f'{res}')


def fresh_tree(src, m, depth=3, left=None):
    """Allocate or select parts of m without setting anything. Returns the tree
    and the expected content.
    """
    if left is None:
        left = [40]
    left[0] -= 1
    if left[0] < 0:
        depth = 0
    out = []
    vals = model.empty(m)
    groups = {}
    for i, f in enumerate(m.all_fields):
        if f.label == 'oneof':
            groups.setdefault(id(f.oneof), []).append(i)
        elif src.bool(60):
            t = model.tname(f)
            if model.is_rep(f):
                n = src.weighted([(2, 0), (4, src.int(1, 5)), (1, src.int(6, 60))])
                if t == 'message' and depth < 3:
                    n = min(n, 3)
                if t == 'message':
                    if n <= 5 and depth > 0:
                        subs = [fresh_tree(src, model.submsg(f), depth - 2, left)
                                for _ in range(n)]
                        out.append(struct.pack('<HBI', i, 1, n)
                                   + b''.join(t for t, _ in subs))
                        vals[i] = [v for _, v in subs]
                    else:
                        out.append(struct.pack('<HBI', i, 3, n))
                        vals[i] = [model.empty(model.submsg(f))] * n
                else:
                    out.append(struct.pack('<HBI', i, 3, n))
                    zero = b'' if t in ('string', 'bytes') else 0
                    vals[i] = [zero] * n
            elif t == 'message' and depth > 0:
                sub, v = fresh_tree(src, f.type, depth - 1, left)
                out.append(struct.pack('<HB', i, 1) + sub)
                vals[i] = v
    for idxs in groups.values():
        if src.bool(70):
            for i in src.sample(idxs, src.int(1, 3)):   # The last one counts.
                f = m.all_fields[i]
                t = model.tname(f)
                if t == 'message':
                    if depth <= 0:
                        continue
                    sub, v = fresh_tree(src, f.type, depth - 1, left)
                    out.append(struct.pack('<HB', i, 1) + sub)
                else:
                    out.append(struct.pack('<HB', i, 3))
                    v = b'' if t in ('string', 'bytes') else 0
                for j in idxs:
                    vals[j] = None
                vals[i] = v
    return struct.pack('<H', len(out)) + b''.join(out), vals


class C09(CCheck):
    id = 'C09'
    rule = ('A case creates a message in a workspace full of random bytes, zeros, 0xa5 or '
            'never written memory at any alignment, checks that all content is default '
            'and that it encodes to nothing, then allocates random parts and selects '
            'oneof members without setting them (also after the same memory held other '
            'content, and over previously set parts) and compares with defaults, then '
            'decodes empty input. Non-trivial: at least one part allocated or selected.')
    cases = 300

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        sizes = env.server.sizes(env.program)
        if src.bool(1):
            case = self.many(env, src, m, sizes)
            if case is not None:
                return case
        tree, vals = fresh_tree(src, m)
        old = self.value(env, src, m, budget=300)
        room = (self.room(env, m, vals, old) + 16 * len(tree) + 256
                + 2 * sum(sizes[model.submsg(f).full] * 8 for f in m.all_fields
                          if model.tname(f) == 'message'))
        how = src.weighted([(3, 'fresh'), (2, 'reuse'), (2, 'over')])
        room += tree_memory(m, tree, sizes)
        want = vals
        if how == 'over':
            want = merged(m, old, vals, tree_indexes(m, tree))
        i = env.program.mindex(m)
        s = Script().new(0, i, room, **self.place(src)).dump(0).encode(0, 0)
        names = ['new', 'dump', 'enc']
        if how != 'fresh':
            s.build(0, model.tree(m, old))
            names.append('old')
        if how == 'reuse':
            s.renew(0, i).dump(0)
            names += ['renew', 'dump2']
        s.build(0, tree).dump(0).encode(0, len(model.encode(m, want)))
        names += ['build', 'dump3', 'enc3']
        got = dict(zip(names, s.run(env.server)))
        detail = dict(how=how)
        if not got['new'] or got.get('old', 0) or got['build'] or got.get('renew') == 0:
            raise Violation('creating or building fails with ample room',
                            message=m.full, results={k: repr(v)[:40]
                                                     for k, v in got.items()})
        none = model.empty(m)
        expect_content(m, got['dump'], none, 'a new message does not have defaults')
        if got['enc'][0] != 0:
            raise Violation(f'a new message encodes to {got["enc"][0]}', message=m.full)
        if how == 'reuse':
            expect_content(m, got['dump2'], none, 'a new message in a used workspace does '
                           'not have defaults', before=model.show(m, old))
        if how == 'over':
            detail['before'] = model.show(m, old)
        expect_content(m, got['dump3'], want, 'newly allocated or selected parts do not '
                       'have defaults', **detail)
        check_encoding(m, want, got['enc3'][1])
        # Empty input leaves it so, in this and in a new message.
        s = Script().new(1, i, room, **self.place(src)).decode(1, b'').dump(1)
        s.encode(1, 0)
        ok, (res, _), dump, (eres, _) = s.free(0).free(1).run(env.server)
        if res != 0:
            raise Violation(f'decoding empty input returns {res}', message=m.full)
        expect_content(m, dump, none, 'decoding empty input sets something')
        return Case((env.job['index'], m.full, tree, how), vals != none, [how],
                    lambda: f'{how}: {m.full} allocated {model.show(m, vals)}')

    def many(self, env, src, m, sizes):
        """One array with very many items."""
        ways = [i for i, f in enumerate(m.all_fields) if model.is_rep(f)]
        if not ways:
            return None
        i = src.choice(ways)
        f = m.all_fields[i]
        t = model.tname(f)
        item = sizes[model.submsg(f).full] if t == 'message' else 16
        n = src.choice([1 << 8, 1 << 12, 1 << 15, 1 << 16, 1 << 17]) + src.int(-1, 5000)
        n = min(n, (64 << 20) // item)
        room = 256 + sizes[m.full] + (item + 8) * n
        want = model.empty(m)
        want[i] = [model.empty(model.submsg(f)) if t == 'message' else
                   b'' if t in ('string', 'bytes') else 0] * n
        s = Script().new(0, env.program.mindex(m), room, **self.place(src))
        s.build(0, struct.pack('<HHBI', 1, i, 3, n)).dump(0)
        ok, built, dump = s.free(0).run(env.server)
        if not ok or built:
            raise Violation('creating or building fails with ample room', message=m.full,
                            field=f.name, items=n, result=built)
        expect_content(m, dump, want, 'newly allocated parts do not have defaults',
                       items=n)
        return Case((env.job['index'], m.full, f.name, n), True, ['many items'],
                    lambda: f'{m.full}.{f.name} allocated with {n} items')


def tree_indexes(m, tree):
    """Top level field indexes in a tree made by fresh_tree, in order."""
    pos = 2
    out = []

    def skip(m, pos):
        n = struct.unpack_from('<H', tree, pos)[0]
        pos += 2
        for _ in range(n):
            i = struct.unpack_from('<H', tree, pos)[0]
            pos = one(m, i, pos + 2)
        return pos

    def one(m, i, pos):
        f = m.all_fields[i]
        t = model.tname(f)
        mode = tree[pos]
        pos += 1
        if model.is_rep(f):
            n = struct.unpack_from('<I', tree, pos)[0]
            pos += 4
            if mode == 1:
                for _ in range(n):
                    pos = skip(model.submsg(f), pos)
            return pos
        if t == 'message':
            return skip(f.type, pos)
        return pos

    for _ in range(struct.unpack_from('<H', tree, 0)[0]):
        i = struct.unpack_from('<H', tree, pos)[0]
        out.append(i)
        pos = one(m, i, pos + 2)
    return out


def merged(m, old, new, idxs):
    """Content after the parts idxs of old were replaced with those of new."""
    out = list(old)
    for i in idxs:
        f = m.all_fields[i]
        if f.label == 'oneof':
            for j, g in enumerate(m.all_fields):
                if g.label == 'oneof' and g.oneof is f.oneof:
                    out[j] = new[j]
        else:
            out[i] = new[i]
    return out


def tree_memory(m, tree, sizes):
    """Generous bound for the allocations of a fresh_tree."""
    biggest = max(sizes.values())
    return (len(tree) // 3 + 70) * (biggest + 32) + 4000


class History:
    """Generates random histories of operations on one slot, with the expected
    content after each.
    """

    def __init__(self, check, env, src, m, slot, server):
        self.check, self.env, self.src, self.m, self.slot = check, env, src, m, slot
        self.sizes = server.sizes(env.program)
        self.index = env.program.mindex(m)
        self.vals = model.empty(m)
        self.room = 60000
        self.used = 0
        self.log = []

    def start(self, s):
        place = self.check.place(self.src)
        s.new(self.slot, self.index, self.room, **place)
        return [('new', 1)]

    def spend(self, n):
        """Account for workspace memory; false if it may not be there."""
        if self.used + n > self.room - self.sizes[self.m.full] - 128:
            return False
        self.used += n
        return True

    def renew(self, s):
        s.renew(self.slot, self.index)
        self.vals = model.empty(self.m)
        self.used = 0
        self.log.append('new in the same workspace')
        return [('new', 1)]

    def small(self, **kw):
        opts = dict(budget=self.src.choice([40, 150, 500]), fill=30, depth=3)
        opts.update(kw)
        return model.ValueGen(self.src, self.env.mined, **opts)

    def assign(self, m, vals):
        """Random new values for some fields of m. Returns (indexes, values)."""
        src = self.src
        fields = m.all_fields
        new = list(vals)
        idxs = []
        for i in src.sample(range(len(fields)), src.int(1, 4)):
            f = fields[i]
            t = model.tname(f)
            g = self.small()
            if f.label == 'oneof':
                if any(fields[j].label == 'oneof' and fields[j].oneof is f.oneof
                       for j in idxs):
                    continue
                for j, o in enumerate(fields):
                    if o.label == 'oneof' and o.oneof is f.oneof:
                        new[j] = None
                new[i] = g.one(f)
            elif src.bool(20):
                new[i] = model.default(f)
            elif t == 'message' and not model.is_rep(f):
                new[i] = g.message(f.type)
            else:
                new[i] = g.field(f)
            idxs.append(i)
        return idxs, new

    def step(self, s):
        """Append one operation. Returns what to expect, or None."""
        src, m = self.src, self.m
        ops = [(5, 'set'), (5, 'edit'), (5, 'encode'), (2, 'small'), (5, 'decode'),
               (1, 'bad'), (1, 'renew'), (2, 'deselect')]
        op = src.weighted(ops)
        if op == 'set' and m.all_fields:
            idxs, new = self.assign(m, self.vals)
            cost = model.memory(m, [new[i] if i in idxs else model.default(f)
                                    for i, f in enumerate(m.all_fields)], self.sizes,
                                False)
            if not self.spend(cost):
                return self.renew(s)
            s.build(self.slot, model.tree(m, new, only=idxs))
            self.vals = new
            self.log.append('set ' + ', '.join(m.all_fields[i].name for i in idxs))
            return [('build', 0)]
        if op == 'edit' and m.all_fields:
            made = self.edit(m, self.vals, 0)
            if made is None:
                return None
            tree, new, cost = made
            if not self.spend(cost):
                return self.renew(s)
            s.build(self.slot, struct.pack('<H', 1) + tree)
            self.vals = new
            self.log.append('edit in place')
            return [('build', 0)]
        if op == 'deselect' and m.oneofs:
            i = src.below(len(m.oneofs))
            s.build(self.slot, struct.pack('<HH', 1, len(m.all_fields) + i))
            for j, f in enumerate(m.all_fields):
                if f.label == 'oneof' and f.oneof is m.oneofs[i]:
                    self.vals = self.vals[:j] + [None] + self.vals[j + 1:]
            self.log.append('deselect ' + m.oneofs[i].name)
            return [('build', 0)]
        if op == 'encode':
            n = len(model.encode(m, self.vals))
            s.encode(self.slot, n + src.choice([0, 0, 1, 50]), src.below(4))
            self.log.append('encode')
            return [('encode', list(self.vals))]
        if op == 'small':
            n = len(model.encode(m, self.vals))
            if n == 0:
                return None
            s.encode(self.slot, src.below(n))
            self.log.append('encode, too small a buffer')
            return [('full', None)]
        if op == 'decode':
            other = self.small(fill=src.choice([10, 40])).message(m)
            data = model.AltGen(src, self.env.mined, unknown=10).message(m, other)
            notes = model.Notes()
            new = model.decode(m, data, notes, into=self.vals)
            if notes.vague or notes.wide_tag:
                return None
            if not self.spend(model.decode_memory(m, data, self.sizes)):
                return self.renew(s)
            s.decode(self.slot, data, src.below(4))
            self.vals = new
            self.log.append('decode ' + hexs(data, 40))
            return [('decode', len(data))]
        if op == 'bad':
            other = self.small().message(m)
            data, what = damage(src, m, model.encode(m, other))
            notes = model.Notes()
            try:
                model.decode(m, data, notes)
                return None
            except model.Bad:
                pass
            if notes.wide_tag:
                return None
            s.decode(self.slot, data)
            self.log.append('decode invalid ' + hexs(data, 40))
            return [('bad', None)] + self.renew(s)
        if op == 'renew':
            return self.renew(s)
        return None

    def edit(self, m, vals, depth):
        """Edit somewhere inside in place: (tree of one field, new, cost)."""
        src = self.src
        fields = m.all_fields
        ways = [i for i, f in enumerate(fields)
                if model.tname(f) == 'message' and vals[i]
                or model.tname(f) == 'message' and vals[i] == [] and not model.is_rep(f)]
        inplace = [i for i, f in enumerate(fields) if model.tname(f) != 'message'
                   and (model.is_rep(f) and vals[i]
                        or f.label == 'oneof' and vals[i] is not None)]
        if ways and src.bool(70):
            i = src.choice(ways)
            f = fields[i]
            new = list(vals)
            if model.is_rep(f):
                k = src.below(len(vals[i]))
                made = self.edit(model.submsg(f), vals[i][k], depth + 1)
                if made is None:
                    return None
                tree, sub, cost = made
                new[i] = vals[i][:k] + [sub] + vals[i][k + 1:]
                return (struct.pack('<HBI', i, 2, k + 1) + b'\0\0' * k
                        + struct.pack('<H', 1) + tree, new, cost)
            made = self.edit(f.type, vals[i], depth + 1)
            if made is None:
                return None
            tree, sub, cost = made
            new[i] = sub
            return struct.pack('<HB', i, 2) + struct.pack('<H', 1) + tree, new, cost
        if inplace and src.bool(60):
            i = src.choice(inplace)
            f = fields[i]
            new = list(vals)
            if model.is_rep(f):
                k = src.int(1, len(vals[i]))
                g = self.small()
                items = [g.one(f) for _ in range(min(k, 8))]
                items = (items * (k // len(items) + 1))[:k]
                new[i] = items + vals[i][k:]
                return (struct.pack('<H', i) + struct.pack('<BI', 2, k)
                        + b''.join(model.put_scalar(model.tname(f), x) for x in items),
                        new, 0)
            new[i] = self.small().one(f)
            return (struct.pack('<HB', i, 2) + model.put_scalar(model.tname(f), new[i]),
                    new, 0)
        if not fields:
            return None
        i = src.below(len(fields))
        f = fields[i]
        g = self.small()
        new = list(vals)
        if f.label == 'oneof':
            for j, o in enumerate(fields):
                if o.label == 'oneof' and o.oneof is f.oneof:
                    new[j] = None
            new[i] = g.one(f)
        elif model.tname(f) == 'message' and not model.is_rep(f):
            new[i] = g.message(f.type) if src.bool(80) else None
        else:
            new[i] = g.field(f)
        cost = model.memory(m, [new[j] if j == i else model.default(x)
                                for j, x in enumerate(fields)], self.sizes, False)
        return struct.pack('<H', i) + model.tree_field(f, new[i]), new, cost

    def judge(self, expected, got):
        m = self.m
        detail = dict(message=m.full, history=self.log[-14:])
        for (what, want), value in zip(expected, got):
            if what == 'new' and not value:
                raise Violation('new() fails in a workspace it fitted before', **detail)
            if what == 'build' and value != 0:
                raise Violation(f'allocation fails ({value}) with ample room', **detail)
            if what == 'encode':
                if value[0] < 0:
                    raise Violation(f'encode() fails ({value[0]})', **detail)
                try:
                    check_encoding(m, want, value[1], 'encode() after a history')
                except Violation as e:
                    e.detail.update(detail)
                    raise
            if what == 'full' and value[0] != -4:
                raise Violation('encode() into a too small buffer returns '
                                f'{value[0]}', **detail)
            if what == 'decode' and value[0] != want:
                raise Violation(f'decode() into a used message returns {value[0]}, not '
                                f'{want}', **detail)
            if what == 'decode' and value[1]:
                raise Violation('decode() modifies its input', **detail)
            if what == 'bad' and not -8 <= value[0] < 0:
                raise Violation(f'decode() of invalid input returns {value[0]}',
                                **detail)


class C10(CCheck):
    id = 'C10'
    rule = ('A case is a random history of up to 25 operations on one message: assigning '
            'fields, re-allocating parts, editing inside existing sub-messages and lists, '
            'selecting and deselecting oneof members, encoding into sufficient and too '
            'small buffers, decoding further valid and invalid inputs (freed afterwards), '
            'starting anew in the same workspace. A model predicts the content, compared '
            'after every operation, and every encoding. Non-trivial: at least four '
            'operations with one encode or decode after an edit.')
    schemas = [('matrix0', 1), ('matrix1', 1), ('matrix2', 1), ('random', 36)]
    cases = 110

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None or not m.all_fields:
            return Case(b'', False)
        h = History(self, env, src, m, 0, env.server)
        s = Script()
        h.judge(h.start(s), s.run(env.server))
        ops = 0
        for _ in range(src.int(1, 25)):
            s = Script()
            expected = h.step(s)
            if expected is None:
                continue
            ops += 1
            s.dump(0)
            *got, dump = s.run(env.server)
            h.judge(expected, got)
            expect_content(m, dump, h.vals, 'the content after a history of operations '
                           'is not the latest', history=h.log[-14:])
        s = Script().encode(0, len(model.encode(m, h.vals)))
        h.judge([('encode', h.vals)], s.run(env.server))
        kinds = [x.split(' ')[0] for x in h.log]
        return Case((env.job['index'], m.full, tuple(h.log)),
                    ops >= 4 and any(k in ('encode', 'decode') for k in kinds[1:]),
                    sorted({'op:' + k for k in kinds}) + [f'ops:{min(ops // 5 * 5, 20)}+'],
                    lambda: f'{m.full}: ' + '; '.join(h.log), evals=ops + 1)


class C11(CCheck):
    id = 'C11'
    rule = ('A case makes histories (as in C10, plus decoding one shared input in '
            'read-only memory) for two to four messages in own workspaces, records the '
            'transcript of each run alone, then runs them interleaved at random and on '
            'one thread each, and compares the transcripts. Half of the programs count '
            'calls of the allocator inside the library; the others run the threads under '
            'ThreadSanitizer. Non-trivial: at least two histories of three operations.')
    schemas = [('matrix0', 1), ('matrix1', 1), ('random', 26)]
    cases = 60
    configs = ('wrap', 'tsan')

    def prepare(self, env, src):
        super().prepare(env, src)
        env.race = None
        env.race = env.program.server('tsan')
        env.servers.append(env.race)
        try:
            env.race.request(b'I')
        except Violation as e:
            if 'unexpected memory mapping' in str(e.detail):
                env.race = None                 # TSan cannot run here.
            else:
                raise

    def case(self, env, src):
        if not env.tops:
            return Case(b'', False)
        count = src.int(2, 4)
        same = src.bool()
        m0 = self.pick(env, src)
        pieces, logs, shared_by = [], [], []
        vals = self.value(env, src, m0, budget=300)
        shared = model.AltGen(src, env.mined).message(m0, vals)
        if src.bool(15):
            shared = mutate(src, shared)
        for slot in range(count):
            m = m0 if same else self.pick(env, src)
            h = History(self, env, src, m, slot, env.server)
            mine = []
            s = Script()
            h.start(s)
            mine.append(s)
            for _ in range(src.int(2, 9)):
                s = Script()
                if m is m0 and src.bool(25) and h.spend(
                        model.decode_memory(m, shared, h.sizes)):
                    s.decode_shared(slot)
                    h.renew(s)
                    h.log.append('decode shared')
                elif h.step(s) is None:
                    continue
                s.dump(slot).encode(slot, len(model.encode(m, h.vals)))
                mine.append(s)
            pieces.append(mine)
            logs.append((m, h.log))
        detail = dict(histories=[f'{m.full}: ' + '; '.join(log) for m, log in logs])
        # Alone.
        alone = []
        for slot, mine in enumerate(pieces):
            s = Script().shared(shared)
            for piece in mine:
                s.data += piece.data
                s.readers += piece.readers
            s.free(slot)
            alone.append(s.run(env.server))
        # Interleaved.
        s = Script().shared(shared)
        left = [list(mine) for mine in pieces]
        order = []
        while any(left):
            k = src.choice([i for i, x in enumerate(left) if x])
            piece = left[k].pop(0)
            s.data += piece.data
            s.readers += piece.readers
            order += [k] * len(piece.readers)
        got = s.allocs().run(env.server)
        allocs = got.pop()
        mixed = [[] for _ in pieces]
        for k, item in zip(order, got):
            mixed[k].append(item)
        for k in range(count):
            if mixed[k] != alone[k]:
                raise Violation('a message behaves differently when operations on '
                                'another message are interleaved', which=k, **detail)
        if allocs:
            raise Violation(f'the library used dynamic memory ({allocs} calls)',
                            **detail)
        # In parallel.
        for server in [env.server] + ([env.race] if env.race else []):
            s = Script().shared(shared)
            parts = []
            for mine in pieces:
                t = Script()
                for piece in mine:
                    t.data += piece.data
                    t.readers += piece.readers
                parts.append(t)
            s.threads(parts).allocs()
            try:
                got, allocs = s.run(server)
            except Violation as e:
                e.detail.update(detail)
                raise
            for k in range(count):
                if got[k] != alone[k]:
                    raise Violation('a message behaves differently when other messages '
                                    'are used by other threads', which=k, **detail)
            if allocs:
                raise Violation(f'the library used dynamic memory ({allocs} calls)',
                                **detail)
        return Case((env.job['index'], repr(logs)),
                    sum(len(log) >= 3 for _, log in logs) >= 2,
                    [f'messages:{count}', 'same type' if same else 'mixed types']
                    + (['tsan'] if env.race else ['no tsan'])
                    + (['shared input'] if any('decode shared' in log
                                               for _, log in logs) else []),
                    lambda: ' || '.join(f'{m.full}: ' + '; '.join(log)
                                        for m, log in logs))


class C19(CCheck):
    id = 'C19'
    rule = ('Schemas are generated around maps: random permitted key types and values of '
            'any type (scalars, enums, messages, nested and imported ones), each with a '
            'twin message that spells the maps as repeated key/value messages. A case '
            'fills the maps, compares the encoding with the reference and with that of '
            'the twin, decodes it with either, and decodes a random other valid form with '
            'omitted, reordered, repeated and unknown parts of entries. Non-trivial: at '
            'least two entries in all.')
    schemas = [('maps', 44), ('matrix0', 1), ('matrix1', 1)]
    cases = 300

    def prepare(self, env, src):
        super().prepare(env, src)
        twins = getattr(env.files[-1], 'twins', None)
        env.pairs = twins or [(m, None) for m in env.tops if m.name == 'Maps']

    def case(self, env, src):
        a, b = src.choice(env.pairs)
        g = self.valuegen(env, src, fill=src.choice([30, 70, 95]),
                          budget=src.choice([100, 400, 1500]))
        vals = g.message(a)
        want = model.encode(a, vals)
        ia = env.program.mindex(a)
        room = self.room(env, a, vals)
        s = Script().new(0, ia, room, **self.place(src)).build(0, model.tree(a, vals))
        s.encode(0, len(want)).free(0)
        ok, built, (res, enc) = s.run(env.server)
        if not ok or built or res < 0:
            raise Violation('building or encoding a map fails with ample room',
                            message=a.full, value=model.show(a, vals),
                            results=[ok, built, res])
        check_encoding(a, vals, enc)
        alt = model.AltGen(src, env.mined, unknown=src.choice([0, 20]))
        data = alt.message(a, vals)
        notes = model.Notes()
        if model.decode(a, data, notes) != vals or notes.wide_tag:
            raise HarnessError('bad map serialisation generated')
        for what, d in (('own', enc), ('another', data)):
            if notes.vague and d is data:
                continue
            room = model.decode_memory(a, d, env.server.sizes(env.program))
            s = Script().new(0, ia, room, **self.place(src)).decode(0, d).dump(0).free(0)
            ok, (res, _), dump = s.run(env.server)
            if res != len(d):
                raise Violation(f'decode() of {what} serialisation of maps returns {res}, '
                                f'not {len(d)}', message=a.full, encoded=hexs(d),
                                value=model.show(a, vals))
            expect_content(a, dump, vals, f'{what} serialisation of maps decodes to '
                           'other entries', encoded=hexs(d))
        if b is not None:
            self.twin(env, src, a, b, vals)
        entries = sum(len(v) for v in vals if isinstance(v, list))
        types = sorted({f'{f.key}->{model.tname(f.entry.fields[1])}'
                        for f, v in zip(a.all_fields, vals) if v and f.label == 'map'})
        return Case((env.job['index'], a.full, data), entries >= 2,
                    types + [k for k, v in alt.stats.items() if v],
                    lambda: f'{a.full} {model.show(a, vals)} -> {hexs(data, 60)}')

    def twin(self, env, src, a, b, vals):
        """The twin sees and makes the same bytes."""
        numbers = {f.number: i for i, f in enumerate(b.all_fields)}
        part, other = list(vals), model.empty(b)
        for i, f in enumerate(a.all_fields):
            if f.number in numbers:
                other[numbers[f.number]] = vals[i]
            else:
                part[i] = []
        want = model.encode(a, part)
        ia, ib = env.program.mindex(a), env.program.mindex(b)
        room = self.room(env, a, part) + self.room(env, b, other)
        s = Script().new(0, ia, room).build(0, model.tree(a, part)).encode(0, len(want))
        s.new(1, ib, room).build(1, model.tree(b, other)).encode(1, len(want))
        _, _, (_, enca), _, _, (_, encb) = s.run(env.server)
        detail = dict(message=a.full, value=model.show(a, part))
        if model.normalise(a, enca) != model.normalise(b, encb):
            raise Violation('a map and the equivalent list of key/value messages encode '
                            'differently', map=hexs(enca), list=hexs(encb), **detail)
        s = Script().new(0, ia, room).decode(0, encb).dump(0)
        s.new(1, ib, room).decode(1, enca).dump(1).free(0).free(1)
        _, (ra, _), da, _, (rb, _), db = s.run(env.server)
        if ra != len(encb) or rb != len(enca):
            raise Violation('a map and the equivalent list of key/value messages do not '
                            f'read each other ({ra}, {rb})', map=hexs(enca), **detail)
        expect_content(a, da, part, 'a map decodes the equivalent list wrongly',
                       encoded=hexs(encb))
        expect_content(b, db, other, 'the equivalent list decodes a map wrongly',
                       encoded=hexs(enca))


class C20(CCheck):
    id = 'C20'
    rule = ('A case runs one script of building, encoding, decoding (valid, alternative '
            'and damaged bytes), out of memory and buffer full situations on the same '
            'schema built with gcc -O0, -O2, -O3, -Os, unsigned char, clang -O0, -O2, -O3, '
            'clang UBSan and MemorySanitizer (workspaces filled differently or never '
            'written), and for schemas without floating point also with floating point '
            'support off, and compares the complete transcripts. Non-trivial: scripts '
            'that encode or accept at least two bytes.')
    schemas = [('matrix0', 1), ('matrix2', 1), ('random', 12)]
    cases = 500
    base = ('gcc-O0', 'gcc-O2', 'gcc-O3', 'gcc-Os', 'gcc-uchar', 'clang-O0', 'clang-O2',
            'clang-O3', 'clang-ubsan', 'msan')
    nofloat = ('nofloat', 'clang-nofloat', 'nofloat-asan')
    configs = base + nofloat

    def jobs(self, tier):
        out = super().jobs(tier)
        for i, job in enumerate(out):
            job['floats'] = i % 2 == 0
            job['n'] = self.cases
        return out

    def prepare(self, env, src):
        env.files = make_files(src, env.job, env.mined)
        configs = self.base
        if env.job['floats']:
            configs = src.sample(self.base[:-1], 5) + ['msan']
        else:
            configs = src.sample(self.base[:-1], 2) + ['msan'] + list(self.nofloat)
        env.program = Program(env.lib, env.tmp, env.files, schema.render, configs)
        env.all = {c: env.program.server(c) for c in configs}
        env.servers += list(env.all.values())
        env.server = env.all[configs[0]]
        env.tops = env.program.tops

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        sizes = env.server.sizes(env.program)
        vals = self.value(env, src, m, budget=300)
        canonical = model.encode(m, vals)
        data, how = any_bytes(self, env, src, m)
        room = self.room(env, m, vals) + model.decode_memory(m, data, sizes)
        small = src.below(room)
        mis = src.weighted([(3, 0), (1, src.below(16))])
        i = env.program.mindex(m)
        tight = src.below(len(canonical) + 2)
        cut = src.below(len(canonical) + 1)
        tree = model.tree(m, vals)

        def script(fill):
            s = Script()
            s.new(0, i, room, mis, fill).build(0, tree).encode(0, len(canonical) + 10)
            s.encode(0, tight).dump(0)
            s.renew(0, i).decode(0, data)
            s.renew(0, i).decode(0, canonical).dump(0).encode(0, len(canonical))
            s.renew(0, i).decode(0, canonical[:cut])
            s.new(1, i, small, mis, fill)
            return s

        DECODED, SMALL = 6, 13          # Replies to decode(data) and to new(1).

        def script2(fill):
            s = Script().new(0, i, room, mis, fill).decode(0, data).dump(0)
            return s.encode(0, 12 * len(data) + 64)

        results = {}
        for k, (config, server) in enumerate(env.all.items()):
            fill = 0xff if config == 'msan' else [0xee, 0, 0xa5, 0x7f][k % 4]
            try:
                out = script(fill).run(server)
                if out[DECODED][0] >= 0:
                    out += script2(fill).run(server)
                if out[SMALL]:
                    out += Script().decode(1, canonical).run(server)
                Script().free(0).free(1).run(server)
            except Violation as e:
                e.detail.update(config=config, message=m.full, encoded=hexs(data),
                                value=model.show(m, vals))
                raise
            results[config] = out
        names = list(results)
        first = results[names[0]]
        for name in names[1:]:
            if results[name] != first:
                diff = [(k, x, y) for k, (x, y) in enumerate(zip(first, results[name]))
                        if x != y]
                raise Violation(f'results differ between {names[0]} and {name}',
                                message=m.full, value=model.show(m, vals),
                                encoded=hexs(data), difference=repr(diff)[:600])
        return Case((env.job['index'], m.full, canonical, data),
                    len(canonical) >= 2 or first[DECODED][0] >= 2,
                    [how, 'without floats' if not env.job['floats'] else 'with floats']
                    + ['config:' + c for c in names],
                    lambda: f'{m.full} {model.show(m, vals)}; {hexs(data, 40)}; in '
                    + ', '.join(names), evals=len(names))


# ------------------------------ C21 ------------------------------

class C21(CCheck):
    id = 'C21'
    rule = ('A case builds or decodes a random message in a workspace of just the bytes '
            'that its structs, element arrays, strings and byte arrays need, with 8 bytes '
            'for each part and 64 in all to spare: that has to succeed, with the content '
            'that a huge workspace gives. Inputs are written by the canonical and by odd '
            'writers, with unknown fields. Others encode the message up to 60 times into '
            'sufficient and too small buffers before further inputs are decoded with the '
            'room that is left, or start anew in the same workspace several times. '
            'Non-trivial: at least 100 bytes of parts.')
    schemas = [('matrix0', 1), ('matrix1', 1), ('matrix2', 1), ('random', 36)]
    cases = 150

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        kind = src.choice(['build', 'decode', 'decode', 'history', 'again'])
        sizes = env.server.sizes(env.program)
        top = model.BASE + sizes[m.full]
        vals = self.value(env, src, m)
        if kind in ('build', 'decode'):
            if kind == 'build':
                op, data = b'V', model.tree(m, vals)
                parts = model.build_need(m, vals, sizes)
            else:
                op, data = b'W', self.written(env, src, m, vals)
                parts = model.decode_need(m, data, sizes)
            room = top + parts
            s = Script().sweep(op, env.program.mindex(m), room, room + 1, 1,
                               room * 3 + 65536, data, **self.place(src))
            ((bad, codes),) = s.run(env.server)
            detail = dict(message=m.full, value=model.show(m, vals), workspace=room,
                          input=data.hex()[:2000] if kind == 'decode' else '')
            if codes.strip('K'):
                raise Violation(f'to {kind} a message fails in a workspace that has room for '
                                f'all its parts ({codes})', **detail)
            size = len(data)
        elif kind == 'history':
            room, size, parts = self.history(env, src, m, vals, top, sizes)
        else:
            room, size, parts = self.again(env, src, m, vals, top, sizes)
        return Case((env.job['index'], kind, m.full, model.tree(m, vals)), parts >= 100,
                    [kind, f'parts:{min(len(str(parts)), 6)} digits'],
                    lambda: f'{kind} {m.full} {model.show(m, vals)[:300]} in {room} bytes')

    def written(self, env, src, m, vals):
        if src.bool(30):
            return model.encode(m, vals)
        return model.AltGen(src, env.mined, unknown=src.choice([0, 10, 50]),
                            redundant=src.bool()).message(m, vals)

    def history(self, env, src, m, vals, top, sizes):
        """Encoding leaves the workspace alone."""
        parts = model.build_need(m, vals, sizes)
        inputs = [self.written(env, src, m, self.value(env, src, m, budget=300))
                  for _ in range(src.int(1, 3))]
        parts += sum(model.decode_need(m, x, sizes) for x in inputs)
        room = top + parts
        n = len(model.encode(m, vals))
        s = Script().new(0, env.program.mindex(m), room, **self.place(src)).build(
            0, model.tree(m, vals))
        count = src.choice([1, 5, 60])
        for _ in range(count):
            s.encode(0, src.choice([n, n, n + 7, n // 2, 0]))
        for x in inputs:
            s.decode(0, x)
        s.free(0)
        ok, built, *got = s.run(env.server)
        detail = dict(message=m.full, value=model.show(m, vals), workspace=room,
                      encodings=count, inputs=[x.hex()[:1000] for x in inputs])
        if not ok or built:
            raise Violation('building fails in a workspace that has room for all parts',
                            **detail)
        for x, (res, _) in zip(inputs, got[count:]):
            if res != len(x):
                raise Violation(f'decoding fails ({res}) after encoding though the workspace '
                                'has room for all parts', **detail)
        return room, n, parts

    def again(self, env, src, m, vals, top, sizes):
        """A workspace that is used for a new message is as good as a fresh one."""
        decode = src.bool()
        data = self.written(env, src, m, vals)
        parts = (model.decode_need(m, data, sizes) if decode
                 else model.build_need(m, vals, sizes))
        room = top + parts
        s = Script().new(0, env.program.mindex(m), room, **self.place(src))
        count = src.int(2, 9)
        for i in range(count):
            if i:
                s.renew(0, env.program.mindex(m))
            if decode:
                s.decode(0, data)
            else:
                s.build(0, model.tree(m, vals))
        got = s.free(0).run(env.server)
        detail = dict(message=m.full, value=model.show(m, vals), workspace=room)
        for ok, res in zip(got[::2], got[1::2]):
            if decode:
                res = res[0] - len(data)
            if not ok or res:
                raise Violation('a workspace that was used before has less room', **detail)
        return room, len(data), parts


# ------------------------------ C22 ------------------------------

SCALE = 8


def split_records(data):
    """The records that a valid serialisation consists of."""
    out, pos, end = [], 0, len(data)
    while pos < end:
        start = pos
        key, pos = model.read_varint(data, pos, end)
        wire = key & 7
        if wire == model.VARINT:
            _, pos = model.read_varint(data, pos, end)
        elif wire == model.LEN:
            size, pos = model.read_varint(data, pos, end)
            pos += size
        else:
            pos += 8 if wire == model.BITS64 else 4
        out.append(data[start:pos])
    return out


class C22(CCheck):
    id = 'C22'
    rule = ('The library and the generated code are built with a counter of executed basic '
            'blocks, of bytes moved by memcpy() and the like, and of stack use. A case '
            'makes two inputs that differ in one dimension by a factor of 8: the number '
            'of records (together or alternating, at any level of nesting), the length of '
            'a string, byte array or packed record, or the depth of nesting. Decoding, and '
            'encoding what was decoded, may take 12 times the work for the bigger one, and '
            'as much stack (8 times for depth). Others decode damaged input and compare '
            'the work with a multiple of the input length, or create messages in a small and '
            'a big workspace, and short and long lists. Non-trivial: at least 1000 bytes '
            '(damaged: 30), or a list.')
    configs = ('count',)
    schemas = [('matrix0', 1), ('matrix1', 1), ('matrix2', 1), ('random', 60)]
    cases = 200

    def prepare(self, env, src):
        super().prepare(env, src)
        env.most = max([len(m.all_fields) for m in env.program.msgs] or [0])

    def route(self, src, m):
        """Fields to follow from m, and the number of those that lead to a cycle."""
        path, seen = [], [m]
        for _ in range(8):
            ways = [f for f in seen[-1].all_fields if model.tname(f) == 'message']
            if not ways:
                break
            f = src.choice(ways)
            path.append(f)
            sub = model.submsg(f)
            if sub in seen:
                return path, seen.index(sub), sub
            seen.append(sub)
        return path, None, seen[-1]

    def wrap(self, path, data):
        for f in reversed(path):
            data = model.record(f.number, model.LEN, data)
        return data

    def content(self, env, src, m, **kw):
        vals = self.valuegen(env, src, budget=src.choice([30, 200]), depth=3, **kw).message(m)
        if src.bool():
            return model.encode(m, vals)
        return model.AltGen(src, env.mined, unknown=src.choice([0, 10, 50])).message(m, vals)

    def pair(self, env, src, m):
        """A small and a big input, and what makes the difference."""
        kind = src.choice(['records', 'records', 'records', 'length', 'depth'])
        path, cycle, end = self.route(src, m)
        if kind == 'depth' and cycle is not None:
            n = src.choice([src.int(3, 6), src.int(6, 40)])
            x = self.content(env, src, end)
            loop = path[cycle:]
            return ('depth', self.wrap(path + loop * n, x),
                    self.wrap(path + loop * (n * SCALE), x), 1)
        if kind == 'length':
            cut = src.below(len(path) + 1)
            at = m if cut == 0 else model.submsg(path[cut - 1])
            ways = [f for f in at.all_fields
                    if model.tname(f) in ('string', 'bytes')
                    or model.is_rep(f) and model.WIRE[model.tname(f)] != model.LEN]
            number = src.choice([f.number for f in ways] + [536870000])
            n = src.choice([1000, 3000, 9000]) // 8 * 8
            return ('length', *[self.wrap(path[:cut], model.record(
                number, model.LEN, b'\x01' * k)) for k in (n, n * SCALE)], 0)
        cut = src.below(len(path) + 1)
        at = m if cut == 0 else model.submsg(path[cut - 1])
        x = split_records(self.content(env, src, at, fill=src.choice([10, 45, 90])))
        if not x:
            x = [model.record(536870000, model.VARINT, b'\x07')]
        while len(x) > 1 and sum(map(len, x)) > 500:
            x = x[:len(x) // 2]
        n = src.choice([1000, 4000]) // sum(map(len, x)) + 8
        how = src.choice(['grouped', 'alternating', 'nested'])
        if how == 'grouped':
            a, b = (b''.join(r * k for r in x) for k in (n, n * SCALE))
        else:
            a, b = (b''.join(x) * k for k in (n, n * SCALE))
        if how == 'nested' and cut:
            f = path[cut - 1]
            one = model.record(f.number, model.LEN, b''.join(x))
            return ('records', self.wrap(path[:cut - 1], one * n),
                    self.wrap(path[:cut - 1], one * (n * SCALE)), 0)
        return ('records', self.wrap(path[:cut], a), self.wrap(path[:cut], b), 0)

    def measure(self, env, src, m, data, valid=True):
        sizes = env.server.sizes(env.program)
        room = model.decode_memory(m, data, sizes)
        s = Script().new(0, env.program.mindex(m), room)
        s.decode(0, data).cost()
        if not valid:
            return s.free(0).run(env.server)[2]
        s.encode(0, 12 * len(data) + 64).cost().free(0)
        ok, (res, _), dcost, (enc, _), ecost = s.run(env.server)
        if res != len(data) or enc < 0:
            raise Violation(f'a valid input is not accepted ({res}) or encoded ({enc})',
                            message=m.full, encoded=hexs(data))
        return dcost, ecost

    def case(self, env, src):
        m = self.pick(env, src)
        if m is None:
            return Case(b'', False)
        k = src.below(10)
        if k < 2:
            return self.damaged(env, src, m)
        if k == 2:
            return self.creation(env, src, m)
        kind, small, big, depth = self.pair(env, src, m)
        one = self.measure(env, src, m, small)
        many = self.measure(env, src, m, big)
        detail = dict(message=m.full, kind=kind, small=hexs(small), small_size=len(small),
                      big_size=len(big), small_costs=one, big_costs=many)
        for what, a, b in zip(('decoding', 'encoding'), one, many):
            self.compare(what, a, b, depth, detail)
        return Case((env.job['index'], small, big), len(small) >= 1000 or depth == 1,
                    [kind], lambda: f'{kind} {m.full} {hexs(small, 60)} {one} {many}')

    def compare(self, what, small, big, depth, detail):
        (work, stack), (work8, stack8) = small, big
        if work8 > work * SCALE * 1.5 + 2000:
            raise Violation(f'the work of {what} grows faster than the message', **detail)
        if stack8 > stack * (SCALE if depth else 1) + 512:
            raise Violation(f'the stack use of {what} grows with the message', **detail)

    def creation(self, env, src, m):
        """New messages and lists."""
        size = env.server.sizes(env.program)[m.full]
        i = env.program.mindex(m)
        lists = [k for k, f in enumerate(m.all_fields) if model.is_rep(f)]
        n = src.int(10, 300)
        rooms = [size + 64 + src.int(10, 3000)]
        rooms.append(rooms[0] * 64)
        each = 16
        s = Script()
        for room in rooms:
            s.new(0, i, room).cost()
        _, one, _, many = s.free(0).run(env.server)
        detail = dict(message=m.full, workspaces=rooms, costs=[one, many])
        if many[0] > one[0] * 1.5 + 500 or many[1] > one[1] + 512:
            raise Violation('the work of creating a message grows with the workspace',
                            **detail)
        if lists:
            k = src.choice(lists)
            f = m.all_fields[k]
            if model.tname(f) == 'message':
                each += env.server.sizes(env.program)[model.submsg(f).full]
            s = Script().new(0, i, size + 128 + each * n * (SCALE + 1))
            s.alloc(0, k, n).cost().alloc(0, k, n * SCALE).cost().free(0)
            _, (a, _), one, (b, _), many = s.run(env.server)
            if a or b:
                raise Violation('an allocation fails with ample room', field=f.name, **detail)
            self.compare(f'allocating {f.name}', one, many, 0,
                         dict(message=m.full, lengths=[n, n * SCALE], costs=[one, many]))
        return Case((env.job['index'], 'new', m.full, n, str(lists)), bool(lists),
                    ['creation'], lambda: f'new {m.full}, list of {n}')

    def damaged(self, env, src, m):
        data, how = any_bytes(self, env, src, m)
        work = self.measure(env, src, m, data, False)[0]
        bound = 20 * (len(data) + 32) * (env.most + 8)
        if work > bound:
            raise Violation('decoding a damaged input takes far more work than its length '
                            'explains', message=m.full, encoded=hexs(data), work=work,
                            bound=bound)
        return Case((env.job['index'], m.full, data), len(data) >= 30, ['any bytes: ' + how],
                    lambda: f'{m.full} {hexs(data, 60)} {work}')
