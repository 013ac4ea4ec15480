"""Reference name resolution: what a type name means in a proto3 file, as protoc
does it. Independent of the code under test.
"""


def pkg_scopes(package):
    """The package and the packages around it, innermost first."""
    parts = package.split('.') if package else []
    return ['.'.join(parts[:i]) for i in range(len(parts), 0, -1)]


class Table:
    """All that may be referred to in a file: its own types and those of the files
    it imports, and the packages of these files.
    """

    def __init__(self, file):
        self.file = file
        self.types = {}
        self.packages = set()
        for f in [file] + list(file.imports):
            for t in list(f.all_enums()) + [m for m in f.all_messages()
                                            if not m.is_entry]:
                self.types.setdefault(t.full, t)
            self.packages.update(pkg_scopes(f.package))

    def scopes(self, message):
        """Innermost first, '' last. message is None for the file's scope."""
        out = []
        while message is not None:
            out.append(message.full)
            message = message.parent
        return out + pkg_scopes(self.file.package) + ['']

    def resolve(self, message, ref):
        """The type ref means inside message, None if there is none."""
        if ref.startswith('.'):
            return self.types.get(ref[1:])
        first, _, rest = ref.partition('.')
        for scope in self.scopes(message):
            base = scope + '.' if scope else ''
            if not rest:
                if base + first in self.types:
                    return self.types[base + first]
            elif base + first in self.types or base + first in self.packages:
                # The first part decides; there is no way back.
                return self.types.get(base + ref)
        return None

    def full_name(self, ref):
        """The type in a package that has exactly this full name."""
        t = self.types.get(ref)
        return t if t is not None and t.file.package else None

    def spellings(self, message, t):
        """All names for t inside message, on which the known finding (full names
        come first) has no influence.
        """
        parts = t.full.split('.')
        out = []
        for i in range(len(parts) - 1, -1, -1):
            ref = '.'.join(parts[i:])
            if self.resolve(message, ref) is t and self.full_name(ref) in (None, t):
                out.append(ref)
        out.append('.' + t.full)
        return out


def fix_refs(files):
    """Give references that mean something else by now their absolute names."""
    for f in files:
        table = Table(f)
        for m in f.all_messages():
            for field in m.all_fields:
                t = field.entry.fields[1].type if field.entry is not None else field.type
                if isinstance(t, str) or m.is_entry:
                    continue
                if table.resolve(m, field.ref) is not t or \
                        table.full_name(field.ref) not in (None, t):
                    field.ref = '.' + t.full
                    if field.entry is not None:
                        field.entry.fields[1].ref = field.ref
