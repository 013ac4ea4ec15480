From 6c8298efa7db304cadb475c62d022123f94fe8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 01/40] fix: report out of memory when decoding repeated
 messages

The decoder returned success with all elements missing if they did not
fit in the workspace.
---
 lib/src/pbtools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 3c3e857..1b5ad64 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2480,6 +2480,8 @@ void pbtools_decode_repeated_inner(
                                  message_init);
 
     if (res != 0) {
+        decoder_abort(decoder_p, PBTOOLS_OUT_OF_MEMORY);
+
         return;
     }
 
-- 
2.43.0


From b50deeded5e712c85cda4a0377367d8b04f9788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 02/40] fix: incomplete last item in packed fixed size fields

A packed length that is not a multiple of the item size made the decoder
write one item past the allocated items, or accept the input and ignore
the trailing bytes.
---
 lib/src/pbtools.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 1b5ad64..81ea941 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1300,7 +1300,8 @@ static void repeated_info_decode_32bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
-        self_p->length += (size / 4);
+        /* Count an incomplete last item as well. Reading it fails. */
+        self_p->length += ((size / 4) + ((size % 4) != 0));
         decoder_seek(decoder_p, size);
         break;
 
@@ -1328,7 +1329,8 @@ static void repeated_info_decode_64bit(struct pbtools_repeated_info_t *self_p,
 
     case PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED:
         size = (int)decoder_read_length_delimited(decoder_p, wire_type);
-        self_p->length += (size / 8);
+        /* Count an incomplete last item as well. Reading it fails. */
+        self_p->length += ((size / 8) + ((size % 8) != 0));
         decoder_seek(decoder_p, size);
         break;
 
-- 
2.43.0


From 3bcfa06745dd5cd5e684327364fece4ff4240800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 03/40] fix: workspace overrun on huge allocations

Sizes from 2 GB and up, as well as negative lengths, were truncated to a
small or negative int and hence accepted.
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 81ea941..08b514d 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -77,13 +77,13 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
                         size_t alignment)
 {
     uintptr_t addr;
-    int left;
+    size_t left;
     size_t rest;
     size_t pad;
 
-    left = (self_p->size - self_p->pos);
+    left = (size_t)(self_p->size - self_p->pos);
 
-    if ((int)size <= left) {
+    if (size <= left) {
         addr = (uintptr_t)&self_p->buf_p[self_p->pos];
         rest = (addr & (alignment - 1));
 
@@ -93,7 +93,7 @@ static void *heap_alloc(struct pbtools_heap_t *self_p,
             pad = (alignment - rest);
             size += pad;
 
-            if ((int)size <= left) {
+            if (size <= left) {
                 addr += pad;
                 self_p->pos += (int)size;
             } else {
-- 
2.43.0


From 36615e7e0bf7c02a700a65cf3b9095ccc5273c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:33 +0000
Subject: [PATCH 04/40] fix: bool varints with the lower 32 bits cleared are
 true

Repeated bools already were.
---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 08b514d..4ff1068 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -1200,7 +1200,7 @@ double pbtools_decoder_read_double(struct pbtools_decoder_t *self_p,
 bool pbtools_decoder_read_bool(struct pbtools_decoder_t *self_p,
                                int wire_type)
 {
-    return (pbtools_decoder_read_int32(self_p, wire_type) != 0);
+    return (pbtools_decoder_read_uint64(self_p, wire_type) != 0);
 }
 
 int pbtools_decoder_read_enum(struct pbtools_decoder_t *self_p,
-- 
2.43.0


From 77f99ab8d65a26c7d6808395d30ef0bffe395f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 05/40] fix: allow encoding into a buffer of exactly the
 encoded size

The first byte of the buffer was never used, and encoding an empty message
into an empty buffer failed.
---
 lib/src/pbtools.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 4ff1068..ac23a0c 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -113,7 +113,7 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
 {
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
-    self_p->pos = ((int)size - 1);
+    self_p->pos = (int)size;
 }
 
 static int encoder_get_result(struct pbtools_encoder_t *self_p)
@@ -121,9 +121,9 @@ static int encoder_get_result(struct pbtools_encoder_t *self_p)
     int length;
 
     if (self_p->pos >= 0) {
-        length = (self_p->size - self_p->pos - 1);
+        length = (self_p->size - self_p->pos);
         memmove(self_p->buf_p,
-                &self_p->buf_p[self_p->pos + 1],
+                &self_p->buf_p[self_p->pos],
                 (size_t)length);
     } else {
         length = self_p->pos;
@@ -147,7 +147,7 @@ static void encoder_write(struct pbtools_encoder_t *self_p,
 {
     if (self_p->pos >= size) {
         self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos + 1], buf_p, (size_t)size);
+        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
-- 
2.43.0


From fbf8e5df534e197d4ec9a8cc441c5e151d95c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 06/40] fix: align the heap header in unaligned workspaces

Accessing it was undefined behaviour.
---
 lib/src/pbtools.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index ac23a0c..4085f59 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -59,6 +59,22 @@ static struct pbtools_heap_t *heap_new(void *buf_p,
                                        size_t size)
 {
     struct pbtools_heap_t *heap_p;
+    size_t rest;
+    size_t pad;
+
+    /* The workspace is often an array of bytes, with any alignment. */
+    rest = ((uintptr_t)buf_p & (alignof(struct pbtools_heap_t) - 1));
+
+    if (rest != 0) {
+        pad = (alignof(struct pbtools_heap_t) - rest);
+
+        if (size < pad) {
+            return (NULL);
+        }
+
+        buf_p = (char *)buf_p + pad;
+        size -= pad;
+    }
 
     if (size >= sizeof(*heap_p)) {
         heap_p = (struct pbtools_heap_t *)buf_p;
-- 
2.43.0


From 5f67cf416047ca1c542e3a1d4d9ae6e51213f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 07/40] fix: signed overflow for error code INT_MIN

---
 lib/src/pbtools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 4085f59..fbb6da9 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -2612,7 +2612,7 @@ const char *pbtools_error_code_to_string(int code)
 {
     const char *string_p;
 
-    if (code < 0) {
+    if ((code < 0) && (code >= -INT_MAX)) {
         code *= -1;
     }
 
-- 
2.43.0


From 7d33e3cd50ce4b975c9f8d7dda134a5a196a0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 08/40] fix: map values with a package in their type

Only the last part of the type was used, so the type was either not found
or another one with the same name.
---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 3437d9c..5f0a30b 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -435,7 +435,7 @@ class Message:
 
     def _load_map(self, tokens, sub_namespace):
         key_type = tokens[2]
-        value_type = load_message_type(tokens[4])[-1]
+        value_type = load_message_type(tokens[4])
         name = tokens[6]
         field_number = int(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
@@ -443,7 +443,7 @@ class Message:
             'message',
             map_type, '{', [
                 ('field', [[], [[], [key_type]], 'key', '=', '1', [], ';']),
-                ('field', [[], [[], [value_type]], 'value', '=', '2', [], ';'])
+                ('field', [[], [[], value_type], 'value', '=', '2', [], ';'])
             ], '}'
         ]
         self.messages.append(Message(map_message_tokens, sub_namespace))
-- 
2.43.0


From 23f2285dc5d4b7513a302bdd6c205d85e514ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 09/40] fix: include of imports from sub-directories

Generated files are named after the file name only.
---
 pbtools/c_source/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 3881cef..8427256 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1295,7 +1295,8 @@ class Generator:
         includes = []
 
         for imported in self.parsed.imports:
-            name = camel_to_snake_case(os.path.splitext(imported.path)[0])
+            basename = os.path.basename(imported.path)
+            name = camel_to_snake_case(os.path.splitext(basename)[0])
             includes.append(f'#include "{name}.h"')
 
         includes = '\n'.join(includes)
-- 
2.43.0


From 6941857310074f3177da67f31fcbfe90310b1963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 10/40] fix: undefined types and enums in the file's own
 package

Types in the file's own package, or in a file without package, were never
reported as undefined. Enums given with their full name in a package with
dots were taken for messages, as were nested types with the name of a type
in an imported file.
---
 pbtools/parser.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 5f0a30b..7762a9a 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -703,6 +703,17 @@ class Proto:
             field.type_kind = 'message'
 
     def is_field_enum(self, field):
+        if field.package == self._package:
+            path = '.'.join(field.namespace + [field.type]).split('.')
+
+            if self._package is not None:
+                path = path[len(self._package.split('.')):]
+
+            type = self.lookup_type(path, self._enums, self._messages)
+
+            if type is not None:
+                return isinstance(type, Enum)
+
         for imported in self._imports:
             if field.package == imported.package:
                 if field.type in imported.enums:
@@ -710,14 +721,6 @@ class Proto:
                 elif field.type in imported.messages:
                     return False
 
-        if field.package == self._package:
-            offset = len(self.namespace_base())
-            type = self.lookup_type(field.namespace[offset:] + [field.type],
-                                    self._enums,
-                                    self._messages)
-
-            return isinstance(type, Enum)
-
         raise Error(f"'{field.type}' is not defined.")
 
     def lookup_type(self, path, enums, messages):
-- 
2.43.0


From 482405cc888a8c67c5c42e0707665debd303498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 11/40] fix: define repeated structs before they are used

Messages with repeated fields of messages defined later in the header, for
example if two messages have repeated fields of each other, did not
compile.
---
 pbtools/c_source/__init__.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 8427256..39c5b99 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -698,6 +698,7 @@ class Generator:
         self.parsed = parsed
         self.header_name = header_name
         self.enums_upper_case = options.enums_upper_case
+        self.repeated_structs = {}
 
     @property
     def messages(self):
@@ -816,7 +817,24 @@ class Generator:
         return members
 
     def generate_repeated_struct(self, message):
-        return REPEATED_MESSAGE_STRUCT_FMT.format(message=message)
+        """Generate the repeated struct of given message, and of all messages
+        it has repeated fields of, unless already generated.
+
+        """
+
+        structs = [self.repeated_structs.pop(message.full_name_snake_case, None)]
+
+        for field in message.repeated_fields:
+            structs.append(
+                self.repeated_structs.pop(field.full_type_snake_case, None))
+
+        return '\n\n'.join(struct for struct in structs if struct is not None)
+
+    def find_repeated_structs(self, messages):
+        for message in messages:
+            self.repeated_structs[message.full_name_snake_case] = (
+                REPEATED_MESSAGE_STRUCT_FMT.format(message=message))
+            self.find_repeated_structs(message.messages)
 
     def generate_enum_members(self, enum):
         lines = []
@@ -891,6 +909,7 @@ class Generator:
 
     def generate_types(self):
         types = []
+        self.find_repeated_structs(self.messages)
 
         for enum in self.parsed.enums:
             types += self.generate_enum_type(enum)
-- 
2.43.0


From 3d79767cfd511e90106ffca96c13ef6a0fb1fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 12/40] fix: comment markers in strings are not comments

For example a URL as option value could not be parsed.
---
 pbtools/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 7762a9a..ec0a706 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -65,19 +65,22 @@ def ignore_comments(string):
 
     comments = [
         (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n)', string)
+        for mo in re.finditer(r'(/\*|\*/|//|\n|")', string)
     ]
 
     comments.sort()
 
     in_single_line_comment = False
     in_multi_line_comment = False
+    string_end = 0
     start_offset = 0
     non_comment_offset = 0
     chunks = []
 
     for offset, kind in comments:
-        if in_single_line_comment:
+        if offset < string_end:
+            continue
+        elif in_single_line_comment:
             if kind == '\n':
                 in_single_line_comment = False
                 chunks.append(' ' * (offset - start_offset))
@@ -90,6 +93,11 @@ def ignore_comments(string):
                 offset += 2
                 chunks.append(' ' * (offset - start_offset))
                 non_comment_offset = offset
+        elif kind == '"':
+            mo = re.compile(r'"(\\.|[^"\\\n])*"').match(string, offset)
+
+            if mo:
+                string_end = mo.end()
         elif kind == '//':
             in_single_line_comment = True
             start_offset = offset
-- 
2.43.0


From 4424d91a6140d86a755704cab83a1de1fd4fbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 13/40] fix: octal and hexadecimal numbers and option values

Hexadecimal numbers failed, octal numbers were read as decimal, and only
the first digit of integer option values and the first part of identifier
option values were used.
---
 pbtools/parser.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index ec0a706..04b7e7d 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -120,6 +120,21 @@ def ignore_comments(string):
     return ''.join(chunks)
 
 
+def load_integer(value):
+    """Load given decimal, octal or hexadecimal integer.
+
+    """
+
+    mo = re.match(r'(-?)0([0-7]+)$', value)
+
+    if mo:
+        return int(mo.group(1) + mo.group(2), 8)
+    elif re.match(r'-?[0-9]+$', value):
+        return int(value, 10)
+    else:
+        return int(value, 16)
+
+
 class Parser(textparser.Parser):
 
     KEYWORDS = [
@@ -313,9 +328,9 @@ class Option:
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-            value = value[0]
+            value = '.'.join(value)
         elif kind == 'integer':
-            value = int(value[0])
+            value = load_integer(value)
 
         self.kind = kind
         self.value = value
@@ -325,7 +340,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = int(tokens[2])
+        self.field_number = load_integer(tokens[2])
 
     @property
     def name_snake_case(self):
@@ -360,7 +375,7 @@ class OneofField(Field):
     def __init__(self, tokens):
         super().__init__(load_message_type(tokens[0]),
                          tokens[1],
-                         int(tokens[3]))
+                         load_integer(tokens[3]))
 
 
 class Oneof:
@@ -404,7 +419,7 @@ class MessageField(Field):
 
         return cls(load_message_type(tokens[1]),
                    tokens[2],
-                   int(tokens[4]),
+                   load_integer(tokens[4]),
                    repeated,
                    optional)
 
@@ -445,7 +460,7 @@ class Message:
         key_type = tokens[2]
         value_type = load_message_type(tokens[4])
         name = tokens[6]
-        field_number = int(tokens[8])
+        field_number = load_integer(tokens[8])
         map_type = f'PbtoolsMap{name.title()}'
         map_message_tokens = [
             'message',
-- 
2.43.0


From 27d3e4dd6572cb5ec1c2bfe84f175da316c14971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 14/40] fix: options in services, and method types with a
 package

Only the first part of the types was used.
---
 pbtools/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 04b7e7d..269de0e 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -517,9 +517,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = tokens[4][1][0]
+        self.request_type = '.'.join(load_message_type(tokens[4]))
         self.request_stream = bool(tokens[3])
-        self.response_type = tokens[9][1][0]
+        self.response_type = '.'.join(load_message_type(tokens[9]))
         self.response_stream = bool(tokens[8])
 
 
@@ -534,7 +534,7 @@ class Service:
 
             if kind == 'rpc':
                 self.rpcs.append(Rpc(item))
-            elif kind == ';':
+            elif kind in ['option', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From 91b22d29aca89887f3c55f9738cb7099dcd1b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 15/40] fix: empty statements in enums and oneofs

---
 pbtools/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 269de0e..21713f2 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -355,7 +355,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(EnumField(item))
+            if item != ';':
+                self.fields.append(EnumField(item))
 
     @property
     def namespace_snake_case(self):
@@ -386,7 +387,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            self.fields.append(OneofField(item))
+            if item != ';':
+                self.fields.append(OneofField(item))
 
     @property
     def full_name(self):
-- 
2.43.0


From de62c0857ea57b363dde4a2325665d4b44967473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 16/40] fix: imports must end with a semicolon

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 21713f2..a21b30d 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -206,7 +206,8 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING')
+                           'STRING',
+                           ';')
 
         # Package.
         package = Sequence('package', full_ident, ';')
-- 
2.43.0


From f67ff3e239d36ceb33405b51ef4a922e1204f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 17/40] fix: ignore options and reserved fields everywhere

Options in messages, enums, oneofs and oneof fields, and reserved values in
enums, are valid but were syntax errors. Reserved fields must end with a
semicolon.
---
 pbtools/parser.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a21b30d..465e20b 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -215,33 +215,40 @@ class Parser(textparser.Parser):
         # Option.
         option = Sequence('option', option_name, '=', constant, ';')
 
+        # Reserved.
+        field_number_range = Sequence('INT',
+                                      Optional(Sequence('to',
+                                                        choice('INT', 'max'))))
+        reserved = Sequence('reserved',
+                            choice(DelimitedList(field_number_range),
+                                   DelimitedList('STRING')),
+                            ';')
+
         # Enum.
         enum_field = Sequence(ident, '=', 'INT', options, ';')
         enum = Sequence('enum',
                         ident,
                         '{',
-                        ZeroOrMore(choice(enum_field, empty_statement)),
+                        ZeroOrMore(choice(option,
+                                          reserved,
+                                          Tag('field', enum_field),
+                                          empty_statement)),
                         '}')
 
         # Oneof.
-        oneof_field = Sequence(message_type, ident, '=', 'INT', ';')
+        oneof_field = Sequence(message_type, ident, '=', 'INT', options, ';')
         oneof = Sequence('oneof',
                          ident,
                          '{',
-                         ZeroOrMore(choice(oneof_field, empty_statement)),
+                         ZeroOrMore(choice(option,
+                                           Tag('field', oneof_field),
+                                           empty_statement)),
                          '}')
 
         # Map.
         map_field = Sequence('map', '<', ident, ',', message_type, '>',
                              ident, '=', 'INT', options, ';')
 
-        # Reserved.
-        field_number_range = Sequence('INT',
-                                      Optional(Sequence('to',
-                                                        choice('INT', 'max'))))
-        reserved = Sequence('reserved', choice(DelimitedList(field_number_range),
-                                               DelimitedList('STRING')))
-
         # Message.
         field = Sequence(Optional(choice('repeated', 'optional')),
                          message_type, ident, '=', 'INT', options, ';')
@@ -249,7 +256,8 @@ class Parser(textparser.Parser):
         message <<= Sequence('message',
                              ident,
                              '{',
-                             ZeroOrMore(choice(Tag('field', field),
+                             ZeroOrMore(choice(option,
+                                           Tag('field', field),
                                                enum,
                                                message,
                                                oneof,
@@ -356,8 +364,8 @@ class Enum:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(EnumField(item))
+            if item[0] == 'field':
+                self.fields.append(EnumField(item[1]))
 
     @property
     def namespace_snake_case(self):
@@ -388,8 +396,8 @@ class Oneof:
         self.namespace = namespace
 
         for item in tokens[3]:
-            if item != ';':
-                self.fields.append(OneofField(item))
+            if item[0] == 'field':
+                self.fields.append(OneofField(item[1]))
 
     @property
     def full_name(self):
@@ -454,7 +462,7 @@ class Message:
                 self.oneofs.append(Oneof(item, sub_namespace))
             elif kind == 'map':
                 self._load_map(item, sub_namespace)
-            elif kind in ['reserved', ';']:
+            elif kind in ['option', 'reserved', ';']:
                 pass
             else:
                 raise InternalError(kind)
-- 
2.43.0


From f43a0fe6eba07f1fae33693a77da974260131fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 18/40] fix: files that end too early are rejected

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 465e20b..1a62eeb 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -291,7 +291,8 @@ class Parser(textparser.Parser):
                                                package,
                                                option,
                                                top_level_def,
-                                               empty_statement)))
+                                               empty_statement)),
+                         '__EOF__')
 
         return proto
 
-- 
2.43.0


From a444c5ef9e161aceb6cc350d2138f33921e464ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 19/40] fix: line numbers in errors after multi line comments

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 1a62eeb..5b5902d 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -91,7 +91,7 @@ def ignore_comments(string):
             elif kind == '*/':
                 in_multi_line_comment = False
                 offset += 2
-                chunks.append(' ' * (offset - start_offset))
+                chunks.append(re.sub(r'[^\n]', ' ', string[start_offset:offset]))
                 non_comment_offset = offset
         elif kind == '"':
             mo = re.compile(r'"(\\.|[^"\\\n])*"').match(string, offset)
-- 
2.43.0


From c0af0560c33bfd96c9f2ddb9c886ca78e8e3730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 20/40] fix: strings end at the line end and may end with a
 backslash

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 5b5902d..77cf942 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -167,7 +167,7 @@ class Parser(textparser.Parser):
             ('IDENT',         r'[a-zA-Z]\w*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\"|[^"])*?"'),
+            ('STRING',        r'"(\\[^\n]|[^"\\\n])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
-- 
2.43.0


From e92d50347d453f9102ccef175bfc925b0b4dc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:01 +0000
Subject: [PATCH 21/40] fix: reject identifiers with other than ASCII
 characters

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 77cf942..cb158f4 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -164,7 +164,7 @@ class Parser(textparser.Parser):
     def token_specs(self):
         return [
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
-            ('IDENT',         r'[a-zA-Z]\w*'),
+            ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
             ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
             ('PROTO3',        r'"proto3"'),
             ('STRING',        r'"(\\[^\n]|[^"\\\n])*"'),
-- 
2.43.0


From 5d38a4d3d7eb079a4e453831f0ccd191b298fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 22/40] fix: "proto3" is a string like any other but in the
 syntax statement

---
 pbtools/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index cb158f4..77d9b1a 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -190,10 +190,11 @@ class Parser(textparser.Parser):
         ident = choice('IDENT', *self.KEYWORDS)
         full_ident = DelimitedList(ident, '.')
         empty_statement = ';'
+        string = choice('STRING', 'PROTO3')
         message_type = Sequence(Optional('.'), full_ident)
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
-                          Tag('string', 'STRING'),
+                          Tag('string', string),
                           Tag('integer', 'INT'))
         option_name = Sequence(choice(ident,
                                       Sequence('(', full_ident, ')')),
@@ -206,7 +207,7 @@ class Parser(textparser.Parser):
         # Import.
         import_ = Sequence('import',
                            Optional(choice('weak', 'public')),
-                           'STRING',
+                           string,
                            ';')
 
         # Package.
@@ -221,7 +222,7 @@ class Parser(textparser.Parser):
                                                         choice('INT', 'max'))))
         reserved = Sequence('reserved',
                             choice(DelimitedList(field_number_range),
-                                   DelimitedList('STRING')),
+                                   DelimitedList(string)),
                             ';')
 
         # Enum.
-- 
2.43.0


From 8c57b184f1f469e8bfcbc885f0ffdb1182b84696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:22 +0000
Subject: [PATCH 23/40] fix: empty statements in rpcs

---
 pbtools/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 77d9b1a..f85554b 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -275,7 +275,8 @@ class Parser(textparser.Parser):
                        'returns',
                        '(', Optional('stream'), message_type, ')',
                        choice(Sequence('{',
-                                       ZeroOrMore(option),
+                                       ZeroOrMore(choice(option,
+                                                         empty_statement)),
                                        '}'),
                               ';'))
         service = Sequence('service',
-- 
2.43.0


From 9f81ecb512b63690d5efd9925e47c7de54fcb690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 24/40] fix: resolve nested, relative and absolute type names

Type references like Outer.Inner, pkg.Outer.Inner, packages relative to
the enclosing one and names with a leading dot were rejected or bound to
the wrong type.
---
 pbtools/parser.py | 192 ++++++++++++++++++++++++----------------------
 1 file changed, 101 insertions(+), 91 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index f85554b..c1bf19d 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -531,9 +531,9 @@ class Rpc:
 
     def __init__(self, tokens):
         self.name = tokens[1]
-        self.request_type = '.'.join(load_message_type(tokens[4]))
+        self.request_type = '.'.join(tokens[4][1])
         self.request_stream = bool(tokens[3])
-        self.response_type = '.'.join(load_message_type(tokens[9]))
+        self.response_type = '.'.join(tokens[9][1])
         self.response_stream = bool(tokens[8])
 
 
@@ -565,6 +565,9 @@ class ImportedProto:
 
         # ToDo: Public imports should be found as well.
         self.package = load_package(tree)
+        namespace = load_namespace(self.package)
+        self.types = find_types(load_enums(tree, namespace),
+                                load_messages(tree, namespace))
         self.enums = [
             tokens[1]
             for tokens in tree[1].get('enum', [])
@@ -595,8 +598,8 @@ class Proto:
         self._services = load_services(tree)
         self._enums = load_enums(tree, namespace)
         self.messages_stack = []
+        self.load_types()
         self.resolve_messages_fields_types()
-        self.resolve_messages_fields_type_kinds()
         self._messages = self.sort_messages_by_usage(self._messages)
 
     @property
@@ -655,10 +658,26 @@ class Proto:
         return type_names
 
     def namespace_base(self):
-        if self._package is None:
-            return []
-        else:
-            return [self._package]
+        return load_namespace(self._package)
+
+    def load_types(self):
+        """Load all types, and packages, that may be used in this file.
+
+        """
+
+        self.types = {}
+        self.packages = set()
+
+        for proto in self._imports + [self]:
+            if proto is self:
+                types = find_types(self._enums, self._messages)
+            else:
+                types = proto.types
+
+            for type in types:
+                self.types[type.full_name] = (type, proto.package)
+
+            self.packages.update(package_scopes(proto.package))
 
     def resolve_messages_fields_types(self):
         for message in self._messages:
@@ -668,9 +687,6 @@ class Proto:
         self.messages_stack.append(message)
 
         for field in message.fields:
-            if field.type in SCALAR_VALUE_TYPES:
-                continue
-
             self.resolve_field_type(field)
 
         for sub_message in message.messages:
@@ -678,106 +694,61 @@ class Proto:
 
         for oneof in message.oneofs:
             for field in oneof.fields:
-                if field.type in SCALAR_VALUE_TYPES:
-                    continue
-
                 self.resolve_field_type(field)
 
         self.messages_stack.pop()
 
     def resolve_field_type(self, field):
-        if field.namespace:
-            return
-
-        for message in reversed(self.messages_stack):
-            if field.type in message.type_names:
-                namespace = message.namespace + [message.name]
-                package = self._package
-                break
+        if field.full_type in SCALAR_VALUE_TYPES:
+            field.type_kind = 'scalar-value-type'
         else:
-            if field.type in self.type_names:
-                namespace = self.namespace_base()
-                package = self._package
-            else:
-                for imported in self._imports:
-                    if imported.package == self._package:
-                        if field.type in imported.type_names:
-                            namespace = self.namespace_base()
-                            package = self._package
-                            break
-                else:
-                    namespace = []
-                    package = None
-
-        field.namespace = namespace
-        field.package = package
-
-    def resolve_messages_fields_type_kinds(self):
-        for message in self._messages:
-            self.resolve_message_fields_type_kinds(message)
+            type, package = self.find_type(field.full_type)
 
-    def resolve_message_fields_type_kinds(self, message):
-        self.messages_stack.append(message)
-
-        for field in message.fields:
-            self.resolve_field_type_kind(field)
+            if type is None:
+                raise Error(f"'{field.type}' is not defined.")
 
-        for sub_message in message.messages:
-            self.resolve_message_fields_type_kinds(sub_message)
+            field.namespace = type.namespace
+            field.package = package
 
-        for oneof in message.oneofs:
-            for field in oneof.fields:
-                self.resolve_field_type_kind(field)
+            if isinstance(type, Enum):
+                field.type_kind = 'enum'
+            else:
+                field.type_kind = 'message'
 
-        self.messages_stack.pop()
+    def find_type(self, name):
+        """Find the type with given name, in the innermost scope that has the
+        first part of it. Names that are full names, with package, are
+        always that.
 
-    def resolve_field_type_kind(self, field):
-        if field.type in SCALAR_VALUE_TYPES:
-            field.type_kind = 'scalar-value-type'
-        elif self.is_field_enum(field):
-            field.type_kind = 'enum'
-        else:
-            field.type_kind = 'message'
+        """
 
-    def is_field_enum(self, field):
-        if field.package == self._package:
-            path = '.'.join(field.namespace + [field.type]).split('.')
+        not_found = (None, None)
 
-            if self._package is not None:
-                path = path[len(self._package.split('.')):]
+        if name.startswith('.'):
+            return self.types.get(name[1:], not_found)
 
-            type = self.lookup_type(path, self._enums, self._messages)
+        type, package = self.types.get(name, not_found)
 
-            if type is not None:
-                return isinstance(type, Enum)
+        if package is not None:
+            return type, package
 
-        for imported in self._imports:
-            if field.package == imported.package:
-                if field.type in imported.enums:
-                    return True
-                elif field.type in imported.messages:
-                    return False
+        first = name.split('.')[0]
+        scopes = [message.full_name for message in reversed(self.messages_stack)]
+        scopes += package_scopes(self._package)
 
-        raise Error(f"'{field.type}' is not defined.")
+        for scope in scopes + ['']:
+            prefix = f'{scope}.' if scope else ''
+            type, _ = self.types.get(prefix + first, not_found)
 
-    def lookup_type(self, path, enums, messages):
-        name = path[0]
-        rest = path[1:]
+            if name != first and prefix + first in self.packages:
+                found = True
+            else:
+                found = (type is not None)
 
-        if rest:
-            for message in messages:
-                if message.name == name:
-                    return self.lookup_type(rest,
-                                            message.enums,
-                                            message.messages)
-        else:
-            for enum in enums:
-                if enum.name == name:
-                    return enum
+            if found:
+                return self.types.get(prefix + name, not_found)
 
-            for message in messages:
-                if message.name == name:
-                    return message
+        return not_found
 
     def sort_messages_by_usage(self, messages):
         reversed_sorted_messages = []
@@ -800,7 +771,11 @@ class Proto:
 
 
 def load_message_type(tokens):
-    return tokens[1]
+    """The parts of the name, the first one empty if it starts with a dot.
+
+    """
+
+    return [''] * len(tokens[0]) + tokens[1]
 
 
 def load_package(tokens):
@@ -810,6 +785,41 @@ def load_package(tokens):
         return None
 
 
+def load_namespace(package):
+    if package is None:
+        return []
+    else:
+        return [package]
+
+
+def package_scopes(package):
+    """Given package and the packages it is in, innermost first.
+
+    """
+
+    scopes = []
+
+    while package:
+        scopes.append(package)
+        package = package.rpartition('.')[0]
+
+    return scopes
+
+
+def find_types(enums, messages):
+    """Find given types and all types nested in them.
+
+    """
+
+    types = list(enums)
+
+    for message in messages:
+        types.append(message)
+        types += find_types(message.enums, message.messages)
+
+    return types
+
+
 def load_imports(tokens, import_paths):
     return [
         ImportedProto(imported, import_paths)
-- 
2.43.0


From 256361c5d3502fc28d1c2adf7b1ea1c3a2519ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:54 +0000
Subject: [PATCH 25/40] fix: enums nested in a message further down

A member whose type is an enum nested in a message defined later gave
code that does not compile.
---
 pbtools/c_source/__init__.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 39c5b99..7f00cba 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -699,6 +699,7 @@ class Generator:
         self.header_name = header_name
         self.enums_upper_case = options.enums_upper_case
         self.repeated_structs = {}
+        self.enums = {}
 
     @property
     def messages(self):
@@ -836,6 +837,13 @@ class Generator:
                 REPEATED_MESSAGE_STRUCT_FMT.format(message=message))
             self.find_repeated_structs(message.messages)
 
+    def find_enums(self, enums, messages):
+        for enum in enums:
+            self.enums[enum.full_name] = enum
+
+        for message in messages:
+            self.find_enums(message.enums, message.messages)
+
     def generate_enum_members(self, enum):
         lines = []
 
@@ -850,6 +858,13 @@ class Generator:
         return ',\n'.join(lines)
 
     def generate_enum_type(self, enum):
+        """Generate given enum, unless already generated.
+
+        """
+
+        if self.enums.pop(enum.full_name, None) is None:
+            return []
+
         return [
             ENUM_FMT.format(full_name=enum.full_name,
                             name=enum.full_name_snake_case,
@@ -886,6 +901,25 @@ class Generator:
 
         return ['\n'.join(types)]
 
+    def generate_member_enum_types(self, message):
+        """Generate all enums in this file that given message has members of,
+        unless already generated. They may be defined in messages
+        further down.
+
+        """
+
+        types = []
+        fields = [field for field in message.fields if not field.repeated]
+
+        for oneof in message.oneofs:
+            fields += oneof.fields
+
+        for field in fields:
+            if field.full_type in self.enums:
+                types += self.generate_enum_type(self.enums[field.full_type])
+
+        return types
+
     def generate_message_types(self, message):
         types = []
 
@@ -898,6 +932,7 @@ class Generator:
         for oneof in message.oneofs:
             types += self.generate_oneof_type(oneof)
 
+        types += self.generate_member_enum_types(message)
         types += [
             MESSAGE_STRUCT_FMT.format(
                 message=message,
@@ -910,6 +945,7 @@ class Generator:
     def generate_types(self):
         types = []
         self.find_repeated_structs(self.messages)
+        self.find_enums(self.parsed.enums, self.messages)
 
         for enum in self.parsed.enums:
             types += self.generate_enum_type(enum)
-- 
2.43.0


From eb898c16a7bf42a94cae5688d1ce239cec4871e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 26/40] fix: error positions inside delimited lists

An error in an item after a delimiter was reported at the delimiter.
---
 pbtools/parser.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index c1bf19d..ca19a51 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -8,7 +8,6 @@ from textparser import choice
 from textparser import Optional
 from textparser import Forward
 from textparser import Tag
-from textparser import DelimitedList
 from textparser import ParseError
 from .errors import Error
 
@@ -135,6 +134,23 @@ def load_integer(value):
         return int(value, 16)
 
 
+class DelimitedList(textparser.DelimitedList):
+    """Also when there is an error in an item after a delimiter, the error
+    position is where that error is, and not at the delimiter.
+
+    """
+
+    def match(self, tokens):
+        matched = super().match(tokens)
+
+        if matched is not textparser.MISMATCH:
+            tokens.save()
+            Sequence(self._delim, self._pattern).match(tokens)
+            tokens.mark_max_restore()
+
+        return matched
+
+
 class Parser(textparser.Parser):
 
     KEYWORDS = [
-- 
2.43.0


From 24c81c0e906a6c0971980692e04213109f370499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 27/40] fix: workspaces above INT_MAX bytes

---
 lib/src/pbtools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index fbb6da9..2b11d0c 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -76,6 +76,11 @@ static struct pbtools_heap_t *heap_new(void *buf_p,
         size -= pad;
     }
 
+    /* Memory past this is never used. */
+    if (size > INT_MAX) {
+        size = INT_MAX;
+    }
+
     if (size >= sizeof(*heap_p)) {
         heap_p = (struct pbtools_heap_t *)buf_p;
         heap_p->buf_p = buf_p;
-- 
2.43.0


From 4ec1678f02c15e69396c3d55815955ac9c5b19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 28/40] fix: encode buffers above INT_MAX bytes

---
 lib/src/pbtools.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 2b11d0c..6fc052c 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -132,6 +132,11 @@ static void encoder_init(struct pbtools_encoder_t *self_p,
                          uint8_t *buf_p,
                          size_t  size)
 {
+    /* The result is an int, so no more than this can be encoded. */
+    if (size > INT_MAX) {
+        size = INT_MAX;
+    }
+
     self_p->buf_p = buf_p;
     self_p->size = (int)size;
     self_p->pos = (int)size;
-- 
2.43.0


From 123f56de5433d2a1281346c6e6df26525fdbbc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 29/40] fix: strings and bytes too long for an int

---
 lib/src/pbtools.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 6fc052c..956f48c 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -169,11 +169,11 @@ static void encoder_abort(struct pbtools_encoder_t *self_p,
 
 static void encoder_write(struct pbtools_encoder_t *self_p,
                           uint8_t *buf_p,
-                          int size)
+                          size_t size)
 {
-    if (self_p->pos >= size) {
-        self_p->pos -= size;
-        memcpy(&self_p->buf_p[self_p->pos], buf_p, (size_t)size);
+    if ((self_p->pos >= 0) && ((size_t)self_p->pos >= size)) {
+        self_p->pos -= (int)size;
+        memcpy(&self_p->buf_p[self_p->pos], buf_p, size);
     } else {
         encoder_abort(self_p, PBTOOLS_ENCODE_BUFFER_FULL);
     }
@@ -193,7 +193,7 @@ static void encoder_write_varint(struct pbtools_encoder_t *self_p,
     } while (value > 0);
 
     buf[pos - 1] &= 0x7f;
-    encoder_write(self_p, &buf[0], pos);
+    encoder_write(self_p, &buf[0], (size_t)pos);
 }
 
 static void encoder_write_tag(struct pbtools_encoder_t *self_p,
@@ -451,7 +451,7 @@ void pbtools_encoder_write_string(struct pbtools_encoder_t *self_p,
     length = strlen(value_p);
 
     if (length > 0) {
-        encoder_write(self_p, (uint8_t *)value_p, (int)length);
+        encoder_write(self_p, (uint8_t *)value_p, length);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -464,7 +464,7 @@ void pbtools_encoder_write_bytes(struct pbtools_encoder_t *self_p,
                                  struct pbtools_bytes_t *value_p)
 {
     if (value_p->size > 0) {
-        encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+        encoder_write(self_p, value_p->buf_p, value_p->size);
         encoder_write_tagged_varint(self_p,
                                     field_number,
                                     PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -602,7 +602,7 @@ void pbtools_encoder_write_string_always(struct pbtools_encoder_t *self_p,
     size_t length;
 
     length = strlen(value_p);
-    encoder_write(self_p, (uint8_t *)value_p, (int)length);
+    encoder_write(self_p, (uint8_t *)value_p, length);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -613,7 +613,7 @@ void pbtools_encoder_write_bytes_always(struct pbtools_encoder_t *self_p,
                                         int field_number,
                                         struct pbtools_bytes_t *value_p)
 {
-    encoder_write(self_p, value_p->buf_p, (int)value_p->size);
+    encoder_write(self_p, value_p->buf_p, value_p->size);
     encoder_write_tagged_varint_always(self_p,
                                        field_number,
                                        PBTOOLS_WIRE_TYPE_LENGTH_DELIMITED,
@@ -896,7 +896,7 @@ void pbtools_encoder_write_repeated_string(
         length = strlen(repeated_p->items_pp[i]);
         encoder_write(self_p,
                       (uint8_t *)repeated_p->items_pp[i],
-                      (int)length);
+                      length);
         encoder_write_length_delimited(self_p, field_number, length);
     }
 }
@@ -911,7 +911,7 @@ void pbtools_encoder_write_repeated_bytes(
     for (i = repeated_p->length - 1; i >= 0; i--) {
         encoder_write(self_p,
                       repeated_p->items_p[i].buf_p,
-                      (int)repeated_p->items_p[i].size);
+                      repeated_p->items_p[i].size);
         encoder_write_length_delimited(self_p,
                                        field_number,
                                        repeated_p->items_p[i].size);
-- 
2.43.0


From 6fd21b80e6497db17fd40eeb0d316eaaf21d09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 30/40] fix: encoded messages above INT_MAX bytes

---
 lib/src/pbtools.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/pbtools.c b/lib/src/pbtools.c
index 956f48c..29ea92e 100644
--- a/lib/src/pbtools.c
+++ b/lib/src/pbtools.c
@@ -924,9 +924,16 @@ static void decoder_init(struct pbtools_decoder_t *self_p,
                          struct pbtools_heap_t *heap_p)
 {
     self_p->buf_p = buf_p;
-    self_p->size = (int)size;
-    self_p->pos = 0;
     self_p->heap_p = heap_p;
+
+    /* The result is an int, so no more than this can be decoded. */
+    if (size > INT_MAX) {
+        self_p->size = -PBTOOLS_LENGTH_DELIMITED_OVERFLOW;
+        self_p->pos = -PBTOOLS_LENGTH_DELIMITED_OVERFLOW;
+    } else {
+        self_p->size = (int)size;
+        self_p->pos = 0;
+    }
 }
 
 static int decoder_get_result(struct pbtools_decoder_t *self_p)
-- 
2.43.0


From 2a0ace869f2f7fb2258052d9cf3e57d35018ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 31/40] fix: reject numbers with a leading zero that are not
 octal

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index ca19a51..24c1cce 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -181,7 +181,7 @@ class Parser(textparser.Parser):
         return [
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
             ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
-            ('INT',           r'-?(0[xX][a-fA-F0-9]+|[0-9]+)'),
+            ('INT',           r'-?(0[xX][a-fA-F0-9]+|0[0-7]*(?![0-9])|[1-9][0-9]*)'),
             ('PROTO3',        r'"proto3"'),
             ('STRING',        r'"(\\[^\n]|[^"\\\n])*"'),
             ('DOT',      '.', r'\.'),
-- 
2.43.0


From 19798443cf63cc45f2f4ba45a5600dd195aa0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 32/40] fix: minus signs are tokens, and not part of field
 numbers

---
 pbtools/parser.py | 50 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 24c1cce..53478c8 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -124,16 +124,27 @@ def load_integer(value):
 
     """
 
-    mo = re.match(r'(-?)0([0-7]+)$', value)
-
-    if mo:
-        return int(mo.group(1) + mo.group(2), 8)
-    elif re.match(r'-?[0-9]+$', value):
+    if re.match(r'0[0-7]+$', value):
+        return int(value, 8)
+    elif re.match(r'[0-9]+$', value):
         return int(value, 10)
     else:
         return int(value, 16)
 
 
+def load_signed_integer(tokens):
+    """Load given integer with an optional minus sign in front of it.
+
+    """
+
+    value = load_integer(tokens[1])
+
+    if tokens[0]:
+        value = -value
+
+    return value
+
+
 class DelimitedList(textparser.DelimitedList):
     """Also when there is an error in an item after a delimiter, the error
     position is where that error is, and not at the delimiter.
@@ -181,12 +192,13 @@ class Parser(textparser.Parser):
         return [
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
             ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
-            ('INT',           r'-?(0[xX][a-fA-F0-9]+|0[0-7]*(?![0-9])|[1-9][0-9]*)'),
+            ('INT',           r'0[xX][a-fA-F0-9]+|0[0-7]*(?![0-9])|[1-9][0-9]*'),
             ('PROTO3',        r'"proto3"'),
             ('STRING',        r'"(\\[^\n]|[^"\\\n])*"'),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
+            ('MINUS',    '-', r'-'),
             ('SCOLON',   ';', r';'),
             ('LBRACE',   '{', r'{'),
             ('RBRACE',   '}', r'}'),
@@ -207,11 +219,12 @@ class Parser(textparser.Parser):
         full_ident = DelimitedList(ident, '.')
         empty_statement = ';'
         string = choice('STRING', 'PROTO3')
+        signed_integer = Sequence(Optional('-'), 'INT')
         message_type = Sequence(Optional('.'), full_ident)
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
                           Tag('string', string),
-                          Tag('integer', 'INT'))
+                          Tag('integer', signed_integer))
         option_name = Sequence(choice(ident,
                                       Sequence('(', full_ident, ')')),
                                ZeroOrMore(Sequence('.', ident)))
@@ -233,21 +246,26 @@ class Parser(textparser.Parser):
         option = Sequence('option', option_name, '=', constant, ';')
 
         # Reserved.
-        field_number_range = Sequence('INT',
-                                      Optional(Sequence('to',
-                                                        choice('INT', 'max'))))
-        reserved = Sequence('reserved',
-                            choice(DelimitedList(field_number_range),
+        def reserved_statement(number):
+            number_range = Sequence(number,
+                                    Optional(Sequence('to',
+                                                      choice(number, 'max'))))
+
+            return Sequence('reserved',
+                            choice(DelimitedList(number_range),
                                    DelimitedList(string)),
                             ';')
 
+        reserved = reserved_statement('INT')
+        enum_reserved = reserved_statement(signed_integer)
+
         # Enum.
-        enum_field = Sequence(ident, '=', 'INT', options, ';')
+        enum_field = Sequence(ident, '=', signed_integer, options, ';')
         enum = Sequence('enum',
                         ident,
                         '{',
                         ZeroOrMore(choice(option,
-                                          reserved,
+                                          enum_reserved,
                                           Tag('field', enum_field),
                                           empty_statement)),
                         '}')
@@ -358,7 +376,7 @@ class Option:
         elif kind == 'ident':
             value = '.'.join(value)
         elif kind == 'integer':
-            value = load_integer(value)
+            value = load_signed_integer(value)
 
         self.kind = kind
         self.value = value
@@ -368,7 +386,7 @@ class EnumField:
 
     def __init__(self, tokens):
         self.name = tokens[0]
-        self.field_number = load_integer(tokens[2])
+        self.field_number = load_signed_integer(tokens[2])
 
     @property
     def name_snake_case(self):
-- 
2.43.0


From 5a43f44db1bf385816eccb7951117f7042b6fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 33/40] fix: strings in single quotes

---
 pbtools/parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 53478c8..07e8351 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -31,6 +31,9 @@ SCALAR_VALUE_TYPES = [
 ]
 
 
+STRING_RE = r'"(\\[^\n]|[^"\\\n])*"|\'(\\[^\n]|[^\'\\\n])*\''
+
+
 class InternalError(Exception):
     pass
 
@@ -64,7 +67,7 @@ def ignore_comments(string):
 
     comments = [
         (mo.start(), mo.group(0))
-        for mo in re.finditer(r'(/\*|\*/|//|\n|")', string)
+        for mo in re.finditer(r'(/\*|\*/|//|\n|"|\')', string)
     ]
 
     comments.sort()
@@ -92,8 +95,8 @@ def ignore_comments(string):
                 offset += 2
                 chunks.append(re.sub(r'[^\n]', ' ', string[start_offset:offset]))
                 non_comment_offset = offset
-        elif kind == '"':
-            mo = re.compile(r'"(\\.|[^"\\\n])*"').match(string, offset)
+        elif kind in ['"', "'"]:
+            mo = re.compile(STRING_RE).match(string, offset)
 
             if mo:
                 string_end = mo.end()
@@ -193,8 +196,8 @@ class Parser(textparser.Parser):
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
             ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
             ('INT',           r'0[xX][a-fA-F0-9]+|0[0-7]*(?![0-9])|[1-9][0-9]*'),
-            ('PROTO3',        r'"proto3"'),
-            ('STRING',        r'"(\\[^\n]|[^"\\\n])*"'),
+            ('PROTO3',        r'"proto3"|\'proto3\''),
+            ('STRING',        STRING_RE),
             ('DOT',      '.', r'\.'),
             ('COMMA',    ',', r','),
             ('EQ',       '=', r'='),
@@ -591,7 +594,7 @@ class Service:
 class ImportedProto:
 
     def __init__(self, tokens, import_paths):
-        self.path = tokens[2].strip('"')
+        self.path = tokens[2][1:-1]
         self.abspath = find_file(self.path, import_paths)
 
         with open(self.abspath, encoding='utf-8') as fin:
-- 
2.43.0


From d51ae2d5b2b737fbd178bafce5715f97ddd3b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 34/40] fix: option names with extensions in any part and a
 leading dot

---
 pbtools/parser.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 07e8351..12aa5b4 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -228,9 +228,9 @@ class Parser(textparser.Parser):
                           Tag('ident', full_ident),
                           Tag('string', string),
                           Tag('integer', signed_integer))
-        option_name = Sequence(choice(ident,
-                                      Sequence('(', full_ident, ')')),
-                               ZeroOrMore(Sequence('.', ident)))
+        option_name_part = choice(ident,
+                                  Sequence('(', message_type, ')'))
+        option_name = DelimitedList(option_name_part, '.')
         options = Optional(Sequence('[',
                                     DelimitedList(
                                         Sequence(option_name, '=', constant)),
@@ -362,14 +362,7 @@ class Field:
 class Option:
 
     def __init__(self, tokens):
-        if tokens[1][0][0] == '(':
-            full_ident = '.'.join(tokens[1][0][1])
-            self.name = f'({full_ident})'
-        else:
-            self.name = tokens[1][0]
-
-        self.name += ''.join([f'.{ident}' for _, ident in tokens[1][1]])
-
+        self.name = '.'.join(load_option_name_part(part) for part in tokens[1])
         kind, value = tokens[3]
 
         if kind == 'string':
@@ -815,6 +808,15 @@ def load_message_type(tokens):
     return [''] * len(tokens[0]) + tokens[1]
 
 
+def load_option_name_part(tokens):
+    if tokens[0] == '(':
+        full_ident = '.'.join(load_message_type(tokens[1]))
+
+        return f'({full_ident})'
+    else:
+        return tokens
+
+
 def load_package(tokens):
     try:
         return '.'.join(tokens[1]['package'][0][1])
-- 
2.43.0


From b72e2114183df9f9d1c5588403720c90b925df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 35/40] fix: floating point numbers as option constants

---
 pbtools/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 12aa5b4..6c833fd 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -31,6 +31,9 @@ SCALAR_VALUE_TYPES = [
 ]
 
 
+FLOAT_RE = (r'[0-9]+\.[0-9]*([eE][+-]?[0-9]+)?'
+            r'|\.[0-9]+([eE][+-]?[0-9]+)?'
+            r'|[0-9]+[eE][+-]?[0-9]+')
 STRING_RE = r'"(\\[^\n]|[^"\\\n])*"|\'(\\[^\n]|[^\'\\\n])*\''
 
 
@@ -195,6 +198,7 @@ class Parser(textparser.Parser):
         return [
             ('SKIP',          r'[ \r\n\t]+|//.*?\n'),
             ('IDENT',         r'[a-zA-Z][a-zA-Z0-9_]*'),
+            ('FLOAT',         FLOAT_RE),
             ('INT',           r'0[xX][a-fA-F0-9]+|0[0-7]*(?![0-9])|[1-9][0-9]*'),
             ('PROTO3',        r'"proto3"|\'proto3\''),
             ('STRING',        STRING_RE),
@@ -227,7 +231,8 @@ class Parser(textparser.Parser):
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
                           Tag('string', string),
-                          Tag('integer', signed_integer))
+                          Tag('integer', signed_integer),
+                          Tag('float', Sequence(Optional('-'), 'FLOAT')))
         option_name_part = choice(ident,
                                   Sequence('(', message_type, ')'))
         option_name = DelimitedList(option_name_part, '.')
@@ -373,6 +378,8 @@ class Option:
             value = '.'.join(value)
         elif kind == 'integer':
             value = load_signed_integer(value)
+        elif kind == 'float':
+            value = float(''.join(value[0] + [value[1]]))
 
         self.kind = kind
         self.value = value
-- 
2.43.0


From e0d985d8e15f5c940252636d0391fa8ecf59d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 36/40] fix: strings made of several parts as option constants

---
 pbtools/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 6c833fd..a2a5f03 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -4,6 +4,7 @@ import textparser
 from textparser import Sequence
 from textparser import ZeroOrMore
 from textparser import ZeroOrMoreDict
+from textparser import OneOrMore
 from textparser import choice
 from textparser import Optional
 from textparser import Forward
@@ -230,7 +231,7 @@ class Parser(textparser.Parser):
         message_type = Sequence(Optional('.'), full_ident)
         constant = choice(Tag('bool', choice('true', 'false')),
                           Tag('ident', full_ident),
-                          Tag('string', string),
+                          Tag('string', OneOrMore(string)),
                           Tag('integer', signed_integer),
                           Tag('float', Sequence(Optional('-'), 'FLOAT')))
         option_name_part = choice(ident,
@@ -371,7 +372,7 @@ class Option:
         kind, value = tokens[3]
 
         if kind == 'string':
-            value = value[1:-1]
+            value = ''.join(string[1:-1] for string in value)
         elif kind == 'bool':
             value = (value == 'true')
         elif kind == 'ident':
-- 
2.43.0


From 8ffb947d24c9bad92df42c148d22cd5c64a8adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 37/40] fix: a directory is not an imported file

---
 pbtools/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index a2a5f03..dd2133f 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -906,14 +906,14 @@ def find_file(filename, import_paths):
     for import_path in import_paths:
         filepath = os.path.join(import_path, filename)
 
-        if os.path.exists(filepath):
+        if os.path.isfile(filepath):
             break
     else:
         filepath = filename
 
     filepath = os.path.abspath(filepath)
 
-    if not os.path.exists(filepath):
+    if not os.path.isfile(filepath):
         raise Error(f"'{filename}' not found in import path.")
 
     return filepath
-- 
2.43.0


From 7317639707192e1fdc45445731e76782af138c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 38/40] fix: the absolute path of a parsed file is not searched
 for

---
 pbtools/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index dd2133f..11e8b72 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -933,5 +933,5 @@ def parse_file(filename, import_paths=None):
 
     with open(filename, 'r', encoding='utf-8') as fin:
         return Proto(Parser().parse(ignore_comments(fin.read())),
-                     find_file(filename, import_paths),
+                     os.path.abspath(filename),
                      import_paths)
-- 
2.43.0


From 474507072e3cfb84c7d13fb3550f8856cc4a32a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 39/40] fix: types with names of scalar value types in another
 case or a package

---
 pbtools/c_source/__init__.py | 47 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/pbtools/c_source/__init__.py b/pbtools/c_source/__init__.py
index 7f00cba..1077db1 100644
--- a/pbtools/c_source/__init__.py
+++ b/pbtools/c_source/__init__.py
@@ -1,6 +1,5 @@
 import os
 
-from ..parser import SCALAR_VALUE_TYPES
 from ..parser import camel_to_snake_case
 from ..parser import parse_file
 
@@ -710,7 +709,12 @@ class Generator:
         return self.parsed.package
 
     def generate_struct_member_fmt(self, type, name_snake_case, type_kind):
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            type = f'struct {type}_t *'
+            name_snake_case = f'{name_snake_case}_p'
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -725,11 +729,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             name_snake_case = f'{name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
-        elif type_kind == 'message':
-            type = f'struct {type}_t *'
-            name_snake_case = f'{name_snake_case}_p'
         else:
             type += ' '
 
@@ -738,7 +737,11 @@ class Generator:
     def generate_optional_struct_member_fmt(self, type, name_snake_case, type_kind):
         value_name_snake_case = 'value'
 
-        if type in ['int32', 'int64', 'uint32', 'uint64']:
+        if type_kind == 'enum':
+            type = f'enum {type}_e '
+        elif type_kind == 'message':
+            raise Exception('Only scalar value types may be optional.')
+        elif type in ['int32', 'int64', 'uint32', 'uint64']:
             type = f'{type}_t '
         elif type in ['sint32', 'sint64']:
             type = f'{type[1:]}_t '
@@ -753,8 +756,6 @@ class Generator:
         elif type == 'string':
             type = f'char *'
             value_name_snake_case = f'{value_name_snake_case}_p'
-        elif type_kind == 'enum':
-            type = f'enum {type}_e '
         else:
             raise Exception('Only scalar value types may be optional.')
 
@@ -767,7 +768,7 @@ class Generator:
                                             type,
                                             name_snake_case,
                                             type_kind):
-        if type in SCALAR_VALUE_TYPES:
+        if type_kind == 'scalar-value-type':
             if type in ['sint32', 'sint64']:
                 type = type[1:]
             elif type in ['fixed32', 'fixed64']:
@@ -1018,7 +1019,7 @@ class Generator:
             if field.type_kind == 'scalar-value-type':
                 if field.repeated:
                     fmt = ENCODE_REPEATED_MEMBER_FMT
-                elif field.type == 'string':
+                elif field.full_type == 'string':
                     if field.optional:
                         fmt = ENCODE_OPTIONAL_STRING_MEMBER_FMT
                     else:
@@ -1043,7 +1044,7 @@ class Generator:
                         fmt = ENCODE_ENUM_FMT
 
             member = fmt.format(field=field,
-                                ref='&' if field.type == 'bytes' else '')
+                                ref='&' if field.full_type == 'bytes' else '')
 
             members.append(member)
 
@@ -1069,12 +1070,12 @@ class Generator:
                     fmt = DECODE_REPEATED_ENUM_FMT
                 else:
                     fmt = DECODE_REPEATED_FIELD_FMT
-            elif field.type == 'bytes':
+            elif field.full_type == 'bytes':
                 if field.optional:
                     fmt = DECODE_OPTIONAL_MEMBER_BYTES_FMT
                 else:
                     fmt = DECODE_MEMBER_BYTES_FMT
-            elif field.type == 'string':
+            elif field.full_type == 'string':
                 if field.optional:
                     fmt = DECODE_OPTIONAL_MEMBER_STRING_FMT
                 else:
@@ -1113,9 +1114,9 @@ class Generator:
                 member = f'    self_p->{name}.length = 0;'
             elif field.optional:
                 member = f'    self_p->{name}.is_present = false;'
-            elif field.type == 'bytes':
+            elif field.full_type == 'bytes':
                 member = f'    pbtools_bytes_init(&self_p->{name});'
-            elif field.type == 'string':
+            elif field.full_type == 'string':
                 member = f'    self_p->{name}_p = "";'
             elif field.type_kind == 'scalar-value-type':
                 member = f'    self_p->{name} = 0;'
@@ -1225,10 +1226,10 @@ class Generator:
                                                  oneof=oneof,
                                                  field=field))
             else:
-                if field.type == 'bytes':
+                if field.full_type == 'bytes':
                     init = (f'    pbtools_bytes_init('
                             f'&self_p->{name});')
-                elif field.type == 'string':
+                elif field.full_type == 'string':
                     init = f'    self_p->{name}_p = "";'
                 elif field.type_kind == 'scalar-value-type':
                     init = f'    self_p->{name} = 0;'
@@ -1249,7 +1250,7 @@ class Generator:
 
         for field in oneof.fields:
             if field.type_kind == 'scalar-value-type':
-                if field.type == 'string':
+                if field.full_type == 'string':
                     fmt = ENCODE_ONEOF_STRING_MEMBER_FMT
                 else:
                     fmt = ENCODE_ONEOF_CHOICE_FMT
@@ -1261,7 +1262,7 @@ class Generator:
 
             choice = fmt.format(oneof=oneof,
                                 field=field,
-                                ref='&' if field.type == 'bytes' else '')
+                                ref='&' if field.full_type == 'bytes' else '')
 
             choices.append(choice)
 
@@ -1279,9 +1280,9 @@ class Generator:
                                                               oneof=oneof,
                                                               field=field))
             else:
-                if field.type == 'bytes':
+                if field.full_type == 'bytes':
                     fmt = DECODE_ONEOF_MEMBER_BYTES_FMT
-                elif field.type == 'string':
+                elif field.full_type == 'string':
                     fmt = DECODE_ONEOF_MEMBER_STRING_FMT
                 elif field.type_kind == 'scalar-value-type':
                     fmt = DECODE_ONEOF_MEMBER_FMT
-- 
2.43.0


From 1092c915aeba06db553cdd0ad4374659499b1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 40/40] fix: find imports in the parent of a symbolic link

The path of an imported file was normalized before it was opened, so with
the import path link/.. a file in the parent of what link points to was
searched for in the parent of link.
---
 pbtools/parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pbtools/parser.py b/pbtools/parser.py
index 11e8b72..46aaf22 100644
--- a/pbtools/parser.py
+++ b/pbtools/parser.py
@@ -596,9 +596,10 @@ class ImportedProto:
 
     def __init__(self, tokens, import_paths):
         self.path = tokens[2][1:-1]
-        self.abspath = find_file(self.path, import_paths)
+        filepath = find_file(self.path, import_paths)
+        self.abspath = os.path.abspath(filepath)
 
-        with open(self.abspath, encoding='utf-8') as fin:
+        with open(filepath, encoding='utf-8') as fin:
             tree = Parser().parse(ignore_comments(fin.read()))
 
         # ToDo: Public imports should be found as well.
@@ -911,8 +912,6 @@ def find_file(filename, import_paths):
     else:
         filepath = filename
 
-    filepath = os.path.abspath(filepath)
-
     if not os.path.isfile(filepath):
         raise Error(f"'{filename}' not found in import path.")
 
-- 
2.43.0

