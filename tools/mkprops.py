"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
L = 'lib/src/pbtools.c'
H = 'lib/include/pbtools.h'
G = 'pbtools/c_source/__init__.py'
P = 'pbtools/parser.py'
PI = 'pbtools/__init__.py'
SUB = 'pbtools/subparsers/generate_c_source.py'
props = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech],
               'observe_at': observe}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    anchors['hook_needed'] = hook
    props.append({'id': id, 'title': title, 'statement': statement,
                  'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why, 'anchors': anchors})

ENC = ('the public new/alloc/init/encode functions of generated C code',
       'generated structs')
prop('C01', 'Round trip: decoding an encoded message gives the same message back',
 'For every supported proto3 schema and every message that can be built through the generated C API, encoding it succeeds with a large enough buffer, and decoding those bytes into a new message reports exactly the encoded size and yields the same content: every scalar bit for bit, every string and byte array, the presence of every sub-message, optional field and oneof choice, and every repeated element in order. Encoding the decoded message again gives the same bytes.',
 ['inputs', 'programs'],
 'All supported schemas (field types x labels x numbers x nesting, recursion, imports) and all values of them, including integer extremes, NaN payloads, infinities, negative zero, empty and long strings/bytes/lists, and fields set to their default inside optional or oneof.',
 'The tests round-trip about a hundred hand-written messages of about thirty fixed schemas; which struct member, field number, wire size and length class meet is a product space that fixed vectors touch at a few points only.',
 [L, H, G],
 [('field writers/readers and zigzag, varint, fixed-width codecs', L),
  ('backwards encoder and final move', L + ': encoder_write, encoder_get_result'),
  ('two-pass decoding of repeated fields', L + ': repeated_info_*, decoder_decode_repeated, pbtools_decode_repeated_inner'),
  ('generated encode/decode/init bodies', G + ': generate_message_encode_body, generate_message_decode_body')],
 ['return value of <message>_encode/_decode', 'struct members after decode'])
prop('C02', 'Encoder output is canonical proto3 wire format',
 'For every supported schema and message, the encoded bytes are a valid proto3 serialisation of exactly that message, readable by any conforming implementation: the right field number and wire type for each field, minimal-length varints, sign-extended negative int32 and enum values, zigzag for signed types, little-endian fixed types. Fields holding their default are left out unless they are optional or a chosen oneof member, repeated numeric fields are packed in one record, nothing else is emitted, and the returned size is the exact number of bytes.',
 ['inputs', 'programs'],
 'All supported schemas and values, in particular field numbers up to 536870911, length prefixes on both sides of every varint size boundary, and every type x {plain, optional, oneof, repeated} combination.',
 'The tests compare a few dozen encodings with literal byte strings; interoperability needs every type, label, field number size and length class to be right for every value.',
 [L, G],
 [('varint, tag, zigzag and fixed encoders', L + ': encoder_write_varint ... encoder_write_64_bit_value'),
  ('default omission vs *_always writers', L + ': pbtools_encoder_write_*'),
  ('packed repeated encoding', L + ': encoder_write_repeated'),
  ('choice of writer per field', G + ': generate_message_encode_body, generate_oneof_encode_definitions')],
 ['output buffer and return value of <message>_encode'])
prop('C03', 'Every valid serialisation of a message decodes to that message',
 'Any valid proto3 serialisation of a message decodes successfully to that message, whatever writer produced it: fields in any order, repeated fields interleaved with others, repeated numeric fields packed, unpacked or any mixture split over several records, non-minimal varints, and defaults written explicitly. Where a non-repeated scalar occurs several times the last one counts, of several members of one oneof only the last one is present, unknown enum numbers are kept, and integers wider than their field are cut to its width.',
 ['inputs', 'programs'],
 'All supported schemas, all messages, and all alternative byte serialisations of each (permutation x packing split x varint padding x redundant occurrences).',
 'The tests decode the byte string their own encoder would produce, plus a handful of unpacked or duplicated examples; the set of alternative serialisations of one message is unbounded.',
 [L, G],
 [('repeated element counting pass and collecting pass', L + ': repeated_info_decode_*, decoder_read_repeated*, decoder_decode_repeated, pbtools_decode_repeated_inner'),
  ('varint reader', L + ': decoder_read_varint'),
  ('tag dispatch loop, oneof decode functions', G + ': MESSAGE_DEFINITIONS_FMT, DECODE_ONEOF_FIELD_FMT')],
 ['return value of <message>_decode and the struct afterwards'])
prop('C04', 'Unknown fields are skipped: old and new schema versions interoperate',
 'Decoding bytes that contain fields the schema does not know, of any wire type the format defines except groups, at any position and at any nesting depth, succeeds and gives exactly the content it would give without them. So data written with a newer schema is readable with an older one and the other way round, fields missing from the data being left at their defaults.',
 ['inputs', 'programs'],
 'All pairs of schema versions that differ by added or removed fields, all messages, all unknown field numbers and payloads and all insertion points.',
 'One test pair (add_and_remove_fields) and two skip tests cover a few unknown fields at fixed places; unknown fields between occurrences of a repeated field exercise a second scan that the tests hardly touch.',
 [L, G],
 [('field skipping in the dispatch loop', L + ': pbtools_decoder_skip_field, decoder_seek'),
  ('skipping again while collecting repeated elements', L + ': decoder_decode_repeated, pbtools_decode_repeated_inner')],
 ['return value of <message>_decode and the struct afterwards'])
prop('C05', 'Malformed input is always reported, with a documented error code',
 'Input that is not a valid serialisation - truncated anywhere, a varint longer than ten bytes, a length reaching beyond its enclosing message or input, a packed run that does not hold a whole number of elements, field number zero, a reserved or group wire type, or a known field with a wrong wire type - makes decoding return a negative documented error code, at any nesting depth and in repeated fields as well. It is never accepted with content silently dropped, The code says what is wrong where one thing is (wrong wire type, field number zero, varint too long, data ending too early), and every error code the library returns has its own description text while other numbers get the unknown-error text.',
 ['inputs', 'programs', 'fault_sequences'],
 'All byte strings obtained from valid encodings of any schema by truncation, length and tag corruption, wire type changes and splicing, and all int error codes.',
 'About twenty literal malformed inputs are tested, most of them for one top-level field; repeated fields are parsed by two passes that must agree on every malformed input, in every field type.',
 [L],
 [('decoder abort and sticky error result', L + ': decoder_abort, decoder_get_result, decoder_seek, decoder_init_slice'),
  ('length, varint and tag checks', L + ': decoder_read_varint, decoder_read_length_delimited, pbtools_decoder_read_tag'),
  ('error texts', L + ': pbtools_error_code_to_string')],
 ['return value of <message>_decode', 'pbtools_error_code_to_string'])
prop('C06', 'Decoding arbitrary bytes is memory safe and terminates',
 'For any input bytes, any input length including zero and any workspace, decoding terminates and returns either the input length or a documented error, reading only the input, writing only the workspace, and without undefined behaviour. All content reachable from an accepted message lies in the workspace (or is constant), and an accepted message can be encoded, and decoded again, to the same content.',
 ['inputs', 'programs', 'fault_sequences'],
 'All byte strings (random, mutated, structure-aware, coverage-guided) against all supported schemas and workspace sizes and alignments.',
 'The repository fuzzer is not part of the tests and has no semantic oracle; the tests run without sanitizers on well-behaved inputs, so an out-of-bounds access of a few bytes goes unnoticed.',
 [L, G],
 [('bounds checks in reader, slices and seeks', L + ': decoder_get, decoder_read, decoder_init_slice, decoder_seek'),
  ('workspace allocator', L + ': heap_alloc'),
  ('element count limiting the second pass', L + ': are_more_items_to_decode')],
 ['AddressSanitizer/UBSan reports, return value, workspace and redzones'])
prop('C07', 'Running out of workspace is reported, never silent and never an overrun',
 'For every message and every workspace size from zero up, creating, allocating parts of and decoding a message each either succeed completely, giving exactly what a huge workspace would give, or report failure: no message from creation, a negative result from allocation, the out-of-memory error from decoding. Nothing outside the workspace is written at any size, also for absurdly large or negative element counts, and once a size is sufficient every larger size is.',
 ['inputs', 'fault_sequences', 'configurations'],
 'All schemas and messages x all workspace sizes (hence every allocation point failing) x all alignments of the workspace start x all requested lengths.',
 'Each allocation call site must check for failure; tests make only a few of them fail, at one size each.',
 [L, G],
 [('arena allocator', L + ': heap_new, heap_alloc'),
  ('out-of-memory propagation', L + ': decoder_heap_alloc, decoder_decode_repeated, pbtools_decode_repeated_inner, pbtools_decoder_sub_message_decode'),
  ('alloc functions', L + ': pbtools_alloc_repeated*, pbtools_sub_message_alloc, calloc_repeated')],
 ['NULL from <message>_new', 'return values of *_alloc and *_decode'],
 state=[('arena position and size', 'bytes of the workspace handed out so far', H + ': struct pbtools_heap_t')])
prop('C08', 'Encoding respects the output buffer size exactly',
 'For every message and every output buffer size, encoding writes only inside the buffer and either returns the exact encoded size with the same bytes as with any larger buffer, or the buffer-full error. It succeeds if and only if the buffer is at least as large as the encoded message.',
 ['inputs', 'fault_sequences'],
 'All schemas and messages x all buffer sizes from zero past the encoded size, i.e. the buffer running full in front of or inside every written element.',
 'Three tests use too small buffers; after the buffer is full all remaining writers still run and must stay harmless, which depends on message shape and on where the space ran out.',
 [L],
 [('backwards writing with remaining-space check and sticky abort', L + ': encoder_init, encoder_write, encoder_abort, encoder_get_result'),
  ('length prefixes computed from positions', L + ': pbtools_encode_repeated_inner, pbtools_encoder_sub_message_encode')],
 ['return value of <message>_encode, buffer and its surroundings'],
 state=[('encoder position', 'free space left in front of what is written', H + ': struct pbtools_encoder_t')])
prop('C09', 'New messages start with defaults, whatever the workspace held before',
 'A newly created message, an allocated sub-message, every element of an allocated repeated field, and a newly selected oneof member start out with proto3 defaults: zero, false, empty, absent, no choice - independent of the previous contents and the alignment of the workspace memory. Such a message encodes to nothing, and decoding empty input into it leaves it so.',
 ['inputs', 'histories', 'configurations'],
 'All supported schemas (every field type x label) and all previous workspace contents and start addresses.',
 'The tests mostly use fresh zeroed or same-use workspaces and read few default fields; a forgotten initialisation reads as zero there.',
 [L, G],
 [('generated init functions', G + ': generate_message_members_init, generate_oneof_init_and_alloc_definitions'),
  ('zeroing of allocated elements', L + ': calloc_repeated, pbtools_alloc_repeated, pbtools_alloc_repeated_string')],
 ['struct members after <message>_new and *_alloc/*_init'])
prop('C10', 'Any history of edits, encodes and decodes gives the latest content',
 'After any sequence of API operations on a message - setting fields, selecting oneof members, allocating parts again, encoding into any buffers, decoding further inputs into it - encoding yields exactly the current content, and encoding itself changes nothing. Decoding into a used message replaces each field present in the input and leaves the others as they were, and a decoded message does not depend on the input buffer afterwards.',
 ['histories', 'inputs'],
 'All operation sequences over one message (set, clear, select, allocate, encode, decode, overwrite the input buffer) for all supported schemas.',
 'Tests follow one straight build-encode-decode path each; stale state of an earlier choice, length or buffer only shows in longer sequences.',
 [L, G],
 [('oneof selection functions', G + ': INIT_ONEOF_FIELD_FMT, ALLOC_ONEOF_FIELD_FMT'),
  ('copying of strings and bytes to the workspace', L + ': pbtools_decoder_read_string, pbtools_decoder_read_bytes'),
  ('stateless encoder', L + ': pbtools_message_encode')],
 ['struct members and encodings after each step'])
prop('C11', 'Messages are independent: no shared state, no dynamic memory, thread safe',
 'Operations on messages in different workspaces never influence each other: any interleaving of them, on one thread or on several threads at once, gives for each message what it gives when run alone. Messages sharing one read-only input are independent too, and no operation uses dynamic memory or other hidden global state.',
 ['schedules', 'histories', 'inputs'],
 'All interleavings of operations on several messages of any schema, single threaded at operation granularity and truly concurrent.',
 'All tests use one message at a time on one thread.',
 [L, G],
 [('all state reached from message, workspace and stack', L + ', ' + H),
  ('no statics in generated code', G)],
 ['results of each message history alone versus interleaved/concurrent; ThreadSanitizer'])
prop('C12', 'Generated C compiles warning free and links, for every supported schema',
 'For every supported set of proto3 files - any declaration order, mutual and self references, nested types, imports between packages and directories, any identifier style - the generated files compile without warnings under the strict warning flags the project builds with, link together into one program, and their headers can be included in any order and from C++.',
 ['programs', 'configurations'],
 'All schemas without name collisions in the generated identifiers, all file layouts and both enum naming options.',
 'The tests compare the output for about forty fixed schemas with checked-in copies; definition order, include and naming problems depend on schema shape.',
 [G, P],
 [('ordering of messages by use', P + ': Proto.sort_messages_by_usage'),
  ('type, declaration and include emission', G + ': generate_types, generate_includes, generate_declarations')],
 ['gcc, clang and g++ exit status and diagnostics on generated files'])
prop('C13', 'The generated C API mirrors the schema',
 'For every supported schema the generated header offers, under the documented naming scheme, one struct per message with one member of the documented C type per field, one enum per enum with exactly the declared names and numbers, one choice enum and union per oneof, and the new, encode, decode, alloc and init functions with the documented signatures. Nothing is missing, misnamed or of another type, and the upper-case option changes the spelling of enum constants only.',
 ['programs', 'configurations'],
 'All schemas: every field type x label x naming style x nesting depth x package shape, with and without the upper-case option.',
 'Checked-in output of about forty schemas pins the API for those only.',
 [G, P],
 [('struct member generation', G + ': generate_struct_member_fmt, generate_optional_struct_member_fmt, generate_repeated_struct_member_fmt'),
  ('name conversion', P + ': camel_to_snake_case'),
  ('enum and oneof generation', G + ': generate_enum_members, generate_oneof_choices')],
 ['compile-time assertions on types, enum values, member types and function types'])
prop('C14', 'The parser reports exactly what the proto file declares',
 'Parsing any valid proto3 file in the supported language reports exactly the declared package, imports, file options with their values, enums, messages, nested types, fields with type, number and label, oneofs, maps and services with their methods and streaming flags - nothing lost, invented or changed. The result does not depend on white space, line ends, comments, empty statements, reserved ranges, field options or the use of keywords as names.',
 ['programs', 'inputs'],
 'All proto3 files of the supported grammar and all layouts of each.',
 'The parser tests look at about ten fixed files.',
 [P],
 [('grammar and tokens', P + ': Parser'),
  ('comment removal', P + ': ignore_comments'),
  ('tree to object model', P + ': Message, Enum, Oneof, Option, Service')],
 ['attributes of the object returned by pbtools.parse_file'])
prop('C15', 'Type names resolve to the right declaration or are rejected',
 'Every type reference in a valid schema binds to the declaration that proto3 scoping gives it - innermost enclosing message first, then the file, then imported files of the same or another package, and fully qualified names anywhere - with the right kind, enum or message, and the right full name, in fields, oneofs and map values. A reference to a type that is not declared in the file or a directly imported one is rejected with an error naming it, and never turned into code.',
 ['programs'],
 'All nesting and shadowing patterns, package layouts and import graphs; references through every kind of name the supported language allows.',
 'Four or five fixed schemas exercise resolution, with at most one candidate for each name.',
 [P],
 [('name lookup', P + ': Proto.resolve_field_type, Proto.find_type'),
  ('enum or message decision', P + ': Proto.resolve_field_type'),
  ('imported type tables', P + ': ImportedProto')],
 ['type, namespace and type_kind of parsed fields; generated C; error text'])
prop('C16', 'Malformed proto files are rejected with the position and produce no output',
 'A proto file with a syntax error, a reference to an undefined type or an import that does not exist is rejected with an error message - for syntax errors the line and column of the first offending token in the original text, comments included in the count - and the command line tool then exits with a non-zero status and writes no file for it. It never ends in an internal crash report, a hang or silently generated code, and the same goes for a file with a syntax error that another file imports. (Rules beyond syntax and name resolution, such as unique field numbers, are the business of protoc.)',
 ['inputs', 'programs', 'fault_sequences'],
 'All token-level and character-level corruptions of valid files at all positions, at any depth, with comments and line breaks in front of them.',
 'Three tests check one error message each.',
 [P, PI],
 [('parse errors and comment blanking that keeps offsets', P + ': ignore_comments, format_parse_error'),
  ('command line error exit', PI + ': _main')],
 ['exception and message of parse_file; exit status, stderr and output directory of the tool'])
prop('C17', 'Generation is deterministic and only writes its own output files',
 'Generating from the same files gives byte-identical output in every run - whatever the hash seed, working directory, location of the files, order and number of files on the command line, or earlier contents of the output directory. It writes exactly one header and one source per input file, named after it in snake case, in the output directory, which it creates if needed, and changes no other file. An output that cannot be written is reported with a non-zero exit. The Rust and Mys generators, which write one file per input to an existing directory, are held to the same.',
 ['programs', 'configurations', 'histories'],
 'All schemas, invocation orders, environments and directory layouts.',
 'The tests generate each fixed schema once, in one directory.',
 [G, P, SUB],
 [('order of messages from set-valued dependency data', P + ': Message.used_types, Proto.sort_messages_by_usage'),
  ('output naming and writing', G + ': generate_files')],
 ['files in the output directory and elsewhere after running the tool'])
prop('C18', 'Imports are found along the import path, first match first',
 'An imported file is looked up in the given import directories in their order, the first one that has it counts, and otherwise relative to the working directory; the types it declares are then usable and its generated header is included under the name its own generation gives it. An import that exists nowhere is rejected with an error naming it. A directory is no imported file, the file itself is not searched for, and neither of these depends on what the same process parsed before.',
 ['programs', 'configurations', 'histories'],
 'All layouts of same-named and differently named files over directories and sub-directories, all orders of import directories, and all sequences of files parsed by one process.',
 'Tests use one or two import directories without competing candidates.',
 [P, G],
 [('file search', P + ': find_file, ImportedProto'),
  ('include naming', G + ': generate_includes')],
 ['abspath of imports, resolved types, include lines, error text'])
prop('C19', 'Map fields behave as maps on the wire',
 'A map field is wire compatible with a repeated message of key = 1 and value = 2, as the proto3 specification demands: every map built through the API encodes to that form and every valid form of it, including entries with omitted, reordered or unknown parts, decodes to the same entries in order. Every permitted key type and value type works, including enums, messages, nested and imported types.',
 ['programs', 'inputs'],
 'All key types x value types x entry values and all alternative encodings of entries.',
 'One schema with a few entry types is tested.',
 [P, G],
 [('map expansion to an entry message', P + ': Message._load_map')],
 ['entries after decode, bytes after encode, comparison with the hand-written equivalent schema'])
prop('C20', 'Behaviour does not depend on compiler, optimisation or build configuration',
 'The same operations on the same data give the same results and bytes whichever compiler and optimisation level the library and generated code are built with. Building with floating point support switched off changes nothing for schemas without floating point fields, and no result depends on undefined behaviour or on memory that was never written.',
 ['configurations', 'inputs', 'programs'],
 'All combinations of compiler, optimisation level, sanitizer and configuration macro, over all schemas, values and inputs, valid or not.',
 'The tests build once per run with one compiler and level.',
 [L, H],
 [('configuration macros', H + ': PBTOOLS_CONFIG_FLOAT, PBTOOLS_CONFIG_64BIT'),
  ('portable byte-wise fixed-width codecs', L + ': encoder_write_32_bit_value, decoder_read_64_bit_value'),
  ('function pointer and struct casts', L + ': decoder_decode_repeated')],
 ['response transcript of one operation script under each build'])
prop('C21', 'Workspace need is bounded by the content, and encoding needs none',
 'A workspace with room for what a message consists of - its struct, those of its sub-messages and list elements, the element arrays in their documented C types, the strings with terminator and the byte arrays, plus a small constant per part for alignment - is sufficient to build it, and to decode it from any serialisation of it. Unknown fields, odd ways of writing and earlier encodings take no room, and creating a new message in a used workspace gives all of it back.',
 ['inputs', 'histories', 'programs'],
 'All schemas, contents, serialisations and sequences of encoding, decoding and starting anew.',
 'Tests use workspaces that are far larger than needed, or one fixed size for one message.',
 [L, H],
 [('allocation', L + ': heap_new, heap_alloc, calloc_repeated, pbtools_alloc_repeated, pbtools_sub_message_alloc'),
  ('counting before allocation', L + ': repeated_info_decode_varint, decoder_decode_repeated')],
 ['success or failure of alloc and decode in workspaces of calculated sizes'])
prop('C22', 'Work is proportional to the message, stack use to the nesting depth',
 'Decoding takes work proportional to the length of the input, for any order of records, depth of nesting and amount of unknown or damaged data, and encoding takes work proportional to the content: none is quadratic or worse in the number of elements, their length or the depth. Creating a message takes the same work in any workspace, and allocating a list is proportional to its length. Stack use depends on the depth of nesting only, and grows no faster than it.',
 ['inputs', 'programs'],
 'All schemas, numbers of records, lengths and depths, valid or not; unit tests use small messages, where nothing of this shows.',
 'Tests look at results for small messages; the benchmark measures a few fixed ones.',
 [L, G],
 [('two passes over repeated fields', L + ': repeated_info_decode_varint, decoder_decode_repeated, pbtools_decode_repeated_inner'),
  ('encoding from the end, without moving sub-messages', L + ': encoder_write, pbtools_encoder_sub_message_encode'),
  ('generated decode loops', G + ': message decode_inner')],
 ['executed basic blocks, bytes moved and stack depth of encode, decode, new and alloc for inputs that differ by a factor of 8'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(props))
