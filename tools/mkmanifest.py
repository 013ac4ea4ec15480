"""Writes MANIFEST.json from the registered checks and the texts below."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pbv.checks import CHECKS

TRUST = (' Trusted: the reference model in pbv/model.py (written from the protobuf '
         'encoding specification, not from the code), the compilers and sanitizers. '
         'No proof: what no generated case reaches is not covered.')

C = {
    'C01': ('property-based testing: generated schemas and values, round trip through '
            'the real library under ASan/UBSan, integrated shrinking',
            'Searches schemas x values; every built message is encoded, decoded and '
            'compared field by field.'),
    'C02': ('property-based testing: differential against a reference encoder/decoder',
            'Each encoding is compared byte for byte with the reference encoding and '
            'decoded by the reference decoder.'),
    'C03': ('property-based testing: generated alternative serialisations with a '
            'reference decoder as oracle',
            'Alternative serialisations of known messages must decode to the message.'),
    'C04': ('property-based testing: metamorphic (unknown fields inserted) and schema '
            'version pairs',
            'Decoding with inserted unknown fields, and with an older or newer version of '
            'a generated schema, must give the content the reference predicts.'),
    'C05': ('property-based testing and fuzzing: structured damage of valid encodings '
            'with a reference validator as oracle; all error codes enumerated',
            'Damaged inputs must be rejected with a documented code exactly when the '
            'reference validator rejects them.'),
    'C06': ('coverage-guided fuzzing (libFuzzer) plus structured mutation under '
            'ASan/UBSan with guard zones, re-encode oracle',
            'Arbitrary bytes and workspaces; memory errors, hangs, undocumented results '
            'and content outside the workspace are violations.'),
    'C07': ('property-based testing with allocation fault enumeration: every workspace '
            'size class of generated messages',
            'Every small workspace size and drawn larger ones; success must be complete, '
            'failure must be reported, nothing outside the workspace is touched.'),
    'C08': ('property-based testing: every output buffer size of generated messages '
            'between guard zones',
            'Sizes around the exact size and below; success exactly when the buffer is '
            'large enough.'),
    'C09': ('property-based testing: defaults and alignment in dirty, shifted workspaces '
            'under ASan/UBSan',
            'Content of fresh messages and parts, whatever the memory held.'),
    'C10': ('stateful model-based testing: random operation histories against a model',
            'Histories of edits, encodes, decodes and resets are compared with the model '
            'after every operation.'),
    'C11': ('stateful property-based testing: random interleavings and parallel runs '
            '(ThreadSanitizer, counted allocator) compared with solo runs',
            'Transcripts of histories alone, interleaved and on threads must be equal.'),
    'C12': ('property-based testing: generated schemas compiled with strict warnings as '
            'errors, C and C++, and linked',
            'Generated sources of random schemas must build warning free.'),
    'C13': ('property-based testing: declared API of generated headers (clang AST) '
            'against a model of the schema',
            'Structs, members, types, enumerators, constants and functions are compared '
            'with those the schema stands for.'),
    'C14': ('property-based testing: generated proto text (layout, comments, options) '
            'parsed and compared with the generating model',
            'The parser result is compared with the abstract schema the text was '
            'rendered from; metamorphic layout changes.'),
    'C15': ('property-based testing: generated scopes and references with a reference '
            'resolver as oracle',
            'Every reference must resolve as the reference resolver says or be rejected '
            'by name.'),
    'C16': ('grammar-based fuzzing of proto text: damaged files with a reference '
            'recogniser as oracle',
            'Rejected text must give an error with the right position, non-zero exit and '
            'no output.'),
    'C17': ('property-based testing of the command line: metamorphic repetition under '
            'varied environment, order and output folder state',
            'The outputs must be byte-identical and no other file may change.'),
    'C18': ('property-based testing: generated import trees and search paths with a '
            'reference search as oracle',
            'Each import must be taken from the first directory that has it.'),
    'C19': ('property-based testing: generated maps against twin messages and a '
            'reference codec',
            'Maps must be wire compatible with repeated key/value messages.'),
    'C20': ('differential testing: same generated scripts on 13 compiler/option '
            'configurations incl. MemorySanitizer',
            'Transcripts of all builds must be equal.'),
    'C21': ('property-based testing: generated messages and histories in workspaces of '
            'calculated size, reference size model as oracle',
            'Building and decoding must succeed in a workspace that the reference model '
            'calculates from the content.'),
    'C22': ('property-based testing: metamorphic scaling of generated inputs with counted '
            'basic blocks, bytes moved and stack use',
            'Eight times the records, length or depth may take at most 12 times the work '
            'and no more stack (8 times for depth).'),
}

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        technique, note = C[i]
        checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i} quick',
                       'thorough_cmd': f'python3-vt check.py {i} thorough',
                       'technique': technique, 'level': 'exploration',
                       'level_note': note + TRUST})
    else:
        missing.append({'property': i, 'reason': 'No check has been built yet.'})
manifest = {'version': 1,
            'setup_cmd': 'python3-vt -B tools/setup.py',
            'checks': checks, 'not_applicable': missing,
            'notes': 'No hooks: every property is observed through the public C API, the '
                     'command line and the parser function. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fout:
    json.dump(manifest, fout, indent=1)
    fout.write('\n')
