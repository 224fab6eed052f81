"""Writes /verif/properties.jsonl (the property texts live here so that they are reviewable as prose)."""
import json, os
S = 'distribution/src/jadn/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [S + f if not f.startswith('distribution') else f for f in files],
                          'state': [{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state],
                          'mechanism': [{'name': n, 'where': S + w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


prop('C01', 'Threads sharing a codec never see each other\'s calls',
     'Threads may share one codec, next to other threads using or building other codecs: every encode and decode gives '
     'exactly the value or the error that the same call gives when it runs alone. '
     'No data, error, count or mode of one caller ever shows up in the result of another.',
     ['schedules', 'inputs'], 'every interleaving, at any instruction, of any number of encode/decode calls (valid and invalid values, every type kind and mode) and codec constructions',
     'The tests are single-threaded; a race needs a preemption between two particular instructions of two particular calls.',
     ['codec/__init__.py', 'codec/codec.py', 'codec/format_serialize_json.py', 'codec/format_validate.py', 'utils.py', 'transform/transform.py'],
     [('encode/decode only read the symbol table and keep all working state in locals', 'codec/codec.py'),
      ('a codec works on its own unfolded copy of the schema', 'codec/__init__.py')],
     ['value or exception of every encode/decode call'],
     [('symtab', 'per-type table shared by every call on the codec', 'codec/__init__.py')])

prop('C02', 'A codec\'s answers never depend on its history, even after cut-short calls',
     'What a codec answers to a call depends only on its schema, its current mode and the argument: not on earlier calls, rejected values, mode switches, '
     'other codecs, or earlier calls cut short by an interrupt, exhausted memory or an exhausted stack. '
     'A call that is cut short raises (it never returns a wrong answer) and leaves its argument and the schema unchanged; '
     'a mode switch that is cut short leaves the codec wholly in the old mode or wholly in the new one.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of calls and mode switches on any number of codecs, with an asynchronous exception at any call boundary inside any of them',
     'Tests use a fresh codec per case and never cut a call short; state left behind by a particular earlier call or an exception at a particular point is invisible to them.',
     ['codec/__init__.py', 'codec/codec.py', 'codec/format_serialize_json.py', 'codec/format_validate.py', 'utils.py'],
     [('no call writes to the codec or to its argument', 'codec/codec.py'),
      ('mode and symbol table are replaced together once the new table is complete', 'codec/__init__.py')],
     ['value or exception of every call after any history', 'the caller\'s argument and schema objects'],
     [('symtab, verbose_rec, verbose_str', 'current mode', 'codec/__init__.py')])

prop('C03', 'Peers exchanging JSON messages recover exactly the value that was sent',
     'A valid value encoded by one peer in any of the four modes, carried as JSON text and decoded by another peer with the same schema and mode, is the value that was sent: '
     'after any delay, reordering, duplication, retransmission or change of mode, in any time zone, locale and hash seed of either peer. '
     'Encoding a value again gives the same message, encoding and decoding leave the caller\'s value and message as they were, and a value that breaks the schema is refused, never put on the wire.',
     ['fault_sequences', 'histories', 'inputs'], 'every schema, valid or invalid value, mode, network fault sequence (delay, loss, duplication, reordering, mode renegotiation) and peer environment',
     'Tests decode literals in one process right after encoding, on a few dozen hand-written types, without JSON text in between, without reuse of a value or message, and in one time zone.',
     ['codec/__init__.py', 'codec/codec.py', 'codec/format_serialize_json.py', 'codec/format_validate.py', 'transform/transform.py'],
     [('per-type encode and decode functions are inverses in every mode', 'codec/codec.py'),
      ('format conversions are inverses', 'codec/format_serialize_json.py')],
     ['messages on the wire', 'decoded values', 'sent value objects after encoding'])

prop('C04', 'A damaged or hostile message is refused or decodes to a schema-valid value',
     'A message that was truncated, corrupted, retyped, or had fields dropped, added or pushed out of range on its way to a receiver is either refused by decoding with the documented validation errors '
     '(ValueError, which includes JSON errors, or TypeError; RecursionError when it is nested deeper than the interpreter can go), or decodes to a value that satisfies every constraint the schema puts on the type and holds everything the message holds: no field or element of an accepted message is dropped. '
     'The receiver goes on serving intact messages correctly afterwards.',
     ['fault_sequences', 'inputs'], 'every schema, message, mode and sequence of transport faults: byte flips, truncation, splices of two messages, and structural damage at any place in the message',
     'Tests try a handful of hand-picked bad literals per type; the damage that slips through depends on the type, option, mode and place.',
     ['codec/__init__.py', 'codec/codec.py', 'codec/format_serialize_json.py', 'codec/format_validate.py'],
     [('every decode function validates type, size, range, pattern, format, required and unknown fields', 'codec/codec.py')],
     ['exception type or value of decode'])

prop('C05', 'A saved schema loads back equal on any machine',
     'A valid schema whose descriptions are trimmed single lines (not starting with "//") saved as JADN, JIDL or HTML by one process and loaded by another gives an equal schema (with options in canonical form), '
     'whatever the default text encoding, hash seed, time zone, clock and working directory of either process, however reads and writes are split or interrupted, and with or without a provenance header.',
     ['configurations', 'fault_sequences', 'inputs'], 'every valid schema, target format, pair of process environments and chunking of the I/O',
     'Tests round-trip strings in memory in one UTF-8 process with one hash seed; files, encodings, short reads and writes and headers are never involved.',
     ['core.py', 'convert/jidl.py', 'convert/html.py', 'convert/utils.py', 'utils.py'],
     [('dump and load agree on syntax and on an explicit encoding', 'core.py'), ('JIDL and HTML writers and readers are inverses', 'utils.py')],
     ['files written', 'schema returned by load'])

prop('C06', 'Saving reports success only when the complete document is on disk',
     'When saving or converting a schema to a file returns normally, the file holds the complete document, byte for byte. '
     'A full disk, an I/O error, a failing close or an unopenable file is raised to the caller and never swallowed; no other file is touched, no file handle stays open, '
     'and saving again over whatever was left behind gives exactly what a first save would have given.',
     ['fault_sequences', 'inputs', 'histories'], 'every schema, output format and sequence of failing, short or interrupted file operations, followed by any retry',
     'Tests never write files, let alone with a failing write, a failing close or stale longer contents in place.',
     ['core.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py'],
     [('files are written inside a context manager without catching errors, truncating old contents', 'core.py')],
     ['return or exception of the call', 'file contents', 'open handles', 'other files'])

prop('C07', 'A conversion that fails leaves the existing output file intact',
     'When a schema cannot be converted (it is broken, uses something the format cannot express, or the conversion is interrupted or runs out of memory or stack before output starts), '
     'a file that already exists at the output path keeps its contents, and no new partial file appears.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every output format, schema defect, and exception point inside the rendering of the document',
     'Tests only convert valid schemas to strings and never look at what a failed conversion does to a file.',
     ['core.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py'],
     [('the document is rendered before the output file is opened', 'core.py')],
     ['file at the output path after a failed call'])

prop('C08', 'Generated artifacts are reproducible byte for byte',
     'Converting a given schema gives the same bytes in every process and at every time: JADN, JIDL, HTML, Markdown, both diagram formats, JSON Schema, the unfolded and comment-stripped schema and the analysis report '
     'do not depend on hash randomisation, object addresses, locale, time zone, clock, working directory or what was converted before. Only the optional provenance header may carry a date.',
     ['configurations', 'histories', 'inputs'], 'every schema, output format and style, and every pair of process environments',
     'Tests run in one process with one hash seed, locale and clock, and compare few complete outputs.',
     ['core.py', 'utils.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py', 'transform/transform.py'],
     [('everything is written in schema order or a fixed order', 'convert/jidl.py'), ('explicit output encoding', 'core.py')],
     ['bytes of every artifact'])

prop('C09', 'Import resolution is order-independent, self-contained and fault-honest',
     'Resolving the imports of a package from a directory that holds the packages it needs gives the same schema whatever order the directory is listed in: it holds the root package\'s exported types and everything they reach in any package, each definition unchanged except that imported names are made local (different types never get one name), and nothing that is not defined. '
     'Packages that import each other in a cycle resolve, the given schema and the files are left as they were, and an unreadable, malformed or invalid package file is raised, never skipped.',
     ['configurations', 'fault_sequences', 'inputs'], 'every package graph (chains, diamonds, cycles, duplicates), listing order, and read fault on any package file',
     'No test resolves anything: listing order, cycles across packages and read faults are never exercised.',
     ['transform/resolve.py', 'utils.py', 'core.py'],
     [('files are visited in a fixed order', 'transform/resolve.py'), ('a type is visited once', 'transform/resolve.py')],
     ['resolved schema', 'exceptions', 'directory contents'])

prop('C10', 'A batch conversion killed or failing at any point converges when run again',
     'A batch conversion of a schema directory that is killed, or stopped by an I/O fault, at any point and then run again ends with exactly the output directory of an uninterrupted run, in any directory listing order; '
     'it never changes the source directory, and a run that ends normally has written every artifact of every schema completely.',
     ['crash_points', 'fault_sequences', 'configurations'], 'every set of source schemas in all loadable formats, listing order, kill point and I/O fault, any number of times, followed by a clean run',
     'The batch script has no tests; a kill between or inside writes cannot be placed by a unit test.',
     ['distribution/make-artifacts.py', 'core.py', 'convert/html.py', 'convert/jidl.py', 'convert/markdown.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py'],
     [('each artifact is rewritten from the source alone', 'core.py')],
     ['output directory', 'source directory', 'exit of the run'])

prop('C11', 'Threads may check, convert and translate one shared schema',
     'Threads that at the same time check, convert, transform, translate, analyse or build codecs from one shared, already checked schema each get exactly the result they would get alone, '
     'and none of these operations changes the shared schema at any moment.',
     ['schedules', 'inputs'], 'every interleaving, at any instruction, of any mix of these operations on any schema',
     'Tests are single-threaded, and an operation that borrows the schema and puts it back looks fine to them.',
     ['core.py', 'utils.py', 'convert/jidl.py', 'convert/html.py', 'convert/utils.py', 'convert/markdown.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py', 'transform/transform.py'],
     [('operations copy what they change', 'transform/transform.py'), ('documents and option tables are built in locals', 'utils.py')],
     ['result of every operation', 'the shared schema, throughout'])

prop('C12', 'Loading a damaged or unreadable schema never yields an unchecked schema',
     'Loading a schema from a file that is torn, corrupted, replaced while being read, or unreadable at any point raises an error, or returns a schema that says exactly what the bytes read say and obeys JADN\'s rules for schemas; '
     'never a partial one. A read error, including on the reference files that validation needs, is raised, never taken for the end of the file or for a passed check, and no file handle stays open.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every schema file in every loadable format, every tear, corruption and read fault on it and on the validator\'s own files',
     'Tests load strings, and bad schemas are hand-picked; torn files and failing reads never occur.',
     ['core.py', 'convert/jidl.py', 'convert/html.py', 'definitions.py', 'utils.py'],
     [('load functions always run the full check on what they parsed', 'core.py')],
     ['schema or exception of load', 'open handles'])

prop('C13', 'Schema tools give the same answer whatever was processed before',
     'Checking, loading, converting, transforming, analysing, resolving or translating a schema gives the same result or error whatever schemas, valid or not, with whatever configuration, were processed before in the same process, '
     'including operations that failed or were cut short by an interrupt or by exhausted memory or stack. An operation that fails or is cut short leaves the schema it was given unchanged, except that checking may fill in parts omitted from type definitions.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of operations over any schemas, with an asynchronous exception at any call boundary inside any of them',
     'Each test starts from literals and tests one operation; caches, shared tables and defaults changed by a particular earlier operation, or left by a failed one, are out of reach.',
     ['core.py', 'utils.py', 'definitions.py', 'codec/__init__.py', 'codec/format_validate.py', 'convert/jidl.py', 'convert/html.py', 'convert/markdown.py', 'convert/diagram_w.py', 'translate/jsonschema_w.py', 'transform/transform.py', 'transform/resolve.py'],
     [('module tables are never written, style and configuration defaults are copied before use', 'convert/diagram_w.py'), ('operations work on copies', 'transform/transform.py')],
     ['result or exception of each operation', 'the schema passed in'])

prop('C14', 'Peers that hold one schema in different forms understand each other',
     'A peer may hold a schema as written, with its extensions unfolded (once or more), with comments stripped or shortened, or saved as JADN, JIDL or HTML and loaded back, and may restart with another form while messages are under way: '
     'whatever the forms, every peer puts the same message on the wire for a valid value in the same mode and refuses every invalid value, recovers the value sent from the message, and gives the same answer as every other peer to a damaged or forged message. '
     'An unfolded schema has no anonymous types, multiplicity, derived enumerations, links or enumerated-key maps left, and making a form leaves the schema it was made from as it was.',
     ['inputs', 'histories', 'fault_sequences'], 'every schema, form held by each peer, valid, invalid or damaged message, mode, network fault sequence and restart with another form',
     'Tests compare a handful of unfolded schemas with literals; whether two forms mean the same depends on the combination of extensions, mode and message.',
     ['transform/transform.py', 'codec/__init__.py', 'codec/codec.py', 'utils.py', 'core.py', 'convert/jidl.py', 'convert/html.py'], [('unfolding passes', 'transform/transform.py'), ('comment stripping', 'transform/transform.py')],
     ['messages and values of each peer', 'unfolded schema'])

# ---- properties outside the reach of this family (pure functions of one input) -------------------------------------
prop('C15', 'The JSON Schema translation accepts exactly what the verbose codec accepts',
     'For every schema, its JSON Schema translation accepts a verbose JSON message exactly when decoding accepts it, as far as JSON Schema can express the constraint.',
     ['inputs'], 'every schema and message', 'Tests translate a few schemas and never compare the two validators.',
     ['translate/jsonschema_w.py', 'codec/codec.py'], [('type writers', 'translate/jsonschema_w.py')], ['validation verdicts'])
prop('C16', 'Checking accepts every well-formed schema and rejects every other',
     'Checking a schema accepts it exactly when it obeys the JADN rules for names, base types, options, field identifiers, multiplicities and tags.',
     ['inputs'], 'every schema', 'Tests try a few dozen bad schemas.',
     ['core.py', 'data/jadn_v1.1_schema.jadn'], [('structural, meta-schema and semantic checks', 'core.py')], ['verdict of check'])
prop('C17', 'Dependency order lists every reachable type once, after its users',
     'Sorting a dependency graph from its roots lists every reachable type exactly once, with no type before every type that refers to it, and falls back to input order only when there is no root.',
     ['inputs'], 'every dependency graph', 'Tests sort a few small graphs.',
     ['utils.py'], [('depth-first walk', 'utils.py')], ['sorted list'])
prop('C18', 'Comment stripping changes nothing but descriptions',
     'Stripping or truncating comments to a width changes only description texts, to prefixes of at most that width.',
     ['inputs'], 'every schema and width', 'Tests strip one schema at one width.',
     ['transform/transform.py', 'utils.py'], [('truncation', 'utils.py')], ['stripped schema'])
prop('C19', 'Format keywords accept exactly the strings their standards define',
     'A value with a semantic format keyword (date-time, email, hostname, URI, address, UUID and the like) is accepted exactly when it conforms to the standard the keyword names.',
     ['inputs'], 'every string', 'Tests try a few strings per format.',
     ['codec/format_validate.py'], [('validators', 'codec/format_validate.py')], ['verdict of encode and decode'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
