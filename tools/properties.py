#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, technique=technique, note=note, observe=observe, level=level))


D, S, F = 'include/hpp_proto/binpb/deserialize.hpp', 'include/hpp_proto/binpb/serialize.hpp', 'include/hpp_proto/field_types.hpp'
VI, ME, BP = 'include/hpp_proto/binpb/varint.hpp', 'include/hpp_proto/binpb/meta.hpp', 'include/hpp_proto/binpb.hpp'
PBT = 'property-based testing (generated messages / wire bytes, shrinking, reference-model oracle; libFuzzer in the thorough tier)'
MODEL0 = 'model-based property testing (generated operation histories and wire bytes against a reference model, shrinking; libFuzzer in the thorough tier)'
NOTE = 'Random search over schemas covering every field type, label, presence, oneof, map and recursion form, with a hand-written reference codec as the oracle; ASan+UBSan build. Bounds: field counts, sizes and nesting of the generated cases, the fixed schemas in schemas/.'

prop('P01', 'Writing and reading back a message gives an equal message',
     'For every message value, serializing it to the protobuf binary format succeeds and parsing the result yields a message that compares equal, whichever traits (owning, stable, polymorphic-allocator, non-owning, with or without unknown-field storage) the message type was generated with. Serializing that result again gives the same bytes.',
     ['inputs', 'configurations'], 'every message value of every generated type, for all trait families', 'The tests round-trip one or two hand-filled messages per schema; boundary values, combinations of presence states and trait families are not covered.',
     [BP, D, S, F, ME], [('size pre-computation and one-pass writer', S), ('tag-dispatched reader', D), ('field metadata (presence, packing, accessors)', ME)], PBT, NOTE, [BP])
prop('P02', 'Encodings are exactly the canonical protobuf encoding',
     'For every message value the bytes written are the protobuf encoding of that value: every present field exactly once per element with the right tag and wire type, packed exactly when the schema says so, implicit-presence defaults omitted, shortest varints, map entries with key and value, and nothing else. The bytes decode to the same value under an independent protobuf decoder.',
     ['inputs', 'configurations'], 'every message value of every generated type', 'Tests compare bytes for a handful of literals; wrong sizes, tags or packing for other values, field numbers or trait families go unnoticed.',
     [S, ME, VI], [('message_size_calculator and serialize_field overloads', S), ('varint packing', VI), ('omit_value / presence rules', ME)], PBT, NOTE)
prop('P03', 'Every valid encoding decodes to the value protobuf assigns to it',
     'For every byte string that is a valid encoding of a message type, parsing succeeds and yields the value the protobuf specification assigns: fields in any order, repeated occurrences (last one wins, sub-messages merge, repeated fields append), packed or unpacked lists, non-canonical varints, oneof members overriding each other, and unknown fields skipped. Parsing into an object that already holds a value gives the same result as parsing into a fresh one.',
     ['inputs', 'configurations'], 'every valid wire encoding, canonical or not', 'Tests parse a small set of canonical encodings; the space of legal but unusual encodings is only reachable by generation.',
     [D, VI, ME], [('deserialize_field overloads', D), ('varint parser', VI), ('oneof and map handling', D)], PBT, NOTE)
prop('P04', 'Malformed input is always rejected, never misread',
     'For every byte string that is not a valid encoding of the message type (truncated or over-long data, bad tags, field number zero, unbalanced groups, wire types that contradict the schema, lengths beyond the end), parsing returns an error. No input, valid or not, makes the parser crash, read out of bounds, or hang.',
     ['inputs'], 'every byte string', 'Tests try a few broken inputs; truncation points and corruptions are far too many to list.',
     [D, VI], [('bounds checks at region end', D), ('skip_field / groups', D), ('length parsing', D)], PBT, NOTE + ' Malformed inputs come from random mutation and from structured insertion of bad records.')
prop('P05', 'Segmented and padded input read exactly like one contiguous buffer',
     'Parsing input supplied as any sequence of segments, however the bytes are cut (including empty and one-byte segments), or supplied with the documented padding, gives the same success or failure and the same message as parsing the same bytes from one contiguous buffer.',
     ['inputs', 'configurations'], 'every byte string and every way of cutting it into segments', 'Tests cut a few messages at a few places; the interaction of cut position, segment size and field kind is combinatorial.',
     [D], [('region/patch-buffer construction for segmented input', D), ('padded fast path', D)], PBT, NOTE)
prop('P06', 'Every output API and mode produces the same bytes',
     'For every message, all ways of serializing it (into any growable byte container, into a caller-supplied memory resource, returned by value, appended to existing data, or into a chunked sink in contiguous, adaptive or chunked mode with any chunk sizes) produce the same encoding. Appending keeps the existing content; a sink is told the exact total size beforehand, and a sink that runs out of room makes the call fail instead of overrunning a chunk.',
     ['inputs', 'configurations', 'fault_sequences'], 'every message, output API, chunk-size sequence and capacity limit', 'Tests use one sink with a few sizes; field boundaries falling on every chunk boundary need generation.',
     [S, BP], [('contiguous_out / chunked_out', S), ('mode selection', S), ('append_binpb', BP)], PBT, NOTE)
prop('P07', 'Unknown fields and unknown closed-enum values survive a rewrite',
     'When a message type keeps unknown fields, reading an encoding and writing it back preserves every unrecognized field byte for byte and in order, and unrecognized values of closed enums, next to the known fields. Such values never show up as declared fields, and types that do not keep unknown fields drop exactly them.',
     ['inputs', 'configurations'], 'every valid encoding with unknown fields at any depth', 'Tests keep one or two unknown fields; interleavings with known fields, nesting and groups are not covered.',
     [D, S, F], [('unknown field capture', D), ('closed enum diversion', D), ('unknown field writer', S)], PBT, NOTE)
prop('P09', 'Merging two messages equals decoding their concatenation',
     'For any two messages of the same type, merging the second into the first gives the message obtained by decoding the concatenation of their encodings: singular fields are overwritten when set, sub-messages merge recursively, repeated fields and unknown fields are appended, map entries replaced per key, oneofs switch. A source passed by reference is left unchanged.',
     ['inputs', 'configurations'], 'every pair of messages, by copy and by move, for the owning trait families, and the non-owning ones where merging is supported', 'Tests merge a few fixed pairs; every combination of presence states per field kind is needed.',
     ['include/hpp_proto/merge.hpp'], [('message_merger', 'include/hpp_proto/merge.hpp')], PBT, NOTE)
prop('P10', 'String fields accept exactly valid UTF-8; bytes fields accept anything',
     'Reading a message fails when a validated string field (including in repeated, map, oneof and nested positions) holds bytes that are not valid UTF-8, and writing such a message fails as well; every valid UTF-8 string and every bytes value is accepted unchanged. Strings whose schema disables validation are accepted unchanged.',
     ['inputs', 'configurations'], 'every byte string in every string position', 'Tests try single invalid strings in one field.',
     [D, S, 'include/hpp_proto/binpb/utf8.hpp'], [('utf8 validation on read and write', D)], PBT, NOTE)

prop('P08', 'Extensions read back what was set and travel in the message encoding',
     'For every history of setting, getting, testing and clearing extensions of a message, singular or repeated and of every field type, reading an extension returns the value last set, or what was received on the wire under its number, absent extensions report absence or their declared default, and serializing and parsing the message keeps every extension exactly as an encoding with those fields declared would.',
     ['histories', 'inputs', 'configurations'], 'every history of extension operations over messages decoded from any valid bytes', 'Tests set and get one extension of each kind once.',
     [BP, D, S, F], [('set/get/has/clear extension', BP), ('storage keyed by field number', F)], MODEL0, NOTE)

prop('P11', 'Nesting deeper than the recursion limit is refused, everything else is not',
     'For every message and every recursion limit, given as an option or the default of 100, reading succeeds for valid input exactly when sub-messages, groups, map entries and groups inside unknown data nest at most that many levels below the root, and writing succeeds exactly when the message itself does; deeper input or messages yield an error, however deep they are, for generated and dynamic messages, contiguous and segmented input, buffers and sinks. A context used for a call that failed can be used for the next one.',
     ['inputs', 'configurations'], 'every message, encoding, nesting depth and limit', 'Tests nest one recursive field to the limit; which of the field kinds consume and release a level, in every reader and writer path, is not covered.',
     [D, S, 'include/hpp_proto/recursion.hpp'], [('recursion_scope', 'include/hpp_proto/recursion.hpp'), ('nested message, group and skip paths', D), ('size counting and writing', S)], PBT, NOTE + ' Limits 0, 1, 3, 12 and 100.')

prop('P13', 'Any carries a message of exactly the named type',
     'Packing any message into an Any sets the type URL to type.googleapis.com/ followed by the full name of the message and the value to its encoding, replacing what the Any held. Unpacking succeeds exactly when the text after the last slash of the type URL is the full name of the target message and the value decodes, and gives the value decoding gives; another name, or no slash, is reported as invalid_argument.',
     ['inputs', 'configurations'], 'every message, type URL and value, for owning and non-owning Any and messages', 'Tests pack and unpack one or two messages with their right names.',
     [BP], [('pack_any / unpack_any', BP)], PBT, NOTE)
prop('P14', 'Memory comes from the given resources and running out of it is harmless',
     'Reading a non-owning message takes its memory from the resource given by alloc_from only; temporary memory for reading segmented input and for writing comes from cache_alloc_from when given, otherwise from a small buffer and the default resource, and is given back before the call returns; messages never refer to it. Writing copies nothing to the heap. When any single allocation fails during reading, writing, merging, copying or assigning, std::bad_alloc reaches the caller, nothing leaks, the source is unchanged, and the objects involved can still be inspected, assigned, used again and destroyed.',
     ['inputs', 'configurations', 'fault_sequences'], 'every message, encoding and allocation of every call', 'Tests count the allocations of one or two calls and never let one fail.',
     [BP, D, S, 'include/hpp_proto/merge.hpp', 'include/hpp_proto/memory_resource_utils.hpp', 'include/hpp_proto/flat_map.hpp'], [('pb_context, alloc_from, cache_alloc_from', 'include/hpp_proto/memory_resource_utils.hpp'), ('size cache and patch buffers', S), ('containers under failure', 'include/hpp_proto/flat_map.hpp')],
     'property-based testing with fault injection (generated messages; every call is run with counting resources and then again with one generated allocation failing)', NOTE)

UNOTE = 'Random search with shrinking over operation histories and values; ASan+UBSan build. Bounds: the element types instantiated by the harness, at most 60 operations per history.'
MODEL = 'model-based property testing (generated operation histories against a reference model, shrinking; allocation-failure injection)'
prop('V01', 'Varint encoding and decoding agree with the specification',
     'Encoding any integer as a varint (plain or zigzag, every integer width) writes the shortest encoding and exactly the number of bytes the size computation predicts; decoding any byte sequence gives the value the protobuf specification assigns, truncated to the target type, and the position after it, or reports malformed data when there is no terminator within ten bytes. No byte beyond the documented limit is read or written.',
     ['inputs'], 'every integer and every byte sequence', 'Tests decode a table of a few values; the SWAR and unrolled code paths split on every bit position.',
     [VI], [('varint_size, unchecked_pack_varint', VI), ('shift-mix varint parser', VI)], 'property-based testing (generated integers and byte sequences against a reference varint codec, shrinking; libFuzzer in the thorough tier)', 'Random search with bit-length-uniform integers and structured byte sequences; ASan+UBSan build.')
prop('F01', 'flat_map behaves like a sorted map with unique keys',
     'After any sequence of insertions, assignments, erasures, lookups, swaps, moves, copies, merges and container replacements, a flat_map holds the same entries as a reference ordered map, iterates them in key order in both directions, reports the same results from every operation, and neither leaks nor uses destroyed elements, also when an element operation or an allocation throws.',
     ['histories', 'fault_sequences', 'inputs'], 'every history of flat_map operations, with comparators, stateful allocators and injected failures', 'Tests run each operation once on a few elements; histories and exceptions in the middle of an operation are not covered.',
     ['include/hpp_proto/flat_map.hpp'], [('flat_map', 'include/hpp_proto/flat_map.hpp')], MODEL, UNOTE)
prop('F02', 'Recursive-field holders own exactly one deep-copied value',
     'indirect, optional_indirect and the indirect views behave as values: copying gives an independent deep copy, moving and swapping transfer the value, comparison looks at the value, and every allocated object is destroyed and freed exactly once with the allocator that made it, for any history of operations, any allocator propagation rules and injected failures.',
     ['histories', 'fault_sequences'], 'every history of operations over several objects and allocators', 'Tests try single copies and moves with the default allocator.',
     ['include/hpp_proto/indirect.hpp', 'include/hpp_proto/optional_indirect.hpp', 'include/hpp_proto/indirect_view.hpp'], [('ownership and allocator propagation', 'include/hpp_proto/indirect.hpp')], MODEL, UNOTE)
prop('F03', 'Arena vectors extend views without losing or clobbering data',
     'An arena vector over a non-owning sequence behaves like a vector that starts as a copy of the view: after any history of appends, resizes, reservations, assignments and element writes, the view holds the sequence a reference vector holds, memory comes only from the given resource, the originally viewed elements are never modified, and nothing is accessed out of bounds.',
     ['histories', 'fault_sequences'], 'every history of arena-vector operations, also with failing allocations', 'Tests cover append and resize of a few elements.',
     ['include/hpp_proto/memory_resource_utils.hpp'], [('arena_vector', 'include/hpp_proto/memory_resource_utils.hpp')], MODEL, UNOTE)
prop('F04', 'Optional fields with defaults behave like std::optional plus a default',
     'A generated optional field behaves like std::optional for every history of assignments, conversions, emplacements, resets, swaps and comparisons, and its value-or-default view yields the declared default exactly when it is empty. Default values of string and bytes fields reproduce the declared bytes.',
     ['histories', 'inputs'], 'every history of optional-field operations over several value types and defaults', 'Tests check construction and a few assignments.',
     [F], [('optional', F), ('string_literal / bytes_literal', F)], MODEL, UNOTE)

DY = 'include/hpp_proto/dynamic_message/'
DNOTE = 'Schemas are themselves generated (random proto2/proto3/edition files, several files, packages and nesting), so nothing depends on a fixed schema; reference codec and reference value model as oracles; ASan+UBSan build. Bounds: the size of the generated schemas and histories.'
prop('D01', 'Dynamic messages read and write like the generated code would',
     'For every valid set of schemas and every message type in it, a dynamic message built by the factory parses exactly the valid encodings to the value the schema assigns them (presence, defaults, packed and unpacked lists, oneofs, maps, groups, closed enums, UTF-8 validation), rejects malformed bytes, and writes the canonical encoding of its value, also from segmented input.',
     ['inputs', 'configurations', 'programs'], 'every schema set and every encoding of every message in it', 'Tests load one or two fixed schemas and a couple of messages.',
     [DY + 'binpb.hpp', 'src/dynamic_message/factory.cpp', 'include/hpp_proto/descriptor_pool.hpp'], [('deserialize/serialize of message_value_mref', DY + 'binpb.hpp'), ('descriptor pool', 'include/hpp_proto/descriptor_pool.hpp')], PBT, DNOTE)
prop('D02', 'The dynamic message API reads back what was written, field by field',
     'For every history of dynamic-message operations (set, adopt, alias, clone, reset, clear, append, resize, element access, typed and untyped views, lookups by name and number, oneof switches), every accessor reports the state a plain value model of the message has: values, presence, sizes, active oneof member and defaults. Operations naming wrong fields or types fail without changing the message.',
     ['histories', 'programs'], 'every history of API calls over every generated schema', 'Tests call each accessor once on a fixed message.',
     [DY + f for f in ("field_refs.hpp", "message_fields.hpp", "scalar_fields.hpp", "string_fields.hpp", "bytes_fields.hpp", "enum_fields.hpp", "repeated_scalar_fields.hpp", "repeated_message_fields.hpp", "storage.hpp")], [('field references and storage', DY)], MODEL, DNOTE)

prop('D03', 'The factory describes every schema set faithfully and owns its memory',
     'For every consistent set of file descriptors, given as one descriptor set or as separate files in any order, the factory succeeds and its descriptors report the schema as protobuf defines it: names and nesting, field numbers, types, presence, packing, encoding, UTF-8 and closedness features, oneof members, enum values, dependencies and extensions; lookups find exactly the declared names and numbers. All memory comes from the given allocator and is released exactly once, also after moves, assignments and failed allocations.',
     ['programs', 'inputs', 'fault_sequences'], 'every consistent schema set, file order and allocation failure point', 'Tests load fixed schemas and look up a few names.',
     ['src/dynamic_message/factory.cpp', 'include/hpp_proto/descriptor_pool.hpp', DY + 'factory.hpp', DY + 'factory_addons.hpp'], [('descriptor_pool', 'include/hpp_proto/descriptor_pool.hpp'), ('dynamic_message_factory', 'src/dynamic_message/factory.cpp')], PBT, DNOTE)
prop('D04', 'The factory rejects inconsistent schema sets',
     'A descriptor set with a structural defect (duplicate or missing names or files, import cycles, unknown editions, invalid or clashing field numbers, names, types or labels, broken oneofs, unresolved types or extendees, unparsable defaults, enums without values) is rejected as a schema error, bytes that are not a descriptor set as a deserialization error, and no descriptor bytes make the factory crash, leak or hang.',
     ['programs', 'inputs'], 'every single structural defect in every generated schema set, and arbitrary corruption of descriptor bytes', 'Tests try one instance of some defects.',
     ['include/hpp_proto/descriptor_pool.hpp', 'src/dynamic_message/factory.cpp'], [('validation while building the pool', 'include/hpp_proto/descriptor_pool.hpp'), ('finish_initialize', 'src/dynamic_message/factory.cpp')], PBT, DNOTE)

GEN, LEX = 'src/protoc-plugin/hpp_generator.cpp', 'src/protoc-plugin/cpp_lexical_emitter.cpp'
prop('G01', 'Generated code for any valid schema compiles and conforms to the wire format',
     'For every valid set of proto files (any syntax or edition, packages, imports, nesting, recursion, field types, names that clash with C++ words, defaults, features), the plugin either produces headers that compile on their own or refuses with a diagnostic naming what cannot be expressed in C++; messages generated from accepted schemas encode and decode exactly as the schema prescribes.',
     ['programs', 'inputs', 'configurations'], 'every valid schema set, and for each schema every message value and encoding', 'Tests generate code for a fixed set of proto files; the generator branches on combinations of features, names and type graphs no fixed set covers.',
     [GEN, LEX], [('declaration order and recursion handling', GEN), ('field metadata emission', GEN), ('identifier and literal emission', LEX)],
     'property-based testing of the code generator (random schemas are generated, compiled, and run through the generated-message properties against a reference model; schema-level shrinking)',
     'Random schemas (sizes bounded by the generator); each is compiled with clang and run with about 2500 generated messages and encodings.')
prop('G02', 'Descriptor and service headers match the schema, under the documented names',
     'For every valid set of proto files, whatever their paths, imports, options and contents, the plugin produces exactly the documented headers for each requested file, with contents that do not depend on what else is requested. The descriptor header makes the descriptor of the file, source information aside, available in the namespace documented for its path or name override, together with the set of all files it depends on, each once; the service header names every method with its path, streaming kinds and message types. Paths and overrides without a usable C++ name, or that clash, are refused with a diagnostic naming the files.',
     ['programs', 'configurations', 'inputs'], 'every set of virtual paths, dependency graph, name override, plugin option and file content', 'Tests look at a handful of fixed paths and one service.',
     [GEN, LEX, 'include/hpp_proto/file_descriptor_pb.hpp'], [('file_descriptor_name::from_proto_file', LEX), ('desc_hpp_generator, service_generator, validate_file_descriptor_names', GEN)],
     'property-based testing of the code generator (random file sets are generated, compiled and run; oracle: the request itself and a model of the documented naming rules; shrinking)',
     'Random file sets of up to seven files; the headers of each are compiled with clang and what they offer is compared with the request.')

GR = 'include/hpp_proto/grpc/'
prop('R01', 'gRPC byte buffers carry messages unchanged however they are sliced',
     'Serializing a message into a gRPC byte buffer in any mode and chunk size gives the protobuf encoding of the message, as one slice in contiguous mode, or an INTERNAL status when the message cannot be serialized. Reading a byte buffer whose content is cut into any slices gives the same message, or the same failure, as parsing the concatenated bytes; a non-owning message stays valid after the buffer is gone when a memory resource is supplied.',
     ['inputs', 'configurations'], 'every message, encoding, slicing, mode and chunk size', 'Tests round-trip a few small messages in one slice; slice boundaries inside fields and chunk-size boundaries are not covered.',
     [GR + 'serialization.hpp', D, S], [('byte buffer input source and output sink', GR + 'serialization.hpp')], PBT, NOTE)
prop('R02', 'RPCs deliver every message, status and completion exactly once',
     'For every scripted call (unary, blocking or asynchronous; client, server and bidirectional streaming; any message contents and serialization modes; errors, unreadable messages, unimplemented methods, requests that cannot be serialized, cancellation at any point), the client receives the replies the server sent, in order, with the status the server finished with; a message that cannot be serialized or parsed yields an INTERNAL status and nothing is sent in its place; every client callback and every server handler is completed exactly once, and end-of-stream and cancellation are reported to the handler as what they are.',
     ['histories', 'inputs', 'schedules', 'fault_sequences'], 'every history of calls with every scripted server behaviour', 'Tests make a few calls of each kind with fixed messages that always succeed.',
     [GR + 'client.hpp', GR + 'server.hpp'], [('stub and client reactors', GR + 'client.hpp'), ('server reactors and handler lifetime', GR + 'server.hpp')],
     'model-based property testing (scripted call histories over a real gRPC connection, compared with a model of the outcome, shrinking)', 'Random search over call scripts on a local socket; thread schedules are those the operating system produces. ASan+UBSan build. After an error status or an early end by the server gRPC itself may drop replies under way, so there a prefix is accepted.')


J = 'include/hpp_proto/json/'
JM = 'property-based testing (generated values and mutated texts against independent reference codecs, shrinking; libFuzzer in the thorough tier)'
prop('J01', 'Base64 text of bytes encodes and decodes exactly',
     'Encoding any byte sequence for JSON gives its padded standard base64 text, of at most the predicted size. Decoding gives back exactly the bytes for every padded standard base64 text, into owning and non-owning targets alike, ignoring unused trailing bits, and fails for text with other characters, misplaced padding or a wrong length.',
     ['inputs'], 'every byte sequence and every text', 'Tests convert a few short byte strings; block boundaries, padding combinations and malformed texts are not covered.',
     [J + 'base64.hpp'], [('encode, decode, padding rules', J + 'base64.hpp')], JM, 'Random search; ASan+UBSan build. URL-safe and unpadded variants are left open.')
prop('J02', 'Timestamp, Duration and FieldMask text forms are exact and strict',
     'Every Timestamp and Duration within the range of its type is written as the text the JSON mapping of protobuf prescribes (shortest of 0, 3, 6 or 9 fraction digits, sign on durations), values out of range or with inconsistent signs are refused, and reading that text gives the value back. Reading any other text gives the value it denotes or fails when it is malformed or out of range. FieldMask paths are joined with commas, escaped as JSON requires within the predicted size, and read back as the same paths.',
     ['inputs'], 'every value and every text', 'Tests use a table of about twenty texts; leap years, range ends, digit counts and malformed numbers need generation.',
     [J + 'timestamp_codec.hpp', J + 'duration_codec.hpp', J + 'field_mask_codec.hpp'], [('RFC 3339 codec', J + 'timestamp_codec.hpp'), ('duration codec', J + 'duration_codec.hpp'), ('field mask codec', J + 'field_mask_codec.hpp')], JM,
     'Random search; ASan+UBSan build. The JSON library the codecs are used with (glaze) is not installed: four of its helpers are replaced by stand-ins. Time zone offsets and lower-case letters in timestamps are left open.')

prop('J03', 'Messages survive the JSON form',
     'For every message, generated or dynamic, writing it as JSON gives the text the JSON mapping of protobuf prescribes, and reading that text gives an equal message; malformed JSON is rejected.',
     ['inputs', 'configurations'], 'every message and every text', 'Tests convert a few fixed messages.',
     ['include/hpp_proto/json.hpp', 'include/hpp_proto/json/util.hpp', DY + 'json.hpp'], [('JSON codec on top of glaze', 'include/hpp_proto/json.hpp')], JM, 'not built')
NOT_APPLICABLE = [{'property': 'J03', 'reason': 'The JSON codec is a set of extensions of the glaze library (serialize<JSON>, parse<JSON> and its reflection drive every step), which is neither in the repository nor installed, and there is no network: nothing that includes json.hpp can be compiled here, so no generated input can be run through it. The parts that do not need glaze are covered by J01 and J02.'}]


def write():
    import sys
    sys.path.insert(0, V + '/tools')
    import checks
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['tests'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': f"./check.py {p['id']} --tier quick", 'thorough_cmd': f"./check.py {p['id']} --tier thorough", 'technique': p['technique'],
                     'level': p['level'], 'level_note': p['note'], 'evidence_file': f"evidence/{p['id']}.json"} for p in P if p['id'] in checks.CHECKS],
         'not_applicable': NOT_APPLICABLE}
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['title']
        if p['id'] not in checks.CHECKS:
            print('no check for', p['id'])
    for c in checks.CHECKS:
        assert any(p['id'] == c for p in P), c


if __name__ == '__main__':
    write()
