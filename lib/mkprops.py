#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the text of the properties)."""
import json, os
I='/repo/include/hpp_proto/'
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['include/hpp_proto/'+f if not f.startswith('src/') else f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
D='binpb/deserialize.hpp'; S='binpb/serialize.hpp'
props=[
P('W01','Decoding yields exactly the value the wire format assigns',
 'For every byte string that is a valid protobuf encoding of a message of the target type, decoding succeeds and the resulting message holds exactly the value the wire format assigns: varint, zigzag, fixed and length-delimited scalars at full width, packed and unpacked repeated data in order, singular scalars last-wins, embedded messages merged, groups matched, presence recorded for explicit-presence fields. Decoding into a message that already holds data gives the same result as decoding into a fresh one. Fields may come in any order, may be split, may use non-minimal varints, and may use any legal field number up to 536870911.',
 ['inputs','configurations'],'all valid encodings x all field kinds (scalar types, cardinalities, presence, packed/expanded, groups, delimited) of proto2/proto3/editions schemas',
 'the tests decode a few dozen literal byte strings written in canonical order; interleavings, non-canonical encodings, large field numbers and split/merged occurrences are not sampled',
 [D,'binpb/varint.hpp','binpb/meta.hpp','binpb.hpp'],
 [('field dispatch and per-type decoders',D+': deserialize_field_by_tag / deserialize_field'),('varint decoding',  'binpb/varint.hpp: unchecked_parse_varint / shift-mix parsing')],
 [('message value','abstract value of each field of the decoded message','generated message structs')],['hpp_proto::read_binpb / merge_binpb']),
P('W02','Malformed or truncated input is rejected without overrun',
 'For every byte string that is not a valid encoding for the target type (truncated data, overlong or unterminated varints, lengths past the end, field number zero, illegal or mismatched wire types, unbalanced groups, bad map entries), decoding reports an error instead of success. No input of any content or length makes decoding crash, raise a C++ exception other than allocation failure, loop forever or touch memory outside the input.',
 ['inputs'],'all byte strings, every truncation point and every single-byte corruption of valid encodings',
 'the tests check a handful of hand-written malformed strings; truncation at each offset, in each input form and inside each nested region is not sampled',
 [D,'binpb/varint.hpp','binpb.hpp'],[('region/slope bounds checks',D+': basic_in, contiguous and chunked archives'),('error propagation',D+': status / std::errc')],
 [],['hpp_proto::read_binpb']),
P('W03','Encoding writes exactly the canonical bytes and round-trips',
 'Encoding a message writes each present field exactly once per element in schema order with the declared wire type (packed or expanded, zigzag or plain, fixed, delimited or group), omits absent and implicit-default fields, and appends retained unknown data; the number of bytes written equals the computed size. Decoding what was encoded yields an equal message, including extreme values, negative enums, NaN/-0.0 bit patterns and empty-but-present members.',
 ['inputs','configurations'],'all message values x schemas x message-trait families',
 'tests encode a few fixed messages and compare with literal bytes; length-prefix boundaries (127/128, 16383/16384), nested lengths and combinations of presence are sampled once or not at all',
 [S,'binpb/varint.hpp','binpb/meta.hpp'],[('size cache and two-pass encoding',S+': message_size_calculator / serialize'),('per-kind emitters',S)],
 [],['hpp_proto::write_binpb']),
P('W04','Decoding does not depend on how the input is stored or chunked',
 'Decoding the same bytes from one contiguous buffer, from a zero-padded buffer or from any segmentation into chunks (including empty and one-byte chunks) gives the same outcome: all succeed with equal messages or all fail.',
 ['inputs','configurations'],'all byte strings x all segmentations into chunks',
 'tests use a few fixed splits of a few messages; the outcome must hold for every cut position relative to tags, lengths, packed payloads, strings, groups and unknown fields',
 [D,'binpb/varint.hpp','binpb/concepts.hpp'],[('region switching / patch buffer',D+': chunked archive, set_current_region, maybe_advance_region'),('padded fast path',D)],
 [],['hpp_proto::read_binpb with ranges of chunks / padded_input']),
P('W05','Encoding does not depend on the kind of output; bounds and append hold',
 'A message encodes to the same bytes whether written to a growing container, a fixed span, or a chunked/contiguous/adaptive sink of any chunk size. Appending leaves everything already in the container untouched and adds exactly the encoding. A fixed output that is too small yields an error and is never overrun.',
 ['inputs','configurations','histories'],'all messages x all output kinds x all chunk capacities x all prior contents',
 'tests use one or two sinks with fixed sizes; boundary positions where a tag, length or payload straddles a chunk edge are not enumerated',
 [S,'binpb.hpp','memory_resource_utils.hpp'],[('sink chunk hand-over',S+': contiguous/chunked output archive'),('append/resize logic',S+': serialize_contiguous_buffer*')],
 [],['hpp_proto::write_binpb / append_binpb']),
P('W06','Unknown fields are skipped exactly or retained byte for byte',
 'Fields a schema does not know (of every wire type, nested groups, non-minimal tags, any position and depth) never disturb the known fields. A message type configured to retain unknown fields holds them byte for byte in arrival order and writes them back, so that decode followed by encode loses nothing; other message types drop exactly those bytes and no others.',
 ['inputs','configurations'],'all encodings with unknown fields inserted at any position and nesting x retaining and non-retaining trait families x input forms',
 'tests have a few unknown fields at the top level of a contiguous buffer',
 [D,S,'field_types.hpp'],[('skip / retain',D+': skip_field, do_skip_group, unwind_tag'),('retained storage','field_types.hpp: pb_unknown_fields')],
 [],['read_binpb / write_binpb, unknown_fields_']),
P('W07','Nesting depth is bounded exactly by the recursion limit',
 'Decoding or encoding succeeds when messages, groups, map values and unknown groups are nested at most as deep as the configured limit (default 100 below the root, settable per call) and is reported as an error when deeper; the limit counts current depth, not the number of submessages seen, and hostile depth never exhausts the stack.',
 ['inputs','configurations'],'all nesting shapes x all limits x decode/encode/dynamic/chunked paths',
 'tests use one or two depths of a single kind of nesting',
 ['recursion.hpp',D,S,'dynamic_message/pb_serializer_ext.hpp'],[('recursion guard','recursion.hpp')],
 [],['read_binpb/write_binpb with recursion_limit']),
P('W08','Open enums keep every number, closed enums reject unknown numbers',
 'An open enum field stores any 32-bit number, and a closed enum field stores only declared numbers: an undeclared number in a singular, optional, repeated (packed or not) or oneof closed enum leaves the field as it was and is treated as an unknown field (retained where unknown fields are kept). The surrounding fields and the other elements of the same repeated field are unaffected.',
 ['inputs','configurations'],'all numbers x field shapes (singular, optional, repeated packed/expanded, oneof, map value) x closed/open x trait families',
 'tests use one or two undeclared values in one shape',
 [D,'binpb/meta.hpp'],[('validity test of closed enums',D+': deserialize_enum paths, is_valid hooks')],[],['read_binpb']),
P('W09','Map fields behave as last-wins dictionaries on the wire',
 'Decoding map entries yields for each key the value of its last entry, with a missing value taking the value type default, and each entry is encoded once as a nested key/value message, default keys and values included. All key kinds and all value kinds (scalars, strings, enums, messages, recursive messages) obey this whatever the order and repetition of entries.',
 ['inputs','configurations'],'all sequences of map entries x key kinds x value kinds x trait families',
 'tests decode small maps with distinct keys in one order',
 [D,S,'flat_map.hpp'],[('map entry codec',D+': deserialize map entry',),('container','flat_map.hpp')],[],['read_binpb/write_binpb']),
P('W10','A oneof holds at most its last-set member',
 'After any sequence of occurrences of the members of a oneof on the wire, exactly the last one that occurred is set (a message member that occurs again without another in between is merged), and encoding writes exactly that member even when its value is the type default; no earlier member survives a switch.',
 ['inputs','histories'],'all sequences of member occurrences x member kinds',
 'tests set one member, or two in one order',
 [D,S],[('oneof decoder',D+': deserialize_oneof')],[],['read_binpb/write_binpb']),
P('W11','Merging two messages equals decoding their concatenated encodings',
 'For any two messages of one type, merging the second into the first gives the message obtained by decoding the concatenation of their encodings: set scalars overwrite, unset ones leave the target alone, repeated fields append, maps overwrite per key, embedded messages and same oneof members merge recursively, unknown fields append. The source is unchanged when it is merged by copy.',
 ['inputs','configurations'],'all pairs of messages x trait families x copy/move merge',
 'tests merge one pair per field type',
 ['merge.hpp','binpb.hpp',D],[('merge visitor','merge.hpp')],[],['hpp_proto::merge, merge_binpb']),
P('W12','Trait families agree and allocate only where they are told to',
 'Decoding the same bytes with the owning, stable, polymorphic-allocator and non-owning message families gives equal abstract values. When a memory resource is supplied (to the call, or as the process default for the polymorphic-allocator families), every dynamic part of a decoded message of an allocator-aware or non-owning family lives in that resource (or, for non-owning contiguous input, aliases the input), at every nesting level, and nothing is taken from the resource after the call.',
 ['inputs','configurations'],'all inputs x trait families x memory resources',
 'tests decode fixed messages with a monotonic resource and do not observe where the memory came from',
 [D,'field_types.hpp','memory_resource_utils.hpp','flat_map.hpp'],[('context allocators',  'memory_resource_utils.hpp'),('arena vectors',D)],[],['read_binpb with alloc_from']),
P('W13','String fields only accept valid UTF-8 where the schema demands it',
 'With UTF-8 validation enabled, decoding or encoding a string field that requires validation fails exactly if its bytes are not well-formed UTF-8 (also inside repeated, map key/value, oneof and chunk-split strings), while bytes fields and fields without the requirement accept every byte string.',
 ['inputs','configurations'],'all byte strings x string field positions x schema settings x input segmentations',
 'the repository tests here are built with validation off',
 ['binpb/utf8.hpp',D,S],[('validation calls','binpb/utf8.hpp')],[],['read_binpb/write_binpb']),
P('E01','Extensions read back what was set and unset ones give their defaults',
 'For any history of setting, getting, testing and decoding extensions on an extendable message, reading an extension returns the value last set or decoded (merged/appended across several occurrences as for ordinary fields) or its declared default, setting one never disturbs another, and encoding writes every extension exactly once so that a re-decode gives the same set.',
 ['histories','inputs'],'all histories of set/get/has/decode/encode over extensions of all kinds',
 'tests set each extension once',
 [D,S,'field_types.hpp','binpb.hpp'],[('extension storage','binpb.hpp / binpb/meta.hpp: extension_meta, pb_extensions')],[],['set_to / get_from / in']),
P('A01','Any packs and unpacks faithfully',
 'Packing a message into Any stores its encoding under a type URL whose last path segment is its full name, and unpacking succeeds exactly if that last segment equals the full name of the requested type, whatever the prefix, giving a message equal to the packed one.',
 ['inputs'],'all messages, all type URLs, prefixes and type names',
 'tests pack one message and unpack it as the right type and one wrong type',
 ['binpb.hpp'],[('pack_any / unpack_any / is_any','binpb.hpp')],[],['pack_any, unpack_any']),
P('K01','Compile-time encoding equals run-time encoding',
 'A message encoded in a constant expression has exactly the bytes the same message has when encoded at run time, and decoding in a constant expression gives the run-time value.',
 ['inputs'],'all constant messages','tests evaluate a few constants',
 [S,D,'binpb/varint.hpp'],[('consteval branches',S)],[],['write_binpb consteval overload']),
P('D01','Run-time schemas encode and decode exactly like generated code',
 'For every schema loaded at run time and every byte string, decoding and encoding through the dynamic message gives the same abstract value, the same bytes for a given value and the same acceptance or rejection as the wire format prescribes for that schema (unknown fields are dropped), independently of input chunking.',
 ['inputs','configurations'],'all schemas x byte strings x chunkings','tests read and write a few unit-test messages and compare round trips only',
 ['dynamic_message/pb_serializer_ext.hpp','dynamic_message/binpb.hpp','dynamic_message/storage.hpp'],[('dynamic codec','dynamic_message/pb_serializer_ext.hpp')],[],['dynamic_message read_binpb/write_binpb']),
P('D02','Dynamic message fields behave like a record under any operation history',
 'Under any sequence of set, adopt, emplace, clear, reset, resize, append, clone and oneof operations on the fields of a dynamic message, every read (value, presence, size, element, active oneof member) returns what the sequence implies for a record with those fields: absent fields give defaults, setting a oneof member clears its siblings, cloning copies value and presence deeply, and an operation on one field never changes another.',
 ['histories'],'all operation histories over fields of all kinds','tests exercise each operation once on a fresh message',
 ['dynamic_message/message_fields.hpp','dynamic_message/scalar_fields.hpp','dynamic_message/storage.hpp','dynamic_message/enum_fields.hpp','dynamic_message/string_fields.hpp','dynamic_message/bytes_fields.hpp','dynamic_message/repeated_message_fields.hpp'],
 [('field views over a shared storage slot','dynamic_message/*_fields.hpp')],[('storage slot','selection/size/content of a field','dynamic_message/storage.hpp')],['message_value_mref, field mrefs']),
P('D03','Only well-formed schemas are accepted at run time',
 'Loading a set of file descriptors into a dynamic message factory succeeds exactly if the set is well formed: file names present and unique, the edition a known one, every dependency present and acyclic, full names of messages and enums unique, every type reference (and extendee) resolved to the right kind, field types and labels valid, field numbers legal and, like field names and custom JSON names, unique within the message, oneofs non-empty, their indices in range and their members consecutive and not repeated, the enums of fields non-empty, defaults parseable and in range (and of enums: declared). An ill-formed set is reported as an error without crashing.',
 ['inputs'],'all descriptor sets, in particular every single corruption of a well-formed one','tests load a few good sets and a few broken ones',
 ['descriptor_pool.hpp','src/hpp_proto/dynamic_message/factory.cpp','dynamic_message/factory.hpp'],[('pool construction and validation','descriptor_pool.hpp')],[],['dynamic_message_factory::create']),
P('D04','Field semantics follow syntax, edition and feature overrides',
 'For each field of a loaded schema, presence, packed encoding, delimited encoding, required-ness, enum openness and UTF-8 requirement are those given by its syntax or edition defaults overridden by the features of the file, then the enclosing messages, then the field (or enum) itself, nearest wins (an explicit packed option wins over both; maps and what is in their entries are always length-prefixed), and encoding, decoding and the values of absent fields follow them.',
 ['configurations'],'all combinations of edition/syntax and overrides at file, message, enum and field level','tests check the handful of combinations in the sample protos',
 ['descriptor_pool.hpp'],[('feature merging','descriptor_pool.hpp')],[],['descriptor accessors and wire behaviour of dynamic messages']),
P('C01','The flat map behaves as an ordered unique-key dictionary',
 'Under any sequence of insertions, assignments, emplacements, lookups, erasures, bulk inserts, merges, copies, moves and swaps, the flat map holds strictly increasing unique keys with the values an ordered dictionary would hold, every operation returns what the dictionary prescribes, and elements stay in the memory resource of their container.',
 ['histories'],'all operation histories','tests run one short sequence per operation',
 ['flat_map.hpp'],[('sorted parallel key/value containers','flat_map.hpp')],[('keys/values','two parallel sequences','flat_map.hpp')],['flat_map public API']),
P('C02','Optional and indirect holders have value semantics',
 'Under any sequence of construction, copy, move, swap, assignment, emplacement and reset, optional fields and the indirect holders of recursive members have value semantics: copies are deep and independent, assignment makes source and target equal, self-assignment is harmless, an empty holder reads as its default, and no object is leaked or destroyed twice.',
 ['histories'],'all operation histories over several holders','tests use each operation once',
 ['field_types.hpp','indirect.hpp','optional_indirect.hpp'],[('holders','indirect.hpp, optional_indirect.hpp, field_types.hpp: optional')],[],['public API of the holders']),
P('J01','Base64 text maps one-to-one onto bytes',
 'Encoding any byte string gives its standard padded Base64 text and decoding that text gives the bytes back; text that is not padded Base64 (bad length, character or padding position) is rejected, and neither direction reads or writes outside its buffers.',
 ['inputs'],'all byte strings and all texts','tests round-trip the RFC vectors',
 ['json/base64.hpp'],[('codec','json/base64.hpp')],[],['base64::encode/decode']),
P('J02','Timestamp and duration text follows the protobuf JSON rules exactly',
 'Formatting a timestamp or duration gives the prescribed text (UTC calendar date; 0, 3, 6 or 9 fractional digits) exactly when the value is in the legal range and an error otherwise; parsing accepts exactly legal texts and yields the same instant or span, so formatting then parsing is the identity.',
 ['inputs'],'all (seconds, nanos) pairs and all texts','tests check a few dates',
 ['json/timestamp_codec.hpp','json/duration_codec.hpp'],[('codecs','json/timestamp_codec.hpp, json/duration_codec.hpp')],[],['timestamp_codec / duration_codec encode/decode']),
P('J03','JSON text maps onto messages per the protobuf JSON mapping',
 'Writing any message as JSON and reading it back gives an equal message, for generated and dynamic messages alike, and text violating the mapping is rejected.',
 ['inputs'],'all messages, all JSON texts','tests use fixed documents',
 ['json.hpp','json/util.hpp','dynamic_message/json.hpp'],[('glaze based codec','json.hpp')],[],['read_json/write_json']),
P('G01','gRPC messages survive any slicing and are encoded as on the wire',
 'A message handed to gRPC becomes byte buffers whose concatenation is exactly its binary encoding, and a byte buffer cut into any slices decodes to the message its concatenated bytes denote or fails with an error status if they denote none.',
 ['inputs','configurations'],'all messages x slicings','tests send a few small messages over a local channel',
 ['grpc/serialization.hpp',S,D],[('byte buffer sink and slices view','grpc/serialization.hpp')],[],['SerializationTraits / byte buffer helpers']),
P('G02','A server call finishes exactly once, with the right status, in any event order',
 'For every order of stream events (reads, end of stream, write success/failure, cancellation) and handler actions, each server-side call is finished exactly once, with the status the handler gave or the prescribed fallback (cancelled, write failure), no operation is started after the finish or while one of its kind is outstanding, and handlers see each message exactly once in order.',
 ['schedules','histories','fault_sequences'],'all interleavings of stream events and handler actions for the four call kinds','tests run one happy path per call kind',
 ['grpc/server.hpp'],[('reactors','grpc/server.hpp')],[],['grpc server callbacks']),
P('G03','A client call completes exactly once, with the server\'s replies and status',
 'For every call kind, way of calling (blocking, callback function, reactor) and every sequence of messages on both sides, the call completes exactly once on the client, with the status the server ended it with (or the error of the side that could not serialize), after the client has seen exactly the replies the server sent, in order; each request that could be serialized reaches the handler once, in order; writes report which could not; nothing aborts, hangs or is left unfinished on either side.',
 ['schedules','histories','inputs'],'all programs of both sides x all interleavings of their steps, all message sizes','the greeter tutorial sends a few fixed messages that always succeed',
 ['grpc/client.hpp','grpc/server.hpp','grpc/serialization.hpp'],[('stub and client reactors','grpc/client.hpp')],[],['Stub::call/async_call, ClientCallbackReactor']),
P('P01','Generated identifiers and literals are always valid and faithful C++',
 'For any schema name and any default-value or comment text, the generator emits a legal C++ identifier that is not reserved and distinguishes what the schema distinguishes, literals that denote exactly the given bytes or number, and comments that cannot escape into code.',
 ['inputs'],'all names, byte strings, numeric texts and comments','tests compile the sample protos',
 ['src/protoc-plugin/cpp_lexical_emitter.cpp','src/protoc-plugin/cpp_lexical_emitter.hpp'],[('lexical emitter','src/protoc-plugin/cpp_lexical_emitter.cpp')],[],['emitter functions']),
P('P02','Generated code implements the schema it was generated from',
 'For every valid schema the generator\'s output compiles and the generated types have the declared defaults, presence, packedness, enum numbers and field numbers, so that messages exchanged with any other implementation of the schema agree.',
 ['programs','inputs'],'all valid schemas (names, nesting, cross references, recursion, defaults, editions features)','tests compile the fixed sample schemas',
 ['src/protoc-plugin/hpp_generator.cpp','descriptor_pool.hpp'],[('generator','src/protoc-plugin/hpp_generator.cpp')],[],['protoc-gen-hpp output']),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p)+'\n')
print(len(props))
