HIST = ('TLC checks the laws of the state machine on every state and operation of a small domain and exports each (state, operation, allowed outcome), all of which are '
        'replayed into the real code; long seeded histories of the real code are re-enacted by TLC step by step. Trusted: the specification, TLC, the drivers.')
DONE['C01'] = (T + 'every (map, operation) of the bounded domain replayed + trace validation of long histories', HIST)
DONE['C02'] = (T + 'every state of three holders and every operation replayed + trace validation of long histories', HIST)
TEXT = ('TLC checks the laws of the text formats on all short strings / on walked stretches of the calendar and re-enacts every recorded call of the real codecs; beyond the '
        'enumerated strings the inputs are sampled (VERIF_SEED). The codecs are compiled against a two-function stand-in for glaze. Trusted: the specification, TLC, the drivers.')
DONE['J01'] = (T + 'all short strings replayed + trace validation of sampled encodes and decodes', TEXT)
DONE['J02'] = (T + 'calendar laws + trace validation of formatting and parsing', TEXT)
NA['J03'] = 'the JSON mapping is implemented on top of the glaze library, which is not installed in this sandbox: no JSON code of the repository can be compiled or run here'
DONE['W12'] = (T + 'the resource log of every decode re-enacted event by event, every part of the message located in it; values against the decoder machine',
               'TLC re-enacts the recorded log of the supplied memory resource and checks where each part of the decoded message lives; inputs sampled (VERIF_SEED). Trusted: the specification, TLC, the drivers.')
DONE['W13'] = (T + 'all short byte strings over the class borders replayed in every string position + trace validation of streams and values with validation on',
               WIRE + ' The is_utf8 library is absent and replaced by a stand-in that is itself compared with the specification.')
DONE['D01'] = (T + 'streams, mutated streams and values through the dynamic codec, each validated against the same decoder/encoder machine; explored prefixes replayed',
               WIRE + ' Schema as dynamic messages see it (required has presence, unknown fields dropped, no recursion of groups lost).')
DONE['D02'] = (T + 'every operation around every field of every message type replayed on real dynamic messages + trace validation of long histories', HIST)
DESC = ('The specification decides whether a set of descriptors is well formed and what each field of it means; families of small sets are enumerated completely by TLC, larger sets and their '
        'single changes are sampled (VERIF_SEED). Descriptor sets protoc itself would refuse for reasons the statement does not name are not judged. Trusted: the specification, TLC, the drivers.')
DONE['D03'] = (T + 'complete families of small descriptor sets replayed into the real loader + trace validation of random sets and single defects', DESC)
DONE['D04'] = (T + 'every combination of overrides of each feature over a nest replayed + trace validation of random schemas, accessors and wire behaviour', DESC)
DONE['E01'] = (T + 'every operation on every small store of every extension replayed + trace validation of long histories over two host messages', HIST)
DONE['A01'] = (T + 'all URLs of up to three pieces against the type names replayed + trace validation of long histories of two Any messages over 13 message types', HIST)
DONE['K01'] = (T + 'programs of constants: inputs decoded and values encoded by the compilers (clang, GCC) are the events the decoder/encoder machines re-enact; nesting limit',
               WIRE + ' Families whose maps the standard library cannot evaluate are decoded without maps; a compiler may refuse to evaluate malformed input, which the specification decides.')
DONE['G01'] = (T + 'messages read from and written to gRPC byte buffers in every slicing and mode, each call re-enacted by the decoder/encoder machines', WIRE)
DONE['G02'] = (T + 'every state of a server call, handler shape and event replayed on the real reactors with a recording stand-in for gRPC; trace validation of long histories; thread races',
               'TLC explores all event orders with one pending operation of each kind and exports each transition; beyond it histories are sampled (VERIF_SEED). Handlers keep gRPC\'s rules (one read and one write in flight). Trusted: the specification, TLC, the drivers, thread sanitizer.')
DONE['G03'] = (T + 'all interleavings of both sides\' steps explored (one outcome each), every program run as a real call over the loopback interface and its record checked against the outcome',
               'Programs up to the bound are all run; longer ones and big messages sampled (VERIF_SEED); the timing of a real call is what the machine gives. Trusted: the specification, TLC, the drivers, gRPC.')
DONE['P01'] = (T + 'every short text over the character classes of names, literals, comments and numbers replayed + trace validation of sampled calls; the texts compiled by GCC and clang as a calibration of the rules',
               'The lexical rules of C++ that generated headers use are written out in spec/Lexical.tla; TLC checks each emitted text against them. Texts exhaustive over class representatives up to the bound, beyond it sampled (VERIF_SEED). Trusted: the specification, TLC, the driver.')
