import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech)])))
CG=["asn-compiler/src/compiler.rs","asn-compiler/src/bin/hampi-asn1c.rs"]
A="codecs/src/aper/"
D="codecs_derive/src/aper/"
p("C01","Same specification text always yields byte-identical bindings",
"For a given set of specification files in a given order, every run of the compiler that succeeds writes byte-for-byte the same bindings, and whether it succeeds is the same too. The result does not depend on hash seeds, on how threads and the formatter process are scheduled, or on how reads, writes and pipe transfers are split up.",
["schedules","inputs","configurations"],"every specification set, every hash seed, every thread and process schedule, every legal split of I/O into short reads, short writes and interrupted calls",
"No test runs the compiler binary at all, and none runs anything twice under a different hash seed or schedule; ordinary runs see one lucky schedule.",
CG+["asn-compiler/src/generator/int.rs","asn-compiler/src/resolver/int.rs","asn-compiler/src/resolver/asn/types/constructed.rs"],
"modules, definitions, object sets and generated items are kept in hash maps and must be re-sorted before output; a writer thread feeds the formatter while the main thread drains it")
p("C02","Order of files, modules and definitions does not change the bindings",
"Giving the same modules in a different file order, packing them differently into files, or writing the definitions of a module in a different textual order produces the same set of bindings: same type names, same shapes, same constraints, same constants. A set that compiles in one order compiles in every order.",
["inputs","histories","schedules"],"every permutation of files, of modules across files and of definitions within a module, combined with any hash seed",
"Tests resolve single hand-written snippets in one order; the number of orders is factorial and cross-module orders are never exercised.",
CG+["asn-compiler/src/parser/asn/structs/module.rs","asn-compiler/src/resolver/asn/defs.rs"],
"modules are sorted topologically by imports and definitions by dependencies before resolution")
p("C03","The compiler fails loudly: exit 0 only with the complete bindings",
"If reading an input, starting or talking to the formatter, or writing the output fails, or the formatter dies or rejects its input, the compiler exits with a failure status; it exits 0 only when the complete formatted bindings have reached its standard output. When it fails before producing output, nothing is left on standard output that could be taken for bindings.",
["fault_sequences","crash_points","schedules"],"every failing call at every position (open, read, pipe, spawn, write, wait, thread creation), every formatter crash point and exit status, every schedule",
"No test runs the binary; I/O errors, formatter crashes, broken pipes and partial outputs never happen in the unit tests.",
CG+["asn-compiler/src/error.rs"],
"error propagation through main, the formatter child process, its pipes, the writer thread and the exit status")
p("C04","Compiler runs always terminate",
"Whatever the pacing of the formatter and whatever bytes the input files hold, including files cut short or corrupted in storage, a compiler run ends in bounded time and memory with success or failure: no deadlock with the formatter, no endless loop, no runaway memory.",
["schedules","inputs","fault_sequences"],"every interleaving of main thread, writer thread and formatter; every pipe capacity; every torn or corrupted variant of a specification",
"Pipe deadlocks need outputs larger than a pipe buffer under particular pacing, and parser loops need input no test contains; a test that hangs is never written.",
CG+["asn-compiler/src/tokenizer/mod.rs","asn-compiler/src/parser/asn/types/constructed/seq.rs","asn-compiler/src/parser/asn/types/constructed/choice.rs","asn-compiler/src/parser/utils.rs"],
"parser loops must consume input or fail; feeding and draining the formatter must overlap")
p("C05","Every definition is generated exactly once, or compilation fails",
"When the compiler succeeds, the bindings contain each type assignment of the given modules (parameterized ones excepted) exactly once under the name derived from it, with each of its components, alternatives or root items exactly once. A lost module, an import that names an absent module or symbol, a reference to a type, class, object set or used value that is nowhere, circular imports or definitions, or two definitions that would claim the same name make the compilation fail; nothing is dropped or overwritten silently.",
["inputs","fault_sequences","histories"],"every specification set, and every loss, duplication, staleness or swap of one of its files on the way to the compiler",
"Unit tests compile isolated fragments and inspect one definition; nobody checks that the output is complete with respect to a multi-module input that lost or duplicated a file.",
CG+["asn-compiler/src/parser/asn/structs/module.rs","asn-compiler/src/resolver/int.rs","asn-compiler/src/resolver/asn/defs.rs","asn-compiler/src/generator/int.rs"],
"module and definition maps keyed by name; topological sorts that must account for every node")
p("C06","A specification torn inside a module is rejected",
"A specification file that lost its tail at any byte inside a module, as after an interrupted copy or download, is rejected with a failure: no bindings for the part that happened to arrive are ever presented as a success.",
["crash_points","fault_sequences","inputs"],"every truncation point strictly inside a module (after its first byte and before its final END), of every specification, with and without read faults",
"The set of crash points is every byte of every input; the tests contain a few malformed snippets at most.",
["asn-compiler/src/tokenizer/mod.rs","asn-compiler/src/parser/asn/module.rs","asn-compiler/src/parser/utils.rs"]+CG,
"tokenizer end-of-input handling and the parser's demand for a closing END")
p("C07","Reading specification text survives any reader behaviour",
"Tokenizing from a reader gives the same tokens however the reader splits the bytes, retries interrupted reads, and returns an error (never a panic and never a token list for partial text) when the reader fails or delivers bytes that are not valid text. Line terminators of every common platform are accepted as white space.",
["fault_sequences","inputs","schedules"],"every sequence of short reads, interrupted reads, read errors, early end-of-file and corrupted bytes over every specification text",
"Tests tokenise in-memory literals through a reader that never faults.",
["asn-compiler/src/tokenizer/mod.rs","asn-compiler/src/lib.rs"],
"the public tokenizer entry point takes any std::io::Read")
p("C08","Messages written to one stream come back intact and in order",
"Any sequence of valid messages encoded one after another into one buffer decodes, from that same buffer or from a copy of its bytes, to exactly those messages in that order, at any interleaving of writers and readers. Each decode consumes exactly the bits its encode produced.",
["histories","schedules","inputs"],"every sequence of supported types and in-constraint values, at every starting bit position, with encodes and decodes interleaved arbitrarily",
"Tests encode and decode one value at bit offset zero; alignment bugs show only at other offsets and in sequences.",
[A+"mod.rs",A+"encode/mod.rs",A+"encode/encode_internal.rs",A+"decode/mod.rs",A+"decode/decode_internal.rs",A+"decode/decode_charstrings.rs",D+"seq.rs",D+"seqof.rs",D+"choice.rs",D+"open.rs"],
"encode appends at the end of the bit buffer, decode advances a read offset; both must agree on alignment and lengths")
p("C09","What a node sends is canonical aligned PER that any peer can read",
"Every in-constraint value a node encodes produces exactly the bits that X.691 ALIGNED PER prescribes for its type at its position in the message, so that an independent implementation reads back the same value. This covers lengths, bounds, padding, presence bits, choice and enumeration indices, extension bits and open-type wrapping.",
["inputs","histories","configurations"],"every supported type, every in-constraint value including 16K and larger strings where supported, every starting bit position, every peer",
"The codec's own tests mostly round-trip through itself, so symmetric mistakes pass; the few captured messages touch a handful of types.",
[A+"encode/mod.rs",A+"encode/encode_internal.rs",D+"seq.rs",D+"seqof.rs",D+"choice.rs",D+"open.rs",D+"integer.rs",D+"enumerated.rs",D+"charstring.rs"],
"encoders and the derive macro's generated encode bodies")
p("C10","A node reads every conformant encoding of a peer correctly",
"Every message an independent ALIGNED PER implementation sends for a supported type, including fragmented lengths of 16K and above and values in extensions the receiver declares, is decoded to exactly the value sent, or refused with an error if the receiver's version cannot represent it. It is never decoded to a different value.",
["inputs","histories","fault_sequences"],"every supported type and value of a conformant sender, at every bit position, under duplication and reordering of messages",
"Decode tests use a few captured messages; symmetric encode/decode errors and rarely used encodings never meet an independent peer.",
[A+"decode/mod.rs",A+"decode/decode_internal.rs",A+"decode/decode_charstrings.rs",D+"seq.rs",D+"seqof.rs",D+"choice.rs",D+"open.rs"],
"decoders and the derive macro's generated decode bodies")
p("C11","Values outside their declared constraint are never sent",
"Encoding a value that violates its declared size or range constraint, anywhere inside a message, fails with an error and never panics; no peer is ever handed a message carrying it. Where the constraint has an extension marker the value is either refused or sent as an extension value.",
["inputs","histories"],"every type with a range or size constraint, every violating value, at every nesting depth and list position",
"Tests encode valid values; violations at nested positions combine freely.",
[A+"encode/mod.rs",A+"encode/encode_internal.rs",D+"seqof.rs",D+"seq.rs",D+"choice.rs"],
"bound checks in the runtime encoders and error propagation in derived code")
p("C12","Received values always satisfy the receiver's declared constraints",
"Whatever bytes arrive, a successful decode yields a value that satisfies every range, size and enumeration constraint of its type, and that a conformant decoder would also have read from those bytes. In particular numbers are never wrapped or truncated to fit and unknown enumeration or choice values never turn into known ones.",
["fault_sequences","inputs"],"every byte string: valid messages after bit flips, splices, truncation, insertion and garbage, and arbitrary bytes, decoded as any type",
"Tests never feed corrupted bytes; the set of corruptions is exponential.",
[A+"decode/mod.rs",A+"decode/decode_internal.rs",D+"integer.rs",D+"enumerated.rs",D+"choice.rs",D+"seqof.rs"],
"range checks after decoding and conversions in derived code")
p("C13","Decoding hostile bytes never panics, hangs or exhausts memory",
"For every byte string and every supported type, decoding returns a value or an error within time and memory proportional to the input plus the declared fixed sizes: no panic, no arithmetic overflow, no endless loop, no allocation driven by an unverified length.",
["fault_sequences","inputs","histories"],"every byte string, every type, decoding started at every position of the buffer, and every sequence of such decodes on the same buffer",
"Tests decode well-formed messages; hostile lengths need adversarial bytes.",
[A+"mod.rs",A+"decode/mod.rs",A+"decode/decode_internal.rs",A+"decode/decode_charstrings.rs",D+"seqof.rs",D+"open.rs"],
"bounds checks before every slice of the bit buffer and validation of decoded lengths before use")
p("C14","A message cut short is reported, never decoded as something else",
"If a message loses its tail in transit, decoding what arrived returns an error, unless everything the sender's value needs is still present. A value that differs from the one sent is never returned for a truncated message.",
["crash_points","fault_sequences","inputs"],"every message of every supported type, every cut point",
"No test truncates a message; every octet of every message is a separate crash point.",
[A+"mod.rs",A+"decode/mod.rs",A+"decode/decode_internal.rs",A+"decode/decode_charstrings.rs"],
"end-of-buffer checks in the bit reader")
p("C15","Decoding depends only on the bytes, not on what was decoded before",
"Decoding a message from a buffer gives the same result whatever was decoded, or failed to decode, from that buffer earlier, and identical to decoding it from a fresh buffer at the same bit position; a reader that ran out of bytes can rewind and succeed once they are there. Nodes decoding in parallel or interleaved do not affect each other.",
["histories","schedules","fault_sequences"],"every history of decodes, failed decodes, rewinds and encodes over one buffer, and interleavings of several nodes",
"Every test uses a fresh buffer for exactly one decode.",
[A+"mod.rs",D+"open.rs",D+"seq.rs"],
"the buffer carries a read offset and the key that selects an open type's variant")
p("C16","Open types are framed by their declared length",
"Values carried in open types occupy exactly the octets their length says: a receiver resumes right after them whether or not the carried value used them all, a carried value never reads beyond its frame, and every sent frame holds at least one octet. Frames of every size up to the supported maximum, nested to any depth, stay in step.",
["inputs","fault_sequences","histories"],"every carried type and value including empty and nested ones, frames longer than the receiver's version of the value, frames with corrupted lengths",
"Tests have two tiny open-type examples without excess octets, nesting or corruption.",
[D+"open.rs",D+"seq.rs",A+"mod.rs"],
"derived open-type codec: length determinant, padded inner encoding, key-selected variant")
p("C17","Messages from a newer peer are understood or refused, never misread",
"When a peer uses a later version of an extensible type (added components, alternatives, enumeration items or a widened range), the receiver either decodes the part it knows with exactly the values sent and stays in step with what follows, or returns an error. It never returns wrong values for known parts or falls out of step with later messages.",
["configurations","inputs","histories"],"every extensible type, every later version of it, every value of the later version, in streams with other messages",
"Extensions are never sent in any test because the encoder cannot produce them.",
[D+"seq.rs",D+"choice.rs",D+"enumerated.rs",D+"integer.rs",A+"decode/mod.rs",A+"decode/decode_internal.rs"],
"extension-bit handling in sequence headers, choice indices, enumerations and constrained values")
p("C18","Compiled specifications interoperate: the bindings mean what the spec says",
"For every specification within the supported subset, the compiler produces bindings that compile as Rust, and a node built from them exchanges every in-constraint value (of supported length, in the root of extensible types) of every generated type with an independent peer built from the same specification, both ways. Component, alternative and enumeration order, constraints, optionality, the constants of ENUMERATED items and the identifier-to-type mapping of information objects are as specified.",
["programs","inputs","histories"],"every specification within the supported subset (modules with imports, value references, nested constructed types, parameterized types, information object classes and sets), every type in it and every value",
"Tests compile fragments and compare parser structures, or check that three big generated files build; nobody compares what the bindings do on the wire with what the specification says.",
["asn-compiler/src/parser/asn","asn-compiler/src/resolver/asn","asn-compiler/src/generator/asn","codecs_derive/src/attrs.rs","codecs_derive/src/aper","asn-compiler/src/generator/int.rs"],
"parser, resolver and generator together with the derive macro and the runtime")
p("C19","Malformed specifications are diagnosed, well-formed ones accepted",
"Specification text that violates the ASN.1 grammar is rejected with an error naming the offending place, and every text within the documented subset of ASN.1 is accepted.",
["inputs"],"every text",
"The grammar is infinite; tests sample a few dozen snippets.",
["asn-compiler/src/tokenizer/mod.rs","asn-compiler/src/parser"],
"hand-written tokenizer and recursive-descent parser")
p("C20","Bindings of a definition depend only on what it refers to",
"When a set of specifications that compiles grows by sound definitions, modules or files that nothing existing refers to, under names nobody else uses (or by an identical copy of a definition in another module), it still compiles, and every type it had before keeps its bindings: the same names, shapes, constraints and constants. This holds at every step of any history of such additions, whatever the schedule of each run.",
["histories","programs","configurations"],"every history of growing specification sets, every order of definitions, modules and files at each step, every unrelated addition",
"Tests compile each specification once, on its own; leaks between definitions (shared helper types, caches, numbering, merged name spaces) show only when the rest of the set changes.",
["asn-compiler/src/resolver","asn-compiler/src/generator","asn-compiler/src/compiler.rs"],
"the resolver's tables, which all modules share, and the generator's helper types and counter")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
