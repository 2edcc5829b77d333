#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable).
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
ALL=["proto/proto.go","proto/struct.go","proto/walker.go","proto/map.go","proto/slice.go"]
CODECS=["proto/normal_codec.go","proto/option_codec.go","proto/required_codec.go","proto/encode.go","proto/decode.go","proto/size.go"]
RR=["internal/runtime_reflect/map.go","internal/runtime_reflect/slice.go"]
GEN=["internal/generator/main.go","internal/generator/init.go","cmd/protoc-gen-golite/main.go"]

prop("C01","Concurrent calls give the results of isolated calls",
 "When several goroutines call Marshal, Size and Unmarshal at the same time, on any mix of message types (recursive, mutually recursive and shared ones included) and also when a type is used for the very first time by several of them at once, every call returns exactly what it would return if it ran alone. No such mix can deadlock, and every call finishes within a bounded number of its own steps.",
 ["schedules"],"every interleaving of concurrent calls, including first use of a type by several callers at once",
 "Each existing test calls the library from one goroutine, after the types were already analysed; the interleavings of first use, of map decoding and of shared sub-types are never produced.",
 ALL,[("per-type plans are built privately and published once complete","proto/proto.go cachedStructInfoOf, proto/walker.go publish"),("concurrent caches","proto/proto.go structInfoCache/codecCache, proto/slice.go sliceMap"),("pooled map entries","proto/map.go mapDecodeFuncOf")],
 [("type plan caches","what was learnt about a type at first use","proto/proto.go"),("map entry pool","scratch entry reused by map decoding","proto/map.go")],["Marshal","Size","Unmarshal"])

prop("C02","Concurrent use is free of data races; encoding only reads",
 "Concurrent calls that do not decode into the same message never race with each other on memory. In particular Marshal and Size never write to the message they are given, so that one message may be encoded by any number of goroutines at once while others read it.",
 ["schedules"],"every interleaving of concurrent Marshal/Size on shared messages, Unmarshal of shared input bytes into private messages, and first uses of types",
 "The tests run single-threaded; without concurrent execution neither the race detector nor an assertion can notice unsynchronised access.",
 ALL+RR,[("encoding reads through pointers only","proto/struct.go encode/size, proto/map.go mapEncodeFuncOf"),("synchronised caches and pools","proto/proto.go, proto/map.go, proto/slice.go")],
 [("type plan caches","shared between all callers","proto/proto.go")],["Marshal","Size","Unmarshal"])

prop("C03","What was used before never changes a result",
 "The result of a call depends only on its arguments, never on which message types were used earlier in the process, in which order, with which data, or whether those calls succeeded, failed or panicked. This includes distinct types that share a name or a layout, and the same Go field type declared with different wire encodings.",
 ["histories"],"every history of earlier calls over any set of types",
 "Tests use a fixed order of a few types, and every type ever seen stays cached for the life of the test process, so other orders are never exercised.",
 ALL,[("cache keys identify the type together with its wire encoding","proto/proto.go, proto/walker.go codec/structCodec, proto/slice.go sliceCodecOf"),("scratch entries are cleared before reuse","proto/map.go mapDecodeFuncOf")],
 [("type plan caches","filled by every first use","proto/proto.go"),("map entry pool","keeps entries between calls","proto/map.go")],["Marshal","Size","Unmarshal"])

prop("C04","A rejected call leaves no trace and is rejected every time",
 "Marshal, and Unmarshal of a non-empty input, return an error and do not panic when the argument is not a pointer to a struct (or, for Unmarshal, is a nil one); a message type with a field the library cannot represent is rejected by every call that has to encode or decode it, first or later, concurrent or not, directly or inside another type. A rejection never changes memory, blocks other calls, or alters the result of any other call, including calls on types that are contained in the rejected one.",
 ["fault_sequences","schedules"],"every sequence and interleaving of rejected and accepted calls",
 "Tests hardly use unsupported types or arguments at all, and never call again after a rejection or at the same time as one.",
 ALL,[("nothing is published before a whole type was accepted","proto/proto.go cachedStructInfoOf, proto/walker.go"),("argument checks","proto/proto.go Marshal/Unmarshal")],
 [("type plan caches","must not keep a half-built plan","proto/proto.go")],["Marshal","Unmarshal","Size"])

prop("C05","Damaged or hostile bytes never crash the receiver",
 "Unmarshal of any bytes whatsoever into any supported message type returns (with or without an error): it never panics, crashes the process, loops, reads or writes memory that is not its own, or allocates memory out of proportion to the size of the input and of the message type. Corruption in transit or at rest therefore costs at most the message it hit.",
 ["fault_sequences","inputs"],"every corruption (bit flips, truncation, splicing, duplication of ranges, hostile lengths and nesting) of every message",
 "Two fuzz targets with a handful of stored seeds cover two small types; no test looks at memory use or at maps, repeated messages, groups or deep nesting under corruption.",
 ["proto/struct.go","proto/decode.go","proto/map.go","proto/slice.go"]+["proto/normal_codec.go"],[("length checks before slicing","proto/struct.go decode, proto/decode.go decodeVarlen"),("bounded growth","proto/slice.go growSlice")],
 (),["Unmarshal"])

prop("C06","A message cut short is reported, never taken for the whole",
 "If only a prefix of an encoded message arrives or survives (a torn write, a closed connection, a crash while appending), Unmarshal of that prefix reports an unexpected end of input (io.ErrUnexpectedEOF, possibly wrapped) unless the cut falls exactly between two top-level fields. In that case it succeeds with exactly the complete fields before the cut, and in no case are bytes beyond the given slice read.",
 ["crash_points","fault_sequences"],"every cut point of every encoded message, for every message type, with any bytes behind the cut in the same buffer",
 "Tests decode whole messages only; no test cuts one, and none looks at the kind of error or at what lies behind the slice.",
 ["proto/struct.go","proto/decode.go","proto/map.go","proto/slice.go","proto/error.go"],[("every read is bounded by the enclosing slice","proto/struct.go decode, proto/decode.go"),("errors wrap the cause","proto/error.go")],
 (),["Unmarshal","errors.Is(err, io.ErrUnexpectedEOF)"])

prop("C07","Merged, repeated and coalesced deliveries merge as specified",
 "Decoding the concatenation of several encodings of a type gives the same message as decoding them one after the other into the same destination, and both follow the protobuf merge rules: the last value of a singular field wins, repeated fields append in order, sub-messages merge recursively, map entries overwrite by key. Fields that do not occur in the bytes keep what the destination held.",
 ["fault_sequences","histories"],"every sequence of duplicated, coalesced, split and interleaved deliveries into one destination",
 "The tests decode each message once into an empty destination, so neither a second delivery nor a repeated sub-message is ever seen.",
 ["proto/struct.go","proto/walker.go","proto/map.go","proto/slice.go","proto/normal_codec.go","proto/option_codec.go"],[("decode into what is already there","proto/walker.go structCodec decode, proto/slice.go, proto/map.go")],
 (),["Unmarshal"])

prop("C08","Old and new schemas and encoders understand each other",
 "A receiver whose schema lacks some of the sender's fields decodes all fields it does know exactly as if the unknown ones (of any wire type other than the deprecated groups, of any size and position, at any depth) were absent, and a field the sender lacks stays unset. The fields may arrive in any order and in any equivalent wire form (over-long varints, sub-messages in several pieces, explicitly sent default values) with the same result.",
 ["configurations","histories"],"every pair of compatible schema versions, every field order and every equivalent wire form, for every message",
 "The tests encode and decode with one and the same type and the library's own canonical form; no test has unknown fields, other field orders or non-minimal encodings.",
 ["proto/struct.go","proto/decode.go","proto/map.go","proto/walker.go"],[("unknown fields are skipped by wire type","proto/struct.go decode"),("varints of up to ten bytes","proto/decode.go decodeVarint")],
 (),["Unmarshal"])

prop("C09","What one peer sends, every peer reads: lossless, standard wire",
 "Every message that a peer using this library encodes is read back, by this library and by any standard protobuf implementation, as exactly the value that was sent, and what a standard implementation sends (repeated fields in expanded form) is read here as exactly that value: all scalar kinds, optional presence, repeated and map fields, nested and recursive messages (oneofs, groups and extensions aside), also for types written by the code generator. Size always equals the number of bytes Marshal then produces, and each re-encoding along a chain of peers preserves the value.",
 ["configurations","histories","inputs"],"every mixed fleet of peers, every type and every value forwarded through it",
 "Round-trip tests cover some twenty sample values, with the same code on both ends so that symmetric mistakes cancel out; map values, fixed-width repeated fields, zigzag map keys and presence are hardly sampled.",
 ALL+CODECS+GEN,[("one codec per kind","proto/normal_codec.go, proto/option_codec.go, proto/required_codec.go"),("size pass before encode pass","proto/proto.go Marshal"),("struct tags written by the generator","internal/generator/main.go")],
 (),["Marshal","Size","Unmarshal","generated struct types"])

prop("C10","Messages and buffers own their memory",
 "After Unmarshal returns, nothing the caller does to the input buffer (overwriting, reusing or freeing it) changes the decoded message, and Unmarshal itself never modifies the input, not even the spare capacity behind it. The bytes returned by Marshal and separately decoded messages likewise share no memory with each other, with the message encoded, or with anything the library keeps: changing or appending to one never changes another.",
 ["histories","schedules"],"every order of buffer reuse, mutation, append and further calls after a call returned, by any number of users of the same receive buffer",
 "No test reuses a receive buffer or mutates a message after decoding, so aliasing would go unnoticed.",
 ["proto/normal_codec.go","proto/map.go","proto/slice.go","proto/proto.go","proto/walker.go"],[("copies on decode","proto/normal_codec.go decodeBytes/decodeString"),("fresh storage for elements and entries","proto/slice.go, proto/map.go")],
 [("map entry pool","must not keep storage handed to a message","proto/map.go")],["Unmarshal","Marshal"])

prop("C11","No residue of failed or earlier decodes",
 "The outcome of Unmarshal depends only on the bytes and on the visible contents of the destination: values left behind in spare slice capacity, from an earlier use of a recycled destination, or by an earlier failed decode (of this or another message) never show up in a result. After a failed decode the caller may decode again into the same (reset) or another destination and gets exactly what a first decode would give.",
 ["fault_sequences","histories"],"every sequence of failed and successful decodes into fresh, reused, truncated and reset destinations",
 "Tests use each destination once; failed decodes are never followed by another decode.",
 ["proto/slice.go","proto/map.go","proto/walker.go","proto/normal_codec.go"],[("element slots are cleared before use","proto/slice.go sliceDecodeFuncOf"),("pooled entries are cleared after success and failure","proto/map.go mapDecodeFuncOf")],
 [("map entry pool","keeps entries across failures","proto/map.go"),("spare slice capacity","may hold old elements","proto/slice.go")],["Unmarshal"])

prop("C12","The generator's output depends on the schema alone",
 "For the same proto files and parameters the code generator writes byte-for-byte the same Go files, whatever the runtime's random map order, the clock, the environment, and the run. The text generated for a file does not depend on which other files are generated in the same run or in which order they are listed.",
 ["configurations","histories"],"every seed of map iteration, clock, environment and every set and order of files to generate",
 "There is no test of the generator at all; a single run cannot show that another run would give the same text.",
 GEN,[("iteration over ordered descriptors only","internal/generator/main.go, internal/generator/init.go")],
 (),["CodeGeneratorResponse.file"])

prop("C13","The compiler plugin survives and reports I/O faults",
 "However the request is cut into reads, the plugin gives the same answer, and every file it was asked to generate is in it. If the request is damaged so that it cannot be parsed, cannot be read, or the answer cannot be written completely, the plugin exits with a failure status; it never exits successfully with a missing or partial answer.",
 ["fault_sequences"],"every chunking and cut of the request stream and every failure of standard input or output",
 "There is no test of the plugin; a manual run feeds the whole request in one piece and writes to a working pipe.",
 ["cmd/protoc-gen-golite/main.go"],[("read all, generate, write all, non-zero exit on error","cmd/protoc-gen-golite/main.go main")],
 (),["exit status","standard output"])

prop("C14","Results survive memory reclamation and moves at any instant",
 "A garbage collection, a move of the goroutine's stack or the loss of pooled scratch memory at any instant during or after a call changes no result: decoded messages, encoded bytes and everything kept for later calls stay intact and reachable as long as they are used.",
 ["schedules","fault_sequences"],"every instant at which a collection, stack move or pool loss can happen, in every call",
 "The library handles memory through untyped pointers and runtime internals; a collection inside a call practically never happens in the short tests.",
 RR+["proto/map.go","proto/slice.go","proto/walker.go","proto/proto.go"],[("pointers stay typed as pointers while in use","internal/runtime_reflect, proto/struct.go pointer"),("typed memory moves and allocation","internal/runtime_reflect/map.go, slice.go")],
 [("map entry pool","may be emptied at any time","proto/map.go")],["Marshal","Unmarshal","Size"])

prop("C15","Option values are plain immutable values",
 "Some, None, Bool, Int32 and the other constructors, Unwrap, UnwrapOr, IsSome and IsNone behave as those of a plain value of a flag and a content: an absent option reports the zero or the given default value, a present one exactly its value (also if that is the zero value), and two options are equal under == exactly if both are absent or both hold equal values. Copies are independent: nothing that happens to one, or to the message it was copied from or into (encoding, another decode, a failed one), changes another, and any number of goroutines may read, copy and encode the same option.",
 ["histories","schedules"],"every history of creating, copying, comparing, storing, loading, encoding and decoding options of every Go type, by any number of goroutines",
 "Tests look at single options of some types right after they were made; none keeps a copy while the original or its message is used further.",
 ["proto/option.go","proto/option_codec.go"],[("value struct with a presence flag","proto/option.go Option"),("decoding in place","proto/option_codec.go")],(),["Option methods","Marshal","Unmarshal"])

prop("C16","Checked-in generated codecs match their generators",
 "Running the repository's own code generation for the optional and required codecs reproduces exactly the checked-in sources.",
 ["programs"],"the generator programs of the repository and the file contents they derive from",
 "No test runs the generators.",
 ["proto/gen/option/main.go","proto/gen/required/main.go","proto/option_codec.go","proto/required_codec.go"],[("go:generate directives","proto/proto.go")],(),["proto/option_codec.go","proto/required_codec.go"])

prop("C17","Broken encodings are reported, well-formed ones accepted",
 "Unmarshal returns an error for bytes that are not a well-formed encoding - a length that reaches beyond the field that surrounds it, a tag, length or value that is cut off, a varint of more than 64 bits or more than ten bytes, or a wire type that does not exist - at any depth to which the receiver's schema reaches (fields, sub-messages, repeated elements, map entries with their keys and values, unknown fields) and whatever the destination held; damage of this kind is never taken for a message. A field that comes with another wire type than the receiver declares is reported or passed over like an unknown field: its bytes are never taken for a value, nor for other fields. Bytes whose framing is intact and whose wire types match decode without an error (groups, packed repeated fields and illegal field numbers aside).",
 ["fault_sequences"],"every place and kind of broken framing in every encoding of every message type, into any destination",
 "Tests decode what they encoded themselves; only single varints and tags are tried in a damaged form.",
 ["proto/struct.go","proto/decode.go","proto/map.go","proto/slice.go","proto/normal_codec.go"],[("errors of nested decoders are passed on","proto/struct.go decode, proto/map.go, proto/slice.go"),("varints are bounded","proto/decode.go decodeVarint")],
 (),["Unmarshal"])

prop("C18","Generated code compiles and says what the schema says",
 "For every valid request whose files Go packages can express, and whatever the environment of the run, the plugin answers with code that compiles (Go 1.18) against package proto and declares exactly what the schema asks for: for every message, at any depth, a struct that cannot be compared with ==, with one exported field per field or oneof, of the Go type of its kind (Option for scalars with presence, slices for repeated fields, maps with the declared key and value types) and with struct tags that have the right wire type, number and cardinality, also for map keys and values; for every choice of a oneof a wrapper type that fits this oneof and no other; for every enum an int32 type and constants with the declared numbers; and for every symbol of a publicly imported file of another Go package an alias with the same meaning. The accessors of oneofs and their choices give what was put in, and the zero value (of an enum: its first value) for other choices, empty oneofs and nil messages. Go import cycles, symbols that two files declare in or forward into one package, weak fields, tags of groups, and explicit defaults in accessors are left open.",
 ["inputs","configurations"],"every schema: nesting, imports, oneofs, maps, enums, names that collide in Go, options and comments, any map order and input pieces",
 "No test runs the generator; the checked-in generated files cover one small schema.",
 ["internal/generator/main.go","internal/generator/init.go","cmd/protoc-gen-golite/main.go"],[("fields, tags and accessors","internal/generator/main.go genMessageField, genMessageGetterMethods, genMessageOneofWrapperTypes"),("forwarding declarations","internal/generator/main.go genImport")],
 (),["protoc-gen-golite"])

prop("C19","Memory of finished calls is reclaimed",
 "Once a call has returned and its caller has dropped the arguments and the result, nothing in the library keeps them: messages, buffers, decoded contents, rejected values and inputs of failed decodes can all be reclaimed, apart from what a sync.Pool holds until the next collection. However often Marshal, Size and Unmarshal are called with message types used before, including types and bytes that are rejected every time, the library's own memory and the number of goroutines stay bounded: the caches grow with the number of message types in use, never with the number or the contents of calls.",
 ["histories","schedules"],"every history of good, failed and rejected calls with ever new contents, by any number of goroutines",
 "A leak shows after millions of calls; no test looks at what stays behind.",
 ["proto/proto.go","proto/walker.go","proto/map.go","proto/slice.go","proto/struct.go"],[("codecs are published only for good types, once per type","proto/walker.go publish, proto/proto.go cachedStructInfoOf"),("pooled map entries are cleared before they go back","proto/map.go mapDecodeFuncOf")],
 [("codec caches","grow per type","proto/proto.go, proto/walker.go, proto/map.go, proto/slice.go")],["runtime.MemStats","Marshal","Size","Unmarshal"])

prop("C20","Work and memory stay in proportion",
 "The work of a call and the memory that it allocates stay in proportion to what it is given, however that is composed. With a message type used before, Unmarshal takes at most time and memory in proportion to the input's length: many fields, many occurrences of one field, maps of any size, sub-messages in many pieces, unknown fields, nesting of any depth, and damage at any place. Size takes time in proportion to the message, Marshal in proportion to the message times its depth of nesting, and what Marshal allocates is in proportion to its output. What a call costs does not grow with the number, the size or the failures of earlier calls. The first use of a type costs in proportion to the types that it refers to, however many ways lead to each of them, whether it is accepted or rejected.",
 ["inputs","histories"],"every length, composition and nesting of inputs and messages, every graph of types, every history of calls",
 "Tests and benchmarks use small messages of little depth; quadratic and exponential growth shows with large or deep ones only.",
 ["proto/struct.go","proto/slice.go","proto/map.go","proto/walker.go","proto/proto.go"],[("slices grow by doubling","proto/slice.go growSlice"),("each sub-message is sized once for each level around it","proto/walker.go structCodec, proto/map.go mapSizeFuncOf"),("each type is walked once","proto/walker.go structCodec, structInfo")],
 (),["Marshal","Size","Unmarshal"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
