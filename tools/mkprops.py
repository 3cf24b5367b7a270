import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
G="src/parquet_format.rs"; C="src/thrift/protocol/compact.rs"; CW="src/thrift/protocol/compact_write.rs"
CS="src/thrift/protocol/compact_stream.rs"; CSW="src/thrift/protocol/compact_stream_write.rs"; M="src/thrift/protocol/mod.rs"
S="src/thrift/protocol/stream.rs"; E="src/thrift/errors.rs"; V="src/thrift/varint/"
VD,VDA,VE,VEA=V+"decode.rs",V+"decode_async.rs",V+"encode.rs",V+"encode_async.rs"
p("C01","Every Parquet value written reads back equal",
 "For every value of every Parquet structure, union and enum the crate defines, writing it with the synchronous or the asynchronous writer and reading the bytes with the synchronous or the asynchronous reader (with a large enough budget) yields an equal value. The reader consumes exactly the bytes the writer produced.",
 ["inputs","configurations"],"all values of all ~55 generated types (any combination of present/absent optional members, any union member, any enum number, any string/binary/list content), both writers x both readers, both feature sets",
 "One unit test round-trips one FileMetaData with most optional members absent; 2^n presence combinations of the other ~50 types and the integer/id/length ranges are not sampled.",
 [G,C,CW,CS,CSW,M,S,VD,VE],[("writer and reader of each type use the same ids, wire types and member order",G),("each protocol write method and its read counterpart are inverse",C+" / "+CW)],
 observe=["bytes given to the transport","value returned by the reader"])
p("C02","Encoding follows the published Parquet schema",
 "Each structure member is written under the field id and Thrift wire type that the published Parquet format definition gives it, read from that id, and required or optional exactly as published; union members likewise. Each enum name denotes the published number.",
 ["inputs","programs"],"all members of all generated types and all enum names, in the four generated functions of each type",
 "A writer and a reader that agree with each other on a wrong id, type or number pass every round-trip test; no test compares with the published definition.",
 [G],[("field id and type literals in the generated writers, dispatch tables in the generated readers, enum constants",G)],observe=["field headers and values on the wire"])
p("C03","Sync and async APIs agree",
 "For every value, the asynchronous writer hands the transport the same bytes and returns the same count as the synchronous writer. For every input and budget, the asynchronous reader consumes the same bytes and returns an equal value or an error of the same kind as the synchronous reader.",
 ["inputs","fault_sequences","schedules"],"all values, all inputs (also malformed), all budgets, all transport faults, any suspension pattern of the async transport",
 "The async path is exercised by one round trip of one value; divergences on malformed input, limits or rarely used members never run.",
 [G,C,CW,CS,CSW,M,S,VD,VDA,VE,VEA],[("each async function repeats the effects of its sync sibling",G),("async protocol implementation mirrors the sync one",CS+" / "+CSW)])
p("C04","Reading never panics",
 "No input bytes, no budget and no behaviour of the transport can make reading any Parquet structure (synchronously or asynchronously) panic, overflow an integer, index out of bounds or abort on a failed allocation; malformed input is reported as an error.",
 ["inputs","fault_sequences"],"all byte strings of any length, all budgets, all readers' short reads and errors, with and without overflow checks",
 "Only well-formed bytes are read by the tests, so no panic site on a malformed-input path is ever reached.",
 [G,C,CS,M,S,VD,VDA,E],[("field-presence checks before expect, checked arithmetic, fallible reservation, bounds guard of the varint buffer",G+", "+C+", "+VD)])
p("C05","Memory sized by the input is charged to the budget first",
 "Before a reader reserves memory sized by a length found in the input, it has subtracted that length (one per string or binary byte, a machine word per declared list, set or map entry, two bytes per nested structure) from the caller's byte budget. A length that does not fit in what is left is rejected with a size-limit error and nothing is reserved; the budget never grows back. A reservation the allocator refuses is reported as an error.",
 ["inputs","histories"],"all inputs and all budgets, at every point of every read history, sync and async",
 "Every test passes an effectively unlimited budget; no test reaches the limit.",
 [C,CS,M,S],[("remaining-budget subtraction before every reservation",C+" / "+CS),("fallible reservation",C+", "+M)],
 state=[dict(name="remaining budget",meaning="bytes the reader may still commit to",where=C+", "+CS)])
p("C06","Nesting depth is bounded",
 "Skipping a value nests at most 64 levels of structures and collections: one level deeper is rejected with a depth-limit error instead of recursing further, on every path that descends. No other reading or writing code recurses with the input, so stack use is bounded for every input.",
 ["inputs"],"all inputs, all nestings of lists, sets, maps and structures in any combination; any starting depth passed by a caller",
 "No test skips a nested value, and none is nested deeper than the fixed schema.",
 [M,S,G],[("depth guard at the top of the recursive skip, depth decreased at each recursive call",M+" / "+S)])
p("C07","Returned byte counts are exact",
 "Every write call that succeeds returns exactly the number of bytes it handed to the transport; for a structure this is the sum over everything written for it.",
 ["inputs"],"all values, all write methods of both protocols and all generated writers, sync and async",
 "A test compares one count for one value; a count dropped for a member absent from that value, or a varint length, is not seen.",
 [G,CW,CSW,VE,VEA],[("every count returned by a nested write is added to the returned total",G+", "+CW)],observe=["Ok value of the writers","bytes given to the transport"])
p("C08","Errors are propagated, never swallowed",
 "If any transport operation fails while a structure is read or written, the call returns an error carrying that failure's classification; it never returns success. After the first failure the call performs no further transport operation.",
 ["fault_sequences","inputs"],"every transport operation of every read or write as the failing one, every error kind, sync and async, flush included",
 "No test injects a fault.",
 [G,C,CW,CS,CSW,M,S,E,VD,VE],[("every fallible call is followed by ?",G)])
p("C09","Required members enforced, absent optional members are None",
 "Reading a structure succeeds only if every required member was present, and otherwise returns a protocol error. An optional member is present in the result if and only if its id occurred in the input, and each member of the result holds the value most recently read for that member's id.",
 ["inputs"],"all subsets and orders and repetitions of members, for every structure, sync and async",
 "Tests read only what the writer wrote: all required members always present, in order, once.",
 [G,M],[("per-member Option locals, required-field checks before construction",G)])
p("C10","Unknown fields are skipped exactly",
 "A field whose id the reader does not know is skipped by consuming exactly the bytes of one value of its declared wire type - every element of a list or set, every key and value of a map, every field of a structure up to its stop - and the fields after it are read as if it were not there.",
 ["inputs","programs"],"all wire types, all nestings within the depth limit, any position in any structure, any id not in the schema, sync and async",
 "No test reads a structure with an unknown field.",
 [G,M,S,C,CS],[("skip dispatch on the wire type",M+" / "+S),("fall-through arm of each generated reader",G)])
p("C11","A union holds exactly one member",
 "Reading a union succeeds only if the input contains exactly one field and that field is a known member, and then yields that member with its value; zero fields, several fields or one unknown field are an error. A union writer writes exactly its active member.",
 ["inputs"],"all sequences of fields (known, unknown, repeated, any number of them) for each of the 8 unions, sync and async",
 "Tests read only unions the writer wrote.",
 [G],[("received-field counter and result check in each union reader",G)])
p("C12","Unrecognised enum numbers are preserved",
 "An enum value read from the wire keeps its number: any 32-bit number, also one the crate has no name for, is accepted, preserved, compared by number, and written back as the same number. Named values equal the value obtained from their number.",
 ["inputs"],"all 2^32 numbers for each of the 7 enums, sync and async",
 "Tests use a handful of named values.",
 [G],[("open newtype enums with From<i32>/From<Enum>",G)])
p("C13","Nested structures do not disturb field ids",
 "While a structure nested at any depth is written, read or skipped, the field ids of the enclosing structure are unaffected: after it ends, the next field decodes to the id it was written with, whatever ids were used inside, for every pair of consecutive ids (small, large, negative, decreasing). Every structure that is begun is ended on every successful path.",
 ["inputs","histories"],"all nestings and all id sequences in the 16-bit range, sync and async, readers, writers and skip",
 "Ids in the schema are small and increasing and only one nesting is tested.",
 [C,CW,CS,CSW,G,M,S],[("stack of last field ids pushed at begin and popped at end; delta or absolute id in the header",C+" / "+CW)],
 state=[dict(name="last field id and its stack",meaning="base of the delta encoding per open structure",where=C+", "+CW+", "+CS+", "+CSW)])
p("C14","Boolean fields are encoded once and read back",
 "A boolean structure member is carried by its field header alone - one header with the true or false type code and the member's id, no value byte - and reads back as that value. A boolean in a collection is one byte; a boolean value written is never lost, duplicated or attributed to another field.",
 ["inputs","histories"],"all sequences of boolean and non-boolean members and collection elements, sync and async",
 "Tests cover one or two boolean members and no boolean collection.",
 [C,CW,CS,CSW],[("pending boolean slot set at field begin and taken at the value",C+" / "+CW)])
p("C15","Varint coding is exact for every integer",
 "Every 8-, 16-, 32- and 64-bit integer is encoded as the shortest base-128 (zigzag when signed) varint and decodes to itself, consuming exactly its own bytes. A varint longer than the integer's type allows, or ended by the end of input, is rejected.",
 ["inputs"],"all 2^64 integers of every supported type; all byte strings for decoding; sync and async",
 "Tests sample a few hundred integers.",
 [VD,VDA,VE,VEA],[("7-bit group loops, zigzag transforms, bounded byte accumulator",VD)])
p("C16","Truncated input never succeeds and nothing extra is consumed",
 "If the input ends before a value is complete, reading that value fails with an end-of-input transport error - it never returns a shortened or zero-filled value. A successful read consumes exactly the bytes of the value and leaves the rest of the transport untouched, whatever sizes the transport's reads return.",
 ["inputs","fault_sequences"],"truncation at every byte of every encoding; any split of the input into short reads; sync and async",
 "No test truncates input or splits reads.",
 [C,CS,VD,VDA],[("exact reads, length check of binaries, end-of-file check of varints",C+" / "+CS+" / "+VD)])
p("C17","Every byte reaches the transport or an error is returned",
 "When a write call returns success, every byte of the encoding has been accepted by the transport, in order and once, even if the transport accepts only part of what it is offered at a time; a transport that accepts nothing results in an error. Flushing a protocol flushes its transport.",
 ["fault_sequences","inputs"],"all transports with partial or zero-length writes at any point; sync and async; all write methods",
 "Tests write to a Vec or Cursor, which always accept everything.",
 [CW,CSW,VE,VEA],[("write_all on every path to the transport",CW+" / "+CSW+" / "+VE)])
p("C18","Bytes follow the Thrift compact protocol",
 "Field headers, list, set and map headers, type codes, booleans, doubles (8 bytes little-endian), strings and binaries (varint length then bytes) and the stop byte are laid out as the Thrift compact protocol specifies, for every id delta, size and element type, and the readers accept exactly that layout.",
 ["inputs"],"all element types, sizes 0..2^32-1 (in particular around the 14/15 short-form boundary), all id deltas (around 0 and 15), sync and async",
 "A writer and reader that share a wrong layout round-trip; no test compares with the specification or crosses the size boundaries.",
 [C,CW,CS,CSW],[("type code tables and header layouts",C+" / "+CW)])
p("C19","A boxed protocol behaves as the protocol it holds",
 "Using a boxed input or output protocol through the protocol interface has, for every operation and argument, the same effect and result as using the protocol in the box.",
 ["inputs","programs"],"every operation of both interfaces, every inner protocol",
 "No test uses a boxed protocol.",
 [M],[("forwarding implementations",M)])
p("C20","Errors are classified consistently",
 "Every failure is reported in the documented class: connection-lost, already-exists, timed-out and end-of-file transport failures map to their transport kinds and others to unknown; invalid UTF-8 and invalid codes are invalid-data, refused allocation and exceeded budget are size-limit. Each numeric error kind converts to and from its own number, an application error written to a protocol reads back with the same kind and message, and the expectation checks fail exactly when expected and received differ.",
 ["inputs","fault_sequences"],"all error kinds, all 32-bit kind numbers, all messages, all pairs of expected/received values",
 "No test touches the error module.",
 [E,M],[("From/TryFrom conversions, application error reader and writer, verify functions",E+", "+M)])
p("C21","No unsafe code; async reads and writes can move between threads",
 "The crate contains no unsafe code of its own in any feature configuration. The futures returned by the asynchronous readers and writers can be sent to another thread whenever the protocol can, and the Parquet value types are plain owned values (sendable, shareable, cloneable and comparable).",
 ["programs","configurations"],"all generated types and all async entry points, both feature sets",
 "Tests run futures on one thread and never demand Send.",
 ["src/lib.rs",G,S],[("forbid(unsafe_code), Send bounds of the async traits, derives",  "src/lib.rs, "+G+", "+S)])
p("C22","Message envelopes round-trip and are validated",
 "A message header written with any name, any of the four message types and any sequence number reads back equal, in the compact protocol's layout. A header with another protocol id, another version or an undefined message type is rejected with an error.",
 ["inputs"],"all names, types and 32-bit sequence numbers; all first two header bytes; sync and async",
 "No test reads or writes a message envelope.",
 [C,CW,CS,CSW,M],[("message begin/end of both protocols, message type codes",C+" / "+CW+" / "+M)])
p("C23","Async operations are cancellation safe",
 "Dropping the future of an asynchronous read or write before completion leaves the protocol in a state from which the operation can be retried.",
 ["schedules","crash_points"],"all suspension points of all async operations",
 "Tests never drop a pending future.",
 [CS,CSW],[("none: bytes already consumed are not replayed",CS)])
p("C24","Total bytes read from the transport never exceed the budget",
 "The number of bytes consumed from the transport over the life of a reader is at most the budget it was created with.",
 ["inputs","histories"],"all inputs and budgets",
 "Tests use unlimited budgets.",
 [C,CS],[("budget counts memory-bearing lengths only; fixed-size reads are not charged",C)])
p("C25","Peak heap use is bounded by the budget",
 "The peak heap memory of a read is at most a fixed multiple of the caller's budget plus a constant.",
 ["inputs","histories"],"all inputs and budgets",
 "Tests do not measure memory.",
 [C,CS,M,S,G],[("budget charges, element size of each list type","src/thrift/protocol/mod.rs")])
p("C26","Constructors put every argument in the member of its position",
 "Each value constructor returns a value whose members are exactly the arguments given for them, in the declared order, without exchanging, dropping or defaulting one; members that are not arguments are absent. A newly created protocol is at the start of a message - no open structure, no pending boolean - and an input protocol's budget is the one given.",
 ["inputs"],"all arguments of the 43 structure constructors, the 6 protocol identifiers and the 4 protocol constructors",
 "Tests construct a few values and most arguments have interchangeable types (i64, i32), so an exchange compiles and is not noticed.",
 [G,C,CW,CS,CSW,M],[("positional constructors",G),("protocol constructors",C+" / "+CW)])
p("C27","Values compare, order, hash and clone member by member",
 "Two values of any Parquet metadata type, enum, union or wire identifier are equal exactly when all their members are equal (unions: the same member with equal values), and a clone equals its original. The ordering is total and agrees with equality: the first differing member in declared order decides. Equal values hash equally, and a hash depends on the value alone.",
 ["inputs"],"all pairs of values of all public value types",
 "Tests compare a handful of values; a member left out of a comparison, or exchanged in an ordering, passes every test that does not vary exactly that member.",
 [G,M],[("derived and hand-written PartialEq, Ord, Hash and Clone impls",G),("implementations on protocol identifiers",M)])
p("C28","Seeking an input protocol seeks its transport and nothing else",
 "Seeking a compact input protocol moves its transport once, to the position asked for, and returns the transport's own answer, a failure included; the budget, open structures and pending booleans of the protocol stay as they were.",
 ["inputs","histories"],"all positions, answers of the transport and protocol states",
 "No test seeks a protocol.",
 [C],[("impl io::Seek for TCompactInputProtocol",C)])
p("C29","Errors and values describe themselves without panicking",
 "Displaying an error tells its kind: different kinds of one error type print different texts, and a wrapped error prints what it wraps; message types and wire types likewise. Debug output of a value or error shows every member. Formatting never panics and fails exactly when the formatter does.",
 ["inputs","fault_sequences"],"all values, kinds and formatter behaviours",
 "No test formats an error; a duplicated or dropped text, or a member left out, is noticed only when somebody reads the log of that very failure.",
 [E,M,G],[("Display of errors and kinds",E),("Display of wire enums",M),("Debug of generated types",G)])
p("C30","Every read, skip and write comes to an end",
 "For every finite input and every value, each call that reads, skips, writes, encodes or decodes finishes as soon as the transport's own operations do: every loop either takes at least a byte of input on each round or moves a bounded number towards its bound. No corrupt or hostile input, no length, type code or integer value makes a call go round for ever.",
 ["inputs","fault_sequences"],"all inputs, values and transport behaviours",
 "A test that meets an endless loop would hang, so the tests only contain inputs that end; whether some other type code, count or bit pattern stalls a loop is a question about all of them.",
 [M,C,CW,VD,G],[("loops of skip and read_list",M),("integer encode and decode loops",V),("field and element loops of generated readers and writers",G)])
p("C31","Enabling the async feature changes nothing for synchronous use",
 "The async feature only adds: every public name, type, trait implementation, constant and function of the default build is present in a build with the feature on, with the same signature and the same code. A program that uses the synchronous API therefore reads, writes and fails identically whether or not another crate of its build turns the feature on.",
 ["configurations"],"every item of the default build",
 "Tests run under one feature set at a time and never compare the two; feature unification in Cargo makes the combination one nobody chose.",
 [G,C,M,"src/lib.rs","Cargo.toml"],[("cfg(feature) attributes and expressions of shared code","src")])
p("C32","Calls depend on and affect only their arguments and transport",
 "What a call returns and writes is determined by its arguments, the protocol it is called on and the answers of the transport: no environment variable, clock, file, thread, random number, memory address or earlier, unrelated call plays a part, and no call prints or changes anything of the process. Two readers or writers, in one thread or several, never influence each other.",
 ["histories","schedules","configurations"],"all calls, call histories and interleavings of independent readers and writers",
 "A test process makes few calls in one fixed environment; state shared between unrelated calls or read from the surroundings shows only in other histories and environments.",
 [C,CW,CS,CSW,M,VD,G],[("every call of every function; every static","src")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
