#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the long texts stay editable).
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
I="include/eosio/"
p("C01","Binary decoding never reads outside the supplied input",
 "Whatever bytes and length a caller supplies, decoding binary data (into typed values, or into JSON under an ABI) never reads a byte before the start or past the end of the supplied input. A value whose encoding is cut short is reported as an error; it is never completed with bytes that were not supplied.",
 ["inputs"],"every input length and content, every decodable type",
 "Tests decode a handful of well-formed values; the guarantee is over every truncation and every hostile length prefix, and an over-read usually goes unnoticed in a test.",
 [I+"stream.hpp",I+"from_bin.hpp",I+"opaque.hpp","src/abieos.hpp"],
 [("availability test before every read, skip or hand-out of input bytes",I+"stream.hpp input_stream"),("length-prefixed values delegate to the checked primitives",I+"from_bin.hpp"),("bytes values borrowed from the input",  "src/abieos.hpp bin_to_json(bytes*)")],
 [("pos/end","remaining input",I+"stream.hpp input_stream")])
p("C02","Binary decoding allocates no more than the input justifies",
 "When decoding binary data into a typed value, a length prefix alone never makes the decoder allocate or default-construct storage: memory for a string, byte string or sequence is claimed only for elements the remaining input can actually hold. A short message announcing a huge length fails with an error instead of consuming memory in proportion to the announced length.",
 ["inputs"],"every length prefix in every decodable container",
 "A test would need to try hostile lengths for each container type; the existing tests only decode honest lengths.",
 [I+"from_bin.hpp"],
 [("availability test between reading a length and resizing",I+"from_bin.hpp from_bin(std::vector), from_bin(std::string)"),("element-at-a-time growth",I+"from_bin.hpp from_bin_sequence, from_bin_assoc")])
p("C03","Nesting depth is bounded on every conversion path",
 "No JSON document, binary message or ABI definition, however deeply nested or self-referential, can make a conversion or an ABI load recurse or stack up without limit: every recursive or stack-driven step is limited by a fixed depth check that fails with an error.",
 ["inputs"],"every document, message and ABI, including self-referential ones",
 "Stack exhaustion needs adversarially deep input on each separate recursive path; tests try one or two such inputs.",
 ["src/abieos.hpp","src/abi.cpp",I+"from_json.hpp",I+"ship_protocol.hpp"],
 [("explicit-stack size limit in the three ABI-driven conversion loops","src/abieos.hpp max_stack_size"),("resolution depth limit","src/abi.cpp get_type, resolve"),("nesting restrictions between optional, array and extension","src/abi.cpp get_type"),("iterative JSON parsing","src/abieos.hpp json_to_jvalue")])
p("C04","C interface: no exception escapes and null arguments are tolerated",
 "Every function of the C interface returns normally to its caller whatever the arguments: no C++ exception propagates out of it and no error raised by the library's own checks terminates the process. A null context, a null string or a null data pointer is never dereferenced, and yields the documented failure value or the behaviour of the empty string.",
 ["inputs","histories"],"every C entry point, every argument value including null, every prior call sequence",
 "Escaping exceptions depend on which internal check fires for which argument; tests pass valid pointers and a few failing inputs.",
 ["src/abieos.cpp",I+"abieos.h"],
 [("common exception barrier","src/abieos.cpp handle_exceptions"),("null string replacement","src/abieos.cpp fix_null_str"),("null context test","src/abieos.cpp")])
p("C05","C interface: every failure is reported with its own error text",
 "Whenever a C interface call on a valid context reports failure, the error text then returned for that context describes the failure of that call, not a stale or empty one. A call reports success only if the whole operation, including consuming all of the input, completed.",
 ["inputs","histories"],"every failing call and every history of earlier calls on the context",
 "The stale-message case needs particular call orders and failure points; tests check messages of isolated failures only.",
 ["src/abieos.cpp",I+"from_json.hpp","src/abieos.hpp"],
 [("error recording","src/abieos.cpp set_error, handle_exceptions"),("extra data test","src/abieos.cpp abieos_bin_to_json"),("end-of-document test","src/abieos.hpp json_to_bin")],
 [("last_error / last_error_buffer","text of the most recent failure","src/abieos.cpp abieos_context_s")])
p("C06","C interface: returned pointers stay valid and belong to the context",
 "Every string or buffer pointer returned through the C interface points to storage owned by the context it was obtained from, or to constant storage, so it stays valid after the call returns. A pointer never refers to a temporary or to storage of another context.",
 ["inputs","histories"],"every C entry point returning a pointer, on every path",
 "A dangling pointer often still shows the right text in a test; the defect depends on allocator state.",
 ["src/abieos.cpp"],[("results are stored in the context before their pointer is returned","src/abieos.cpp abieos_context_s")],
 [("result_str / result_bin / contracts / last_error_buffer","storage returned pointers refer to","src/abieos.cpp abieos_context_s")])
p("C07","Loading an ABI is all-or-nothing and takes effect",
 "A call that reports an ABI as loaded makes exactly that ABI the one used for the contract from then on, replacing any earlier one. A call that reports failure leaves every previously loaded ABI as it was. The version of an ABI is checked before the ABI is used, whichever of the three loading entry points is used.",
 ["inputs","histories"],"every sequence of load calls on a context, valid and invalid",
 "Needs histories (load, reload, failing load, use); the tests load each contract once.",
 ["src/abieos.cpp","src/abieos.hpp","src/abi.cpp"],
 [("convert into a local ABI, then store it","src/abieos.cpp abieos_set_abi, abieos_set_abi_bin"),("version test","src/abieos.hpp check_abi_version")],
 [("contracts","ABIs by contract","src/abieos.cpp abieos_context_s")])
p("C08","Library calls share no mutable state",
 "The library keeps no mutable state outside the objects its caller passes in: no call writes to process-wide storage. Hence calls on different contexts and values may run concurrently and never influence each other.",
 ["schedules","histories"],"every interleaving of calls on different contexts",
 "Races on hidden shared state only show under particular schedules; the tests are single-threaded.",
 ["src/abieos.cpp","src/abi.cpp","src/crypto.cpp",I+"chain_conversions.hpp",I+"fpconv.c",I+"to_json.hpp"],
 [("all tables are constants","src/crypto.cpp base58_map, src/abi.cpp abi_serializer_for, include/eosio/fpconv.c"),("all state lives in the context","src/abieos.cpp abieos_context_s")])
p("C09","Binary writers and readers agree on the layout of every type",
 "For every type that can be both written to and read from binary, the reader consumes exactly the sequence of primitive items (their kinds, widths, order, counts, presence flags and discriminants) that the writer emits, into the same parts of the value. The three output sinks (byte counter, fixed buffer, growing vector) account for the same bytes for every write.",
 ["inputs","programs"],"every serialisable type and every value of it",
 "Round-trip tests sample a few values of some types; agreement must hold for every type, every branch (empty/present, each alternative) and both directions.",
 [I+"to_bin.hpp",I+"from_bin.hpp",I+"stream.hpp",I+"varint.hpp",I+"fixed_bytes.hpp",I+"opaque.hpp",I+"abi.hpp",I+"float.hpp",I+"bytes.hpp"],
 [("paired to_bin / from_bin overloads",I+"to_bin.hpp, "+I+"from_bin.hpp"),("two-pass serialisation",I+"to_bin.hpp convert_to_bin")])
p("C10","Wire structures list all their members in the published order",
 "Every reflected structure (ABI definition, state-history protocol, chain types, keys) lists each of its data members exactly once, so no member is silently left out of encodings, JSON or comparisons. The member order and types of the state-history protocol and ABI definition structures, and the order of the alternatives of their variants, are those of the published nodeos wire formats.",
 ["inputs","programs"],"every reflected structure and every message exchanged with another implementation",
 "Round-trip tests cannot see a field missing or misplaced on both sides; no test compares with another implementation for the state-history structures.",
 [I+"ship_protocol.hpp",I+"abi.hpp",I+"crypto.hpp",I+"asset.hpp",I+"symbol.hpp",I+"time.hpp",I+"reflection.hpp"],
 [("EOSIO_REFLECT lists",I+"ship_protocol.hpp, "+I+"abi.hpp"),("reflection macro",I+"reflection.hpp")])
p("C11","Every built-in ABI type is available under its name with its own codec",
 "Each of the built-in ABI type names (bool, int8 ... asset, extended_asset) is known to every loaded ABI and converts with the encoding of that type and of no other. The names and wire encodings (fixed width, variable-length, or length-prefixed) are those of the published ABI specification.",
 ["inputs","configurations"],"every built-in type name, in every loaded ABI, in both conversion directions",
 "Tests exercise each name with a few values only in the default configuration; a type bound to a sibling of equal width passes many of them.",
 ["src/abi.cpp",I+"types.hpp","src/abieos.hpp",I+"varint.hpp",I+"float.hpp",I+"bytes.hpp",I+"crypto.hpp"],
 [("built-in type registration","src/abi.cpp for_each_abi_type, convert"),("type names",I+"types.hpp get_type_name")])
p("C12","Malformed text is rejected, never silently converted",
 "Text offered for a value that is not in that value's grammar (hex digits, base-58 digits, strict names, symbol codes, symbols, assets, times, decimal numbers, fixed-length byte strings) makes the conversion fail; no conversion continues with a partial or default value after a parsing or validation step has reported failure. In particular each single character is accepted exactly when the grammar admits it there.",
 ["inputs"],"every input string at every text-conversion entry point",
 "The tests reject a few malformed strings; the guarantee covers each of the 256 byte values at each position of each grammar.",
 [I+"from_json.hpp",I+"chain_conversions.hpp",I+"symbol.hpp",I+"asset.hpp",I+"time.hpp",I+"name.hpp",I+"fixed_bytes.hpp","src/abieos.hpp","src/abieos.cpp","src/crypto.cpp",I+"abieos_numeric.hpp"],
 [("boolean results of parsers tested by every caller","from_json overloads, src/abieos.cpp"),("character classifiers",I+"chain_conversions.hpp, "+I+"from_json.hpp unhex, src/crypto.cpp base58_map")])
p("C13","Key and signature text is checksummed and bound to its curve",
 "A textual key or signature is accepted only if its checksum, computed over the payload and the curve suffix its prefix stands for, matches, and only with the payload exactly filling the key type. Rendering a key or signature of a given curve uses the prefix, suffix and discriminant that parsing maps back to that same curve.",
 ["inputs"],"every textual key and signature, each kind (public, private, signature), curve and prefix",
 "key_test.cpp samples a few keys; a wrong suffix or a skipped checksum byte on one of the nine prefix paths is invisible to most samples.",
 ["src/crypto.cpp"],
 [("prefix dispatch","src/crypto.cpp *_from_string / *_to_string"),("checksum comparison","src/crypto.cpp string_to_key"),("checksum creation","src/crypto.cpp key_to_string")])
p("C14","Every error has its own message",
 "Each error condition the library can report has a distinct, non-generic message, and each JSON parser error is mapped to the library error of the same meaning. The message reported for a failing operation is that of the error that occurred.",
 ["inputs"],"every error code of every error enumeration",
 "Tests look at the messages of a few errors; a missing or duplicated table entry shows only for the particular code.",
 [I+"stream.hpp",I+"from_json.hpp",I+"abi.hpp"],
 [("message tables",I+"stream.hpp convert_stream_error, "+I+"from_json.hpp convert_json_error, "+I+"abi.hpp convert_abi_error"),("parser error mapping",I+"from_json.hpp convert_error")])
p("C15","JSON tokens are consumed once and only where their type fits",
 "A JSON value is accepted for a target only if it is of the kind that target requires; a mismatch is an error and never yields a value. Each token of the document is consumed exactly once and in order, the token kind reported is the kind the parser saw, and text after the end of the value is an error.",
 ["inputs"],"every JSON document against every target type",
 "Tests feed matching JSON and a few mismatches; the guarantee is for every kind/target pair and the position left behind.",
 [I+"from_json.hpp","src/abieos.hpp"],
 [("peek/test/eat accessors",I+"from_json.hpp json_token_stream"),("reader callbacks",I+"from_json.hpp json_token_stream, src/abieos.hpp json_reader_handler"),("end-of-document tests",I+"from_json.hpp get_end, src/abieos.hpp json_to_bin")],
 [("current_token","token read but not yet consumed",I+"from_json.hpp json_token_stream")])
p("C16","Object fields: order, completeness and trailing extensions",
 "When JSON is converted to binary under an ABI, a structure is accepted only if every field is present in declared order (in any order for the reorderable conversion); only fields declared as binary extensions, only in a position where extensions are allowed, may be left out, and once one is left out no later field may be present. The decoder omits exactly such fields when the input ends. Both JSON-to-binary conversions and the decoder apply the same rule.",
 ["inputs","programs"],"every structure definition and every object",
 "Tests have a few structures with one trailing extension; the rule spans all placements and the three implementations.",
 ["src/abieos.hpp"],
 [("streaming encoder","src/abieos.hpp json_to_bin(pseudo_object*, json_to_bin_state&)"),("reorderable encoder","src/abieos.hpp json_to_bin(pseudo_object*, jvalue_to_bin_state&)"),("decoder","src/abieos.hpp bin_to_json(pseudo_object*)")],
 [("skipped_extension","an extension field has been left out","src/abieos.hpp conversion states")])
p("C17","Serialising never writes outside the destination buffer",
 "Writing a value to a fixed-size destination, or formatting a number through an internal scratch buffer, never stores a byte outside that buffer, for any value: a destination that is too small is reported as an error. This includes the longest decimal representations of every integer width and of every floating-point value.",
 ["inputs"],"every value of every number type, every destination size",
 "The overflow needs the extreme value of the type (longest digits plus sign); tests sample typical values and no sanitizer is used.",
 [I+"stream.hpp",I+"to_json.hpp",I+"fpconv.c",I+"fpconv.h",I+"chain_conversions.hpp",I+"to_key.hpp"],
 [("overrun test",I+"stream.hpp fixed_buf_stream"),("scratch buffer sizes",I+"to_json.hpp int_to_json, fp_to_json; "+I+"fpconv.c emit_digits; "+I+"chain_conversions.hpp microseconds_to_str")])
p("C18","Generated JSON is syntactically valid for every value",
 "Whatever value is rendered, the JSON produced is well formed: objects and arrays are balanced with separators exactly between members, every member has a name and a value, and 64-bit and wider integers are quoted. Strings are quoted with every quote, backslash and control character escaped and only valid UTF-8 passed through.",
 ["inputs"],"every value of every type that can be rendered, including hostile string contents",
 "Escaping and separators must be right for each byte value and each emptiness/position combination; tests render a few values.",
 [I+"to_json.hpp","src/abieos.hpp"],
 [("string escaping",I+"to_json.hpp to_json(std::string_view)"),("object/array/variant writers",I+"to_json.hpp"),("ABI-driven writer states","src/abieos.hpp bin_to_json")])
p("C19","Integers in JSON are converted exactly or rejected",
 "An integer given in JSON as a number or string is accepted exactly when its value is representable in the target type, for every signed and unsigned width from 8 to 128 bits; an out-of-range value is an error and is never wrapped or truncated. The stored value equals the digits given.",
 ["inputs"],"every digit string for each of the ten integer widths",
 "The wrap points differ per width and sign; tests try the neighbours of the bounds for some widths.",
 [I+"from_json.hpp",I+"varint.hpp",I+"abieos_numeric.hpp","src/abieos.hpp"],
 [("overflow tests in the digit loop",I+"from_json.hpp from_json_int")])
p("C20","Sort keys preserve ordering structure",
 "The key encoding of a composite value is built so that byte-wise comparison of keys follows comparison of values: integers are written most significant byte first with the sign offset removed, variable-length data is terminated and its zero bytes escaped, optional and sequence elements are introduced by a marker that sorts absent before present, and members are written in declaration order. No key is a prefix of another key of the same type.",
 ["inputs"],"every pair of values of every keyable type",
 "Order preservation is over pairs of values; tests compare a few pairs.",
 [I+"to_key.hpp",I+"fixed_bytes.hpp"],
 [("paired element and terminator markers",I+"to_key.hpp to_key_optional, to_key_range"),("integer, float and string key forms",I+"to_key.hpp to_key")])
p("C21","Asset arithmetic never mixes symbols or leaves the legal range",
 "Adding, subtracting, comparing or dividing two assets (or extended assets) of different symbols (or contracts) fails, and an addition, subtraction, multiplication or assignment whose result would fall outside the legal asset range of plus or minus 2^62-1 fails. Division by zero, and the one overflowing division, fail instead of being executed.",
 ["inputs"],"every pair of assets and every operation",
 "The range and symbol conditions must hold on every exit of each operator; there are no tests of asset arithmetic.",
 [I+"asset.hpp",I+"symbol.hpp"],
 [("symbol, range and divisor tests",I+"asset.hpp asset, extended_asset operators")])
p("C22","Name text and name values correspond one-to-one",
 "The character tables used to read names (lenient, strict, compile-time) and the table used to print them are inverse to each other over the whole name alphabet, place each character at the same bit position, and the strict readers accept exactly the alphabet and length limits of names. Printing a name and reading it back gives the same name.",
 ["inputs"],"every character at every position of a name",
 "Tests read and print a few names; a wrong shift or table entry affects only particular positions and characters.",
 [I+"chain_conversions.hpp",I+"name.hpp"],
 [("reader tables",I+"chain_conversions.hpp char_to_name_digit, char_to_name_digit_strict; "+I+"name.hpp char_to_value"),("printer table",I+"chain_conversions.hpp name_to_string")])
p("C23","An accepted ABI is completely resolved and internally consistent",
 "Loading an ABI definition succeeds only if every type it names is non-empty, defined once, refers only to known types, derives only from structures and nests optionals, arrays and extensions legally; otherwise loading fails with the matching error. After a successful load no part of the loaded ABI still refers to the definition it was built from.",
 ["inputs","programs"],"every ABI definition",
 "The checks must be passed on every route by which a type enters the table; tests load a few bad ABIs.",
 ["src/abi.cpp",I+"abi.hpp"],
 [("name and redefinition tests","src/abi.cpp convert"),("resolution of every entry","src/abi.cpp fill, resolve"),("nesting tests","src/abi.cpp get_type, "+I+"abi.hpp add_type")])
p("C25","Discriminants, fixed counts and encodings are range-checked",
 "A variant discriminant, a fixed-size array count or a variable-length integer read from binary, and a variant type name read from JSON, is tested against its legal range before it selects a type, an element or a shift; an illegal one is an error. No out-of-range value is used as an index.",
 ["inputs"],"every discriminant, count and variable-length integer encoding",
 "An off-by-one accepts exactly one illegal value per variant; tests use legal discriminants.",
 [I+"from_bin.hpp",I+"from_json.hpp","src/abieos.hpp",I+"to_bin.hpp"],
 [("variant index tests",I+"from_bin.hpp variant_from_bin, src/abieos.hpp bin_to_json(pseudo_variant*)"),("array count test",I+"from_bin.hpp from_bin(T(&)[N])"),("varuint length test",I+"from_bin.hpp varuint32_from_bin")])
p("C26","The two JSON-to-binary conversions produce the same bytes",
 "For every ABI type, converting JSON that presents fields in declared order through the streaming and through the reorderable conversion writes the same items in the same order: presence flags, element counts, discriminants, fields and leaf encodings.",
 ["inputs","programs"],"every ABI type and every document in declared order",
 "Needs both conversions on every kind of type; the tests compare results for sample values.",
 ["src/abieos.hpp"],
 [("sibling implementations per kind of type","src/abieos.hpp json_to_bin overloads for jvalue_to_bin_state and json_to_bin_state")])
# --- not decided by static analysis here
p("N01","Floating-point text is the shortest that reads back to the same value",
 "The text generated for a finite float64 reads back to exactly the same value.",
 ["inputs"],"every float64 value","Needs every bit pattern.",[I+"fpconv.c",I+"to_json.hpp",I+"from_json.hpp"],[("grisu2",I+"fpconv.c")])
p("N02","Calendar conversion is exact",
 "Converting a time to text and back gives the same instant, for every instant each time type can represent at its text's resolution, and the text names the correct UTC calendar date.",
 ["inputs"],"every instant","Tests convert a few dates.",[I+"chain_conversions.hpp",I+"time.hpp"],[("civil-date algorithm",I+"chain_conversions.hpp year_month_day")])
p("N03","RIPEMD-160 digests are correct",
 "The digest used in key checksums equals RIPEMD-160 of the data for every message, however it is split into updates.",
 ["inputs"],"every message and every split","Tests hash a few keys.",[I+"abieos_ripemd160.hpp"],[("compression function",I+"abieos_ripemd160.hpp")])
p("N04","Base-58 and 128-bit decimal conversions are numerically exact",
 "Converting bytes to base-58 (or a 128-bit value to decimal text) and back gives the same bytes for every value.",
 ["inputs"],"every byte string / 128-bit value","Tests convert a few values.",["src/crypto.cpp",I+"abieos_numeric.hpp"],[("digit-wise multiplication and division","src/crypto.cpp base58_to_binary, binary_to_base58")])
p("N05","Conversion work is linear in the size of input plus output",
 "The time and the output size of a conversion are bounded by a constant multiple of the size of its input and of the types involved.",
 ["inputs"],"every document, message and ABI","Needs adversarial inputs of many sizes.",["src/abieos.hpp",I+"from_json.hpp"],[("conversion loops","src/abieos.hpp")])
p("N06","JSON to binary and back reproduces the value",
 "For every ABI type and every JSON value accepted for it, decoding the produced binary gives JSON denoting the same value.",
 ["inputs","programs"],"every type and value","The tests round-trip a fixed list.",["src/abieos.hpp"],[("json_to_bin / bin_to_json","src/abieos.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
