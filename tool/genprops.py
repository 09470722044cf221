#!/usr/bin/env python3
"""writes properties.jsonl (single source of the property texts)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Z = "zpp_bits.h"
P = []


def p(id, title, statement, over, text, why, mech, observe=None):
    a = {"files": [Z], "mechanism": [{"name": n, "where": Z + ": " + w} for n, w in mech]}
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Reading never touches memory outside the input",
  "Whatever bytes, length and starting position the input has, an input archive only reads bytes between its position and the end of the input and only stores inside the objects it was asked to fill. Input that is too short for the next value is reported as result_out_of_range instead of being read.",
  ["inputs", "configurations"], "every input content, every input length, every starting position, every supported type and archive configuration",
  "tests feed a few well-formed buffers; an over-read needs a particular truncation point of a particular type and usually stays invisible without instrumentation",
  [("input bounds check", "basic_in::serialize_one / check before memcpy and loops"), ("varint reader", "serialize(varint) for input archives, decode_varint")], "archive call result and memory accessed")
p("C02", "Fixed-size output never writes outside the buffer",
  "An output archive over a fixed-size buffer only ever modifies bytes between its starting position and the end of the buffer. A value that does not fit is reported as result_out_of_range rather than written.",
  ["inputs", "configurations"], "every value, every buffer size and starting position, every supported type and archive configuration",
  "tests use buffers that are large enough or one byte short at one place; each type has its own bounds check and each can be off by one",
  [("output bounds check", "basic_out::serialize_one overloads"), ("varint writer", "serialize(varint) for output archives")], "archive call result and bytes modified")
p("C03", "Growing output reserves space before writing and honours limits",
  "An output archive over a growing buffer enlarges the buffer before any byte past its current end is written. When the needed size overflows or exceeds the configured allocation limit the operation fails with no_buffer_space and the buffer is never resized beyond that limit. After a finished operation the buffer size is the final position, unless fitting is disabled or the position is still inside the data the buffer already held.",
  ["inputs", "configurations"], "every value, every initial buffer size and position, every growth factor of at least one, every allocation limit",
  "growth is decided by arithmetic on runtime sizes with multiplication overflow and limit corner cases that no sampled test reaches",
  [("enlargement", "basic_out::enlarge_for"), ("final fit", "out::operator()")], "resize calls on the buffer and archive call result")
p("C04", "The archive position counts exactly the bytes processed",
  "After a successful operation the archive position has advanced by exactly the encoded length of the values processed. After a failed operation the position still lies inside the data and has not moved backwards.",
  ["inputs", "configurations"], "every value or input, every starting position, success and failure alike",
  "tests compare the position at a handful of points; slicing, appending and nested messages rely on it after every operation and after every failure",
  [("position", "m_position updates in basic_out / basic_in, archive.position() in helpers")], "position() after the call")
p("C05", "The first failing element stops the operation and its error is returned",
  "When serialization of one element reports an error, that same error is the result of the whole operation and no later element is read or written. No error code produced by a nested or user-defined serialization is dropped or replaced.",
  ["inputs", "fault_sequences"], "every element position that can fail, every error code, every composite (aggregate, container, optional, variant, smart pointer, tuple, protocol message)",
  "tests provoke errors at one or two places; every composite has its own propagation code",
  [("propagation", "if (auto result = ...; failure(result)) return result in every composite serialize overload")], "result of the archive call and later effects")
p("C06", "Failures carry the documented error code and never occur without cause",
  "A call that cannot succeed reports the documented code for its cause: result_out_of_range, no_buffer_space, value_too_large, message_size, bad_message, invalid_argument, protocol_error or not_supported. A call whose values fit and are acceptable never reports a failure.",
  ["inputs", "configurations"], "every value, input, size and configuration",
  "tests assert a few codes on a few types; confusing two codes or failing one byte too early survives them",
  [("error codes", "std::errc values returned by basic_out, basic_in, varint, variant, rpc and protobuf code")], "result of the archive call")
p("C07", "Writer and reader agree on the encoding of every supported type",
  "What the output archive writes for a value is exactly what the input archive with the same options consumes to produce an equal value: same field order, same widths, same prefixes and same byte order. A change of the format in one direction only is a defect.",
  ["inputs", "configurations"], "every value of every supported type shape under equal archive options",
  "round-trip tests sample values; asymmetric corner cases (last bit of a bitset, largest varint, empty containers) are not sampled for each type and option",
  [("writer", "basic_out::serialize_one family"), ("reader", "basic_in::serialize_one family")], "bytes written and values produced")
p("C08", "The encoding is the documented one, with no extra or missing bytes",
  "Values are written back to back in declaration order with no padding or metadata; resizable containers are preceded by their element count in the configured size type, optionals by one presence byte, variants by their identifier, fixed arrays and aggregates by nothing. Every byte of that encoding depends only on the values.",
  ["inputs", "configurations"], "every value of every supported type shape, every size type option",
  "tests compare a few literal byte strings; the format must hold for every value or stored data becomes unreadable",
  [("format", "serialize_many / serialize_one of basic_out and basic_in")], "bytes written")
p("C09", "Every multi-byte value honours the configured byte order",
  "With a byte order option, each multi-byte scalar inside any aggregate, array, container, size prefix or identifier is stored and loaded in that order, while single bytes and raw byte sequences are left as they are. Without it the native order is used throughout.",
  ["inputs", "configurations"], "every value, every type shape containing multi-byte scalars, native and swapped byte order",
  "endian tests cover a few scalars; bulk copy paths that skip swapping only show for particular element types",
  [("swap", "endian_aware branches in basic_out/basic_in"), ("bulk copy gate", "concepts::serialize_as_bytes")], "bytes written and values produced")
p("C10", "Raw byte copies are only used for types whose bytes are their encoding",
  "A type is copied as raw memory only when it is trivially copyable, has no padding between or after its members, contains no pointers, references or user-defined serialization, and needs no byte swapping. Asking explicitly for the bytes of an unsuitable type does not compile.",
  ["programs", "configurations"], "every type built from the supported shapes",
  "tests check a few types; one wrongly accepted type silently leaks padding or pointer values into messages",
  [("eligibility", "access::byte_serializable, concepts::byte_serializable, concepts::serialize_as_bytes")], "constant-evaluated classification of types")
p("C11", "A length from the input never drives an allocation above the limit",
  "With an allocation limit on an input archive, no container is resized or reserved for more bytes than the limit because of a length read from the input. Such a length is refused with message_size before memory is requested.",
  ["inputs", "configurations"], "every length value in the input, every limit, every container and message kind",
  "an attack length is one value in 2^32; tests try one container kind with one limit",
  [("limit", "allocation_limit checks in basic_in container overloads and protobuf packed fields")], "resize and reserve calls")
p("C12", "Variable-length integers encode minimally and decode safely",
  "A variable-length integer is written as the minimal little-endian base-128 sequence of its value (zig-zag mapped where requested) and its predicted size equals the bytes written. Reading accepts exactly sequences of at most the maximal length for the width, reports value_too_large for longer ones and result_out_of_range for truncated ones, and never moves the position on failure.",
  ["inputs", "configurations"], "all values of all integer widths, all byte sequences, both decoder build options",
  "the decoder has separate fast, slow and inline paths and the boundaries differ for each width; tests sample a few values",
  [("encoder", "serialize(varint) output, varint_size"), ("decoder", "decode_varint, serialize(varint) input, ZPP_BITS_INLINE_DECODE_VARINT")], "bytes, value and position")
p("C13", "Variants dispatch on their identifier and reject unknown ones",
  "A variant is written as the identifier of its active alternative followed by that alternative, and reading selects exactly the alternative whose identifier is in the input. An identifier of no alternative yields bad_message, a variant without value yields invalid_argument, and alternatives with clashing identifiers do not compile.",
  ["inputs", "programs"], "every identifier value, every alternative, default and custom identifiers of any byte length, with and without default-constructible alternatives",
  "tests use small variants and valid identifiers",
  [("dispatch", "traits::variant, serialize_one(variant)"), ("identifiers", "traits::variant::id / index")], "bytes, active alternative, error code")
p("C14", "Optional and pointer members encode presence and never dereference null",
  "An optional or optional pointer is written as one presence byte followed by the value only when present, and reading leaves it empty exactly when that byte is zero. A null owning pointer is refused with invalid_argument and is never dereferenced.",
  ["inputs"], "every presence state, every presence byte, every contained value, empty and non-empty targets",
  "tests exercise one present and one empty value per kind",
  [("optional", "serialize_one(optional)"), ("pointers", "serialize_one(owning_pointer), optional_ptr serialize")], "bytes, resulting state, error code")
p("C15", "Temporary objects created while reading are destroyed exactly once",
  "Every element that the reader constructs in temporary storage or on the heap is destroyed or handed over exactly once on every path, success and failure alike. No path leaks, double-destroys or reads an object before it is constructed.",
  ["inputs", "fault_sequences"], "every path through element-wise readers (maps, sets, optionals, variants, pointers), with the element failing at any point",
  "leaks and double destruction on the failing path need an element whose read fails at a particular point",
  [("storage guard", "destructor_guard, access::placement_new"), ("ownership", "serialize_one for optional, variant, associative containers and owning pointers")], "constructor, destructor and allocation calls")
p("C16", "Remote calls reach exactly the function the request names",
  "A request identifier dispatches to exactly the one bound function with that identifier, its decoded arguments are passed in order and its result is written back. An identifier bound to no function yields not_supported and calls nothing; a failing argument decode or result encode is reported and, for arguments, nothing is called.",
  ["inputs", "programs"], "every identifier value, every argument encoding, every bound function, member and free functions, with and without arguments and results",
  "tests bind a few functions and send valid requests",
  [("dispatch", "rpc_impl::server::serve, call_binding"), ("client", "rpc_impl::client::request / response")], "functions called, bytes written, error code")
p("C17", "Applying a function to input calls it once, only with decoded arguments",
  "Applying a callable to an archive decodes all its parameters in order and then calls it exactly once with those values, forwarding its result. When decoding fails the error is returned and the callable is not called.",
  ["inputs", "programs"], "every input, arity and return kind",
  "tests apply to well-formed input only",
  [("apply", "zpp::bits::apply")], "calls made and result")
p("C18", "Protobuf output is the standard wire encoding of the message",
  "Each message member is written as its field tag (number and wire type) followed by the standard encoding of its value: base-128 for varints, enums and booleans, fixed little-endian for fixed-width members whatever the archive byte order, length prefixes for strings, bytes, packed repeated fields, maps and nested messages. Length prefixes equal the byte count that follows and empty repeated fields are omitted.",
  ["inputs", "configurations"], "every member value and container content, every field numbering, every archive configuration, fixed and growing buffers",
  "interoperability tests compare a few messages; lengths that need a second prefix byte and unusual archive options are not sampled",
  [("protobuf writer", "pb::operator() output, pb::serialize_one"), ("length back-fill", "basic_out::serialize_one(by_protocol)")], "bytes written")
p("C19", "Protobuf input is parsed within the message and unknown fields are skipped",
  "Reading a message accepts its fields in any order, assigns each to the member with that number, skips fields with unknown numbers by their wire type, and never reads beyond the declared message size. A declared length that exceeds the available bytes, a field number zero or an incomplete field is reported as an error.",
  ["inputs"], "every byte sequence, every declared size, every field order",
  "tests parse messages produced by the library itself; hostile lengths and unknown fields never occur there",
  [("protobuf reader", "pb::deserialize_fields, pb::deserialize_field"), ("size check", "basic_in::serialize_one(by_protocol)")], "result, members and position")
p("C20", "Invalid protobuf schemas do not compile",
  "A message type with duplicate, zero or out-of-range field numbers or with a member type protobuf cannot express is rejected at compile time, and field numbers follow declaration order unless overridden. Every valid schema compiles in both directions.",
  ["programs"], "all message types",
  "a negative compile test cannot be part of a run-time test suite",
  [("schema checks", "pb::check_type, pb::unique_field_numbers, pb::field_number")], "acceptance by the compiler")
p("C21", "Unsupported or unsafe uses are refused at compile time",
  "Serializing raw pointers, null pointers, references to nowhere, non-serializable classes, reading into constant or temporary objects, writing into constant buffers, and contradictory declarations do not compile. Ignoring a returned error code is diagnosed.",
  ["programs"], "all programs using the public interface",
  "a negative compile test cannot be part of a run-time test suite",
  [("constraints", "concepts namespace, static_assert and deleted overloads"), ("nodiscard", "struct errc")], "acceptance by the compiler")
p("C22", "Member reflection visits every member once, in order, for every member count",
  "For an aggregate of any supported member count the automatically determined number of members is exact and visiting yields every member exactly once in declaration order, as the member itself and not a copy. Explicitly declared member counts are used as declared.",
  ["programs"], "every member count from zero to the maximum, aggregates, classes with declared counts, tuples and arrays",
  "tests use aggregates of a few sizes; the tables hold one hand-written line per count",
  [("reflection", "access::visit_members, access::number_of_members, visit_members")], "member addresses seen by the visitor")
p("C23", "Compile-time and run-time serialization behave the same",
  "Evaluating an archive operation in a constant expression produces the same bytes, values, position and result as executing it at run time. No operation that works at run time on the supported constant-evaluable types becomes ill-formed or different in a constant expression.",
  ["inputs", "configurations"], "every operation with separate constant-evaluation code, every value",
  "each constant-evaluation branch is separate code that the run-time tests do not execute, and compile-time tests cover single values",
  [("branches", "std::is_constant_evaluated() in basic_out, basic_in, varint, by_protocol")], "bytes, value, position, result in both modes")
p("C24", "Equivalent archive configurations produce the same format",
  "The byte type of the buffer, a static or dynamic extent, a mutable or constant view, the concrete archive class or factory, and the inlining build options do not change the bytes, values, positions or results of an operation.",
  ["inputs", "configurations"], "all pairs of configurations that differ only in these respects",
  "tests run nearly always on one buffer kind with default build options",
  [("configurations", "basic_out/out, basic_in/in, input/output/in_out factories, ZPP_BITS_INLINE_MODE")], "bytes, value, position, result")
p("C25", "Archives share no hidden mutable state and never throw on their own",
  "Operations keep all their state in the archive and the objects passed to them, so distinct archives can be used from distinct threads. Apart from the explicitly throwing accessors, errors are reported through the result and no exception is raised by the library.",
  ["schedules", "programs"], "every operation on distinct archives, any interleaving",
  "no schedule test exists and races or throws would appear only in particular interleavings or failures",
  [("state", "no namespace-scope or function-local mutable variable"), ("errors", "errc, value_or_errc::or_throw, errc::or_throw")], "mutable storage and throw sites in the library")
p("C26", "Serialization neither reads its output buffer nor modifies its source",
  "What an output archive produces depends only on the values, never on bytes already in the destination, and the values being written are left unmodified. An input archive never modifies its input bytes.",
  ["inputs", "histories"], "every value, every previous buffer content",
  "tests write into fresh zeroed buffers and do not compare sources afterwards",
  [("writes", "basic_out::serialize_one overloads"), ("reads", "basic_in::serialize_one overloads")], "bytes written as a function of the inputs")
p("C27", "A result object yields its value on success and its error otherwise",
  "A combined value-or-error result reports success exactly when it holds a value, its value accessor yields that value, its error accessor yields the stored error, and the throwing accessor throws precisely for errors. The plain error result converts to failure exactly for non-zero codes.",
  ["inputs", "programs"], "every stored value or error, every value category and value type including references and void",
  "tests look at successful results",
  [("result types", "struct errc, struct value_or_errc, success / failure")], "accessor results and throw sites")
p("C28", "Compile-time hashes equal the published algorithms for every message length",
  "The compile-time SHA-1 and SHA-256 of a message equal the published algorithms for messages of any length, and identifiers derived from names are the leading bytes of that hash. Every length compiles.",
  ["inputs", "programs"], "every message length around and between block boundaries",
  "tests check a few digests; padding depends on the length modulo the block size",
  [("hashes", "sha1, sha256"), ("identifiers", "id, operator\"\"_sha1 / _sha256")], "constant-evaluated digest")
p("C29", "Archive options select exactly the behaviour they name",
  "The size-prefix options map to prefixes of exactly their width, the last word on byte order, growth factor, growth limit and overflow handling is the option given, and append, reserve and resize act on the buffer and position when the archive is constructed. Options combine independently of their order.",
  ["configurations"], "every option and every order of options, every buffer kind",
  "tests use most options once, alone",
  [("options", "inline namespace options, traits::default_size_type, traits::alloc_limit, traits::enlarger"), ("construction", "basic_out / basic_in option overloads")], "constants of the archive type, effects of construction")
p("C30", "Views read from the input refer to the input bytes themselves",
  "Reading a string view or a span of bytes yields a view that starts at the current position of the input, has exactly the decoded length and lies completely inside the input. Reading into a fixed-size view fills exactly its elements and nothing else.",
  ["inputs", "configurations"], "every decoded length, every input size and position",
  "an off-by-one view still reads plausible bytes in a test",
  [("views", "basic_in::serialize_one(container) for constant byte views")], "data pointer and size of the view")
p("C31", "Slicing and byte conversion helpers return exactly the requested bytes",
  "The helpers that convert values to byte arrays, join or slice them and read values back, and those bundling data with its archives, produce exactly the concatenated encoding, the requested sub-range and archives over that same data. Out-of-range sub-ranges and trailing input are refused at compile time where the sizes are constants.",
  ["inputs", "programs"], "every value list and every sub-range",
  "tests use single examples",
  [("helpers", "to_bytes, from_bytes, join, slice, processed_data, remaining_data, data_in_out, in_out")], "constant-evaluated results")
p("C32", "Byte literals decode to exactly the bytes they spell",
  "A string literal converted to bytes has one byte per character and a hexadecimal literal one byte per digit pair with the value it spells. Malformed hexadecimal text does not compile.",
  ["inputs", "programs"], "every digit pair and literal length",
  "tests use single examples",
  [("literals", "operator\"\"_b, operator\"\"_decode_hex, string_literal")], "constant-evaluated bytes")
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
