import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["RemotingMessage::parse"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
BP="src/binary_parser/mod.rs"
MAPS=[("binary_libraries","library name by library ID",BP),("classes","class metadata by the object ID that introduced it",BP),("objects","referenceable values not consumed yet, by object ID",BP)]

p("C01","Parsing and deserializing never panic",
 "For every byte slice, parsing a message returns either a message or an error and never panics, and deserializing a parsed message with any target type whose own code does not panic never panics either. Exhaustion of memory or of the stack is covered by separate properties.",
 ["inputs","programs"],"all byte slices; all Deserialize types that do not panic themselves",
 "The tests parse about 45 hand written valid messages; a panic needs one malformed message out of an unbounded set.",
 [BP,"src/record","src/common","src/data_type","src/value","src/remoting_message.rs"],
 [("checks in front of every indexing, removal, subtraction and unreachable!",BP),("checked arithmetic on lengths","parse_binary_array"),("MemberTypeInfo pairs each BinaryType with its AdditionalTypeInfo","src/common/member_type_info.rs")],
 observe=["RemotingMessage::parse","nrbf::from_slice"])
p("C02","A message is one header, records, an optional call, and a final end record",
 "A byte slice is accepted only if it starts with a serialization header record of version 1.0, continues with referenceable records around at most one method call or method return, and ends with a message end record that is the last byte. Everything else, including a missing or repeated part and trailing bytes, is rejected with an error.",
 ["inputs"],"all byte slices, in particular all orders and repetitions of top-level records",
 "Tests only parse well formed messages; no test has trailing data, a missing end or a wrong version.",
 [BP,"src/record/serialization_header.rs","src/record/message_end.rs"],
 [("sequence of sub-parsers and the final is_empty test","BinaryParser::parse_remoting_message"),("version checks","SerializationHeader::parse")])
p("C03","Each record is read with exactly the fields MS-NRBF gives it",
 "Every record is recognised by its specified type byte, and its fields are read in the specified order, with the specified width, signedness and little-endian byte order, without skipping or re-reading bytes. No other type byte is accepted where a record is expected.",
 ["inputs"],"all record kinds and all values of their fields",
 "Tests exercise most record kinds with one or two field values each, where many fields are equal or zero, so swapped or truncated fields can go unnoticed.",
 ["src/record","src/common","src/data_type","src/combinator.rs",BP],
 [("one parse function per record","src/record/*.rs"),("RecordType discriminants","src/record/mod.rs")])
p("C04","Type codes are decoded by exactly the specified tables",
 "Each binary type code (0-7), primitive type code (1-3, 5-18) and binary array type code (0-5) is accepted and understood as the type the specification assigns to it, and determines which additional type information follows. Every other code byte makes parsing fail.",
 ["inputs"],"all 256 values of every type code byte, in every place where one occurs",
 "Tests never use an unknown code and do not cover every known code in every position.",
 ["src/enumeration.rs","src/common/additional_type_info.rs"],
 [("alt over all variants, discriminants are the codes","src/enumeration.rs"),("match on the binary type","AdditionalTypeInfo::parse")])
p("C05","A primitive has the same value of its declared type wherever it occurs",
 "A primitive value with a given type code and bytes becomes the value of that type obtained by decoding exactly the type's width in little-endian order, with the type's signedness. This holds identically for typed members, untyped members, primitive array elements and inline method values, and codes which are not allowed in a context are rejected there.",
 ["inputs"],"all primitive type codes, all byte contents, all contexts in which a primitive can occur",
 "Each type is tested in one or two contexts with a few values; the three code paths for the contexts are separate tables.",
 ["src/record/member_primitive_typed.rs","src/record/member_primitive_untyped.rs","src/record/value_with_code.rs","src/data_type"],
 [("three parallel match tables","MemberPrimitiveTyped, MemberPrimitiveUnTyped, ValueWithCode"),("number parsers of the data types","src/data_type/*.rs")])
p("C06","Booleans, characters and decimals accept exactly their valid encodings",
 "A boolean is accepted only as the byte 0 or 1, meaning false and true. A character is accepted only as one complete UTF-8 sequence, of which exactly its bytes are consumed, and a decimal only as a length-prefixed string that is a decimal number; any other content makes parsing fail.",
 ["inputs"],"all byte contents of boolean, character and decimal values",
 "Tests use true, false and an ASCII character only.",
 ["src/data_type/boolean.rs","src/data_type/char.rs","src/data_type/decimal.rs"],
 [("match of the byte","Boolean::parse"),("length by lead byte and from_utf8","Char::parse"),("from_str","Decimal::parse")])
p("C07","Strings are exactly their prefixed bytes, valid UTF-8, borrowed from the input",
 "The length prefix of a string is a 7-bit variable length integer of one to five bytes, least significant group first, with a value of at most 2^31-1; any other prefix is rejected. The string is exactly that number of following bytes, must be valid UTF-8, and is handed out unmodified as a slice of the input.",
 ["inputs"],"all length prefixes (one to five bytes) and all contents",
 "Unit tests cover four maximal lengths with a single repeated letter; no malformed prefix and no invalid UTF-8.",
 ["src/data_type/length_prefixed_string.rs"],
 [("bit parser of the prefix","LengthPrefixedString::parse_len"),("take and from_utf8","LengthPrefixedString::parse")])
p("C08","Numeric fields outside their domain make parsing fail",
 "Object IDs, reference IDs, metadata IDs and library IDs must be positive, lengths, ranks and member counts non-negative, null counts positive, the root ID non-negative, and a class instance's metadata ID different from its object ID. A message that violates one of these is rejected with an error instead of being accepted, truncated or wrapped.",
 ["inputs"],"all 32-bit (or 8-bit) values of every ID, length and count field",
 "Tests contain no invalid ID, length or count at all.",
 ["src/combinator.rs","src/record/serialization_header.rs","src/record/class_with_id.rs","src/record/object_null_multiple.rs","src/record/object_null_multiple_256.rs","src/record/binary_array.rs"],
 [("try_from and NonZeroU32","src/combinator.rs"),("null count guards","src/record/object_null_multiple*.rs"),("metadata ID comparison","ClassWithId::parse")])
p("C09","Date-times and time spans are split into ticks and kind as specified",
 "The ticks of a date-time are the low 62 bits of its 64-bit value as a signed number, its kind is given by the two high bits (1 UTC, 2 local, otherwise unspecified), and the value of a time span is its full signed 64-bit number.",
 ["inputs"],"all 2^64 raw values",
 "No test calls these accessors.",
 ["src/value/date_time.rs","src/value/time_span.rs","src/data_type/datetime.rs","src/data_type/timespan.rs"],
 [("shift and mask","DateTime::ticks, DateTime::kind"),("conversion","TimeSpan::value")],
 observe=["value::DateTime::ticks","value::DateTime::kind","value::TimeSpan::value"])
p("C10","Message flags are accepted exactly when they are consistent",
 "Message flags are accepted only if they contain at most one flag each of the argument, context and return categories and do not combine categories that exclude each other (arguments or return with exception, return or exception with signature). Each flag has its specified bit, and all other combinations of flag bits are accepted.",
 ["inputs"],"all 2^32 flag values of method call and method return records",
 "Two method messages are tested, each with one flag combination.",
 ["src/record/message_flags.rs"],
 [("category masks and exclusion checks","MessageFlags::parse"),("bitflags constants","MessageFlags")])
p("C11","Method calls and returns deliver what their flags announce",
 "A return value, call context and arguments that are flagged as inline are read from the record, and only then; arguments flagged as a call array are all elements of the array, arguments flagged as being in the array are the elements of the array's first element, and otherwise there are no array arguments. A call array must directly follow the record and carry the root ID, and a message whose flags announce array arguments it does not have is rejected.",
 ["inputs"],"all flag combinations, call arrays and root IDs",
 "One call and one return message are tested.",
 [BP,"src/record/binary_method_call.rs","src/record/binary_method_return.rs"],
 [("cond on the flags","BinaryMethodCall::parse, BinaryMethodReturn::parse"),("parse_args and parse_call_array",BP)])
p("C12","An object carries its class name and each member's own value",
 "The object resulting from a class record has exactly the class name given by its metadata, and its members are the metadata's member names, each with the value of the member at the same position of the instance. No member is lost, invented or exchanged.",
 ["inputs"],"all class records, with any number and kind of members",
 "Tests have a handful of classes; pairing errors behind null runs, references or metadata reuse are not sampled.",
 [BP],[("zip of member names and resolved members","BinaryParser::parse_classes"),("order preserving resolution","BinaryParser::resolve_members")],MAPS)
p("C13","An instance with a metadata ID has the class of the record it names",
 "A class instance that refers to the metadata of an earlier class record gets that record's class name, library, member names and member types, also when the referring instance is nested in the instance that introduces the metadata. If no earlier class record has that ID, the message is rejected.",
 ["inputs","histories"],"all sequences of class records and references to their metadata",
 "One test message uses metadata references, with a single class.",
 [BP],[("classes map","BinaryParser::parse_classes")],MAPS)
p("C14","A typed member accepts only the records its declared type allows",
 "A member with declared type information accepts an untyped primitive of exactly the declared primitive type for primitives, a string, reference or null for strings, an instance of exactly the declared class and library (or a reference or null) for classes, and any member record for objects and object arrays, while other array members must be references or null. Anything else in that position is rejected.",
 ["inputs"],"all declared member types, and all records that can follow",
 "Tests have only matching records, and no mismatch.",
 [BP],[("match over declared types","BinaryParser::parse_member_reference")],MAPS)
p("C15","Arrays and classes have exactly as many elements as declared",
 "An array has exactly the declared number of elements (the product of its lengths) and a class instance one value per member name, in the order of the records. A null record stands for exactly as many consecutive null elements as it says, in its place, and a null record that exceeds the remaining elements is rejected.",
 ["inputs"],"all lengths, and all placements and counts of null records",
 "Tests have short arrays without null runs longer than the rest of the array.",
 [BP,"src/record/object_null_multiple.rs","src/record/object_null_multiple_256.rs"],
 [("parse_members loop","BinaryParser::parse_members"),("skipping of members covered by a null run","BinaryParser::parse_members_with_type_info"),("expansion of null runs","BinaryParser::resolve_members")])
p("C16","Multi-dimensional arrays are nested row by row by their lengths",
 "A rectangular array with lengths l1 to ln is delivered as nested arrays of these lengths in row-major order, an array of a single dimension as a flat array, an array without elements as an empty array, and the lower bounds, which are present exactly for the offset array kinds, do not affect the elements. An array whose number of elements cannot be represented is rejected.",
 ["inputs"],"all ranks, lengths and lower bounds",
 "Tests have one or two shapes per array kind.",
 [BP,"src/record/binary_array.rs"],
 [("splitting of the flat members from the last dimension to the first","BinaryParser::parse_binary_array"),("checked product","BinaryParser::parse_binary_array"),("cond on the offset kinds","BinaryArray::parse")])
p("C17","A resolved reference is the object with exactly that ID",
 "Wherever a message refers to an object by ID, the value delivered there is the object that carries this ID in the message. If the object is neither known nor the next record, the message is rejected; a reference never becomes null, another object or a missing element.",
 ["inputs","histories"],"all object graphs and all orders of referenceable records",
 "Tests have few references, all valid and with at most a few objects.",
 [BP],[("lookup by ID or verified next record","BinaryParser::resolve_members"),("registration under the record's own ID","BinaryParser::parse_referenceable")],MAPS)
p("C18","IDs are never silently redefined",
 "A message that defines the same library ID twice, gives the same object ID to two objects which are both still to be referred to, or gives an object of a class the object ID of an earlier record that introduced class metadata, is rejected. A later definition never silently replaces an earlier one.",
 ["inputs","histories"],"all sequences of definitions",
 "No test message defines an ID twice.",
 [BP],[("result of insert","parse_binary_library, parse_referenceable"),("contains_key","parse_classes")],MAPS)
p("C19","A class instance names the library registered under its library ID",
 "An instance of a class with a library ID carries exactly the library name that a library record earlier in the message gave to this ID, and the message is rejected if there is none. An instance of a system class carries no library.",
 ["inputs","histories"],"all sequences of library and class records",
 "Tests have at most one or two libraries, and never a missing one.",
 [BP,"src/record/binary_library.rs"],[("binary_libraries map","parse_binary_library, parse_classes")],MAPS)
p("C20","Trying alternatives has no effect on the outcome",
 "At every position the next byte alone decides which record alternative applies, so no record can be read as two different things. An alternative that does not apply leaves nothing behind that changes the outcome of the one that does.",
 ["inputs","histories"],"all positions at which the grammar has alternatives",
 "Tests only sample a few combinations of a library record and the alternative following it.",
 [BP],[("disjoint type bytes","RecordType"),("idempotent registration of a library","BinaryParser::parse_binary_library"),("alt and alt_mut! retry only on recoverable errors",BP)],MAPS)
p("C21","An error inside a record always fails the whole message",
 "Once a record has been recognised by its type byte, any error in its content makes parsing of the whole message fail. Such an error is never ignored, replaced by a default, or turned into a shorter message.",
 ["inputs","fault_sequences"],"all errors, in all records, at any nesting depth",
 "No test contains an invalid record.",
 [BP,"src/combinator.rs","src/data_type","src/record"],[("Failure instead of Error inside records","src/combinator.rs into_failure"),("propagation with ?",BP)])
p("C22","The result of a message is its call, its return or its root object",
 "A message with a method call or return yields exactly that call or return. A message without one yields the object whose ID is the header's root ID, or null if the root ID is zero, and is rejected if no such object is in the message.",
 ["inputs"],"all messages and root IDs",
 "Tests never have a missing root object or a zero root ID.",
 [BP,"src/record/serialization_header.rs"],[("match on the parsed call and lookup of the root","BinaryParser::parse_remoting_message")],MAPS)
p("C23","Deserialization presents every value with its own type and content",
 "Deserializing a value presents exactly that value to the target type, as the data model type that corresponds to its kind (for example a 16-bit unsigned number as u16, a string as a string borrowed from the input, a decimal as its text, date-times and time spans as their 64-bit number). This is independent of which type the target asks for, except for optional and struct targets.",
 ["inputs","programs"],"all values, all Deserialize types",
 "Tests deserialize some kinds into the matching Rust type with few values.",
 ["src/value/mod.rs","src/value/object.rs","src/remoting_message.rs"],[("match over all kinds","ValueDeserializer::deserialize_any"),("forward_to_deserialize_any!","src/value/mod.rs")],observe=["nrbf::from_slice","Deserializer for RemotingMessage"])
p("C24","Null is none and nothing else is; calls and returns are not values",
 "An optional target receives none exactly for a null value and otherwise the value itself, at the top level as well as inside arrays and objects. A method call or return is never deserialized as a value but rejected with an error, as is a message that cannot be parsed.",
 ["inputs","programs"],"all messages, all Deserialize types",
 "Tests deserialize options for a few kinds only, and no method call.",
 ["src/value/mod.rs","src/remoting_message.rs","src/lib.rs"],[("deserialize_option","src/value/mod.rs, src/remoting_message.rs"),("to_deserializer","src/remoting_message.rs"),("map_err and ?","from_slice")],observe=["nrbf::from_slice","Deserializer for RemotingMessage"])
p("C25","Boxed system primitives unbox to their single value, or fail",
 "An object of one of the system classes for booleans, characters, integers and floating point numbers deserializes as the primitive in its only member `m_value`, with the type of the class. If it has another member, more than one, or a value which the type cannot be deserialized from, deserializing it fails.",
 ["inputs","programs"],"all objects of system primitive classes",
 "Tests unbox well formed objects only.",
 ["src/value/object.rs","src/data_type/mod.rs"],[("match on the class name","ObjectDeserializer::deserialize_any"),("visit_map of impl_primitive!","src/data_type/mod.rs")],observe=["nrbf::from_slice"])
p("C26","A sequence is deserialized completely or not at all",
 "An array deserializes to its elements in order, and deserializing fails if the target takes fewer than all of them. A generic list deserializes to exactly the first `_size` elements of its `_items`, in order, and fails if it has fewer items, if the target takes fewer, or if it lacks one of its three members.",
 ["inputs","programs"],"all arrays and lists, all Deserialize types",
 "Tests deserialize arrays into vectors, which always take all elements.",
 ["src/value/mod.rs","src/value/object.rs"],[("ArrayDeserializer::end","src/value/mod.rs"),("ListDeserializer count, size and end","src/value/object.rs")],observe=["nrbf::from_slice"])
p("C27","An object deserializes as the map of all its members",
 "An object that is not a boxed system primitive or list, and every object for a struct target, is presented as a map with exactly its members, each under its own name with its own value. An object of a class with a library is never treated as a system class.",
 ["inputs","programs"],"all objects, all Deserialize types",
 "Tests deserialize a few objects to structs with matching fields.",
 ["src/value/object.rs","src/value/mod.rs"],[("MapDeserializer over the members","ObjectDeserializer"),("library check","ObjectDeserializer::deserialize_any")],observe=["nrbf::from_slice"])
p("C28","Parsing depends on nothing but the input and affects nothing else",
 "The result of parsing and deserializing is determined by the input bytes and the target type alone. The library has no mutable global state, performs no input or output, reads no clock, environment or randomness in a way that affects results, and contains no unsafe code. (In which order the members of an object are presented is unspecified.)",
 ["inputs","histories","schedules"],"all inputs, any earlier or concurrent use of the library",
 "Tests parse each message once, in one thread.",
 ["src"],[("no statics, no unsafe, no effects in any function","src")],observe=["RemotingMessage::parse","nrbf::from_slice"])
p("C29","Parsed data borrows from the input and cannot outlive it",
 "Strings in messages, values, objects, and errors refer to the input's own bytes for as long as the input lives, even after the message is dropped, and no program in which they outlive the input compiles. All public types can be sent to and shared between threads.",
 ["programs"],"all programs that use the library",
 "A test cannot show that a program does not compile.",
 ["src/remoting_message.rs","src/value/mod.rs","src/value/object.rs","src/error.rs","src/lib.rs"],[("lifetime parameters of the public types","src")],observe=["public API"])
p("C30","Parsing always terminates because every step makes progress",
 "Every loop and every recursion of the parser consumes input, or counts down a number that is fixed when it starts, so parsing finishes for every input. No record can be empty and repeated.",
 ["inputs"],"all byte slices",
 "A test cannot rule out an endless loop on an input it does not have.",
 [BP,"src/record","src/common"],[("records start with a type byte that is consumed",BP),("loop bounds","parse_members, parse_members_with_type_info, parse_binary_array")])
p("C31","Elements are paid for with input, not promised by a count",
 "No count or length in a message makes the parser reserve memory in proportion to it in advance, and every element the parser stores was read from at least one byte of input of its own. A short message can therefore not make the parser build a large array.",
 ["inputs"],"all byte slices, in particular those with huge lengths and counts",
 "No test has a length that exceeds its content.",
 [BP,"src/common","src/record"],[("elements pushed one at a time, nom's bounded initial capacity",BP)])
p("C32","The stack needed is bounded however deep a message nests",
 "Parsing a message and using the resulting value needs stack space bounded by a constant, however deeply its objects, references or array dimensions are nested. A message that nests too deeply is rejected with an error instead of overflowing the stack.",
 ["inputs"],"all byte slices, in particular deeply nested messages",
 "No test nests more than a few levels.",
 [BP,"src/record/binary_array.rs"],[("limit of the rank","BinaryArray::parse"),("(no limit of the recursion)",BP)])
p("C33","Parsing is the same with and without the serde feature",
 "The serde feature only adds deserialization: parsing a given input yields the same message or error, through the same code, whether or not the feature is enabled, and the rest of the public interface is the same.",
 ["configurations","inputs"],"both feature configurations, all inputs",
 "The tests that parse are run with all features only.",
 ["src","Cargo.toml"],[("cfg(feature) only on deserialization items","src")])
p("C34","Truncated input is an error",
 "Every proper prefix of an accepted message is rejected with an error: no field is read beyond the end of the input, and missing bytes are never replaced by defaults or mistaken for the end of a list of records.",
 ["inputs"],"all messages, cut at any position",
 "No test contains a truncated message.",
 ["src"],[("complete (not streaming) parsers only","src/data_type, src/record, src/enumeration.rs")])
p("C35","Every reference to an object finds it",
 "An object that was defined anywhere before a reference to it, as a separate record or in place as a member, is found by every reference to its ID, however many there are.",
 ["inputs","histories"],"all object graphs with shared objects",
 "No test refers to an object twice or to an object defined in place.",
 [BP],[("objects map","BinaryParser::resolve_members, parse_referenceable, parse_member_reference")],MAPS)
p("C40","Every stream written by the .NET BinaryFormatter is accepted",
 "Every stream that the .NET BinaryFormatter writes for a graph of supported values is accepted and yields the values of that graph.",
 ["inputs","programs"],"all object graphs and the record orders .NET produces for them",
 "The tests contain a few recorded streams.",
 ["src"],[("the parser as a whole",BP)])
p("C41","Parsing takes time linear in the size of the message",
 "The time to parse a message is proportional to its size.",
 ["inputs"],"all byte slices",
 "Tests do not measure time.",
 ["src"],[("single pass with one byte lookahead",BP)])
p("C42","Decimal numbers keep their exact numeric value",
 "A decimal delivered by the parser is numerically equal to the text in the message, including scale and all 28 digits.",
 ["inputs"],"all decimal strings",
 "One or two decimals are tested.",
 ["src/data_type/decimal.rs"],[("rust_decimal::Decimal::from_str","src/data_type/decimal.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement']))
    if n>3: print('sentences',x['id'],n)
