#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))
I=["inputs"];H=["inputs","histories"]
p("C01","No operation changes an existing immutable list or map",
  "No exported function or method of the library changes the length, the elements or the element order of an existing immutable list or immutable map, of their entries, or of any other immutable value (null, bool, number, string, unknown extension) it is called on or given; an edit returns a separate collection. In-place update of an immutable list, map, item or entry always reports false and changes nothing. (Slices and numbers handed out without a copy, such as Values, Entries, Raw and BigInt, are read-only views.) Consequently collections derived from one another never influence each other.",
  H,"every sequence of operations on immutable lists and maps, with any arguments",
  "The tests rebind the variable to the result of every edit and never look at the old value again, so a write into shared storage is invisible to them.",
  ["immutablelist.go","immutablemap.go","listitem.go","mapentry.go","number.go","string.go","unknown.go"],
  [("edits build their result in freshly allocated storage","immutablelist.go append/putAt/insertAt/removeAt/insertSliceAt; immutablemap.go likewise"),("Update returns false","listitem.go, mapentry.go, UpdateAt/Update")],
  [("backing array of the collection","elements seen by every derived collection","immutableListValue, immutableMapValue")])
p("C02","Immutable list edits and reads follow the sequence contract",
  "For an immutable list of n elements, Append adds at the end, InsertAt/InsertAll at 0<=i<n put the new elements before element i and at i>=n add them at the end, PutAt replaces element i (or grows the list to length i+1 with empty slots between), RemoveAt/DeleteAll drop exactly element i, and a negative or (for removal) out-of-range index leaves the list as it was; all other elements keep their values and relative order, and a nil new value is stored as Null. Len, GetAt (Null outside the range), Values, Items, Entries and Select report exactly that sequence, with index keys 0..n-1; Select of an empty slot in range yields that one empty slot.",
  H,"every list content and length, every index (including the first, last, one-past-the-end and negative ones) and every argument",
  "The tests append a handful of elements and use three or four positions; the special-cased positions (first, last, middle) each have their own copy code.",
  ["immutablelist.go"],[("copy code per position case","immutablelist.go insertAt/insertSliceAt/removeAt/putAt/append/appendSlice")])
p("C03","Mutable (solid) list edits and reads follow the sequence contract",
  "For a mutable list, Append, InsertAt, InsertAll, PutAt, RemoveAt and DeleteAll return a list whose length, elements and element order are exactly those of the sequence contract (insert before element i, append at i>=n, replace or grow with empty slots, drop element i, unchanged for a negative or out-of-range index, nil stored as Null), whether or not the storage of the old list is reused. UpdateAt replaces exactly element i by the updater's result (nil becoming Null) and reports true iff 0<=i<n, and Len, GetAt, Values, Items, Entries and Select report exactly the current sequence.",
  H,"every content, length, spare capacity and index",
  "In-place reuse of spare capacity depends on the append growth pattern; the tests only build short lists by appending.",
  ["solidlist.go"],[("append into spare capacity and re-slicing","solidlist.go append/insertAt/removeAt/appendSlice/insertSliceAt")])
p("C04","Sparse list edits and reads follow the ordered-index contract",
  "A sparse list holds (index,value) items in ascending index order: PutAt replaces the first item with that index or inserts one, InsertAt/InsertAll insert before existing items with the same index, RemoveAt drops the first and DeleteAll every item with that index, Append uses the highest index plus one, and all other items keep their values and order. GetAt returns the first value at the index or Null, Select all values at the index in order, and Items and Entries report exactly that sequence. Len is the highest index plus one (0 if there is none or it is negative) and Values has that length with each value at its index; they never fail, whatever the (possibly negative) indexes are. Which of several values with the same index Values shows is not specified. This holds with fast appends enabled and disabled.",
  H,"every ordered content, every index (negative and absent ones included), both settings of the fast-append switch, any spare capacity",
  "Tests touch positive indexes in one order with the default switch setting.",
  ["sparselist.go","listitem.go"],[("binary search plus position-specific copies","sparselist.go"),("AllowFastAppends","api.go")],
  [("items","kept sorted by index","sparseListValue")])
p("C05","Maps behave as key-ordered multimaps",
  "For both map kinds, entries stay in ascending key order: Put replaces the first entry with the key or inserts one at its place, Insert and InsertAll add entries before existing ones with the same key, Remove drops the first and DeleteAll every entry with the key, and all other entries keep their keys, values and order. Get returns the first value for the key or Null, Select all values of the key in order, Update replaces exactly the first matching value of a mutable map, and Len, Keys, Values, Entries and HashMap report the same entries. Constructors that are not told the input is sorted sort it.",
  H,"every key-ordered content, every key (absent, duplicate, first and last ones included) and every value",
  "Tests use four keys and check only a few final states.",
  ["immutablemap.go","sortedmap.go","mapentry.go"],[("sort.Search lower bound + position-specific copies","immutablemap.go, sortedmap.go"),("sort.Sort in constructors","ImmutableMap, SortedMap, *MapOf")])
p("C06","With fast appends disabled sparse list edits never touch the old list",
  "When the fast-append switch is off, no edit of a sparse list (Append, PutAt, InsertAt, InsertAll, RemoveAt, DeleteAll) writes to the storage of the list it is called on, so lists derived from a common ancestor stay independent.",
  H,"every list, every edit sequence with the switch off",
  "No test turns the switch off.",["sparselist.go","api.go"],[("AllowFastAppends branches","sparselist.go")])
p("C07","Caller-owned slices and buffers are never modified",
  "No list or map operation writes to a slice of values passed as an argument (not even into its spare capacity) nor keeps it as the storage of a result that is later written in place (the constructors ImmutableList, MutableList, SparseList, ImmutableMap and SortedMap take over the slice they are given), and decoding, decrypting or packing never writes to the caller's input byte slice or to the bytes held by a value.",
  H,"every argument slice, including ones holding nil elements or with spare capacity",
  "Tests pass literal slices once and never inspect them afterwards.",
  ["immutablelist.go","immutablemap.go","solidlist.go","sortedmap.go","sparselist.go","msgpack.go","utils.go"],[("InsertAll normalises nil and splices the slice","*list.go, *map.go")])
p("C08","Every 64-bit integer survives encode/decode",
  "For every int64 value, the bytes produced by the packer for it are consumed exactly by one decode step and decode to the same integer. Integers on the wire that do not fit a signed 64-bit integer are reported as an error, never as a different number.",
  I,"all 2^64 integers, each wire width and sign","The tests sample 46 integers.",
  ["msgpack.go","unpack.go","number.go"],[("WriteLong/writeVULong vs nextFormat/ParseLong","msgpack.go")])
p("C09","Length headers and scalar tokens survive encode/decode",
  "For every length in 0..2^32-1, the header the packer writes for a string, byte string, extension (with its type tag), list or map is consumed exactly by the reader and yields the same format, the same length and the same tag. Nil, booleans and every float64 bit pattern decode back to the same token, and every scalar value packed and decoded by Unpack, Read or Parse has the same kind and content again (an unknown extension: when its tag is not one of the two number tags).",
  I,"every length up to 2^32-1 and every tag, every bool and float64","The tests only write short headers (under 16 elements); the 16 and 32-bit forms are never exercised.",
  ["msgpack.go"],[("WriteStrHeader/WriteBinHeader/WriteExtHeader/WriteArrayHeader/WriteMapHeader vs nextFormat/Parse*","msgpack.go")])
p("C10","Packed scalars and headers use the smallest MessagePack form",
  "The packer writes every integer, float, boolean, nil and every string, binary, extension, list and map header in the MessagePack specification's format for it, using the shortest form that can hold the value or length (integers and lengths; floats always 64-bit), big-endian, and writes raw bytes (PackRaw) exactly as given. Hence equal scalars always have the same bytes and any conforming decoder reads them.",
  I,"every integer and every length up to 2^32-1","Only boundary samples for integers are tested and nothing for lengths.",
  ["msgpack.go"],[("range ladders in the writer","msgpack.go messageWriter")])
p("C11","The decoder classifies every lead byte as MessagePack defines",
  "For each of the 256 possible lead bytes both unpackers return the token format MessagePack assigns to it and a header slice of exactly the specified number of bytes, and the parser accepts that header and yields the specified value or length. The reserved byte 0xc1 is rejected with an error.",
  I,"all 256 lead bytes, every payload, buffer and stream unpackers","Tests decode only what the packer emits for small values: float32, uint/int forms, 16/32-bit lengths never appear.",
  ["msgpack.go","unpack.go"],[("mpCodeFormat/mpCodeSize tables, nextFormat, Parse*","msgpack.go")])
p("C12","Packed containers announce exactly the children they carry",
  "Packing a list writes a list header with its length followed by exactly its elements in order; packing a map or sparse list writes a map header with its entry count followed by exactly one key and one value per entry in order (string keys for maps, integer keys for sparse lists). Absent (nil) elements and values are written as nil, and packing a scalar writes exactly one token of its type carrying its value.",
  I,"every container content and size, including nil elements","Tests pack containers of at most five elements.",
  ["immutablelist.go","solidlist.go","immutablemap.go","sortedmap.go","sparselist.go","bool.go","null.go","number.go","string.go","unknown.go"],[("Pack methods","all value files")])
p("C13","Serialization is deterministic",
  "Packing, hashing and JSON printing depend only on the value: no exported encoder observes Go map iteration order, time, randomness, addresses, goroutine scheduling or state that packing itself changes. Any list or map built from a Go map has its entries sorted before it can be observed.",
  ["inputs","schedules"],"every value, every run","Randomised map iteration order only occasionally changes the outcome of a sampled test.",
  ["immutablemap.go","sortedmap.go","sparselist.go","struct.go","number.go","msgpack.go"],[("sort.Sort after ranging a Go map; slices keep entry order","ImmutableMapOf, SortedMapOf, Schema.SortedFields")])
p("C14","Decoding arbitrary bytes never panics",
  "Unpack, Read, ReadStream, Parse and Unseal return an error or a value for every byte sequence, in every truncation and corruption; they never panic with an index, slice, nil, type-assertion or allocation-size fault.",
  I,"all byte strings (and all key material for Unseal)","Tests decode only bytes the packer produced.",
  ["msgpack.go","unpack.go","utils.go","number.go"],[("length checks before every slice; format tables; parser errors","messageBufUnpacker, doParse*, Unseal")])
p("C15","Truncated or malformed input is reported, never decoded",
  "A decode step succeeds only if all bytes of the value were present: a read past the end of the input yields an error, the error of any nested element or extension aborts the enclosing decode with that error, and an element that failed to decode never appears in a result. On success the unpacker has advanced by exactly the bytes of the value and never past the end of the input.",
  ["inputs","fault_sequences"],"every input, every truncation point and nesting","Tests never truncate.",
  ["msgpack.go","unpack.go"],[("remaining() checks, err returns in doParse*","messageBufUnpacker.Next/Read, doParse, doParseList, doParseMap")])
p("C16","Decoding effort is bounded by the input actually supplied",
  "No allocation made while decoding is sized by a length or count found in the input beyond a constant unless that many bytes have been shown to be available, and the nesting depth the decoder follows is limited, so a short input cannot exhaust memory or the stack.",
  I,"every input, in particular headers announcing up to 2^32-1 elements or bytes and arbitrarily deep nesting","Hostile headers are not in the tests.",
  ["unpack.go","msgpack.go","struct.go"],[("make sizes, recursion guard","doParseList, doParseMap, messageIOUnpacker.Read, ParseStruct")])
p("C17","Stream decoding does not depend on how the reader delivers bytes",
  "Reading from an io.Reader works for every reader, whether or not it can read single bytes: a header or body split over several short reads is reassembled in full, and a stream ending inside a value is an unexpected-EOF error rather than a value. Read takes from the reader exactly the bytes of the value it returns, so values can be read one after another.",
  ["inputs","fault_sequences"],"every io.Reader behaviour allowed by its contract (short reads, data together with EOF, no ByteReader)","Tests read only from bytes.Buffer.",
  ["msgpack.go"],[("messageIOUnpacker.Next/Read","msgpack.go")])
p("C18","Write failures are always reported",
  "If the underlying writer fails on any write while a value is packed, the packer's Error (and hence Write and WriteStream) returns that error, and after the first failure the packer issues no further writes.",
  ["fault_sequences","inputs"],"every failing write position and every value","Tests only write into bytes.Buffer, which never fails.",
  ["msgpack.go","utils.go"],[("sticky err field in the packer","messagePacker"),("Write/WriteStream return p.Error()","utils.go")])
p("C19","Decoded values do not alias transient or caller buffers",
  "Values decoded from a stream never share memory with the reader's internal buffers, and values decoded with the copy flag set never share memory with the input slice; Raw with the copy flag set never shares memory with its argument.",
  H,"every decoded value kind (strings, raw bytes, all extension forms, nested elements) and later reads or buffer reuse","Sharing is visible only when the buffer is reused afterwards, which no test does.",
  ["msgpack.go","unpack.go","string.go","unknown.go"],[("copy in messageBufUnpacker.Read, conversion to string, copies for fixed extensions","msgpack.go, unpack.go")])
p("C20","Equality of scalars is reflexive, symmetric and kind-exact",
  "Equal on null, bool, string and unknown values compares exactly the payload: two strings are equal iff their bytes are equal regardless of text/raw flavour, values of different kinds are never equal, and a nil value is equal exactly to nil and Null in both argument orders. In particular equality is reflexive and symmetric for these values.",
  I,"all pairs of scalar values, including nil","Tests only compare a value with its own decoded copy.",
  ["bool.go","null.go","string.go","unknown.go","utils.go"],[("Equal methods and value.Equal","bool.go null.go string.go unknown.go utils.go")])
p("C21","Number equality does not depend on operand order",
  "For any two numbers a and b of any types (long, double, bigint, decimal), a.Equal(b) and b.Equal(a) agree, NaN equals nothing, every other number equals itself, and a comparison never truncates one operand to decide. No comparison panics.",
  I,"all pairs of number types and values, including NaN and infinities","Tests compare numbers only with their own copies.",
  ["number.go"],[("Equal methods per number type","number.go")])
p("C22","Collection equality compares every element and never fails",
  "Two lists are equal iff they have the same length and equal elements at each position (two sparse lists: the same items), two maps iff they have the same number of entries with equal keys and equal values in order; the comparison is total (no index fault for lists or maps of any shape) and never reports equality while a part is different or missing.",
  I,"all pairs of lists and maps of any shape","Tests compare only with an equal copy: a wrong true is never detected.",
  ["immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go","listitem.go","mapentry.go"],[("Equal loops","*list.go *map.go, item/entry Equal")])
p("C23","JSON output is always well-formed",
  "PrintJSON of every value writes exactly one syntactically valid JSON value: strings and map keys are quoted and escaped by JSON rules, numbers that JSON cannot express (NaN, infinities) become null, and lists and maps have balanced brackets with separators exactly between elements.",
  I,"every value, every key and string content, every nesting","Tests print a few plain ASCII values.",
  ["immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go","string.go","number.go","unknown.go","bool.go","null.go"],[("PrintJSON methods","all value files")])
p("C24","The parallel output methods of a value agree",
  "For every value MarshalJSON returns exactly the text PrintJSON writes and Jsonify returns the same text, MarshalBinary returns exactly the bytes that Pack emits, Hex is their hexadecimal form, and for lists and maps String is that JSON text.",
  I,"every value of every type","Tests compare a few constants per method.",
  ["bool.go","null.go","number.go","string.go","unknown.go","immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go","utils.go"],[("MarshalJSON/MarshalBinary/String vs PrintJSON/Pack","all value files")])
p("C25","Typed getters are total and coherent across collections",
  "For every index or key and every stored value (including empty slots), GetBool/GetNumber/GetString/GetList/GetMap and their At variants return without panicking and never return nil: the stored value itself when it has the requested kind, the parse of its string form (bool, number, string) or the converted collection (list/map) otherwise, and False, Zero, the empty string, the empty list or the empty map when nothing (or null) is stored.",
  I,"every collection kind, position, key and stored value","Tests use getters on present values of the right kind.",
  ["immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go"],[("GetXAt/GetX methods","*list.go *map.go")])
p("C26","Kind tags identify the interface a value implements",
  "Every value type reports one fixed Kind, implements the interface that goes with that kind (Bool, Number, String, List, Map, Extension) and reports its own runtime class; every number and string type reports its own type tag. Every named Kind, NumberType and StringType constant has its own distinct name in String.",
  I,"all value types and all tag constants","Tests check the tag of some types and no constant's name.",
  ["api.go","bool.go","null.go","number.go","string.go","unknown.go","immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go"],[("Kind/Type/Class methods, Kind.String","all value files")])
p("C27","Numeric conversions and arithmetic never panic",
  "Long, Double, BigInt, Decimal, IsNaN, Add, Subtract and Equal return for every number, including NaN and infinities, and never return a nil big integer; the conversions of a long are exact and NaN converts to integer or decimal zero.",
  I,"every number of every type and every operand pair","No test converts an infinity or mixes types.",
  ["number.go"],[("NaN and infinity guards before big.Float/decimal conversions","number.go")])
p("C28","Arithmetic yields the receiver's number type and leaves operands alone",
  "Add and Subtract compute the sum or difference of the two operands in the receiver's number type, in that operand order, return NaN if either double operand is NaN, and never change either operand.",
  I,"every pair of numbers","Tests add two small longs and two doubles.",
  ["number.go"],[("Add/Subtract methods, fresh big.Int results","number.go")])
p("C29","Parsing text never panics",
  "ParseNumber, ParseString, ParseBoolean and ParseNull return a non-nil value for every string, and unparsable numbers become NaN.",
  I,"all strings","Tests parse about fifteen well-formed texts and one malformed text.",
  ["number.go","string.go","bool.go","null.go"],[("ParseNumber/parseHexNumber/parseExp","number.go")])
p("C30","Packed structs announce exactly the fields they carry, in tag order",
  "Packing a tagged struct writes a map header whose count equals the number of tag/value pairs that follow: one pair per non-nil plain or array field and one pair per element of a repeated field, each preceded by the field's tag, in ascending tag order; array fields carry a list header with the array length followed by that many elements.",
  I,"every tagged struct type and content","Tests pack three fixed structs and only check that unpacking reports no error.",
  ["struct.go"],[("doReflectPackStruct counts vs emits","struct.go")])
p("C31","Unpacked structs receive every decoded value",
  "Unpacking a struct stores each decoded value or element into the field with its tag (repeated elements appended in order, array elements in their positions), reports an error for an unknown tag, a non-integer key, a value whose class does not fit the field or any decode error, and never reports success while dropping a decoded element.",
  I,"every tagged struct type and every input","The repeated and array tests discard the decoded struct.",
  ["struct.go"],[("ParseStruct, parseFieldValue, setFieldValue","struct.go")])
p("C32","Struct schemas are validated and cached per type",
  "A struct type with an untagged field, a non-integer tag, two fields with the same tag, or a field that is neither a value, nor a pointer to a tagged struct, nor a slice of these is rejected with an error, a cached schema is only ever returned for the type it was computed from, and a rejected type is never cached.",
  ["inputs","programs","schedules"],"every Go type and every concurrent use","Tests use valid types only.",
  ["struct.go"],[("doReflectSchema, reflectSchema, schemaCache","struct.go")])
p("C33","Stream helpers close, stop and report correctly",
  "ReadStream closes its output channel exactly once on every return, sends each decoded value before decoding the next and nothing after an error, and returns the error that ended the stream. WriteStream packs every received value in order, stops at the first write error and returns it, and Write and WriteStream accept a nil value as nil.",
  ["inputs","schedules","fault_sequences"],"every sequence of values, channel timing and reader/writer failure","One happy-path test with a buffer.",
  ["utils.go"],[("defer close(out); loop exits","ReadStream, WriteStream")])
p("C34","Sealed messages use a fresh nonce and are opened only if authentic",
  "Seal encrypts the packed value under a nonce read in full from the system's secure random source for that call, fails if it cannot be read, and prefixes the message with exactly that nonce; Unseal takes the nonce from the message prefix, decrypts exactly the rest, and returns a decoded value only if authentication succeeded, an error otherwise (also for inputs shorter than a nonce).",
  ["inputs","fault_sequences"],"every value, key and message, every random-source failure","There is no test of Seal or Unseal.",
  ["utils.go"],[("io.ReadFull(rand.Reader), box.Seal/box.Open and ok check","utils.go")])
p("C35","Hash digests exactly the packed bytes",
  "Hash returns the packed bytes of the value and the digest of exactly those bytes under the requested algorithm, and returns the pack error instead when packing fails.",
  I,"every value and algorithm","There is no test of Hash.",["utils.go"],[("h.Write(data); h.Sum(nil)","utils.go Hash")])
p("C36","Concurrent use of values shares no unsynchronised mutable state",
  "Outside package initialisation no library function writes a package-level variable or memory reachable from one except through the synchronised schema cache, and reading, comparing, printing, packing or converting any value writes nothing but memory the call itself allocated and the sink it was given; so any number of goroutines can use the same values without synchronisation.",
  ["schedules"],"all goroutine interleavings of read operations on shared values","No test is concurrent on shared values.",
  ["struct.go","msgpack.go","api.go"],[("sync.Map schema cache; no writes to receivers","struct.go, value files")])
p("C37","Converting copies of maps are independent of their source",
  "The map produced by ImmutableMapCopyOf or SortedMapCopyOf shares no updatable entry with its source: updating either map, or an entry of either, never changes the other; maps produced from lists by the getters behave likewise.",
  H,"every source map kind and later update","The copy constructors are untested.",
  ["immutablemap.go","sortedmap.go","mapentry.go"],[("entry re-creation in the copy constructors","ImmutableMapCopyOf, SortedMapCopyOf")])
p("C38","Decoded containers hold exactly the decoded children",
  "Decoding a list yields an immutable list of exactly the announced number of elements, each the decoded child, in wire order; decoding a map whose keys are all integers of 64 bits yields a sparse list with those indexes and values, and any other map an immutable map holding, for every pair on the wire, the key's string form and the value, ordered by key; an announced count of zero yields the empty list or map.",
  I,"every input, every count and mix of key types, sorted or not","Tests decode small sorted homogeneous containers.",
  ["unpack.go"],[("doParseList, doParseMap","unpack.go")])
p("C39","JSON of lists and maps shows every element once, in order, with its key",
  "The JSON form of a list shows each element once, in order, separated by commas; the JSON form of a map shows each entry once, in order, as a quoted key and the entry's value, separated by commas; a scalar shows its printed form, quoted when it is not a boolean or a finite number, and null when it is a missing value or a number that is not finite.",
  I,"every value tree","Tests print about ten small values.",
  ["immutablelist.go","solidlist.go","sparselist.go","immutablemap.go","sortedmap.go","msgpack.go","number.go","string.go","bool.go","null.go","unknown.go"],[("PrintJSON/MarshalJSON methods","value files")])
p("C40","Printed scalars read back as the same value",
  "Parsing the text a scalar prints gives the value back: ParseBoolean of a printed boolean, ParseNumber of a printed integer, double, bigint or decimal (any sign, zero, any exponent, infinities), and ParseString of a printed byte string yield a value that Equal reports equal, an integer again as an integer, a bigint as a bigint, a byte string as a byte string with the same bytes; NaN is read back as NaN; text that does not begin with the byte-string mark is read as that text.",
  I,"every boolean, number and byte string","Tests print and parse about a dozen values.",
  ["number.go","string.go","bool.go"],[("formatBigInt, formatDecimal, formatExp","number.go"),("parseHexNumber, parseExp, ParseNumber","number.go"),("ParseString","string.go")])
p("C41","Numeric conversions keep the value",
  "Converting a number to its own type returns it unchanged. A long converts to the bigint and the decimal of the same value and to the nearest double. A bigint converts to the decimal of the same value, to the nearest double, and to the same long when it fits 64 bits. A finite double converts to the bigint it truncates to, to the same truncated long when that fits 64 bits, and to a decimal that reads back as that double; an infinity converts to the bigint and the decimal zero. A decimal converts to the nearest double, to the bigint it truncates to, and to the same long when that fits 64 bits.",
  I,"every number of every kind","Tests convert one or two small numbers.",
  ["number.go"],[("Long, Double, BigInt, Decimal methods","number.go")])
# properties that static analysis cannot settle here
p("N02","Decimal and big-integer arithmetic is exact",
  "Sums, differences and comparisons of bigints and decimals equal the mathematical result.",
  I,"all operands","Tests do not use bigint or decimal arithmetic.",["number.go"],[("math/big and shopspring/decimal","number.go")])
p("N03","Sealed messages reveal nothing and cannot be forged",
  "Without the private key a sealed message reveals nothing but its length and no other message is accepted.",
  I,"all adversaries","Cryptographic strength is not testable.",["utils.go"],[("nacl/box","golang.org/x/crypto")])
p("N04","Ordering of integer-keyed items after arbitrary caller-constructed input",
  "Collections built by callers who assert that unsorted items are sorted, or who implement the value interfaces themselves, still behave as ordered collections.",
  ["programs"],"all caller programs","Misuse is outside the tests.",["sparselist.go","sortedmap.go"],[("sorted flag","SparseList, SortedMap, ImmutableMap")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
