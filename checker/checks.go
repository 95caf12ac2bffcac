package main

var checks = map[string]checkDef{
	"C20": {checkC20, "Equal of every pair of value kinds of which one is a scalar other than a number, with arbitrary contents, and with nil on either side: the result is exactly equality of the payload.", 100},
	"C21": {checkC21, "Equal of every pair of number types with arbitrary contents in both orders, against itself, against NaN and against every other kind.", 60},
	"C22": {checkC22, "Equal of every pair of collection kinds with arbitrary contents: no path panics; for two of the same family, with an arbitrary position, true implies equal lengths and elements, and equal contents imply true. Equal of every entry kind.", 60},
	"C23": {checkC23, "PrintJSON and MarshalJSON of every kind of value with arbitrary contents, Jsonify: the text read as JSON, collections with any number of entries by the loop body and exactly up to three.", 35},
	"C24": {checkC24, "The text of MarshalJSON, PrintJSON, Jsonify and String and the bytes of MarshalBinary, Pack and Hex for every kind of value with arbitrary contents.", 30},
	"C39": {checkC39, "The children in the JSON of every collection kind with arbitrary contents, and the text of every scalar.", 15},
	"C41": {checkC41, "Every conversion of a number of each type to each type: the steps from the number to the result on every path, and what each step loses.", 16},
	"C40": {checkC40, "The text of every boolean, integer, double, bigint, decimal and byte string, by sign and by exponent, given to the parsers: every path through String, the parser and Equal.", 13},
	"C25": {checkC25, "Every typed getter of every collection kind with arbitrary contents and position, and on every kind of stored value with arbitrary content: no path panics, the result is never nil, and it is the stored value, the parse of its text, the converted collection or the empty default.", 200},
	"C37": {checkC37, "ImmutableMapCopyOf and SortedMapCopyOf of every map kind and of an arbitrary Map, and the maps every collection kind makes from every list kind: the entry at an arbitrary position is made by the call.", 16},
	"C26": {checkC26, "Kind, Type and Class of every value the constructors build, and of every other type implementing Value; the names of every constant of the tag types.", 15},
	"C27": {checkC27, "Every conversion of an arbitrary number of each type, and Add, Subtract and Equal of every pair of number types: no path panics.", 60},
	"C28": {checkC28, "Add and Subtract of every pair of number types with arbitrary contents: type, operands and order, NaN, and every write.", 30},
	"C29": {checkC29, "Every path of the text parsers over an arbitrary string.", 4},
	"C01": {checkC01, "Every exported method of every immutable collection, entry and scalar, and every exported function taking values, called with arbitrary arguments: each memory write is attributed to what it was allocated for, and each call of Update is reported; Update methods of immutable kinds report false. PackStruct and UnpackStruct, which work through reflection, by a summary-based write analysis.", 200},
	"C06": {checkC06, "Every edit method of a sparse list with arbitrary items and arbitrary spare capacity, AllowFastAppends false: no write reaches memory that existed before the call.", 12},
	"C07": {checkC07, "Every list and map method taking a slice, every method of the scalars (which hold the caller's bytes), and every exported function taking a slice or decoding one: no write reaches the caller's memory and no result is stored in an argument slice.", 110},
	"C36": {checkC36, "Every exported method that does not edit, of every kind of value: no write reaches memory that existed before the call other than the given output; no function of the package writes memory of a package-level variable (schema cache contents included).", 190},
	"C14": {checkC14, "Parse, Unpack, Read, ReadStream, Unseal, UnpackBigInt, UnpackDecimal, every parser method and every unpacker step on each lead byte class with arbitrary following bytes: every index, slice, nil, assertion and allocation-size condition on the way is discharged (collection constructors and child decoding abstracted by their results).", 440},
	"C15": {checkC15, "Every decode step on every lead byte class, with the child decodes replaced by arbitrary outcomes: success only if the bytes were present, any child error is the result, no failed child is stored, and the position advances by exactly the value.", 430},
	"C16": {checkC16, "Every allocation met while decoding arbitrary bytes: bounded by a constant or by bytes shown to be present; nesting of containers: the depth counter grows with each level and the limit is checked.", 50},
	"C17": {checkC17, "Every lead byte class read from a stream with and without ByteReader, delivering in arbitrary pieces: header and body in full or an error; the stream cut at any point inside a value is an unexpected-EOF error.", 165},
	"C19": {checkC19, "Every byte slice or string that a decode from a stream, from a slice with the copy flag, or Raw with the copy flag makes reachable from its result: none shares memory with the input slice or the unpacker buffers.", 90},
	"C18": {checkC18, "Every pair of packer methods, and Pack of every kind of value, on a writer each of whose writes may fail; Write and WriteStream (up to three values).", 110},
	"C33": {checkC33, "ReadStream and WriteStream: every sequence of decode, send, close, receive and write events for up to three values exactly, one arbitrary iteration for longer ones; Write.", 5},
	"C34": {checkC34, "Seal and Unseal with arbitrary messages and keys: what reaches the random source, box.Seal, box.Open and the decoder, byte by byte, and what is returned on every outcome.", 2},
	"C35": {checkC35, "Hash with an arbitrary value and algorithm: what is packed, digested and returned on every outcome.", 1},
	"C38": {checkC38, "Parse of an array or map header with an arbitrary count and arbitrary children: class, length, and the content at an arbitrary position.", 11},
	"C02": {func(c *Check) { denseList(c, denseRig("ImmutableList")) }, "Every edit and read method of the list built by ImmutableList over an arbitrary slice, compared element by element (at an arbitrary position) with the sequence contract.", 10},
	"C03": {func(c *Check) { denseList(c, denseRig("MutableList")); denseUpdate(c, "MutableList") }, "Every edit, update and read method of the list built by MutableList over an arbitrary slice (any spare capacity), compared element by element (at an arbitrary position) with the sequence contract.", 10},
	"C04": {checkC04, "Every edit and read method of a sparse list holding arbitrary items in index order around an arbitrary query index, with either setting of the fast-append switch, compared entry by entry (at an arbitrary position) with the ordered-index contract.", 14},
	"C05": {checkC05, "Every edit and read method of both map kinds holding arbitrary entries in key order around an arbitrary query key, compared entry by entry (at an arbitrary position) with the multimap contract; constructors sort unsorted input by ascending key.", 24},
	"C08": {checkC08, "PackLong for every int64, read back by the slice unpacker (both copy modes) and by the stream reader (with and without ByteReader) through ParseLong; unsigned 64-bit tokens above the int64 range end in an error.", 3},
	"C09": {func(c *Check) { roundTrip(c, func(n string) bool { return n != "PackLong" }); scalarRoundTrip(c) }, "Every header and scalar token other than integers, read back by every unpacker: format, length, tag, payload and the number of bytes consumed; every scalar value packed and decoded by Unpack, Read and Parse: the same kind and content.", 17},
	"C10": {checkC10, "The bytes every Pack method of the packer writes, compared with the MessagePack specification case by case.", 10},
	"C12": {checkC12, "Pack of every collection kind with arbitrary contents into an arbitrary Packer: the log of packer calls is matched against header, then exactly one element (or key and value) per child, at an arbitrary position; and the single token every scalar packs.", 14},
	"C13": {checkC13, "Every function reachable from Pack, PrintJSON, the Marshal methods, String, Hash, Hex, Jsonify, Write, WriteStream and PackStruct (static calls, closures and every possible target of interface calls): sources of anything but the value; every range over a Go map in the package; ImmutableMapOf and SortedMapOf with an arbitrary map; the writes of every encoder of every kind of value.", 100},
	"C30": {checkC30, "PackStruct on witness struct types covering every kind of field, with arbitrary contents and array lengths: the log of packer calls is matched against the header, tags and values due.", 16},
	"C32": {checkC32, "PackStruct and UnpackStruct on witness struct types breaking each tagging rule: an error on every path, twice, and no cache entry; valid types used one after another, in the four orders of packing and decoding: tokens and fields follow the schema of the type given, and no cached schema is written.", 45},
	"C31": {checkC31, "UnpackStruct into witness struct types covering every kind of field, on every sequence of tokens and values with up to three pairs and elements: the outcome and every field of the struct.", 14},
	"C11": {checkC11, "Each of the 256 lead bytes with arbitrary following bytes, through every unpacker: token format, header bytes, the parser's value, and the rejection of 0xc1.", 37},
}
