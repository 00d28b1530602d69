#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

ENC = "src/encoder/mod.rs"; EBL = "src/encoder/encodable.rs"; VAL = "src/value/mod.rs"
ARR = "src/value/array.rs"; DIC = "src/value/dict.rs"; PTR = "src/value/pointer.rs"
VAR = "src/value/varint.rs"; SIZ = "src/value/sized.rs"; STK = "src/encoder/value_stack.rs"
SK = "src/shared_keys.rs"; SCO = "src/scope.rs"; ALL = "src/alloced.rs"
MUT = "src/mutable.rs"; MAR = "src/mutable/array.rs"; MDI = "src/mutable/dict.rs"
SER = "src/ser.rs"; DE = "src/de.rs"; LIB = "src/lib.rs"

p("C01", "Encoded documents decode to exactly what was written",
  "For every tree of arrays and dictionaries with null, undefined, boolean, integer, float, string and binary leaves, the bytes produced by writing it through the encoder pass validation and read back as the same tree. Types, values, array order and key-to-value pairing are all preserved, and the bytes follow the Fleece format, so an independent reader of the format sees the same tree too.",
  ["inputs"], "all document trees: any nesting, any leaf, any collection length, any distinct keys",
  "Existing tests re-encode two fixed files and write a handful of literals; they never compare whole trees, and no test writes an integer above 2047, an empty or one-byte string in an array, or a nested empty collection.",
  [ENC, EBL, STK, VAL, ARR, DIC],
  [("Encoder::write_value / end_array / end_dict / _fix_*_pointers", ENC), ("Encodable impls", EBL), ("Value::from_bytes and accessors", VAL)],
  ["Encoder::finish", "Value::from_bytes", "Array::iter", "Dict::iter"])

p("C02", "Every scalar survives encoding exactly",
  "Every integer of every supported width, every 32- and 64-bit float (sign of zero included, NaN as NaN), every string and every byte string reads back as the same number or content and as the matching kind of value, wherever it is stored: array element, dictionary value or key, mutable collection slot. Optional and borrowed forms encode exactly like the value they hold, and an absent optional encodes as null.",
  ["inputs"], "all scalar values of every type the encoder accepts, in every kind of container",
  "Unit tests write five or six small scalars; integer size classes, sign extension, length-prefix boundaries and unusual float patterns are not reached.",
  [EBL, VAL, VAR, SIZ, MUT],
  [("Encodable for i8..u64, f32, f64, str, [u8], Option, &T", EBL), ("Value::to_int / to_double / to_str / to_data", VAL), ("ValueSlot::new", MUT)],
  ["Value::to_*", "MutableArray::get", "MutableDict::get"])

p("C03", "Dictionary lookup agrees with iteration",
  "In any encoded dictionary with distinct keys, looking up a key that was written returns exactly its value, looking up any other string returns nothing, and the membership test says the same. Iteration yields every pair exactly once, its length and size hint match the reported length, and the first pair is the first one iterated; this holds whether keys are stored inline, by reference or as shared keys.",
  ["inputs"], "all dictionaries (any size, any distinct keys, nested anywhere) and all probe strings",
  "Tests look up four known keys in fixed files; they probe no absent keys near stored ones (prefixes, extensions, neighbours in sort order) and no dictionaries with thousands of entries.",
  [DIC, VAL, ENC, SK],
  [("binary search Dict::_get", DIC), ("Value::dict_key_cmp", VAL), ("Encoder::dict_key_cmp and the sort in end_dict", ENC), ("Dict::encode_key", DIC)],
  ["Dict::get", "Dict::contains_key", "Dict::iter", "Dict::first"])

p("C04", "Untrusted bytes never crash or escape the decoder",
  "For any byte string whatsoever, every validating entry point returns either an error or a value, without panicking. Anything it accepts can then be read completely (types, conversions, indexing, lookup, iteration, printing, re-encoding, copying into mutable collections, deserialising) without a panic and without reading memory outside the given bytes.",
  ["inputs"], "all byte strings, including corrupted documents, crafted lengths, offsets and tags",
  "No existing test decodes anything but valid data; the accepting and rejecting paths of validation are exercised only on two well-formed files.",
  [VAL, ARR, PTR, VAR, DIC, DE],
  [("Value::_find_root, Value::_validate", VAL), ("Array::validate", ARR), ("Pointer::deref_checked", PTR), ("varint::read", VAR)],
  ["Value::from_bytes", "Array::from_bytes", "Dict::from_bytes", "serde from_bytes", "SharedKeys::from_state_bytes"])

p("C05", "Every well-formed Fleece layout is read correctly",
  "Any byte layout the Fleece format allows for a document is accepted and read as that document, not only the layout this encoder would choose. This covers collections wider than necessary, longer-than-needed integer encodings with sign extension, doubles stored as 32 bits, shared sub-values, references that lead through other references, inline or referenced values, padding and unused bytes.",
  ["inputs"], "all documents times all layouts permitted by the format",
  "The fixture files contain one encoder's canonical output; the rest of the format is never decoded by a test.",
  [VAL, ARR, DIC, PTR, VAR],
  [("ValueType::from_byte and accessors", VAL), ("Array::first_pos / len / get_unchecked / iter", ARR), ("Pointer::deref_*", PTR)],
  ["Value::from_bytes", "Array::get", "Dict::get"])

p("C06", "Data that does not fit its buffer is rejected",
  "Bytes in which the root or anything reachable from it would start before the buffer or run past the space available to it (an element slot, or the bytes before the reference that leads to it), contain a zero-distance or out-of-buffer reference, or have an impossible size are refused with an error by every validating entry point. Cutting bytes off the front of, or off the end of, a document whose content reaches that far never yields a value that reads the missing bytes, and asking for an array or dictionary when the root is of another kind is an error.",
  ["inputs"], "all single and combined corruptions of references, counts, lengths and buffer bounds in valid documents",
  "There is not one negative decoding test: no test checks that validation ever returns an error.",
  [VAL, ARR, PTR, DIC],
  [("bounds checks in Value::_validate / _from_raw", VAL), ("Array::validate", ARR), ("Pointer::deref_checked", PTR)],
  ["Value::from_bytes", "Array::from_bytes", "Dict::from_bytes"])

p("C07", "Encoder accepts exactly the valid call sequences",
  "In every sequence of encoder calls, a call succeeds exactly when it is legal at that point (values only in an open array or after a key, keys only in an open dictionary with no key pending, closing only the innermost collection of that kind with no key pending, one top-level collection) and otherwise returns an error. A refused call has no effect on the document, and finishing at any point closes whatever is open, drops a pending key, and yields a valid document equal to what the accepted calls described.",
  ["histories"], "all sequences of encoder calls, legal and illegal, finished at any point",
  "One test checks one illegal call; mis-sequenced calls and the state they leave behind are not covered.",
  [ENC, STK],
  [("CollectionStack push/pop and Dict::next_key", STK), ("top_collection_closed, _end, _finished_collection", ENC)],
  ["return values of Encoder methods", "Encoder::finish"])

p("C08", "Document size and distance do not change meaning",
  "A document reads back the same however far apart its values end up: on both sides of, and exactly at, the sizes where references, collection headers, string lengths or the root need a wider encoding. This holds in arrays and dictionaries, for keys as well as values, nested and at the root; a document that would need references longer than the format has is refused with an error, never written wrongly.",
  ["inputs"], "all documents around the 16 KiB / 32 KiB reference limits, 2046-2049 and many-thousand-element collections, multi-byte length prefixes, and documents of gigabytes",
  "One test writes a 10,000-element file and looks at two fields per entry; the boundary itself (last narrow, first wide) is not tested.",
  [ENC, EBL, SIZ, PTR, ARR],
  [("_array_should_be_wide / _dict_should_be_wide / _fix_*_pointers", ENC), ("SizedValue::write_fleece_to", EBL), ("root indirection in _finished_collection", ENC), ("write_valuestack_collection", EBL)],
  ["Encoder::finish", "Value::from_bytes"])

p("C09", "Copying an encoded value preserves it",
  "Writing any already-encoded value into an encoder, at the top level or anywhere inside another document, produces a value equal to the original: same kinds, numbers, strings, order and keys. This holds whether or not the source or the destination uses shared keys, and copying the copy changes nothing further.",
  ["inputs"], "all source values in any layout, all destination positions, all four shared-key combinations",
  "Two tests re-encode the two fixture files; only one compares the result, and neither contains large integers, floats of both widths, binary data or nested empties.",
  [ENC, VAL, DIC],
  [("Encoder::write_fleece", ENC)],
  ["Encoder::write_fleece", "Encoder::finish"])

p("C10", "Shared-key table is a stable bijection",
  "After any sequence of insertions, each accepted key has one small integer that never changes, integers are assigned in insertion order from zero, decoding an integer returns exactly the key that was inserted, and unknown keys or integers give nothing. A key is accepted exactly when it is at most 16 bytes of alphanumerics, underscore and hyphen and either is already present or the table holds fewer than 2048; iteration, length and clones agree, and changing a clone never changes the original.",
  ["histories"], "all sequences of insert / lookup / reverse lookup / clone operations and all key strings, through a full table",
  "Tests insert one or two keys; limits, near-duplicate keys, long keys, non-ASCII keys and a full table are never tried.",
  [SK],
  [("SharedKeys::encode_and_insert / encode / decode / can_add", SK)],
  ["SharedKeys::*"])

p("C11", "Shared keys are invisible to readers",
  "Encoding a document with a shared-key table, fresh or already populated or full, and reading it inside its scope gives the same content as encoding it without one: the same lookups with or without passing the table explicitly, the same membership, the same iterated pairs, the same mutable copy, the same deserialised value and the same re-encoded plain document. Each scope uses its own table even when many are alive.",
  ["inputs", "configurations"], "all documents times all initial shared-key tables times all read paths",
  "One test uses a two-key dictionary with a fresh table and another compares key sets of one person; pre-populated and full tables, nested dictionaries and mixed key kinds are not tried.",
  [ENC, DIC, SK, SCO, MDI, DE],
  [("Encoder::_write_key", ENC), ("Dict::encode_key / SharedKeyIter", DIC), ("Deserializer dict keys", DE), ("MutableDict::encode_key", MDI)],
  ["Dict::get", "Dict::get_with_shared_keys", "Dict::iter", "serde from_bytes"])

p("C12", "Address lookup finds exactly the live scope",
  "After any history of creating, removing and dropping scopes, looking up an address returns the scope that is still alive, was not removed, and whose data contains that address (one of them, if several hold the same data), and returns nothing for every other address. A scope reports its own data, range, root and table unchanged for as long as it lives, including empty or invalid data, and no history makes later operations fail.",
  ["histories"], "all sequences of scope creation (any data, with or without table), removal, drop, and address queries, including reuse of freed memory",
  "Tests create one scope each and never drop, remove, nest or reuse addresses.",
  [SCO],
  [("SCOPE_MAP, Scope::new / remove / containing", SCO)],
  ["Scope::containing", "Scope::find_shared_keys", "Scope::data", "Scope::root", "Scope::range"])

p("C13", "Scopes work independently across threads",
  "When many threads create, query, read, remove and drop scopes at once, every thread sees exactly the results it would see alone for its own scopes and for scopes shared with it: its addresses resolve to its scope and table, its documents read back unchanged, and no operation panics or leaves the registry unusable.",
  ["schedules", "histories"], "all interleavings of scope operations on several threads",
  "All existing tests are single-threaded.",
  [SCO, ALL, SK],
  [("ShardedLock around the scope map", SCO), ("unsafe impl Send/Sync", SCO)],
  ["Scope::containing", "Dict::get"])

p("C14", "Owned values keep their data alive and unchanged",
  "A self-owning value, array or dictionary reads the same content for its whole life, whatever happens to the bytes, encoder, scope or other handles it came from, in any order of cloning, converting and dropping; keys stored as shared keys are readable as long as their scope or its table is alive. Converting to array or dictionary succeeds exactly when the value is one, and when the last handle and scope are gone the data is released. Handles of one kind are equal exactly if they refer to the same value, and their ordering agrees with that.",
  ["histories"], "all sequences of creating, cloning, converting, reading and dropping owned handles and scopes",
  "One test holds one owned value and checks a reference count.",
  [ALL, VAL, SCO],
  [("Alloced buf + value pointer, to_array / to_dict / clone", ALL), ("Value::clone_from_bytes", VAL), ("Scope::root", SCO)],
  ["AllocedValue / AllocedArray / AllocedDict"])

p("C15", "Mutable array behaves like a list",
  "After any sequence of push, set, remove, nested edits and clones on a mutable array, its length, elements by index, element kinds and iteration are those of an ordinary list after the same operations. Reading out of range gives nothing, removing out of range does nothing, and editing one array never changes a clone of it or a nested collection elsewhere.",
  ["histories"], "all operation sequences with any values, starting from empty, encoded or scoped arrays",
  "One fixed test pushes and removes one element each.",
  [MAR, MUT],
  [("Vec<ValueSlot> and its operations", MAR), ("ValueSlot", MUT)],
  ["MutableArray::*"])

p("C16", "Mutable dictionary behaves like a map",
  "After any sequence of insert, overwrite, remove, nested edits and clones on a mutable dictionary, with or without a shared-key table, its length, membership, values by key and iterated pairs are those of an ordinary string map after the same operations. Distinct keys never collide, and editing one dictionary never changes a clone of it or a nested collection elsewhere.",
  ["histories"], "all operation sequences with any keys and values, with and without shared keys",
  "One fixed test inserts and removes the key 'age'.",
  [MDI, MUT, SK],
  [("BTreeMap<Key, ValueSlot> and MutableDict::encode_key", MDI), ("ValueSlot", MUT)],
  ["MutableDict::*"])

p("C17", "Mutable copies equal their source and leave it untouched",
  "Making a mutable copy of any encoded array or dictionary, at any depth and from plain, owned or scoped data, by any of the offered conversions, gives a collection with exactly the content of the source, nested collections included, and conversion from the wrong kind of root is refused. Later edits to the copy never change the source, and dropping the source never changes the copy. (Keys stored as shared keys are copied while their scope is registered.)",
  ["inputs", "histories"], "all source documents in any layout times all conversions times all edits afterwards",
  "Tests copy two or three small literals and read back a few fields.",
  [MUT, MAR, MDI],
  [("ValueSlot::new_from_fleece, clone_from, from_scope, TryFrom, set_fleece / push_fleece", MUT)],
  ["MutableArray::clone_from", "MutableDict::clone_from", "From / TryFrom impls"])

p("C18", "Serde round trip preserves Rust values",
  "Serialising any supported Rust value (structs, newtype, tuple and unit structs, all four kinds of enum variants, sequences, maps with string or char keys, options, tuples, all primitive numbers, chars, strings, bytes) and deserialising it as the same type returns an equal value. The same holds when serialised with shared keys and read from its scope.",
  ["inputs"], "all values of a family of types covering the serde data model, with and without shared keys",
  "Two tests round-trip one list of two students; newtype and unit structs, chars, bytes, one-letter strings, maps, large numbers, nested enums in large documents are not covered.",
  [SER, DE, EBL, DIC],
  [("Serializer / Deserializer", SER + ", " + DE)],
  ["fleece::to_bytes", "fleece::to_bytes_with_shared_keys", "fleece::from_bytes"])

p("C19", "Serde refuses what it cannot represent",
  "Serialising a bare scalar, string, unit, none or unit struct at the top level, or a map with a non-string key anywhere, returns an error of the documented kind and no bytes. Deserialising any valid document or any byte string as any type returns either a value or an error, never a panic, and never succeeds with a missing required field, wrong kind of value, unknown variant or number that does not fit the target.",
  ["inputs"], "all unsupported values; all pairs of document and mismatched target type; all byte strings",
  "Two fixed top-level values are tried for serialising; no failing deserialisation is tested.",
  [SER, DE],
  [("MapKeySerializer, SerializeError", SER), ("DeserializeError, EnumAccess checks", DE)],
  ["fleece::to_bytes", "fleece::from_bytes"])

p("C20", "Serde and direct access describe the same document",
  "Bytes produced by serialising a Rust value contain the documented document: structs and maps as dictionaries, sequences and tuples as arrays, enum variants as an array of the variant name followed by its payload, options as null or the value. Conversely any encoded document deserialised into a self-describing value equals what direct reading gives, and documents built with the encoder deserialise into the matching types.",
  ["inputs"], "all supported Rust values and all documents",
  "Tests only feed the deserialiser with the serialiser's own output and never look at the document in between.",
  [SER, DE],
  [("Serializer mapping", SER), ("deserialize_any", DE)],
  ["fleece::to_bytes + Value accessors", "Encoder + fleece::from_bytes"])

p("C21", "Value conversions are total and numerically faithful",
  "Every conversion of every value returns without panicking: a number converts to any numeric type that can represent it without change and to the nearest float, booleans act as 0 and 1, strings and binary give their bytes, and a value that has no such interpretation gives zero, empty or nothing. As a boolean, false and zero are false and other kinds of value, and whole numbers other than zero, are true.",
  ["inputs"], "all values of all kinds in all encodings times all conversions",
  "Tests call two or three conversions on small positive integers and strings.",
  [VAL],
  [("Value::to_bool / to_short / to_unsigned_short / to_int / to_unsigned_int / to_double / to_float / to_data / to_str / as_array / as_dict", VAL)],
  ["Value::to_*", "Value::as_*"])

p("C22", "All ways of opening the same bytes agree",
  "For any valid document, the checked, unchecked, cloning, array-typed, dictionary-typed, scoped and finish-to-value entry points all give the same content; for any byte string the checked entry points all accept or all refuse, apart from the kind of root each asks for. Opening does not modify the bytes, and a document stays valid at any memory address.",
  ["inputs"], "all byte strings and all entry points, at any buffer alignment",
  "Each test uses one entry point on known good data.",
  [VAL, ARR, DIC, ALL, SCO, ENC],
  [("Value::from_bytes / from_bytes_unchecked / clone_from_bytes*", VAL), ("Array::from_bytes, Dict::from_bytes", ARR), ("Encoder::finish_value / finish_scoped", ENC)],
  ["entry points"])

p("C23", "Encoding after existing bytes is safe",
  "An encoder started on a buffer that already holds any bytes, of any length, keeps them unchanged at the front of its output and appends a document that decodes from the whole buffer to exactly what was written. The document means the same as if it had been encoded into an empty buffer.",
  ["inputs"], "all prefixes (any length and content) times all documents",
  "No test starts an encoder on a non-empty buffer.",
  [ENC],
  [("Encoder::new_to_vec, offsets relative to the output", ENC)],
  ["Encoder::new_to_vec", "Encoder::finish"])

p("C24", "The document macro builds the literal it spells",
  "Every array or dictionary literal accepted by the document macro, with any nesting of dictionaries and arrays inside one another and any scalar expressions, compiles and produces an owned collection equal to the same document built by explicit encoder calls. (With nothing in it, the literal is the empty dictionary.)",
  ["programs"], "all macro literals over nested arrays, dictionaries and scalar expressions",
  "Tests contain three literals, none with an array nested directly in an array.",
  [LIB],
  [("fleece! macro rules", LIB)],
  ["fleece!"])

p("C25", "Announced sizes equal written sizes",
  "For every encodable value, the size it announces is exactly the number of bytes it writes and reports, it writes nothing beyond them, and given a buffer shorter than that it reports failure instead of writing partially valid data or panicking. A value offered in compact two-byte form decodes to the same value as its full form.",
  ["inputs"], "all encodable values of every type times buffer lengths around the announced size",
  "The trait is only exercised through the encoder with always-sufficient buffers.",
  [EBL, VAR, SIZ],
  [("Encodable::fleece_size / write_fleece_to / to_sized_value", EBL), ("varint::size_required / write", VAR)],
  ["Encodable methods"])

p("C26", "Array indexing, length and iteration agree",
  "In any encoded array, the reported length equals the number of iterated elements, the element at each index below it is the element iteration yields at that position, and every index at or beyond the length gives nothing. Iterator size hints are exact at every step for encoded and mutable collections (dictionaries whose keys can all be resolved), and an exhausted iterator stays exhausted.",
  ["inputs"], "all arrays in all layouts (empty, narrow, wide, 2047 and more elements) times all indices",
  "Tests index inside the bounds of two arrays and iterate others; the index equal to the length and partial iteration are never tried.",
  [ARR, MAR, MDI],
  [("Array::get / len / first_pos / Iter", ARR), ("mutable iterators", MAR)],
  ["Array::get", "Array::iter", "Iter::size_hint"])

p("C27", "Encoding is deterministic and insertion-order independent",
  "The same sequence of encoder calls always produces the same bytes. Writing the entries of dictionaries in a different order yields a document with the same content in which every dictionary iterates its pairs in the same order: shared keys first by number, then strings in ascending byte order.",
  ["inputs", "histories"], "all documents times all permutations of dictionary entries",
  "No test encodes the same content twice in different orders.",
  [ENC, STK],
  [("sort in end_dict, Encoder::dict_key_cmp", ENC)],
  ["Encoder::finish", "Dict::iter"])

p("C28", "Shared-key tables survive being saved and restored",
  "Saving any shared-key table and restoring it, from bytes or from a decoded value, gives a table with the same keys under the same integers, and documents encoded with the original read correctly with the restored one, which takes further keys just as the original does. Restoring from anything other than an array of eligible keys returns nothing, and no input makes it panic.",
  ["inputs", "histories"], "all tables (any eligible keys, empty through full) and all byte strings offered as saved state",
  "No test saves or restores a table.",
  [SK],
  [("SharedKeys::get_state_bytes / write_state / from_state_bytes / from_state_value", SK)],
  ["SharedKeys state functions"])

p("C29", "Nothing allocated is kept",
  "Once everything the caller holds is dropped, the library holds no memory for it: repeating any history of encoding, opening, reading, copying, converting, editing, serialising, registering and removing scopes, also one with refused calls, rejected bytes or failed deserialisation, does not make the process grow.",
  ["inputs", "histories"], "all histories of calls of the whole interface, including refused ones",
  "No test looks at memory; a forgotten buffer, a registry entry which outlives its scope or a cycle of owners changes no value that is read.",
  [ALL, SCO, MUT, SK],
  [("ownership of the buffer by AllocedValue / AllocedArray / AllocedDict", ALL), ("Scope::new / drop / remove and the global map", SCO), ("ValueSlot: boxed values and nested collections", MUT), ("SharedKeys: owned keys", SK)],
  ["all"])

p("C30", "Work stays in proportion to the document",
  "Encoding, validating, opening, reading through, copying, converting to mutable, cloning, printing and (de)serialising a document take work in proportion to its size (times a logarithm where keys are sorted or looked up), whatever its shape, nesting, order of keys and use of shared keys. Reaching one element takes no such work: array access by index, lengths, opening trusted bytes, owned handles, shared-key lookup and changes at the end of a mutable array take bounded work, dictionary lookup, mutable dictionary operations and finding, creating and removing a scope at most logarithmic work, and encoding after existing bytes does not depend on how many there are.",
  ["inputs"], "all shapes of documents made by the encoder and all sizes, of which five are compared per case",
  "Tests use documents of one size and look at values only.",
  [ENC, STK, VAL, ARR, DIC, SK, SCO, MUT, MAR, MDI, SER, DE],
  [("binary search in Dict", DIC), ("Array::get by offset", ARR), ("validation visits each value once", VAL), ("collection stack and pointer fixing", ENC), ("hash map of SharedKeys", SK), ("range map of scopes", SCO), ("BTreeMap of MutableDict", MDI)],
  ["all"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
