#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

PBF = ["src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"]

prop("C01", "PBF reading yields exactly the stored objects, in file order",
 "For every valid OSM PBF stream, each of the PBF readers delivers every node, way and relation stored in it exactly once, in file order, with its exact id, tags (order and text), way node references and relation members (type, id, role, order). Nothing is dropped, duplicated, reordered or mixed up between objects, groups or blocks, whatever the number, kind and arrangement of objects, groups and blocks.",
 ["inputs", "configurations"],
 "all valid PBF streams: any arrangement of blocks, groups (dense nodes, plain nodes, ways, relations), objects per group, tags/refs/members per object, id deltas of any sign and size, any text",
 "No existing test reads a PBF byte: the decoders are untested, and they carry state across objects (delta accumulators, the shared key/value cursor), groups (string table) and blocks (object buffer).",
 PBF, [("delta decoding and keys_vals cursor", "decode_dense_nodes"), ("decode_ways / decode_relations", "src/{stringpbf,arcpbf}/mod.rs"), ("block buffer", "PBFReader::next")],
 ["OSMReader::next/objects of stringpbf::PBFReader and arcpbf::PBFReader"],
 [("buffer/_buffer", "decoded but undelivered objects of the current block", "PBFReader"), ("last_id, last_raw_*, keys_vals_index", "delta state inside one dense group", "decode_dense_nodes")])

prop("C02", "PBF coordinates are exact under any granularity and offset",
 "For every node in a valid PBF stream, the latitude and longitude reported by every PBF reader equal (offset + granularity x stored value) nanodegrees, to within one unit of 100 nanodegrees, and exactly whenever that position is a multiple of 100 nanodegrees. This holds for every legal granularity and offset of the block and any sequence of stored deltas.",
 ["inputs", "configurations"],
 "all legal (granularity, lat_offset, lon_offset) and all in-range coordinate sequences",
 "No test decodes a PBF coordinate; the value depends on per-block parameters and on every earlier node of the group.",
 PBF, [("scale_factor / internal_*_offset arithmetic", "decode_dense_nodes, node_id_pos::decode_block_to_objs")],
 ["Node::lat_lon, PBFNodePositionReader::next"])

prop("C03", "PBF object metadata is exact, and absent metadata is reported absent",
 "For every object in a valid PBF stream, the reported version, changeset id, user id, user name and timestamp equal the stored ones, the timestamp being the stored count times the block's date granularity in whole seconds, and deleted is true exactly when the object is stored as not visible. Metadata that the file omits, wholly or in part, is reported as absent (and the object as visible), and never stops the file from being read.",
 ["inputs", "configurations"],
 "all legal values of every metadata field, delta sequences, date granularities, and every subset of omitted metadata",
 "Nothing tests PBF metadata; each field is delta coded in dense groups and optional in the format.",
 PBF[:2], [("denseinfo delta decoding", "decode_dense_nodes"), ("Info handling", "decode_ways, decode_relations"), ("date_granularity", "decode_primitive_group_to_objs")],
 ["OSMObjBase::{version,changeset_id,uid,user,timestamp,deleted}"])

prop("C04", "The packaging of a PBF file never changes what is read from it",
 "The same objects are read from a PBF file however it is legally packaged: block data stored raw or zlib-compressed at any level, extra index data, unknown block types, header contents, unknown extra fields, packed or unpacked integers, string table order and unused entries, and any split of the objects into groups and blocks, including empty ones. Data in a compression the library cannot read is never silently skipped.",
 ["configurations", "inputs"],
 "all combinations of legal packaging choices for the same dataset",
 "No test reads a PBF file, let alone two packagings of one dataset.",
 PBF, [("blob decoding", "blob_raw_data"), ("frame walking", "FileReader::get_next_osmdata_blob"), ("group dispatch", "decode_block_to_objs")],
 ["objects() of all PBF readers"])

prop("C05", "Type-filtered iteration agrees with full iteration in every usage history",
 "Iterating only nodes, only ways or only relations of a reader yields exactly the objects of that type that full iteration from the same position would yield, in the same order. Using, abandoning or exhausting a filtered iterator only consumes the objects up to the last one it returned: whatever iterator is used next continues from there and is not affected by earlier filters, and an exhausted reader stays exhausted.",
 ["histories", "inputs"],
 "all sequences of next/objects/nodes/ways/relations calls with any number of items taken, on any file layout, for every reader",
 "Tests only call objects() once on a fresh XML reader; the filter is reader state that outlives the iterator.",
 ["src/lib.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs"],
 [("object_filter", "stringpbf::PBFReader::{nodes,ways,relations}"), ("default filtered iterators", "OSMReader::{nodes,ways,relations}")],
 ["sequence of objects delivered across all calls on one reader"],
 [("object_filter", "types to decode", "stringpbf::PBFReader"), ("buffer", "decoded objects not yet delivered", "PBFReader")])

prop("C06", "The position-only PBF reader agrees with the full readers",
 "For every valid PBF stream, the position-only reader yields exactly one (id, latitude, longitude) per stored node, in file order, equal to what the full readers report for that node, and nothing for ways and relations. The two full readers report identical objects for the same stream.",
 ["inputs", "configurations"],
 "all valid PBF streams and packagings",
 "The three decoders are separate code with separate state; no test runs any of them.",
 PBF, [("separate decode loop", "node_id_pos::decode_block_to_objs"), ("duplicated decoders", "stringpbf vs arcpbf")],
 ["PBFNodePositionReader::next vs OSMReader::objects"])

prop("C07", "Truncated or failing PBF input is never mistaken for a complete file",
 "If a PBF stream is cut at any byte that is not the boundary between two file blocks, or its source fails with an I/O error at any byte, reading signals a failure instead of reporting a normal end. Everything delivered before that is exactly a leading part of the objects of the intact file, and contains all objects of every block that was wholly available.",
 ["fault_sequences", "crash_points", "inputs"],
 "every cut point and every failure point (and error kind) of every explored stream, for every PBF reader",
 "Tests never feed truncated or failing input; a download cut short is the typical case.",
 PBF, [("length prefix read", "FileReader::get_next_osmdata_blob"), ("read_exact of header and blob", "FileReader::get_next_osmdata_blob")],
 ["objects delivered, then end or failure"])

prop("C08", "How a source splits its bytes never changes what is read",
 "Every reader (PBF, XML, change file, changeset, compressed or not) delivers the same result for the same bytes however the underlying source splits them over read calls, including one byte at a time and with interrupted reads that the caller is expected to retry.",
 ["schedules", "fault_sequences", "inputs"],
 "every sequence of short reads and interruptions within the explored deviation bound, every two-part split, and every uniform chunk size, of every explored document",
 "Tests read from memory slices, where every read is full.",
 PBF + ["src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs"],
 [("read_u32/read_exact", "FileReader"), ("BufReader wrapping", "XMLReader::new, OSCReader::new, ChangesetReader::from_reader")],
 ["objects delivered by each reader under each read schedule"])

prop("C09", "OSM XML reading yields exactly the objects in the document",
 "For every valid OSM XML document, the XML reader delivers each node, way and relation exactly once, in document order, with exactly the id, version, changeset, user, user id, timestamp, visibility, position (if any), tags, way node references and relation members written in it, and then ends. Equivalent ways of writing the document (attribute order, quoting, character references, self-closing tags, whitespace, comments, other elements and attributes) make no difference, and optional parts that are absent are reported absent.",
 ["inputs", "configurations"],
 "all valid OSM XML documents and all equivalent spellings of the same document",
 "The only live test reading XML checks closed/area on four fixed documents.",
 ["src/xml/mod.rs"],
 [("event collection", "XMLReader::next"), ("attribute and child extraction", "node/way/relation_xml_elements_to_osm_obj, get_tags, get_nodes, get_members")],
 ["OSMReader::next/objects of XMLReader"])

prop("C10", "XML output is well formed and states exactly the objects written",
 "For every sequence of objects with XML-representable text, the document produced by the XML writer is well-formed XML in OSM format that, read by any conforming XML parser, states exactly the objects written: same order, id, visibility, metadata, position, tags, node references and members, with absent fields absent and all text (including markup characters, quotes, tabs and line breaks) preserved. Header attributes set on the writer appear on the root element with their exact values.",
 ["inputs", "histories"],
 "all sequences of objects of all types with any combination of present/absent fields and any XML-representable text",
 "One test writes a single node and compares one string; eight tests check fixed strings for the escaping of five characters.",
 ["src/xml/mod.rs"],
 [("escaping", "write_xml_escaped"), ("serialisation", "XMLWriter::write_obj, ensure_header")],
 ["bytes given to the underlying sink"])

prop("C11", "Objects survive a round trip through XML and through change files",
 "Objects written by the XML writer or by the change-file writer and read back by the matching reader compare equal to the originals, in the same order, with nothing added. This also holds for objects that came from another format (for example PBF), timestamps being equal as instants.",
 ["inputs", "configurations"],
 "all sequences of objects with XML-representable text, from any source format, through either format",
 "No test reads back what a writer wrote.",
 ["src/xml/mod.rs", "src/osc/mod.rs", "src/obj_types/string_types.rs"],
 [("writer/reader pair", "XMLWriter/XMLReader, OSCWriter/OSCReader"), ("coordinate text form", "Lat/Lon Display and FromStr")],
 ["objects read back"])

prop("C12", "Change files are read completely, and deletions are reported as deletions",
 "For every valid osmChange document, the change-file reader delivers every object of every create, modify and delete section exactly once, in document order, with exactly the contents written in it. An object in a delete section is reported as deleted, and an object elsewhere is deleted only if it is marked as not visible.",
 ["inputs", "configurations"],
 "all valid osmChange documents: any sequence of create/modify/delete sections with any objects, and all equivalent spellings",
 "No test reads an osmChange document.",
 ["src/osc/mod.rs", "src/xml/mod.rs"],
 [("event collection", "OSCReader::next"), ("shared object construction", "xml_elements_to_osm_obj")],
 ["OSMReader::next/objects of OSCReader"])

prop("C13", "Change-file output is well formed and states exactly the objects written",
 "For every sequence of objects with XML-representable text, the document produced by the change-file writer is well-formed osmChange XML that states exactly the objects written: same order, id, visibility, metadata, position, tags, node references and members, with absent fields absent and all text preserved.",
 ["inputs", "histories"],
 "all sequences of objects of all types with any combination of present/absent fields and any XML-representable text",
 "No test writes a change file.",
 ["src/osc/mod.rs", "src/xml/mod.rs"],
 [("serialisation", "OSCWriter::write_obj, ensure_header, close"), ("escaping", "write_xml_escaped")],
 ["bytes given to the underlying sink"])

prop("C14", "Writers obey their open/closed life cycle in every call history",
 "For every sequence of header, write, close and drop calls on a writer: it is open until closed and never reopens, calls that are not allowed in its state return the documented error and leave the output untouched, and the allowed ones take effect in order. Once it is closed, explicitly or by dropping it (also when a panic of its owner drops it), the sink holds exactly one complete, well-formed document with exactly the objects accepted, and nothing that happens later, such as closing again or dropping, changes it. Converting a writer back gives its own sink, with what was written.",
 ["histories"],
 "all call sequences on both writers up to the explored depth, ending in a drop",
 "The one writer test does write, close, drop once.",
 ["src/xml/mod.rs", "src/osc/mod.rs", "src/lib.rs"],
 [("State machine", "XMLWriter::{set_header,write_obj,close}, OSCWriter::{write_obj,close}"), ("Drop", "XMLWriter, OSCWriter"), ("from_iter", "OSMWriter::from_iter")],
 ["return values and bytes in the sink after each call"],
 [("_state", "Initial, WritingObjects or Closed", "XMLWriter, OSCWriter")])

prop("C15", "Sink failures are reported, never swallowed and never crash the program",
 "Whatever pattern of short writes and interruptions the sink shows, if every writer call succeeds the sink has received exactly the complete document. If the sink fails at any point, the writer call in progress returns an error, the bytes received are a leading part of the complete document, and neither that call nor dropping the writer afterwards panics.",
 ["fault_sequences", "crash_points"],
 "every position of a failure (and every kind), and every short-write/interruption schedule within the explored deviation bound, for both writers",
 "Tests only write to an in-memory vector that cannot fail.",
 ["src/xml/mod.rs", "src/osc/mod.rs"],
 [("error propagation", "write_obj, ensure_header, close"), ("Drop", "XMLWriter, OSCWriter")],
 ["return values, panics and bytes in a fault-injecting sink"])

prop("C16", "Objects behave as plain records under every editing history",
 "For objects of every kind and storage family, after any sequence of edits every accessor reports exactly what the last edit of that field set and nothing else changes: tags act as an insertion-ordered map (setting an existing key keeps its place, removing a key leaves the others in order), node and member lists are exactly the last ones given, and stripping metadata clears exactly user, user id and changeset. Type queries and typed views always match the object's kind, and two objects of one family are equal exactly when all their fields are equal.",
 ["histories", "inputs"],
 "all edit sequences up to the explored depth from empty and non-empty starting objects, for all three kinds in all three families and the wrapping enum",
 "No test edits an object.",
 ["src/obj_types/string_types.rs", "src/obj_types/arc_types.rs", "src/obj_types/rc_types.rs", "src/lib.rs"],
 [("setters/getters", "impl OSMObjBase for {String,Arc,Rc}{Node,Way,Relation,OSMObj}"), ("default methods", "OSMObjBase, Node, Way, Relation, OSMObj traits")],
 ["all accessors after every step"],
 [("_tags", "ordered key/value list", "every object type")],
 "constructor for the Rc family, which no public API can create (cfg osmio_verif)")

prop("C17", "Converting shared objects to owned ones preserves everything",
 "Converting a reference-counted node, way, relation or object into the owned string family yields an object that reports exactly the same id, metadata, deletion flag, position, tags (order and text), node references and members.",
 ["inputs"],
 "all objects of all kinds with any combination of present/absent fields, from both shared families",
 "No test converts an object.",
 ["src/obj_types/mod.rs"],
 [("From impls", "src/obj_types/mod.rs")],
 ["all accessors before and after conversion"], None,
 "constructor for the Rc family (cfg osmio_verif)")

prop("C18", "Closed-way and area detection follow the documented rule",
 "A way is reported closed exactly when it has nodes and its first and last node ids are equal, and as an area exactly when it is closed and its area tag is not 'no', whatever its nodes, tags, storage family and origin.",
 ["inputs"],
 "all ways: any node list and any tags",
 "Four fixed documents are tested, with three or four nodes each.",
 ["src/lib.rs"], [("default methods", "Way::is_closed, Way::is_area")], ["Way::is_closed, Way::is_area"])

prop("C19", "The tag JSON of an object is valid JSON stating exactly its tags",
 "For every object, the JSON text produced for its tags parses as one JSON object whose members are exactly the object's tags, for any tag text, and is the empty object for untagged objects.",
 ["inputs"], "all tag lists with any Unicode text",
 "No test produces tag JSON.",
 ["src/lib.rs"], [("tags_json_string", "OSMObjBase::tags_json_string")], ["OSMObjBase::tags_json_string"])

prop("C20", "Coordinates convert exactly and invalid coordinates are refused",
 "Every coordinate value survives conversion to degrees and back, and to text and back, unchanged. Converting degrees or text to a coordinate gives the nearest multiple of 100 nanodegrees, and a value that is not a number or does not fit is refused with an error, never replaced by another position.",
 ["inputs"],
 "all 2^32 internal values; all decimal texts and floating point inputs of the explored families including out-of-range, infinite and NaN",
 "Doc tests check five values.",
 ["src/lib.rs"], [("lat_lon_impl", "Lat, Lon: degrees, Display, FromStr, TryFrom"), ("set_lat_lon", "Node::set_lat_lon")],
 ["Lat/Lon public API, Node::set_lat_lon"])

prop("C21", "Timestamps convert exactly and compare chronologically",
 "For every instant from year 0 to 9999 in whole seconds, the epoch and ISO forms of a timestamp convert into each other without loss, also before 1970 and after 2038. Comparing any two valid timestamps, in whatever forms and with whatever UTC offsets they are held, orders them chronologically, and they are equal exactly when they denote the same second.",
 ["inputs"],
 "all pairs of valid timestamps in all representations, over the whole calendar range",
 "Ten fixed comparisons between 1970 and 2020 are tested.",
 ["src/lib.rs", "src/utils.rs"], [("TimestampFormat", "to_iso_string, to_epoch_number, FromStr, PartialOrd, PartialEq"), ("epoch_to_iso, iso_to_epoch", "src/utils.rs")],
 ["TimestampFormat public API, utils::{epoch_to_iso, iso_to_epoch}"])

prop("C22", "Changeset dumps are read completely and exactly",
 "For every valid changeset dump, the changeset reader delivers each changeset exactly once, in document order, with exactly its id, creation and closing time, open flag, user, user id, counts and tags, whether or not it has tags or discussions, however the document is spelled, and then ends. A changeset with a missing or invalid required attribute is reported as an error and never with a value taken from another changeset.",
 ["inputs", "configurations"],
 "all valid changeset dumps and equivalent spellings, and every single missing or malformed attribute",
 "Only a compile-time doc test exists.",
 ["src/changesets.rs"], [("next_changeset", "ChangesetReader")], ["ChangesetReader iteration"])

prop("C23", "The changeset tag reader reports every tagged changeset's own tags",
 "For every valid changeset dump, the tag reader delivers (id, tags) for every changeset that has tags, in document order, with exactly that changeset's tags in order, agreeing with the full changeset reader. Tags and ids are never carried over from another changeset, even if one lacks an id or is malformed.",
 ["inputs", "histories"],
 "all valid changeset dumps and equivalent spellings, and dumps with one malformed changeset",
 "Only a compile-time doc test of the other reader exists; this reader keeps the current id and tags in the reader.",
 ["src/changesets.rs"], [("next_tag", "ChangesetTagReader")], ["ChangesetTagReader iteration"],
 [("curr_id, tags", "changeset being collected", "ChangesetTagReader")])

prop("C24", "Truncated XML input ends in a reported failure, promptly",
 "If an OSM XML, osmChange or changeset document is cut or its source fails at any byte before the end of its root element, the reader signals a failure in finite time, without hanging or reporting an object that the intact document does not contain; no incomplete object is delivered. Everything delivered before is a leading part of what the intact document yields, and every object that was wholly available has been delivered.",
 ["crash_points", "fault_sequences", "inputs"],
 "every cut point and every failure point of every explored document, for every XML-based reader",
 "Tests never feed truncated input.",
 ["src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs"],
 [("event loops", "XMLReader::next, OSCReader::next, next_changeset, next_tag")],
 ["items delivered, then end, error, panic or hang"])

prop("C25", "Opening a file gives exactly the contents of its uncompressed stream",
 "Opening a PBF, OSM XML or changeset file by name, or a bzip2-compressed stream, gives exactly the objects of the uncompressed content, also when the compressed data consists of several concatenated streams split anywhere. A missing file is reported as an error, and truncated compressed data is never reported as a normal end.",
 ["inputs", "crash_points", "configurations"],
 "all explored documents, every split into concatenated bzip2 streams, and every cut of the compressed file",
 "No test opens a file.",
 ["src/lib.rs", "src/xml/mod.rs", "src/changesets.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"],
 [("openers", "read_pbf, read_xml, from_filename*, from_bz2_reader")], ["objects delivered"])

prop("C26", "The command-line tools report exactly what the files contain",
 "The changeset-tags tool creates a database holding exactly one row per tagged changeset with its id and its tags as a JSON array, and refuses to touch an existing database; if it fails it leaves no partial rows committed. The statistics it prints state how many tagged changesets and different keys there are and how many changesets have each of the keys it lists. The debug and read-speed tools report every object of their input.",
 ["inputs", "fault_sequences"],
 "all explored dumps, including duplicated ids and truncated files, and all explored change and PBF files",
 "No test runs a binary.",
 ["src/bin/osmio-changeset-tags-to-sqlite.rs", "src/bin/osmio-osc-debug.rs", "src/bin/osmio-pbf-read-speed.rs"],
 [("single transaction", "main of osmio-changeset-tags-to-sqlite"), ("exists check", "main of osmio-changeset-tags-to-sqlite")],
 ["database contents, exit status, output"])

prop("C27", "Names and serialised forms of basic values restore the same value",
 "Object types convert to their short and long names and back without loss and reject every other text, and coordinates, timestamps and object types are restored unchanged from their serialised form.",
 ["inputs"], "all object types, all short texts, and all boundary coordinate and timestamp values",
 "Two tests check the valid names and one invalid name; nothing tests serialisation.",
 ["src/lib.rs"], [("OSMObjectType", "name_short, name_long, TryFrom<char>, FromStr, Display, Debug"), ("serde derives", "Lat, Lon, TimestampFormat, OSMObjectType")],
 ["public API of OSMObjectType, serde"])

prop("C28", "Damaged compressed data is reported, never delivered as contents",
 "When the compressed data of a file no longer matches the checksum stored with it (a PBF blob compressed with zlib, a changeset dump compressed with bzip2), reading the damaged part signals a failure. A reader never delivers contents taken from it, and everything before it is delivered unchanged.",
 ["inputs", "crash_points"],
 "every damage of the compressed data by changed, exchanged, inserted or missing bytes, at every place, which the stored checksum reveals",
 "No test reads a compressed blob or dump, let alone a damaged one; whether damage is noticed depends on the place and kind of the damage, and decoded data is longer than any one read.",
 ["src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/changesets.rs"],
 [("inflating blobs", "blob_raw_data"), ("bzip2 decoding", "ChangesetReader::from_filename, ChangesetTagReader::from_filename")],
 ["errors and objects of the PBF readers, ChangesetReader and ChangesetTagReader"])

prop("C29", "Text that XML cannot represent is refused, never written",
 "When a text of an object (user name, tag key or value, member role) or a header value has a character which XML cannot represent, the XML and change file writers return an error, write nothing of that object and stay usable: after closing, the output is a well-formed document stating exactly the accepted objects. Text of only representable characters is never refused. Likewise a header name which is no XML attribute name is refused, and every plain XML name is accepted.",
 ["inputs", "histories"],
 "all texts in all text fields of all object types, and all sequences of accepted and refused objects",
 "No test writes any such character; the output was silently unreadable by every XML parser.",
 ["src/xml/mod.rs", "src/osc/mod.rs"],
 [("representability check", "ensure_xml_text, ensure_xml_obj"), ("serialisation", "XMLWriter::write_obj, OSCWriter::write_obj, XMLWriter::set_header")],
 ["results of OSMWriter::{write_obj,set_header} and the bytes given to the underlying sink"])

prop("C30", "Readers and writers do not influence each other",
 "What one reader or writer does is independent of every other one: in any interleaving of the operations of any number of them, each gives exactly the results it gives alone, also when another one has ended, failed or been dropped. Delivered objects keep their contents after their reader has moved on, ended or been dropped.",
 ["schedules", "histories"],
 "all interleavings of operations of several readers and writers of any kind over any inputs, including failing ones; all points at which delivered objects are looked at again",
 "Tests run one reader or writer at a time and look at objects at once; shared caches, buffers or string tables show only when two are in use or an object outlives its block.",
 PBF + ["src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs", "src/obj_types.rs"],
 [("state of each reader: buffers, string table, parser", "PBFReader, XMLReader, OSCReader, ChangesetReader, ChangesetTagReader"), ("strings shared between objects", "src/arcpbf/mod.rs, ArcOSMObj"), ("state of each writer", "XMLWriter, OSCWriter")],
 ["next() of every reader", "write_obj/close and the sink of every writer", "the objects delivered"])

prop("C31", "Malformed XML is reported, never read as a complete document",
 "When an OSM XML or change document is not well-formed up to the end of its root element, reading it signals a failure, after delivering exactly the objects that were complete before the damage; likewise a changeset dump whose tags do not match. An object (node, way, relation, changeset) without a valid id is reported, never taken for the end of the document and never silently left out.",
 ["inputs"],
 "all documents and all damages: every byte inserted, replaced or removed and every tag removed, doubled, renamed or exchanged, at every place; every object of every document without a valid id",
 "Tests read well-formed documents only; whether damage is noticed depends on the element, the place and the parser state, and unnoticed damage looks like a shorter file.",
 ["src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs"],
 [("parsing and end of document", "XMLReader::next, OSCReader::next"), ("parsing changesets", "ChangesetReader::next, ChangesetTagReader::next"), ("required attributes", "get_id / attributes of node, way, relation, changeset")],
 ["objects and failures of XMLReader, OSCReader, ChangesetReader, ChangesetTagReader"])

prop("C32", "Contradictory PBF data is reported, never patched up",
 "When a PBF block contradicts itself (keys and values, or ids, roles and types of members, differ in number; dense ids, positions or tags differ in number; a string reference outside the string table; text that is not UTF-8; an unknown member type; a missing required field; a position which does not fit), reading signals a failure. No object made of the contradictory data is delivered, and the objects delivered before it are intact and are a leading part of the file's, including all of earlier blocks.",
 ["inputs"],
 "all blocks with such a contradiction, at every object and place, for every reader that has to decode the data in question",
 "No test reads a PBF byte. Zipping lists of unequal length or skipping what cannot be decoded gives plausible objects with tags, members or nodes missing.",
 PBF, [("decoding of tags, members, refs", "decode_ways, decode_relations, decode_nodes"), ("dense nodes", "decode_dense_nodes, src/stringpbf/node_id_pos.rs"), ("string table", "src/arcpbf/mod.rs")],
 ["objects and failures of stringpbf::PBFReader, arcpbf::PBFReader, PBFNodePositionReader"])

prop("C33", "Readers hand their source back where they stopped",
 "A reader hands its source back (inner, into_inner, get_ref): it is the same source, with everything consumed that the delivered objects were taken from. For the PBF readers, it is exactly behind the last block they have taken in, so that a new reader goes on with exactly the objects of the following blocks.",
 ["histories", "inputs"],
 "all numbers of objects read before, with and without filters, for every reader and any file",
 "No test calls these functions after reading; reading ahead by even a byte makes the continuation unreadable or drops objects.",
 PBF + ["src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs", "src/lib.rs"],
 [("blob framing", "PBFReader::next and the blob reading it uses"), ("into_inner, inner, get_ref", "all readers")],
 ["PBFReader::{inner,into_inner}, OSMObjectIterator::{inner,into_inner}, XMLReader/OSCReader/ChangesetReader::{into_inner,get_ref}"])

prop("C34", "Readers deliver what has arrived, with bounded look-ahead",
 "A reader delivers an object as soon as its source has handed out the bytes of it: a PBF reader at the latest with the end of the block which holds the object, the XML-based readers at the latest with the end of the following object (or compressed stream), however slowly the source delivers. So objects can be taken from a pipe while it is being written, and a source of any length, even an endless one, is read with a bounded amount taken in ahead.",
 ["inputs", "schedules"],
 "every object of every explored file and document, for every reader, with and without filters, for all explored sizes of the source's reads",
 "Tests read complete files from memory; a reader that first takes in everything, or waits for a later block or object, gives the same objects in every test.",
 PBF + ["src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs"],
 [("block by block", "PBFReader::next, PBFNodePositionReader::next"), ("event loops", "XMLReader::next, OSCReader::next, next_changeset, next_tag")],
 ["how much the source has handed out when each item is delivered"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
