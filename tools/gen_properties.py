#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and statements stay in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or ["public API"], hook_needed=None)))
T = "tests/read.rs reads five tiny fixed files (at most 3 blobs and 5 elements each)"

p("C01", "Sequential blob iteration delivers every stored blob once, in order",
  "For every well-formed PBF byte stream, sequential blob iteration yields exactly the stored blobs in file order, each with its stored type string and payload, and then ends without an error. This does not depend on how the underlying reader splits its data into reads, nor on which constructor (plain reader, seekable reader, path) is used. Every blob reports its exact byte offset when the stream position is known (path or seekable construction) and none otherwise.",
  ["inputs"], "all well-formed blob sequences (blob count, type strings, header and payload sizes, index data, unknown header fields) x all read fragmentations x all constructors",
  T + " through one unfragmented BufReader and never checks an offset's value beyond the first.",
  ["src/blob.rs"], [("BlobReader::next / read_blob_header", "src/blob.rs"), ("offset bookkeeping", "src/blob.rs")],
  [("offset", "current byte offset of the stream, if known", "BlobReader"), ("last_blob_ok", "iteration stops after an error", "BlobReader")])
p("C02", "Blob payloads decode identically for every compression and zlib backend",
  "A blob whose payload is stored raw or zlib-compressed (any compression level, stored/fixed/dynamic blocks, with or without a declared raw size) decodes to exactly the block that was encoded. Decoding the same blob repeatedly gives equal results and never changes the blob. The result is the same with each of the build features rust-zlib, zlib and zlib-ng. Damaged zlib data is reported as an error or, where the damage does not touch the content, decodes to exactly the stored block: never to anything else. Zlib data that is cut off or fails its checksum is always an error.",
  ["inputs", "configurations"], "all blocks up to the 32 MiB limit x compression settings x the three zlib build features",
  "Tests decode five fixed blobs of a few hundred bytes and run with the default zlib feature only.",
  ["src/blob.rs", "Cargo.toml"], [("decode_blob", "src/blob.rs"), ("zlib feature selection", "Cargo.toml, src/lib.rs")])
p("C03", "Header block fields are reported exactly as stored",
  "For every well-formed header block, the reported required features, optional features, writing program, source, replication timestamp, replication sequence number and replication URL equal the stored values in stored order, and fields that are not stored are reported as absent (also distinguishing absent from empty or zero). The bounding box, when present, is reported in degrees as exactly the stored nanodegree values times 1e-9 (up to floating point rounding), each edge in its own field.",
  ["inputs"], "all header blocks: any subset of fields, any number of features, any UTF-8 strings, any 64-bit numbers",
  "Tests only compare the feature lists of five files; bbox, program, source and replication fields are never read.",
  ["src/block.rs"], [("HeaderBlock accessors", "src/block.rs")])
p("C04", "Node ids and coordinates are exact for plain and dense nodes",
  "For every well-formed block, each plain or dense node reports its stored id, and nanodegree coordinates equal to offset + granularity * value computed exactly with the block's own granularity and latitude/longitude offsets (100, 0, 0 when absent). The degree and decimicrodegree accessors agree with the nanodegree value (degrees = nano * 1e-9 up to floating point rounding, decimicro = nano / 100 truncated toward zero). Delta coding of dense nodes is resolved independently per group.",
  ["inputs"], "all blocks with any number of groups and nodes, ids in the 63-bit range, any granularity/offset, any coordinates whose nanodegree value fits i64",
  T + ", all with default granularity, zero offsets and small positive ids.",
  ["src/dense.rs", "src/elements.rs"], [("DenseNodeIter::next delta decoding", "src/dense.rs"), ("nano_lat/nano_lon", "src/dense.rs, src/elements.rs")])
p("C05", "Tags of every element are exact",
  "For every well-formed block, each plain node, dense node, way and relation yields exactly its own stored (key, value) pairs in stored order, resolved through the string table of its own block, and its raw tag indices are exactly the stored index pairs. No tag is lost, duplicated or attributed to a neighbouring element, whatever mix of tagged and untagged elements a group contains (including dense groups that store no tag data at all). The raw string table is exposed byte for byte as stored.",
  ["inputs"], "all blocks: any string table size and content (incl. multi-byte, empty, duplicate strings), any distribution of tags over elements and groups",
  "Tests check two way tags and one relation tag; node and dense node tags and raw tags are never checked.",
  ["src/dense.rs", "src/elements.rs", "src/block.rs"], [("dense keys_vals splitting", "src/dense.rs DenseNodeIter::next"), ("TagIter, DenseTagIter, RawTagIter", "src/elements.rs, src/dense.rs"), ("str_from_stringtable", "src/block.rs")])
p("C06", "Element metadata is exact, including history visibility",
  "For every well-formed block, version, changeset, user id, user name, millisecond timestamp (stored value times the block's date granularity, 1000 when absent) and visibility of every node, dense node, way and relation equal the stored values. Metadata an element does not store is reported as absent and an absent visible flag means visible; a deleted element is exactly one that is not visible. For dense nodes the metadata stays aligned with its node, and dense groups without metadata report none.",
  ["inputs"], "all blocks: any subset of optional metadata per plain element, complete dense metadata with or without visible flags, any values",
  "Tests look at one constant uid and the visible flag of two nodes; versions, timestamps, changesets and user names are never checked.",
  ["src/dense.rs", "src/elements.rs"], [("DenseNodeInfoIter", "src/dense.rs"), ("Info accessors", "src/elements.rs")])
p("C07", "Way node references and way node locations are exact",
  "For every well-formed way, the reported id and node references equal the stored ones in order (any length, repeated and negative ids included), and the raw references are the stored deltas. The node locations equal the stored locations in order, converted with the block's granularity and offsets in every unit, and are empty for ways stored without locations.",
  ["inputs"], "all ways: 0..10^5 references, any ids in the 63-bit range, with and without locations, any granularity/offset",
  "Tests check one way with four references in default granularity.",
  ["src/elements.rs"], [("WayRefIter, WayNodeLocationsIter", "src/elements.rs")])
p("C08", "Relation members are exact",
  "For every well-formed relation, the reported id and members equal the stored ones in order: each member's type, id, role index and role string are the ones stored at the same position, for any number of members and any id pattern.",
  ["inputs"], "all relations: 0..10^5 members, any ids in the 63-bit range, all member types, any roles",
  "Tests check the role of a single member.",
  ["src/elements.rs"], [("RelMemberIter::next", "src/elements.rs")])
p("C09", "All ways of traversing a block yield the same elements exactly once",
  "For every decoded block, the element iterator, the per-element callback and the per-group iterators each yield every stored element exactly once, with the right kind and content, and groups are visited in stored order. Where each group holds one kind of element (as the format requires) all three traversals yield the identical sequence, in stored order. Empty groups and change set groups contribute nothing and do not end the traversal.",
  ["inputs"], "all blocks: any number, order and mix of groups, including empty groups, change set groups and several dense groups",
  "Tests only traverse blocks of three groups and compare counts; the element iterator is not compared with the callback or the group iterators.",
  ["src/block.rs"], [("BlockElementsIter state machine", "src/block.rs"), ("for_each_element", "src/block.rs"), ("GroupIter and group element iterators", "src/block.rs")],
  [("state", "which list of the current group is being iterated", "BlockElementsIter")])
p("C10", "Equivalent encodings of the same map data read the same",
  "Re-encoding the same map data in any other legal way does not change what is read: plain or dense nodes, raw or compressed payloads, a different split into groups and blobs, another granularity or offset or string table order, packed or unpacked lists, another field order, additional unknown fields, explicitly stored default values, or unknown blobs in between. Ids, exact coordinates, tags, metadata, references and members seen by the user are equal, in the same order.",
  ["inputs", "configurations"], "pairs of legal encodings of the same randomly generated logical map data",
  "Three of the test files hold the same five elements in different encodings, but tests compare them only against a few constants.",
  ["src/block.rs", "src/dense.rs", "src/elements.rs", "src/blob.rs"], [("dense and plain decoding paths", "src/dense.rs, src/elements.rs"), ("proto schema", "src/proto/*.proto")])
p("C11", "Sequential reading calls back exactly once per element in file order",
  "For every well-formed file, sequential reading calls the closure exactly once for every element of every data blob, in file order and with exact content, and returns success. Header blobs and blobs of unknown type are skipped wherever they occur, and the result does not depend on whether the reader was made from a path or from an arbitrary (fragmenting) reader.",
  ["inputs"], "all well-formed files: any number and order of header, data and unknown blobs, empty data blobs, empty files",
  "Tests count the elements of three files with exactly one header and one data blob.",
  ["src/reader.rs"], [("ElementReader::for_each", "src/reader.rs")])
p("C12", "Parallel map-reduce equals the sequential fold under every schedule",
  "For every well-formed file, every number of worker threads and every schedule, the parallel map-reduce applies the map closure exactly once to every element (with exact content) and, for an associative and commutative reduction with identity, returns exactly the sequential result. Every mapped value is consumed by the reduction exactly once or returned; none is lost or duplicated. Files without elements yield the identity.",
  ["schedules", "inputs"], "thread counts 1..16 x injected delays in reader, map and reduce x files of 0..1000 blobs",
  "par_read_elements counts five elements of one data blob on whatever schedule happens; lost or duplicated work across blobs cannot show.",
  ["src/reader.rs"], [("ElementReader::par_map_reduce (par_bridge, fold, reduce)", "src/reader.rs")])
p("C13", "A damaged blob makes sequential and parallel reading fail",
  "If any header or data blob of a file cannot be framed, decompressed or parsed, both sequential reading and the parallel map-reduce return an error, under every schedule and wherever in the file the damage is; neither ever returns success with partial data. Sequential reading has then delivered exactly the elements of the blobs before the first damaged one, and returns that blob's error; the parallel error is that of some damaged blob.",
  ["schedules", "inputs", "fault_sequences"], "positions and kinds of damage (1..n damaged blobs) x thread counts x schedules",
  "No test reads a damaged file with either method.",
  ["src/reader.rs", "src/blob.rs"], [("error propagation in for_each and par_map_reduce", "src/reader.rs")])
p("C14", "Indexed node iteration is complete and repeatable",
  "For every well-formed file, iterating nodes through the index delivers every plain and dense node of the file exactly once, in file order, with exact content, and nothing else. This holds on every call, whatever sequence of index creation, node iterations and way searches was made before on the same reader, and wherever the given reader was positioned initially.",
  ["histories", "inputs"], "call sequences over {create index, iterate nodes, search ways with varying filters} x well-formed files",
  "Only the documentation example calls node iteration, once, on one file with three nodes.",
  ["src/indexed.rs"], [("create_index, for_each_node, update_element_id_ranges", "src/indexed.rs")],
  [("index", "offset, type and id ranges of every blob", "IndexedReader"), ("id_ranges", "cached min/max ids, drives skipping of blobs", "BlobInfo")])
p("C15", "Way search returns exactly the matching ways and the nodes they reference",
  "For every well-formed file and filter, the indexed way search evaluates the filter exactly once per way, in file order, delivers exactly the ways the filter accepted, in file order, and then exactly those nodes of the file whose id is referenced by an accepted way, each stored node once and in file order, all with exact content. Relations are never delivered. This holds on every call regardless of earlier calls with other filters on the same reader.",
  ["histories", "inputs"], "files with ways and nodes in any blob order (nodes before, after or mixed with ways; unsorted, negative, duplicate and missing ids) x filters x call histories",
  "One filter on files with one way and three nodes, one call per reader.",
  ["src/indexed.rs"], [("read_ways_and_deps two-pass search", "src/indexed.rs"), ("range_included / node_range_included blob skipping", "src/indexed.rs")],
  [("id_ranges", "cached min/max ids, drives skipping of blobs", "BlobInfo")])
p("C16", "An indexed reader never returns silently incomplete results after a failure",
  "After any operation of an indexed reader failed (an I/O error of the underlying source at any point, or damage in the file), every later operation on the same reader either fails again or returns the complete result. Once the source works again and the file is intact, repeating the operation succeeds with the complete result.",
  ["fault_sequences", "histories"], "I/O fault positions (every read/seek call) x kinds x operation sequences with retries",
  "No test injects a fault or reuses a reader after an error.",
  ["src/indexed.rs", "src/blob.rs"], [("create_index", "src/indexed.rs"), ("BlobReader::seek resets the error state", "src/blob.rs")],
  [("index", "must be complete or absent", "IndexedReader")])
p("C17", "Memory-mapped reading agrees with stream reading",
  "For every byte sequence stored in a file (intact, truncated or damaged), memory-mapped and stream iteration yield the same blobs with the same types, offsets and decoded content up to the first damaged one, which is an error in both, when iterating or when decoding it. Both then end the same way: cleanly after the last intact blob, or after exactly one iteration error. Repositioning the memory-mapped iterator to the offset of any blob resumes with exactly that blob, and a position at or after the end yields the end.",
  ["inputs", "histories"], "well-formed, truncated and corrupted files x seek histories",
  "Tests compare blob types of three intact files; seeking back once is only in a documentation example.",
  ["src/mmap_blob.rs", "src/blob.rs"], [("MmapBlobReader::next / seek", "src/mmap_blob.rs"), ("MmapBlob::decode", "src/mmap_blob.rs")],
  [("offset", "cursor into the map", "MmapBlobReader")])
p("C18", "Random access returns the blob stored at the requested offset",
  "For every well-formed seekable stream and every sequence of iterating, header skipping, seeking (absolute, relative, from end) and reading by offset, each step returns the blob or header that starts at the current position, reports that position as its offset, and leaves the cursor at the start of the following blob. Reading by an offset reported earlier always returns the identical blob; a position at or after the end of the stream yields the end of iteration, or an error when reading by offset.",
  ["histories", "inputs"], "operation sequences over {next, skip header, seek, relative seek, read at offset} x files",
  "Only documentation examples: one seek back to the first blob, comparing offsets only.",
  ["src/blob.rs"], [("seek, seek_raw, blob_from_offset, next_header_skip_blob", "src/blob.rs")],
  [("offset", "must always equal the real stream position", "BlobReader")])
p("C19", "Header-only iteration sees the same blobs without touching payloads",
  "For every well-formed seekable stream, header-only iteration yields exactly the types, payload sizes and byte offsets of the stored blobs, in order, and then ends; it may be freely mixed with full blob reads. It does not read the skipped payloads: payload bytes beyond the underlying reader's own buffering are never requested from the source.",
  ["inputs", "histories"], "all well-formed blob sequences x interleavings with full reads x fragmenting sources",
  "Header-only iteration is only exercised indirectly through the index on files with two blobs.",
  ["src/blob.rs"], [("next_header_skip_blob", "src/blob.rs")])
p("C20", "Truncated files are always reported",
  "If a well-formed file is cut at any position that is not a blob boundary, then after yielding exactly the complete blobs before the cut, stream and memory-mapped blob iteration report exactly one error; they never end as if the file were complete and never yield a shortened blob. Sequential and parallel element reading of such a file return an error, and so does indexed reading whenever the cut falls into a data blob's payload or into the size prefix or header of any blob. A cut at a blob boundary is a complete shorter file.",
  ["crash_points", "inputs"], "every cut position of generated files x all readers",
  "No test reads a truncated file.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/reader.rs", "src/indexed.rs"], [("size prefix, header and payload length checks", "src/blob.rs, src/mmap_blob.rs")])
p("C21", "I/O errors of the source are always reported and never corrupt data",
  "If the underlying reader fails with an I/O error at any read or seek (of any error kind, also one signalling an unexpected end), every reading method reports an error instead of success or a regular end, unless the failed call was retried because it was merely interrupted. Everything delivered before is an exact prefix of what is stored; no element or blob is altered, duplicated or invented.",
  ["fault_sequences", "inputs"], "every fault position x error kinds x reading methods x read fragmentation",
  "No test uses a failing reader.",
  ["src/blob.rs", "src/reader.rs", "src/indexed.rs"], [("error handling in read_blob_header and next", "src/blob.rs")])
p("C22", "Payload damage is confined to its blob and classified precisely",
  "Damage inside one blob's payload (corrupt or incomplete zlib stream, invalid message bytes, missing or unsupported compression) is reported as an error when that blob is decoded, and does not affect iteration nor the decoding of any other blob. The reported error tells what happened: a blob without supported data is reported as empty, an unparsable or undecompressable payload as a decoding error, and oversized content as too big with a size.",
  ["inputs", "fault_sequences"], "kinds and positions of payload damage x files",
  "Tests only check that decoding a header blob as data (and vice versa) is an error.",
  ["src/blob.rs", "src/error.rs"], [("decode_blob", "src/blob.rs"), ("ErrorKind / BlobError", "src/error.rs")])
p("C23", "No input makes the library panic or crash",
  "No byte sequence, read through any reader and examined through every public accessor and iterator, makes the library panic, abort, overflow its stack or crash, in builds with and without overflow checks. Damaged content only ever shows as errors, as absent values or as iterators that end early.",
  ["inputs"], "arbitrary and adversarially mutated byte sequences (framing, compression and message level) x all readers and accessors x call orders",
  "All test inputs are intact files.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/block.rs", "src/dense.rs", "src/elements.rs", "src/indexed.rs", "src/reader.rs"], [("error returns instead of panics everywhere", "src/*.rs"), ("bounds-checked string table access", "src/block.rs")])
p("C24", "Every read terminates: bounded work, at most one error, then the end",
  "For every input of n bytes, each iterator and reading method finishes after a number of items and source operations bounded by n; no input makes iteration, header skipping or index creation loop. After a blob iterator has reported an error it ends: further calls yield nothing until it is repositioned.",
  ["inputs"], "arbitrary and mutated byte sequences, including self-referencing, zero and negative sizes",
  "Tests never see an input that could loop, nor continue an iterator after an error.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/indexed.rs"], [("last_blob_ok stop flag", "src/blob.rs, src/mmap_blob.rs"), ("data size validation", "src/blob.rs")])
p("C25", "Size limits are enforced exactly and memory use stays bounded",
  "Blob headers of 64 KiB or more and blocks whose uncompressed size is 32 MiB or more are rejected with a too-big error, for raw and compressed payloads alike, while everything strictly smaller is accepted, whatever raw size the blob declares next to its compressed data. Sizes claimed by a file do not drive memory use: reading needs no more than a fixed amount plus memory in proportion to the real content, and decompressing a blob never inflates more than the limit, however large the compressed content claims or turns out to be.",
  ["inputs"], "header sizes and block sizes around the limits, raw and compressed; decompression bombs; false size claims",
  "All test files are below 400 bytes.",
  ["src/blob.rs", "src/mmap_blob.rs"], [("MAX_BLOB_HEADER_SIZE / MAX_BLOB_MESSAGE_SIZE checks", "src/blob.rs, src/mmap_blob.rs")])
p("C26", "Invalid string references are reported and never yield a wrong string",
  "If an element's user name or member role refers to a string that is not in the block's string table or is not valid UTF-8, asking for it returns an error that carries exactly the offending index (for an in-range index: the UTF-8 error position too); valid references in the same block are unaffected. Tag iteration never yields a tag with a wrong, empty-substituted or lossily converted string: it yields the valid tags stored before the first invalid one exactly and nothing invented.",
  ["inputs"], "string tables with invalid UTF-8 entries, out-of-range and negative indices at any position, for all element kinds",
  "All strings and indices in the test files are valid.",
  ["src/block.rs", "src/elements.rs", "src/dense.rs"], [("str_from_stringtable, get_stringtable_key_value", "src/block.rs")])
p("C27", "Iterators report exact lengths and clones continue independently",
  "For every well-formed block, each iterator that promises an exact length reports at every step exactly the number of items it still yields, and after its end it keeps reporting zero and yielding nothing. Cloning any iterator, element, block, blob or (cloneable) reader at any point gives an independent copy that yields exactly the same remaining items.",
  ["inputs", "histories"], "all iterator types x every intermediate position x clone points",
  "No test asks for a length or clones anything.",
  ["src/block.rs", "src/dense.rs", "src/elements.rs", "src/blob.rs", "src/mmap_blob.rs"], [("size_hint / ExactSizeIterator implementations", "src/block.rs, src/dense.rs, src/elements.rs"), ("derived Clone", "src/*.rs")])
p("C28", "Reading is free of memory errors, undefined behaviour and data races",
  "No input, reader and schedule leads to an out-of-bounds or use-after-free access, a read of uninitialised memory, other undefined behaviour, or a data race: in stream, memory-mapped, indexed and parallel reading, for intact and damaged files.",
  ["inputs", "schedules"], "intact and mutated files x all readers x thread counts, under AddressSanitizer, ThreadSanitizer, MemorySanitizer and Miri",
  "Tests run uninstrumented on intact files and never share data between threads of their own.",
  ["src/mmap_blob.rs", "src/reader.rs", "src/dense.rs"], [("unsafe memory map", "src/mmap_blob.rs"), ("sharing of blobs with rayon workers", "src/reader.rs")])
p("C29", "Blobs and blocks can be decoded and read by many threads at once",
  "Decoding one blob and traversing one block concurrently from any number of threads gives each thread exactly the same complete result as a single thread, under every schedule, for stream and memory-mapped blobs. Independent readers used in different threads do not influence each other.",
  ["schedules", "inputs"], "2..16 threads x start orders x shared blobs, blocks, memory maps and concurrent parallel reads",
  "No test shares a blob or block between threads.",
  ["src/blob.rs", "src/block.rs", "src/mmap_blob.rs"], [("&self decoding without shared mutable state", "src/blob.rs, src/block.rs")])
p("C30", "Byte offsets stay exact beyond 4 GiB",
  "In streams and memory maps larger than 4 GiB, every reported blob offset equals the real byte position, header-only iteration visits every blob, and reading by offset, seeking and indexed reading return exactly the blobs and elements stored there.",
  ["inputs"], "sparse streams and files up to tens of GiB with blobs beyond the 31-, 32- and 33-bit boundaries",
  "All test files are below 400 bytes.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/indexed.rs"], [("ByteOffset(u64) bookkeeping", "src/blob.rs, src/mmap_blob.rs")])
p("C31", "The index reads only what a query can need",
  "Creating the index reads no blob payload. Later queries skip what earlier ones showed to be irrelevant: node iteration never again reads the payload of a blob known to hold no nodes, and a way search never reads the payload of a blob known to hold neither ways nor, by its node id range, any referenced node. Skipping never changes the result.",
  ["histories", "inputs"], "call histories x files whose blobs hold disjoint and overlapping id ranges",
  "Tests cannot see which bytes are read.",
  ["src/indexed.rs", "src/blob.rs"], [("nodes_available, ways_available, node_range_included", "src/indexed.rs"), ("create_index", "src/indexed.rs")],
  [("id_ranges", "cached min/max ids per blob", "BlobInfo")])
p("C32", "The shipped example programs report exact counts",
  "For every well-formed file, the element counting program prints the exact numbers of nodes (plain and dense), ways and relations, and the building program prints the exact number of ways tagged building=yes and of the stored nodes they reference; both exit successfully. For a damaged file the counting program exits with failure instead of printing counts.",
  ["inputs", "schedules"], "well-formed and damaged files given on the command line",
  "The examples are compiled but never run.",
  ["examples/count.rs", "examples/indexed.rs", "src/reader.rs", "src/indexed.rs"], [("par_map_reduce count", "examples/count.rs"), ("read_ways_and_deps count", "examples/indexed.rs")])
p("C33", "Errors say what failed and keep their cause",
  "Every error tells what went wrong: an I/O error carries the operating system's or the source's own error (kind, code, message) unchanged, whether met on opening, seeking or reading data; a parse error names the damaged part (blob header, blob content, raw or compressed data); size and string errors carry the size or index. The message contains these facts, the cause is available, and an error converted into an I/O error and back remains the same error.",
  ["inputs", "fault_sequences"], "paths that cannot be opened x I/O errors of every kind and code at any operation x kinds of damage x invalid string references",
  "Tests match the variant of two errors and look at nothing else.",
  ["src/error.rs", "src/blob.rs", "src/mmap_blob.rs", "src/block.rs"], [("Error, ErrorKind, Display, From conversions", "src/error.rs"), ("new_protobuf_error(.., location)", "src/blob.rs, src/mmap_blob.rs")])
p("C34", "Memory use does not grow with the length of the file",
  "Reading a file blob by blob, element by element, in parallel, by offset or through a memory map takes memory in proportion to its largest blobs (and the number of threads), however many blobs the file has; the index takes a small constant amount per blob, and a way search additionally remembers the node ids it looks for. Traversing a decoded block takes no more memory than decoding it did.",
  ["inputs", "schedules"], "files of any number of blobs x readers x thread counts",
  "All test files are below 400 bytes.",
  ["src/blob.rs", "src/reader.rs", "src/indexed.rs", "src/mmap_blob.rs", "src/elements.rs", "src/dense.rs"], [("blob-wise streaming", "src/blob.rs, src/reader.rs"), ("par_bridge over blobs", "src/reader.rs"), ("BlobInfo per blob", "src/indexed.rs")])
p("C35", "Time grows in proportion to the data",
  "The time to read, decode and traverse a file grows in proportion to the amount of data in it, not faster: in the number of blobs, groups, elements, references, members, tags and strings, in the bytes decompressed, and, in files ordered by id, in the elements looked up through the index (apart from logarithmic factors).",
  ["inputs"], "files that grow in one respect at a time x ways of reading",
  "Tests only read a handful of elements.",
  ["src/blob.rs", "src/block.rs", "src/dense.rs", "src/elements.rs", "src/indexed.rs"], [("iterators over groups, elements, tags, refs", "src/block.rs, src/dense.rs, src/elements.rs"), ("nodes_available, node_range_included", "src/indexed.rs")])
p("C36", "A panic in a callback reaches the caller and spoils nothing",
  "If a function passed to a reading method (an element callback, a filter, or the map, identity or reduce function of the parallel read) panics, that panic reaches the caller; it is neither swallowed nor replaced, nothing hangs, and exactly the elements before it were delivered in sequential reading. Blocks, indexed readers and thread pools remain usable: later operations give complete results.",
  ["inputs", "schedules", "histories"], "every call at which a callback can panic x methods x thread counts x later operations",
  "No test passes a callback that panics.",
  ["src/reader.rs", "src/block.rs", "src/indexed.rs"], [("for_each, par_map_reduce", "src/reader.rs"), ("index kept consistent across queries", "src/indexed.rs")])
p("C37", "Streams are read incrementally and exactly up to what was taken",
  "A stream is read as it arrives: creating a reader reads nothing, and each blob (in sequential reading: its elements; in header-only iteration: its header) is delivered as soon as its last byte is available, without asking for any byte behind it and without reading any byte twice. The parallel map-reduce, too, maps the elements of the blobs that have arrived without waiting for more data. So pipes, FIFOs (also by path) and sockets can be read live, and a source lent to a reader stands exactly behind the last blob taken and can be read on from there by any other means.",
  ["inputs", "schedules"], "files x how their bytes arrive x readers x where reading stops",
  "Tests only read complete files and memory.",
  ["src/blob.rs", "src/reader.rs"], [("read_blob_header, next: Take around the source", "src/blob.rs"), ("for_each, par_map_reduce blob by blob", "src/reader.rs")])
p("C38", "Parallel reading uses all threads and may be nested",
  "With at least as many data blobs as threads, the parallel map-reduce maps in all threads of the caller's thread pool at the same time, and only there. The functions passed to any reading method may themselves use the library (other readers, nested parallel reads in the same pool of any size, also of one thread, shared blobs and blocks): nothing deadlocks, and the inner and outer results are complete.",
  ["schedules", "inputs"], "thread counts x files x callbacks x what they read themselves",
  "Tests use one element reader at a time and never look at the threads.",
  ["src/reader.rs", "src/indexed.rs", "src/block.rs"], [("par_bridge", "src/reader.rs"), ("callbacks of read_ways_and_deps and for_each_node", "src/indexed.rs")])
p("C39", "Files are only read, and nothing remains open, mapped or allocated",
  "Paths are opened for reading only. When readers, maps, blobs and blocks are dropped (at any point, after errors, failed constructors and panicking callbacks, too), no file descriptor, memory map, thread or memory is left behind. While they live, they do not depend on the path: open readers and maps go on with the file they opened when it is deleted or replaced, and blobs and blocks that were read stay valid and unchanged when their reader is gone and the file has changed.",
  ["inputs", "histories"], "readers x points at which they are dropped x states of the file",
  "Tests drop everything at the end of the process and never change files.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/indexed.rs", "src/reader.rs"], [("from_path constructors", "src/blob.rs, src/reader.rs, src/indexed.rs, src/mmap_blob.rs"), ("owned Blob and PrimitiveBlock", "src/blob.rs, src/block.rs")])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
