"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
COL, COD, MOD, ALG, QRY = ("py/docria/collection.py", "py/docria/codec.py", "py/docria/model.py",
                           "py/docria/algorithm.py", "py/docria/query.py")

p("C01", "A closed collection reads back every document, equal and in order",
  "Whatever sequence of document writes, raw (already encoded) document writes and flushes produced it, a collection that was closed (explicitly, or by leaving a with-block, also through an exception) reads back exactly the documents written, in order, each equal in properties, texts, spans, layers, schema, fields, node order and references to what it was at the moment of its write. This holds for every registered compression codec, every documents-per-block setting, with or without boundary framing, for path and stream targets, and for streams that accept or deliver fewer bytes per call than asked. Rewriting a collection through its raw documents preserves it the same way.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all write/flush/close histories x document contents x codecs x block sizes x framing x short-read/short-write patterns of the stream",
  "The one I/O test writes one tiny document with one codec, one block, one stream, and never compares the content that comes back.",
  [COL, COD],
  [("blocked writer", COL + ": MsgpackDocumentWriter"), ("blocked reader", COL + ": MsgpackDocumentReader, MsgpackDocumentBlock, DocumentReader"),
   ("codec registry", COL + ": register_codec"), ("document codec", COD + ": Codec.encode, MsgpackCodec.encode/decode")],
  [("current block", "documents accepted but not yet compressed and written", COL + ": MsgpackDocumentWriter")],
  ["documents returned by the readers"])

p("C02", "After a crash a collection yields exactly the documents already stored",
  "Once an explicit flush (or an automatic one, when a block fills) has returned, the documents it covers are in the output stream; if the process then dies and only a prefix of the output bytes survives, reading the remains yields exactly the documents of the blocks lying completely inside that prefix, in order and equal to what was written, and then ends or raises: never a damaged, duplicated, reordered or invented document, and never endless work. The same holds for a reader opened on the collection while the writer is still appending. After an explicit flush this includes output streams that buffer: nothing covered by the flush stays in the stream's own buffer.",
  ["histories", "crash_points", "schedules"],
  "all write histories x every byte at which the output may be cut x every instant at which a reader may look",
  "No test interrupts a writer, truncates a file or reads one that is still being written.",
  [COL],
  [("block framing, one length-prefixed binary per block", COL + ": MsgpackDocumentWriter.flush"), ("incomplete tail is not delivered", COL + ": MsgpackDocumentReader.readblock, _BoundaryReader.read")],
  [("flushed watermark", "documents handed to the output stream", COL + ": MsgpackDocumentWriter.flush")],
  ["bytes reaching the output stream", "documents returned by a reader over a prefix"])

p("C03", "Writer failures are never silent, leave no trace and can be retried",
  "When encoding, schema validation, compression or the output stream fails during a write, flush or close, that call raises, and nothing is reported as stored that is not. A document that was rejected before it was buffered never appears in the collection, and an operation that failed before any byte was stored can be repeated (flush or close again) so that finally every accepted document is stored exactly once and in order; the document whose own write call raised may be stored at most once. Documents stored before the failure stay readable and equal in every case.",
  ["fault_sequences", "histories"],
  "all positions of encoder, compressor and output failures (nothing stored, or a torn write) within all write/flush/close histories",
  "No test makes a stream or a codec fail; a single hand-placed failure would sample one position of one history.",
  [COL, COD, MOD],
  [("encode before buffering", COL + ": MsgpackDocumentWriter.write"), ("block kept until the stream accepted it", COL + ": MsgpackDocumentWriter.flush"), ("validation before encoding", MOD + ": Document.compile")],
  [("current block and its count", "what the next flush will store", COL + ": MsgpackDocumentWriter")],
  ["exceptions of write/flush/close", "content read back"])

p("C04", "A document reference always fetches its own document, in any access order",
  "The reference attached to a document when it was read (by iterating, block by block, or through an index) fetches an equal document from the same collection at any later time, in any order, any number of times, through any reader instance, and interleaved with iteration, block reads and seeks on the same reader; the reference handed out with a document is the same whichever way it was reached. Sequential reading continues with the document after the one fetched. A read or seek error raises and spoils nothing: the next fetch by reference or seek works as if it had not happened.",
  ["histories", "schedules", "fault_sequences"],
  "all interleavings of next/get/readblock/seek on one or several readers x block layouts x read errors at any call",
  "Random access, block reads and their mixing with iteration are not exercised by any test.",
  [COL],
  [("reference = (block position, position in block)", COL + ": MsgpackDocumentReader.get/__next__/readblock, MsgpackDocumentBlock"), ("unpacker rebuilt on seek", COL + ": MsgpackDocumentReader.seek")],
  [("current block, unpacker offset", "where iteration continues", COL + ": MsgpackDocumentReader")],
  ["MsgpackDocument.ref and content"])

p("C05", "Boundary framing is transparent and always locates the last split",
  "For every sequence of writes and split marks, at every boundary size, the framed stream carries a marker exactly at each multiple of the boundary that is followed by data, pointing back to the latest split mark; removing the markers gives exactly the bytes written. The framing reader returns exactly those bytes for any sequence of read sizes, after seeking to any logical offset, and over streams that return short reads or end early (then a prefix); its reported position is the logical offset. A failed write to the underlying stream that stored nothing never breaks the framing of what follows.",
  ["histories", "inputs", "fault_sequences", "crash_points"],
  "all write/split sequences x boundary sizes x read sizes, seeks, short reads, truncations and failed writes",
  "The only framed stream in the tests is far shorter than one boundary, so no marker is ever written or read.",
  [COL],
  [("marker insertion", COL + ": _BoundaryWriter.write/_write_boundary/split"), ("marker removal and offset mapping", COL + ": _BoundaryReader.read/seek/tell")],
  [("written, lastsplit, segment", "absolute position, latest split, markers so far", COL + ": _BoundaryWriter"), ("offset", "logical read position", COL + ": _BoundaryReader")],
  ["raw bytes of the stream", "bytes returned by the reader"])

p("C06", "Damaged stored bytes are detected, never delivered as different documents",
  "If stored bytes of a block's compressed payload are flipped, zeroed or lost in a collection written with an integrity-checked codec (zip, zipsq, bzip2, lzma), reading never delivers a document that differs from the one written at that position: documents of the blocks before the damage are delivered, and on reaching the damaged block the reader raises (when so many bytes were lost that the file ends inside that block, it may end there as for a truncated file). Every undamaged block elsewhere in the file remains readable by seeking to it.",
  ["fault_sequences", "inputs"],
  "all damage kinds and positions inside block payloads x collections x access by iteration, reference and seek",
  "No test damages a file.",
  [COL],
  [("decompression errors propagate", COL + ": MsgpackDocumentReader.readblock"), ("codec registry", COL + ": register_codec")],
  None, ["documents and exceptions while reading a damaged file"])

p("C07", "Lazy document access agrees with full decoding in any order",
  "For an encoded document held as bytes or as a seekable stream, properties, selected properties, texts, selected texts, schema, the full document and any reference-closed subset of its layers may be requested in any order and any number of times and always equal what full decoding gives; the encoded bytes returned, pickled or stored again are the original ones. A read error during one request raises and does not affect any later request, and a stream that returns short reads gives the same answers.",
  ["histories", "fault_sequences", "inputs"],
  "all request orders x document contents x short-read patterns x read errors at any call, with pickling in between",
  "Tests use only whole-document decoding from bytes; the lazy accessors have no test at all.",
  [COD],
  [("section offsets computed on demand", COD + ": MsgpackDocument._parse_state"), ("selective decoding", COD + ": MsgpackCodec.decode_property/decode_texts/decode_layer")],
  [("section table", "start and length of properties, texts and layers", COD + ": MsgpackDocument")],
  ["return values of the accessors"])

p("C08", "A truncated document is rejected and never looks like the end of data",
  "Decoding an encoded document that ends early, at whatever byte, raises an error, both from bytes and from a stream that hits its end, and never returns a document; a section requested lazily from such bytes is either correct or raises. The error is a real failure, not an end-of-iteration signal: reading a collection that contains such a document reports it instead of silently ending or dropping the documents after it.",
  ["crash_points", "inputs", "fault_sequences"],
  "every cut position of every encoded document, decoded whole, lazily, from a stream, and inside a collection",
  "No test decodes incomplete data; the cut position ranges over every byte of every possible document.",
  [COD, COL],
  [("streaming unpacker signals missing data", COD + ": MsgpackCodec.decode*, MsgpackDocument"), ("decoding reader", COL + ": DocumentReader.__next__")],
  None, ["exceptions of the decoders and readers"])

p("C09", "A layer behaves as an ordered list under every history of edits",
  "After any sequence of adding (singly, several, many), removing (a node, several, by query, by detaching), retaining, sorting, compacting, adding and removing fields, editing values, encoding and pickling, a layer iterates over exactly its surviving nodes in the expected order; its length, first and last node, slices, membership, each node's left and right neighbour and node-to-node ranges agree with that order; indexing the layer with a live node's index gives that node; removed nodes are dangling. Defaults fill unset fields of nodes created by value or added in bulk, and encoding leaves node indices consecutive from zero.",
  ["histories", "inputs"],
  "all interleavings of layer edits, including histories long enough to cross the internal compaction threshold at any point",
  "Tests do a handful of fixed removals on nine nodes, too few to ever trigger compaction, and never mix operations.",
  [MOD],
  [("list with gaps, compaction at 25% empty", MOD + ": NodeLayerCollection.remove/compact/retain/sort/add_many"), ("renumbering when encoding", MOD + ": Document.compile")],
  [("node slots and live count", "the layer content with gaps", MOD + ": NodeLayerCollection"), ("node index", "slot of a node", MOD + ": Node")],
  ["iteration, len, i, left/right, first/last, slices of a layer"])

p("C10", "A failing edit never corrupts a layer",
  "When an edit of a layer fails part-way because the caller's iterable, key function, key comparison or predicate raises, or because a node or value is not acceptable, the exception reaches the caller and the layer stays fully consistent: iteration, length, indices, neighbours and membership agree, no node is lost, duplicated or half-removed, and later edits work normally. Retaining, sorting and adding a node by value are all-or-nothing; a failed bulk addition or removal has been applied to exactly the elements processed before the failure.",
  ["fault_sequences", "histories"],
  "all positions at which a caller-supplied iterator, key, comparison or predicate may raise, within all edit histories",
  "No test makes an edit fail; the failing element can be any one of any operation in any history.",
  [MOD],
  [("ordering of checks and updates", MOD + ": NodeLayerCollection.add/add_many/remove/retain/sort")],
  [("node slots and live count", "the layer content with gaps", MOD + ": NodeLayerCollection")],
  ["the layer after the exception"])

p("C11", "Dangling references and schema violations are never stored",
  "At any point of any edit history, encoding a document succeeds exactly when every node conforms to the declared schema: no undeclared field, every value of its declared type (scalar types checked as declared when the document was built in this process), every span in its declared text, every node reference, reference list and node span pointing to nodes that are still in the declared layer, and every referenced layer and text present. Otherwise encoding raises, by every route (encoder, writer, archive, pickling), and leaves the document as it was, so that it encodes once repaired. For references, spans and undeclared fields this holds equally for documents that were read back from storage.",
  ["histories", "inputs"],
  "all edit histories that create and repair violations (removals, detach, layer and field removal, wrong values) on fresh and reloaded documents",
  "One test encodes one document with an undeclared field; references that dangle only after some history are never tried.",
  [MOD, COD],
  [("validation while compiling", MOD + ": Document.compile, NodeLayerCollection.validate"), ("typed fields", MOD + ": DataType*.is_valid"), ("schema guard on layer removal", MOD + ": Document.remove_layer")],
  None, ["success or exception of encoding"])

p("C12", "Stored copies are faithful, independent snapshots over any chain of hops",
  "At every point of an edit history, encoding a document by any route (MessagePack bytes or stream, lazy document, JSON for the values it can hold, pickle, deep copy, blocked collection, tar archive) and decoding it gives a document equal to the current state, on which editing can continue through any number of further hops, and does not change the document itself. Copies are independent: later edits of the original or of any copy, or of property values inside them, never show up in another copy or in bytes already produced, and a hop that failed can be repeated.",
  ["histories", "inputs", "fault_sequences"],
  "all chains of edits and storage hops (mixed codecs, failing hops) x document contents",
  "Tests make single round trips of one fixed document and compare a few strings; chains, aliasing and most value types are not touched.",
  [COD, MOD, COL],
  [("compile to columns and segments", MOD + ": Document.compile; " + COD + ": Codec.encode"), ("rebuild with reference resolution", COD + ": Codec.commit_layers, JsonCodec.decode_object, MsgpackCodec.decode"), ("pickle via the codec", MOD + ": Document.__getstate__/__setstate__")],
  None, ["documents after each hop"])

p("C13", "Threads working on separate documents and streams never affect each other",
  "Threads that each use only their own documents, writers, readers, indexes and streams obtain, under every interleaving, exactly the results they obtain when run alone: the same bytes, the same documents, the same exceptions. The library keeps no hidden shared state (buffers, packers, compressors, type objects, caches) through which one use could leak into another.",
  ["schedules", "histories"],
  "all interleavings, at source-line granularity, of several threads each running its own document and storage workload",
  "No test uses more than one thread; interleavings cannot be enumerated by hand.",
  [COD, COL, MOD],
  [("all state in instances", COD + ": MsgpackCodec, JsonCodec; " + COL + ": readers and writers"), ("shared immutable type singletons and codec registry", MOD + ": DataTypes; " + COL + ": _Name2Codec")],
  None, ["per-thread results compared with a solo run"])

p("C14", "Index search returns exactly the matching documents, however interleaved",
  "Searching an index of one or several collections for property conditions yields exactly the documents whose stored properties equal all the conditions, each once, within one file in file order, whether decoded eagerly or lazily, and also after the index was saved and loaded. Any number of searches may be suspended, resumed, abandoned and repeated in any interleaving, with each other and with reads through separate readers, without affecting one another's results; a read error surfaces as an I/O error in the search that hit it and a repeated search is complete.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all collections, property sets and conditions x all interleavings of search generators x read errors at any call",
  "The index code has no tests.",
  [COL],
  [("property to document-number lists and references", COL + ": DocumentFileIndex.build"), ("sequential block reuse while searching", COL + ": DocumentFileIndex.search"), ("multi-file search", COL + ": DocumentIndex.search/save/load")],
  [("last block of a search", "decompressed block reused for the next hit", COL + ": DocumentFileIndex.search")],
  ["documents yielded by search"])

p("C15", "Directory indexing is complete and independent of worker scheduling",
  "Indexing a directory gives an index of exactly its collection files with all their documents, independent of the number of workers, of the order in which the files are listed and of the order in which workers finish. If a file cannot be read or indexed the build raises instead of returning an index without it, and a repeated build after the cause is gone is complete.",
  ["schedules", "fault_sequences", "configurations"],
  "all completion orders of worker tasks, listing orders and worker counts x failures of any worker",
  "The directory index has no tests, and real process pools would only sample whatever order the machine happens to produce.",
  [COL],
  [("unordered worker pool merged by file", COL + ": build_msgpack_directory_fileindex, _build_file_index"), ("multi-file index", COL + ": DocumentIndex.add")],
  None, ["the built index: files, references and search results"])

p("C16", "Tar collections keep every document under any clock and after a crash",
  "A closed tar collection, in any stream or seekable compression mode, with or without a root directory and for documents given decoded or encoded, reads back exactly the documents written, in order and equal, whatever the wall clock did meanwhile (standing still, jumping forwards or backwards). If writing stops early or the file is cut at any byte, reading yields a prefix of the documents written, each equal, and then ends or raises. A document that fails to encode leaves no entry and writing can go on; a failure of the output raises.",
  ["histories", "configurations", "crash_points", "fault_sequences"],
  "all write histories x tar modes x clock behaviours x cut positions and output failures",
  "Tar collections have no tests.",
  [COL],
  [("one member per document", COL + ": TarMsgpackWriter.write"), ("member iteration skipping directories", COL + ": TarMsgpackReader.__next__")],
  None, ["documents returned by the tar reader"])

p("C17", "Queries, node lists and node spans keep their meaning while layers change",
  "A query result and a node list keep exactly the nodes, in order, that they held when made, until a query is explicitly updated, after which it holds exactly the nodes then matching; a field view of a layer always shows the current values in current order. A node span always yields exactly the nodes now lying from its first to its last node, in layer order, and raises instead of yielding anything when an end was removed or the ends changed order. Query conditions (comparisons, membership, none and value tests, span cover and intersection, and, or, not) select exactly the nodes a direct evaluation over the layer selects.",
  ["histories", "inputs"],
  "all interleavings of layer edits with the use of handles created at any earlier point",
  "Tests evaluate one query and one node span immediately after creating them.",
  [MOD, QRY],
  [("eager query result, explicit update", MOD + ": NodeCollectionQuery"), ("endpoint-based span", MOD + ": NodeSpan.__iter__, NodeLayerCollection.iter_nodespan"), ("predicates", QRY)],
  None, ["contents of the handles over time"])

p("C18", "Interleaved graph traversals each visit every reachable node exactly once",
  "A breadth-first traversal yields every node reachable from its start exactly once with its minimal depth, in non-decreasing depth and in child order; a depth-first traversal yields each exactly once in preorder following child order; a leaf traversal yields exactly the reachable nodes without outgoing links, once each, in that order; a result filter only hides nodes. This holds on graphs with cycles, self-links and shared nodes, for children taken from one or several reference fields, and however many traversals are suspended, interleaved, abandoned or restarted; an exception of the caller's child function reaches the caller and does not disturb other traversals.",
  ["schedules", "inputs", "fault_sequences"],
  "all graphs x all interleavings of traversal generators x failures of the child callback at any call",
  "The traversals have no tests.",
  [ALG],
  [("visited set per traversal", ALG + ": bfs, dfs, dfs_leaves"), ("child iteration by field type", ALG + ": children_of")],
  [("visited set and queue or stack", "progress of one traversal", ALG + ": bfs, dfs")],
  ["sequence of nodes yielded"])

p("C19", "Creating a collection by path never overwrites an existing one",
  "Opening a MsgpackDocumentWriter on a path, with the default mode, fails when the path exists and leaves the existing file byte for byte as it was; when several writers race to create the same path, under every interleaving exactly one succeeds, the others raise, and the file finally holds exactly the documents of the winner.",
  ["schedules", "histories"],
  "all interleavings of writers creating, filling and closing the same path",
  "No test opens a writer on an existing path, and none runs two writers.",
  [COL],
  [("exclusive creation mode", COL + ": MsgpackDocumentWriter.__init__")],
  None, ["exceptions of the writer constructor, content of the file"])

p("C27", "Schema edits are complete and all-or-nothing",
  "At every point of a document's life, also after it was stored and loaded, adding and removing layers and fields takes effect completely or not at all. Removing a layer succeeds exactly when no other layer's field refers to it, or with cascade, which removes exactly the layer and the referring fields with their values; otherwise it raises and nothing changed, and a missing layer is reported by the result. Adding a field works for every field type (default filled in for existing nodes on request), removing one drops its values unless told to leave them; a field that exists, an invalid declaration, or a caller's type constructor that raises is refused with nothing changed, and a layer with a bad field leaves no trace. An edit concerns its own document only, also when a schema object declares layers of several. New nodes get exactly the current defaults, and only values of the declared types are accepted; right after any edit the document can be stored and every copy agrees with it.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of layer, field and node edits, refused and failing ones among them, mixed with storing and reloading",
  "The tests add layers and fields once; removal, cascades, refusals and failures in the middle of an edit history are not touched.",
  [MOD, COD],
  [("layer removal with reference check and cascade", MOD + ": Document.remove_layer"), ("field edits", MOD + ": NodeLayerCollection.add_field/remove_field, NodeLayerSchema.add/remove"), ("layer creation", MOD + ": Document.add_layer")],
  [("schema fields and defaults of a layer", "what new nodes get and what is validated", MOD + ": NodeLayerSchema")],
  ["layers, fields, defaults and nodes after every edit, results and exceptions, stored copies"])

p("C28", "Looking at a document never changes it, from one thread or from many",
  "Reading, printing (text and HTML), slicing, querying, listing, spanning, grouping, traversing, converting and encoding a document leave it exactly as it was: the same properties, texts, layers, schema and fields in the same order, the same node objects with the same values in the same order. This holds for observations that are repeated, suspended and resumed, abandoned or broken off by an exception of the caller's own code, in any mix with edits; encoding may make the node positions consecutive and nothing else. The same look gives the same answer again, and several threads looking at the same document at once each get, under every interleaving, the answers they get alone.",
  ["schedules", "histories", "fault_sequences"],
  "all histories of observations (suspended, failing) between edits, and all interleavings of threads observing one document",
  "Tests look once and compare strings; none compares the document before and after, repeats a look, or looks from two threads.",
  [MOD, COD, QRY, ALG, "py/docria/printout.py"],
  [("rendering without side effects", MOD + ": _repr_html_, __repr__, _table_repr_; py/docria/printout.py: Table, TableRow"), ("lazy iteration", MOD + ": NodeLayerCollection.__iter__, NodeCollectionQuery, NodeSpan.iter_nodes"), ("encoding from a compiled view", MOD + ": Document.compile")],
  None, ["identity-level snapshot of the document before and after", "answers of every thread compared with a solo run"])

p("C29", "Files are closed when their user is done, and only then",
  "After close() returned or a with block was left, also by an exception, which reaches the caller, a reader or writer keeps no file open, closing again is harmless, and everything written before is in the file. A search, index build, save or load that ended, failed or was abandoned, a constructor that failed, and a reader or writer that was dropped leave no file open once the caller holds no live search, while documents and indices obtained from them stay usable. Streams given by the caller are closed by close() and with blocks only: not by flushing, by reaching the end of the documents, or by dropping the reader or writer.",
  ["histories", "fault_sequences"],
  "all histories of readers, writers, archives, builds and searches x ways of ending them x failing opens, reads, writes and flushes",
  "No test counts open files, and none leaves a with block by an exception or breaks off a build or a search.",
  [COL],
  [("context managers", COL + ": __enter__/__exit__/close of readers and writers"), ("reader of a build or search", COL + ": DocumentFileIndex.build/search, DocumentIndex.save/load")],
  [("the file or stream held", "open until close or until dropped", COL + ": MsgpackDocumentReader, MsgpackDocumentWriter, TarMsgpackReader, TarMsgpackWriter")],
  ["open descriptors of the process", "state of caller's streams", "documents used after their reader was closed"])

p("C30", "Equal documents give equal bytes, in any process and after any history",
  "Encoding is a function of the document's content and order alone: documents with equal properties, texts, layers, fields, nodes and values in equal order give the same MessagePack, lazy, JSON and XML bytes, the same collection bytes and references for the same writer settings, the same index, and (under the same clock) the same archive. This holds when encoded again, later, in another process with another string hash seed, through an output with short writes, for a document built by another history with detours (things added and removed, another order of filling in), after attempts that failed, and for a document decoded from those bytes.",
  ["histories", "configurations", "fault_sequences"],
  "all documents x edit histories with the same result x processes (hash seeds, clocks, address layouts) x failed attempts and short writes",
  "Tests encode each document once in one process and compare no bytes.",
  [COD, MOD, COL],
  [("column encoding in schema and node order", COD + ": Codec.encode, MsgpackCodec.encode, JsonCodec.encode_object"), ("text segments from sorted offsets", MOD + ": Document.compile, Text.compile"), ("blocks", COL + ": MsgpackDocumentWriter")],
  None, ["bytes of every route, compared between processes and histories"])

p("C31", "The codec registry never lets stored data be read with another codec",
  "The codecs of the library are available until removed, and a registered codec is found under its name with exactly the functions and stored name it was registered with, through any history of registrations and removals, from one or several threads using names of their own. Registering a name in use raises ValueError and changes nothing; removing a codec affects no other name, no open writer and no open reader. A collection is stored under the stored name of its codec (the alias target, where one was given) and read with the codec registered under that name when the reader was opened; when there is none, opening raises NotImplementedError (also in index builds and searches), and data is never returned undecoded or decoded by another codec. An exception of a codec's own function reaches the caller, and a flush that failed so can be repeated.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of register/unregister/get with writers, readers, builds and searches opened across them x failing codec functions x thread interleavings",
  "The registry is used by the tests only through the built-in names.",
  [COL],
  [("registry", COL + ": register_codec, unregister_codec, get_codec, CompressionCodec"), ("codec name in the header", COL + ": MsgpackDocumentWriter.__init__, MsgpackDocumentReader.__init__")],
  [("registered codecs", "name to stored name and functions", COL + ": _Name2Codec")],
  ["results and exceptions of the registry functions", "documents read under every state of the registry"])

# --- recorded, not decidable by this technique -----------------------------------------------
p("C20", "Grouping by span assigns exactly the intersecting or covered nodes",
  "Grouping nodes by span gives for each group node exactly the layer nodes whose spans intersect it (or, in cover mode, lie inside it), including zero-length spans.",
  ["inputs"], "all sets of spans", "One fixed example with eighteen spans.", [ALG],
  [("sweep over span ends", ALG + ": group_by_span")])
p("C21", "Overlap resolution keeps the longest, then rightmost, segment",
  "Resolving overlapping segments returns a set of non-overlapping segments chosen by the longest-then-rightmost rule.",
  ["inputs"], "all segment lists", "One fixed example.", [ALG], [("sweep", ALG + ": dominant_right, dominant_right_span")])
p("C22", "Span translation maps extracted positions back to the original text",
  "Translating spans through a mapping layer gives the span of the original text that corresponds to the extracted one, or raises when the mapping does not cover it.",
  ["inputs"], "all mappings and spans", "One fixed example.", [ALG], [("sweep", ALG + ": span_translate")])
p("C23", "Token sequences are aligned to monotone, matching spans of the text",
  "Aligning a token sequence with a text yields one span per token, in text order, each either equal to its token or empty.",
  ["inputs"], "all token sequences, texts and windows", "Four fixed examples.", [ALG], [("forward search", ALG + ": sequence_to_textspans")])
p("C24", "XML, text and HTML renderings contain the document's data, escaped",
  "The XML encoding contains every property, text, layer, node and field value of the document, and the table renderings show node values with HTML special characters escaped.",
  ["inputs"], "all documents and print options", "Not tested.", [COD, "py/docria/printout.py"], [("XML encoder", COD + ": XmlCodec"), ("tables", "py/docria/printout.py: Table")])
p("C25", "Span arithmetic agrees with string slicing",
  "Slicing, trimming, joining, covering and intersecting text spans agrees with the same operations on plain offsets of the text.",
  ["inputs"], "all texts and offsets", "A few fixed slices.", [MOD], [("text spans", MOD + ": Text, TextSpan")])
p("C26", "Python and Java read each other's documents and collections",
  "Documents and collections written by the Python library read back equal in the Java library and the other way round.",
  ["inputs", "configurations"], "all documents, both directions", "One fixed Java-made document is decoded in a Python test.", [COD, "java/core/src/main/java/se/lth/cs/docria/MsgpackCodec.java"],
  [("shared binary format", COD + ": MsgpackCodec; java MsgpackCodec, DocumentStreamReader/Writer")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
