"""Write known_findings.jsonl: defects repaired in /repo (fixed entries suppress nothing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 (["C05", "C01"], "b91e6f5", "_BoundaryReader returned wrong bytes and positions around boundaries, after seeks and on short reads"),
 (["C09"], "44b3b59", "T.float64(default) ignored the given default and filled new nodes with int 0"),
 (["C09", "C10"], "afc58f5", "layer.retain raised or kept wrong nodes on a layer with gaps, and left a half-edited layer when it failed"),
 (["C10"], "a61967f", "layer.sort with a failing key function or uncomparable keys emptied or half-reordered the layer"),
 (["C12", "C01"], "ff7fc33", "binary document properties came back as text, or made the stored document unreadable"),
 (["C07"], "97d63a4", "MsgpackDocument.texts(name) returned no texts when only some were selected"),
 (["C07", "C04"], "f54bca6", "a pickled lazy document lost its reference"),
 (["C11", "C10"], "692414c", "add_many(generator) consumed the generator while validating and added nothing or unvalidated nodes"),
 (["C11"], "58f9dac", "remove_layer ignored node span fields, cascade left dangling fields and the result was never True"),
 (["C08"], "920c49a", "decoding a truncated document raised StopIteration, which loops and generators take for the end of data"),
 (["C04"], "34dd572", "the ref of iterated documents named the next block when blocks were read ahead"),
 (["C01"], "948955a", "short writes lost data, short reads and non-seekable inputs made valid collections unreadable"),
 (["C02", "C03"], "439916e", "MsgpackDocumentWriter.flush did not flush the output stream: flushed documents were lost in a crash; a failed flush could not be retried"),
 (["C12"], "690bba3", "documents with extension fields could not be encoded or decoded"),
 (["C07"], "a5a03ff", "MsgpackDocument.document(layer, ...) failed for a subset of layers"),
 (["C07"], "dba4f60", "lazy documents backed by a stream other than BytesIO could not be stored or pickled"),
 (["C11"], "a7b8b40", "decoded reference and span fields were not validated: a reference to a removed node was stored as some other node"),
 (["C18"], "d9d29cc", "dfs_leaves returned inner nodes whose children had all been visited before"),
 (["C18"], "eff1545", "children_of with several fields gave the children of one field only"),
 (["C11"], "1cdc613", "extra_fields_ok=True also turned off type validation"),
 (["C11"], "b321bdc", "boolean and string fields with a default accepted any value"),
 (["C06"], "2a0bc21", "an lzma block overwritten with zeros was read as an empty block"),
 (["C11"], "d7f415a", "references into a replaced or foreign layer of the same name were stored as references to other nodes"),
 (["C14"], "72e7204", "DocumentIndex.search opened its basepath-relative paths relative to the working directory, and add() changed the caller's file index"),
 (["C11"], "608bf28", "a node in a node span field was stored as the span from its left to its right neighbour"),
 (["C27"], "f71457e", "adding a field which exists raised TypeError while raising instead of SchemaValidationError"),
 (["C27"], "2ee6544", "add_field failed for a type constructor (T.binary, T.string) after the field had been added"),
 (["C11"], "a108200", "a span of another document's text (or of a replaced one), or outside of the text, was stored as a span of the document's text"),
 (["C28"], "d7c0763", "encoding a document while a layer of it with gaps was being iterated ended the iteration early"),
 (["C27"], "edd3ef8", "layers of several documents made from one schema object shared their fields: adding or removing one changed the others"),
 (["C12", "C30"], "d4dd1cd", "a document with embedded documents could be encoded as JSON, but not decoded again"),
]
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for props, commit, what in F:
        for p in props:
            f.write(json.dumps({"property": p, "status": "fixed", "commit": commit, "what": what,
                                "entry": "fixed: property=%s %s %s" % (p, commit, what)}) + "\n")
