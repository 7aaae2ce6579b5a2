From b91e6f5f898adc9a40bbdf54eae6867fc59f5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:13 +0000
Subject: [PATCH 01/31] fix: boundary reader returned wrong data and positions
 around boundaries and on short reads

---
 py/docria/collection.py | 55 +++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index e30fe31..5c03c24 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -49,6 +49,7 @@ class _BoundaryReader(RawIOBase):
             raise IOError("Incorrect boundary value: %d" % self.boundary)
 
         self.offset = 0
+        self.position = 1  # position in inputio, which includes the boundary value and boundary markers
 
     def close(self):
         return self.inputio.close()
@@ -72,51 +73,35 @@ class _BoundaryReader(RawIOBase):
         abs_start_position = self._to_absolute(offset)
         pos = self.inputio.seek(abs_start_position, SEEK_SET)
         assert pos == abs_start_position
+        self.position = abs_start_position
         return offset
 
     def read(self, n=-1):
-        abs_start_position = ((self.offset + 1) >> self.boundary)*4+(self.offset + 1)
-        if n == -1:
-            alldata = self.inputio.read(n)
-            abs_stop_position = abs_start_position + len(alldata)
-        else:
-            abs_stop_position = ((self.offset + n + 1) >> self.boundary)*4+(self.offset + n + 1)
-            alldata = self.inputio.read(abs_stop_position-abs_start_position)
-            abs_stop_position = abs_start_position + len(alldata)
-
-        if len(alldata) == 0:
-            return alldata
-
-        if (abs_start_position >> self.boundary) << self.boundary == abs_start_position:
-            abs_start_position += 4
-
-        num_boundaries = (abs_stop_position >> self.boundary) - (abs_start_position >> self.boundary)
-        real_length = abs_stop_position-abs_start_position-num_boundaries*4
+        output = bytearray()
 
-        if (abs_stop_position >> self.boundary) << self.boundary == abs_stop_position:
-            real_length -= 4
+        while n is None or n < 0 or len(output) < n:
+            segment_offset = self.position & ((1 << self.boundary) - 1)
+            if self.position >> self.boundary > 0 and segment_offset < 4:
+                # At a boundary: skip the marker, it is always followed by data.
+                marker = self.inputio.read(4 - segment_offset)
+                if not marker:
+                    break
 
-        output = bytearray(real_length)
-
-        output_position = 0
-        rel_position = 0
-        current_position = abs_start_position
-
-        while current_position < abs_stop_position:
-            max_read = min(((current_position >> self.boundary) + 1) << self.boundary, abs_stop_position)-current_position
-
-            output[output_position:output_position+max_read] = alldata[rel_position:rel_position+max_read]
-            rel_position += 4 + max_read
-            current_position += max_read + 4
-            output_position += max_read
+                self.position += len(marker)
+            else:
+                left = (1 << self.boundary) - segment_offset
+                data = self.inputio.read(left if n is None or n < 0 else min(left, n - len(output)))
+                if not data:
+                    break
 
-        assert output_position == real_length
-        self.offset += real_length
+                output += data
+                self.position += len(data)
 
+        self.offset += len(output)
         return bytes(output)
 
     def tell(self):
-        return self.inputio.tell()-(self.inputio.tell() >> self.boundary)*4-1
+        return self.offset
 
     def readable(self):
         return True
-- 
2.43.0


From 44b3b596c30848f1be2237a5288dab00360614d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 02/31] fix: float64 fields: defaults are floats and a given
 default is used

---
 py/docria/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index b1bb0af..6c0e2a8 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -992,6 +992,10 @@ class DataTypeFloat(DataType):
     def __init__(self, typename: DataTypeEnum, **kwargs):
         super().__init__(typename, **kwargs)
 
+    def default(self):
+        value = super().default()
+        return None if value is None else float(value)
+
     def is_valid(self, value) -> bool:
         return isinstance(value, float)
 
@@ -1105,7 +1109,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._float64_raw
         else:
-            return DataTypeFloat(DataTypeEnum.F64, default=0.0)
+            return DataTypeFloat(DataTypeEnum.F64, default=default)
 
     @staticmethod
     def string(default: Optional[str] = ""):
-- 
2.43.0


From afc58f51eb56b1cb8454a561e9cf0a626fcafe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 03/31] fix: retain works on layers with gaps and changes
 nothing when it fails

---
 py/docria/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6c0e2a8..06a957b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1593,24 +1593,25 @@ class NodeLayerCollection(NodeCollection):
     def retain(self, nodes: Iterable["Node"]):
         """Retain all nodes in the given list nodes, remove everything else."""
 
+        # Nothing is changed until all nodes are known to be acceptable.
+        retained = set()
         try:
             for n in iter(nodes):
-                # Mark the nodes to retain
                 if n.collection is not self:
                     raise ValueError("Node %s is not in this node collection '%s'" % (repr(n), self.name))
 
-                # Guards against more than one reference to a node in nodes
-                if n._id >= 0:
-                    n._id = -(n._id + 1)  # add 1, otherwise zero fails.
+                retained.add(n)
 
         except TypeError:
             raise ValueError("Given nodes is not iterable.")
 
-        # Compact and remove unmarked nodes
+        # Compact and remove the nodes which are not retained
         k = 0
         for i in range(len(self._nodes)):
             n = self._nodes[i]
-            if n._id >= 0:
+            if n is None:
+                continue  # gap left by an earlier removal
+            elif n not in retained:
                 n.collection = None
                 self.num -= 1
             else:
-- 
2.43.0


From a61967f3e00034c3ead6c13737d84e46f3593a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 04/31] fix: a failing sort leaves the layer as it was

---
 py/docria/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 06a957b..5b5ec4a 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1549,7 +1549,8 @@ class NodeLayerCollection(NodeCollection):
         :param keyfn: a function (input: Node) -> value to sort by.
         """
         self.compact()
-        self._nodes.sort(key=keyfn)
+        # Sort a copy: a failing key function or comparison must not leave a partially sorted layer.
+        self._nodes[:] = sorted(self._nodes, key=keyfn)
         for i, n in zip(range(len(self)), self):
             n._id = i
 
-- 
2.43.0


From ff7fc33c7a8e3d9f63be5036f34cd3d615f6d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 05/31] fix: document properties keep binary values

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 5293445..3067707 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -610,7 +610,7 @@ class MsgpackCodec:
         out_props = BytesIO()
 
         # TODO: Implement extension handling!
-        msgpack.pack(doc.props, out_props)
+        msgpack.pack(doc.props, out_props, use_bin_type=True)
 
         msgpack.pack(out_props.tell(), output)
         output.write(out_props.getbuffer()[0:out_props.tell()])
-- 
2.43.0


From 97d63a4338a97e763ce3ef075b0b8ece1a0052d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 06/31] fix: decoding selected texts returned no texts

---
 py/docria/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 3067707..e110109 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -720,7 +720,7 @@ class MsgpackCodec:
         if len(texts) == 0:
             return next(unpacker)
         else:
-            texts = {}
+            output = {}
 
             prop_keys = set(texts)
             num_entries = unpacker.read_map_header()
@@ -728,11 +728,11 @@ class MsgpackCodec:
                 k = next(unpacker)
                 if k in prop_keys:
                     v = next(unpacker)
-                    texts[k] = v
+                    output[k] = v
                 else:
                     unpacker.skip()
 
-            return texts
+            return output
 
     @staticmethod
     def compute_text_offsets(doc, texts):
-- 
2.43.0


From f54bca6484b7692b2d29d325601f82d876912fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 07/31] fix: a lazy document keeps its reference when pickled

---
 py/docria/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index e110109..cccd615 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -398,6 +398,7 @@ class MsgpackDocument:
         return {"doc": self.rawdata.getvalue(), "ref": self.ref}
 
     def __setstate__(self, state):
+        self.ref = state["ref"]
         self.rawdata = BytesIO(state["doc"])
         if self.rawdata.read(4) != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
-- 
2.43.0


From 692414c5d12d1a0674049378a2a7805e554ff640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 08/31] fix: add_many validates the nodes of a generator too

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 5b5ec4a..fe9e39b 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1504,7 +1504,7 @@ class NodeLayerCollection(NodeCollection):
             self.num += 1
 
         if full_validation:
-            for node in nodes:
+            for node in self._nodes[start_pos:]:
                 assert self.validate(node), "Node not valid"
 
         if default_fill and len(self._default_values) > 0:
-- 
2.43.0


From 58f9dac339982a828b415a53c47ecda5ad423691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 09/31] fix: remove_layer considers node span fields, cascades
 to referring fields and reports the removal

---
 py/docria/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index fe9e39b..4322bb9 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1856,7 +1856,7 @@ class Document:
         for k, v in self.layers.items():
             if k != name:
                 for fk, fv in v.schema.fields.items():
-                    if fv.typename == DataTypeEnum.NODEREF or fv.typename == DataTypeEnum.NODEREF_MANY:
+                    if fv.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY, DataTypeEnum.NODEREF_SPAN}:
                         if fv.options["layer"] == name:
                             referencing_layer_field.setdefault(k, []).append(fk)
 
@@ -1869,7 +1869,12 @@ class Document:
             raise DataValidationError("Attempting to remove layer %s, but is referenced from layer(s)+field(s): %s"
                                       % (name, layer_field_names))
 
+        for referring_layer, fields in referencing_layer_field.items():
+            for field in fields:
+                self.layers[referring_layer].remove_field(field)
+
         del self.layers[name]
+        return True
 
     def __repr__(self):
         return "Document(%d layers, %d texts%s)" % (
-- 
2.43.0


From 920c49a979ab7a3d553c9684e77998e0a91b7365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 10/31] fix: a truncated document raises an error, not an
 end-of-iteration signal

---
 py/docria/codec.py      | 38 +++++++++++++++++++-------------------
 py/docria/collection.py |  6 +++---
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index cccd615..02accdb 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -414,7 +414,7 @@ class MsgpackDocument:
             self.rawdata.seek(4)
 
             unpacker = msgpack.Unpacker(self.rawdata, raw=False)
-            prop_sz = next(unpacker)
+            prop_sz = unpacker.unpack()
             prop_start = unpacker.tell() + 4
 
             self._prop = (prop_start, prop_sz)
@@ -427,7 +427,7 @@ class MsgpackDocument:
             types, schema = MsgpackCodec.decode_schema(unpacker)
             self._schema = types, schema
 
-            texts_len = next(unpacker)
+            texts_len = unpacker.unpack()
             texts_start = unpacker.tell()+start_pos
             self._texts = (texts_start, texts_len)
 
@@ -438,7 +438,7 @@ class MsgpackDocument:
 
             layer_mapping = {}
             for typename in self._schema[0]:
-                layer_len = next(unpacker)
+                layer_len = unpacker.unpack()
                 layer_start = unpacker.tell() + start_pos
                 layer_mapping[typename] = (layer_start, layer_len)
                 self.rawdata.seek(layer_start+layer_len)
@@ -669,16 +669,16 @@ class MsgpackCodec:
     @staticmethod
     def decode_property(unpacker: msgpack.Unpacker, *props, **kwargs):
         if len(props) == 0:
-            output = next(unpacker)  # type: dict
+            output = unpacker.unpack()  # type: dict
         else:
             prop_keys = set(props)
             output = dict()
 
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
-                k = next(unpacker)
+                k = unpacker.unpack()
                 if k in prop_keys:
-                    v = next(unpacker)
+                    v = unpacker.unpack()
                     output[k] = v
                 else:
                     unpacker.skip()
@@ -688,24 +688,24 @@ class MsgpackCodec:
 
     @staticmethod
     def decode_schema(unpacker: msgpack.Unpacker):
-        types = next(unpacker)
+        types = unpacker.unpack()
         schema = {}  # type: Dict[str, List[Tuple[str, DataType]]]
 
         for typename in types:
-            num_fields = next(unpacker)
+            num_fields = unpacker.unpack()
 
             nl = NodeLayerSchema(typename)
 
             fields = []
 
             for i in range(num_fields):
-                fieldname = next(unpacker)
-                has_args = next(unpacker)
-                fieldtype = next(unpacker)
+                fieldname = unpacker.unpack()
+                has_args = unpacker.unpack()
+                fieldtype = unpacker.unpack()
                 ttype = String2DataType[fieldtype]
 
                 if has_args:
-                    fieldargs = next(unpacker)
+                    fieldargs = unpacker.unpack()
                     fields.append((fieldname, DataType(ttype, **fieldargs)))
                 else:
                     fields.append((fieldname, DataType(ttype)))
@@ -719,16 +719,16 @@ class MsgpackCodec:
     @staticmethod
     def decode_texts(unpacker, *texts):
         if len(texts) == 0:
-            return next(unpacker)
+            return unpacker.unpack()
         else:
             output = {}
 
             prop_keys = set(texts)
             num_entries = unpacker.read_map_header()
             for i in range(num_entries):
-                k = next(unpacker)
+                k = unpacker.unpack()
                 if k in prop_keys:
-                    v = next(unpacker)
+                    v = unpacker.unpack()
                     output[k] = v
                 else:
                     unpacker.skip()
@@ -758,7 +758,7 @@ class MsgpackCodec:
 
     @staticmethod
     def decode_layer(unpacker, doc, typename, text2offsets, layerschema, *fields, **kwargs):
-        num_nodes = next(unpacker)
+        num_nodes = unpacker.unpack()
         nodes = [Node().with_id(i) for i in range(num_nodes)]
 
         fieldindx = None
@@ -818,14 +818,14 @@ class MsgpackCodec:
                     else:
                         decoder = ext_field
 
-                special_encoding = next(unpacker)
+                special_encoding = unpacker.unpack()
                 if special_encoding:
                     raise NotImplementedError("special_encoding")
 
-                coldata = next(unpacker)
+                coldata = unpacker.unpack()
                 decoder(coldata)
             else:
-                special_encoding = next(unpacker)
+                special_encoding = unpacker.unpack()
                 if special_encoding:
                     raise NotImplementedError("special_encoding")
 
diff --git a/py/docria/collection.py b/py/docria/collection.py
index 5c03c24..58eacc7 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -304,11 +304,11 @@ class MsgpackDocumentReader:
 
         self.unpacker = Unpacker(self.inputio, raw=False)
 
-        codecname = next(self.unpacker)
+        codecname = self.unpacker.unpack()
         self.codec = get_codec(codecname).decompress
 
-        self.num_doc_per_block = next(self.unpacker)
-        self.advanced = next(self.unpacker)
+        self.num_doc_per_block = self.unpacker.unpack()
+        self.advanced = self.unpacker.unpack()
         if self.advanced:
             raise NotImplementedError("Advanced mode not implemented.")
 
-- 
2.43.0


From 34dd572d0be8d78e0671f1cabb30f082c4e6cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 11/31] fix: references of iterated documents name the block
 they were read from

---
 py/docria/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 58eacc7..9b9342e 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -383,7 +383,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
         while self.block is None:
             datablock = self.readblock()
@@ -396,7 +396,7 @@ class MsgpackDocumentReader:
             if doc is None:
                 self.block = None
             else:
-                return MsgpackDocument(doc, ref=(self._lastblockpos, start))
+                return MsgpackDocument(doc, ref=(self.block.position, start))
 
     def close(self):
         self.inputio.close()
-- 
2.43.0


From 948955aacfd0ae3be1cb15c5344b045efbac4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 12/31] fix: streams which accept or deliver fewer bytes than
 asked, and inputs that cannot seek

---
 py/docria/codec.py      | 13 ++++++++++-
 py/docria/collection.py | 48 ++++++++++++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 02accdb..7607b89 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -368,6 +368,17 @@ class MsgpackDocument:
     >>> doc = newdoc.document()
     """
 
+    def _read_magic(self):
+        magic = self.rawdata.read(4)
+        while magic and len(magic) < 4:
+            more = self.rawdata.read(4 - len(magic))
+            if not more:
+                break
+
+            magic += more
+
+        return magic
+
     def __init__(self, data_or_document, ref=None):
         """
         Create a MsgpackDocument
@@ -385,7 +396,7 @@ class MsgpackDocument:
         else:
             raise ValueError(f"Unsupported type for MsgpackDocument: {type(data_or_document)}")
 
-        if self.rawdata.read(4) != b"DM_1":
+        if self._read_magic() != b"DM_1":
             raise ValueError("Magic bytes is not DM_1")
 
         self._read_state = 0
diff --git a/py/docria/collection.py b/py/docria/collection.py
index 9b9342e..2411ea9 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -38,6 +38,32 @@ def _module_available(name):
         return False
 
 
+def _write_fully(outputio, data):
+    """Write all of data, an output is allowed to accept less than it was given in one call."""
+    while len(data) > 0:
+        written = outputio.write(data)
+        if written is None:
+            # File-like object which does not report any count
+            return
+        elif written <= 0:
+            raise IOError("Output did not accept any more data, %d bytes left to write" % len(data))
+
+        data = data[written:]
+
+
+def _read_fully(inputio, n):
+    """Read n bytes, less is returned only at the end of the input."""
+    data = inputio.read(n)
+    while data and len(data) < n:
+        more = inputio.read(n - len(data))
+        if not more:
+            break
+
+        data += more
+
+    return data
+
+
 class _BoundaryReader(RawIOBase):
     """Note: Seek is not ready for prime time yet, unresolved bugs."""
     def __init__(self, inputio):
@@ -120,7 +146,7 @@ class _BoundaryWriter(RawIOBase):
             raise ValueError("Got invalid boundary value: %d, "
                              "valid value is 12 to 30 which represents 2^12 (4 kiB) to 2^30 (1 GiB)" % boundary)
 
-        self.outputio.write(bytes([boundary]))
+        _write_fully(self.outputio, bytes([boundary]))
 
         self.written = 1
         self.lastsplit = 1
@@ -146,7 +172,7 @@ class _BoundaryWriter(RawIOBase):
         if delta <= -0x80000000:
             deltapos = -0x80000000
 
-        self.outputio.write(struct.pack(">i", deltapos))
+        _write_fully(self.outputio, struct.pack(">i", deltapos))
 
         self.written += 4
         self.seg += 1
@@ -157,7 +183,7 @@ class _BoundaryWriter(RawIOBase):
 
         maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
         while left > 0:
-            self.outputio.write(data[pos:pos+maxwrite])
+            _write_fully(self.outputio, data[pos:pos+maxwrite])
             pos += maxwrite
             self.written += maxwrite
             left -= maxwrite
@@ -166,6 +192,8 @@ class _BoundaryWriter(RawIOBase):
                 self._write_boundary()
                 maxwrite = min(((self.seg + 1) << self.boundary) - self.written, left)
 
+        return len(data)
+
     def close(self):
         self.outputio.close()
 
@@ -298,7 +326,7 @@ class MsgpackDocumentReader:
 
         self.inputio = inputio
         self.dataread = 4
-        header = self.inputio.read(4)
+        header = _read_fully(self.inputio, 4)
         if header != b"Dmf1":
             raise IOError("Header does not match expected format 'Dmf1', found: %s" % header.decode("latin1"))
 
@@ -313,7 +341,7 @@ class MsgpackDocumentReader:
             raise NotImplementedError("Advanced mode not implemented.")
 
         self.block = None  # type: MsgpackDocumentBlock
-        self._lastblockpos = inputio.tell()
+        self._lastblockpos = self.dataread
 
     def __iter__(self)->Iterator[MsgpackDocument]:
         return self
@@ -449,10 +477,10 @@ class MsgpackDocumentWriter:
         self.outputio = outputio
         self.packer = Packer(use_bin_type=True)
 
-        self.outputio.write(b"Dmf1")
-        self.outputio.write(self.packer.pack(codec.name))
-        self.outputio.write(self.packer.pack(num_docs_per_block))
-        self.outputio.write(self.packer.pack(False))
+        _write_fully(self.outputio, b"Dmf1")
+        _write_fully(self.outputio, self.packer.pack(codec.name))
+        _write_fully(self.outputio, self.packer.pack(num_docs_per_block))
+        _write_fully(self.outputio, self.packer.pack(False))
 
         if isinstance(self.outputio, _BoundaryWriter):
             self.outputio.split()
@@ -500,7 +528,7 @@ class MsgpackDocumentWriter:
         This might result in blocks having less than specified number of documents per block.
         """
         if self.current_block_count > 0:
-            self.outputio.write(self.packer.pack(self.codec(self.currentblock.getvalue())))
+            _write_fully(self.outputio, self.packer.pack(self.codec(self.currentblock.getvalue())))
 
             if isinstance(self.outputio, _BoundaryWriter):
                 self.outputio.split()
-- 
2.43.0


From 439916e6dc47a2a3b67598efeed25a52bee69c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 13/31] fix: flush also flushes the output stream and is
 retried when that fails

---
 py/docria/collection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 2411ea9..97d387f 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -194,6 +194,9 @@ class _BoundaryWriter(RawIOBase):
 
         return len(data)
 
+    def flush(self):
+        self.outputio.flush()
+
     def close(self):
         self.outputio.close()
 
@@ -487,6 +490,7 @@ class MsgpackDocumentWriter:
 
         self.currentblock = BytesIO()
         self.current_block_count = 0
+        self.flush_pending = True
         self.codec_name = codec.name
         self.codec = codec.compress  # type: Callable[[bytes], bytes]
         self.num_docs_per_block = num_docs_per_block
@@ -535,6 +539,11 @@ class MsgpackDocumentWriter:
 
             self.currentblock = BytesIO()
             self.current_block_count = 0
+            self.flush_pending = True
+
+        if self.flush_pending:
+            self.outputio.flush()
+            self.flush_pending = False
 
     def close(self):
         """Flush data and close the underlying storage"""
-- 
2.43.0


From 690bba3cca053e351ed4d1cf862c1779196774ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 14/31] fix: extension fields can be encoded and decoded

---
 py/docria/codec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 7607b89..965ef7e 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -80,7 +80,7 @@ class Codec:
                 typeschema[field] = fieldtype.encode()
 
                 propvalues = []
-                encoder = Codec.encoders[fieldtype.typename]
+                encoder = Codec.encoders.get(fieldtype.typename)
                 if fieldtype.typename == DataTypeEnum.EXT:
                     for n in v:
                         extv = node_getter(n, field, None)
@@ -89,12 +89,12 @@ class Codec:
                                 propvalues.append(extv)
                             elif isinstance(extv, ExtData):
                                 propvalues.append(extv.encode())
+                            elif isinstance(extv, Document):
+                                propvalues.append(doc_encoder(extv))
                             else:
                                 raise ValueError("Incorrect value.")
                         else:
                             propvalues.append(None)
-
-                        propvalues.append(None if extv is None else extv.encode())
                 elif fieldtype.typename == DataTypeEnum.SPAN:
                     encoder = encoder(offset_mapping[fieldtype.options["context"]][0])
                     for n in v:
@@ -801,7 +801,7 @@ class MsgpackCodec:
 
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = extdata(v.data)
+                            n[col] = extdata(v.data if isinstance(v, msgpack.ExtType) else v)
 
                 def span_field(text, offsets):
                     nonlocal nodes
-- 
2.43.0


From a5a03fffd46d5f81225ba3fe5d549cbde1a9110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 15/31] fix: a subset of the layers of a lazy document can be
 decoded

---
 py/docria/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 965ef7e..86fe3be 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -509,7 +509,7 @@ class MsgpackDocument:
             layerschema = schema[typename]
             all_nodes[typename] = MsgpackCodec.decode_layer(unpacker, doc, typename, text2offsets, layerschema, **kwargs)
 
-        Codec.commit_layers(doc, types, schema, all_nodes)
+        Codec.commit_layers(doc, layer_set, schema, all_nodes)
         return doc
 
 
-- 
2.43.0


From dba4f604874a77a091b6368dcabe03e0601608da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 16/31] fix: lazy documents backed by any seekable stream can
 be stored and pickled

---
 py/docria/codec.py      | 14 ++++++++++++--
 py/docria/collection.py |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 86fe3be..551e1f4 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -406,7 +406,7 @@ class MsgpackDocument:
         self._layers = None
 
     def __getstate__(self):
-        return {"doc": self.rawdata.getvalue(), "ref": self.ref}
+        return {"doc": self.binary(), "ref": self.ref}
 
     def __setstate__(self, state):
         self.ref = state["ref"]
@@ -460,7 +460,17 @@ class MsgpackDocument:
 
     def binary(self)->bytes:
         """Get this document as binary value"""
-        return self.rawdata.getvalue()
+        if isinstance(self.rawdata, BytesIO):
+            return self.rawdata.getvalue()
+
+        self.rawdata.seek(0)
+        output = bytearray()
+        data = self.rawdata.read()
+        while data:
+            output += data
+            data = self.rawdata.read()
+
+        return bytes(output)
 
     def properties(self, *props):
         """Get document properties"""
diff --git a/py/docria/collection.py b/py/docria/collection.py
index 97d387f..6c9d621 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -513,7 +513,7 @@ class MsgpackDocumentWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc, **kwargs)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
@@ -634,7 +634,7 @@ class TarMsgpackWriter:
         if isinstance(doc, Document):
             data = MsgpackCodec.encode(doc)
         elif isinstance(doc, MsgpackDocument):
-            data = doc.rawdata.getvalue()
+            data = doc.binary()
         else:
             raise ValueError("Got unsupported doc, only Document and MsgpackDocument allowed")
 
-- 
2.43.0


From a7b8b403bdb93e2910a9ece0077e560e46892bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 17/31] fix: references of decoded documents are validated,
 dangling ones were stored as some other node

---
 py/docria/codec.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 551e1f4..0a03a2f 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -15,7 +15,8 @@
 # limitations under the License.
 #
 """Codecs, encoding/decoding documents to/from binary or text representations"""
-from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan
+from docria.model import TextSpan, Document, DataTypeEnum, NodeLayerSchema, String2DataType, DataType, Node, ExtData, NodeSpan, \
+    DataTypeNoderef, DataTypeNoderefList, DataTypeNodespan, DataTypeTextspan
 import msgpack
 import json
 import logging
@@ -32,6 +33,20 @@ class DataError(Exception):
         super().__init__(message)
 
 
+# Decoded reference and span fields are validated as those declared in code,
+# otherwise a reference to a removed node would be stored as some other node.
+_decoded_datatypes = {
+    DataTypeEnum.NODEREF: DataTypeNoderef,
+    DataTypeEnum.NODEREF_MANY: DataTypeNoderefList,
+    DataTypeEnum.NODEREF_SPAN: DataTypeNodespan,
+    DataTypeEnum.SPAN: DataTypeTextspan
+}
+
+
+def _decoded_datatype(ttype: DataTypeEnum, **args) -> DataType:
+    return _decoded_datatypes.get(ttype, DataType)(ttype, **args)
+
+
 def _codec_encode_span(offset_mapping: Dict[int, int]):
     def encoder(l, v: "TextSpan"):
         if v is None:
@@ -221,7 +236,7 @@ class JsonCodec:
                 if isinstance(typedef, dict): # Advanced type
                     ttype = String2DataType[typedef["type"]]
                     args = typedef["args"]
-                    fields.append((fieldname, DataType(ttype, **args)))
+                    fields.append((fieldname, _decoded_datatype(ttype, **args)))
                 elif isinstance(typedef, str): # Simple type
                     ttype = String2DataType[typedef]
                     fields.append((fieldname, DataType(ttype)))
@@ -727,7 +742,7 @@ class MsgpackCodec:
 
                 if has_args:
                     fieldargs = unpacker.unpack()
-                    fields.append((fieldname, DataType(ttype, **fieldargs)))
+                    fields.append((fieldname, _decoded_datatype(ttype, **fieldargs)))
                 else:
                     fields.append((fieldname, DataType(ttype)))
 
-- 
2.43.0


From d9d29cc44ca55c6ee7b39a14ab72d6a0b59a2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 18/31] fix: dfs_leaves does not return inner nodes whose
 children were visited

---
 py/docria/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index a9e1a36..8f86c05 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -183,7 +183,7 @@ def dfs_leaves(start: Node,
 
         visited.add(current)
 
-        child_nodes = [ch for ch in children(current) if ch not in visited]
+        child_nodes = list(children(current))
         child_nodes.reverse()
 
         if not child_nodes and is_result and is_result(current):
-- 
2.43.0


From eff1545d8d520a696ee4cb7906e580de2247fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 19/31] fix: children_of with several fields uses the given
 node for each field

---
 py/docria/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/algorithm.py b/py/docria/algorithm.py
index 8f86c05..633526a 100644
--- a/py/docria/algorithm.py
+++ b/py/docria/algorithm.py
@@ -62,8 +62,8 @@ def children_of(layer: NodeLayerCollection, *props):
     def compose(yielders):
         def yielder(n: Node):
             for yielder in yielders:
-                for n in yielder(n):
-                    yield n
+                for child in yielder(n):
+                    yield child
 
         return yielder
 
-- 
2.43.0


From 1cdc61360db12433d4b4134082cc036a457ff032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 20/31] fix: accepting extra fields does not turn off type
 validation

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 4322bb9..86464e8 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1993,7 +1993,7 @@ class Document:
             validate_fn = v.validate
 
             # Validate nodes
-            if type_validation and not extra_fields_ok:
+            if type_validation:
                 for n in v:
                     validate_fn(n)
 
-- 
2.43.0


From b321bdc0401367558366e75148c489078e0fe642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 21/31] fix: boolean and string fields with a default validate
 their values

---
 py/docria/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 86464e8..559292d 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1118,7 +1118,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._string_raw
         else:
-            return DataType(DataTypeEnum.STRING, default=default)
+            return DataTypeString(DataTypeEnum.STRING, default=default)
 
     @staticmethod
     def bool(default: Optional[bool] = False):
@@ -1127,7 +1127,7 @@ class DataTypes:
         elif default is None:
             return DataTypes._bool_raw
         else:
-            return DataType(DataTypeEnum.BOOL, default=default)
+            return DataTypeBool(DataTypeEnum.BOOL, default=default)
 
     boolean = bool
 
-- 
2.43.0


From 2a0bc218d3b8804ffa8865565282350de047345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 22/31] fix: zeroed lzma blocks are reported instead of read as
 empty

---
 py/docria/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index 6c9d621..b70f407 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -292,7 +292,8 @@ register_codec("bzip2", bz2.compress, bz2.decompress)
 register_codec("zipsq", lambda x: zlib.compress(
                     zlib.compress(x, level=zlib.Z_BEST_COMPRESSION), level=zlib.Z_BEST_COMPRESSION),
                lambda x: zlib.decompress(zlib.decompress(x)))
-register_codec("lzma", lzma.compress, lzma.decompress)
+# Only the format which is written: a block overwritten with zeros is an empty stream in the legacy format.
+register_codec("lzma", lzma.compress, lambda x: lzma.decompress(x, format=lzma.FORMAT_XZ))
 
 if not TYPE_CHECKING and _module_available("lz4.frame"):
     try:
-- 
2.43.0


From d7f415a3661ff3f7bc58e22ab3b51fa888245147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 23/31] fix: references into a replaced or foreign layer of the
 same name are rejected

---
 py/docria/model.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 559292d..1afa4fa 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -2003,6 +2003,24 @@ class Document:
                                 k, ", ".join(set(n.keys()).difference(fieldkeys))), set(n.keys())
                         )
 
+                # Names are not enough: the referenced layer might have been replaced or belong to another document.
+                for field, fieldtype in fieldtypes.items():
+                    if fieldtype.typename in {DataTypeEnum.NODEREF, DataTypeEnum.NODEREF_MANY,
+                                              DataTypeEnum.NODEREF_SPAN}:
+                        target = self.layers[fieldtype.options["layer"]]
+                        for n in v:
+                            if field in n:
+                                value = n[field]
+                                if fieldtype.typename == DataTypeEnum.NODEREF:
+                                    value = (value,)
+                                elif fieldtype.typename == DataTypeEnum.NODEREF_SPAN:
+                                    value = (value.left, value.right)
+
+                                if any(ref.collection is not target for ref in value):
+                                    raise SchemaValidationError(
+                                        "Field '%s' in layer '%s' refers to a node which is not in layer '%s' "
+                                        "of this document" % (field, k, fieldtype.options["layer"]), {field})
+
             # Collect span offsets
             for field, fieldtype in fieldtypes.items():
                 if fieldtype.typename == DataTypeEnum.SPAN:
-- 
2.43.0


From 72e720413be806809e3b1016e0a6701151d0ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:36 +0000
Subject: [PATCH 24/31] fix: multi-file index locates its files relative to
 basepath, not the working directory

---
 py/docria/collection.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/py/docria/collection.py b/py/docria/collection.py
index b70f407..448360c 100644
--- a/py/docria/collection.py
+++ b/py/docria/collection.py
@@ -728,10 +728,12 @@ class DocumentFileIndex:
 
         return DocumentFileIndex(source_filepath, property2docis, docs)
 
-    def search(self, conds, lazy=False):
+    def search(self, conds, lazy=False, basepath=None):
         if len(conds) == 0:
             return
 
+        filepath = self.filepath if basepath is None else os.path.join(basepath, self.filepath)
+
         all_hits = []
         for k, v in dict(conds).items():
             all_hits.append(set(self.properties.get(k, {}).get(v, [])))
@@ -743,7 +745,7 @@ class DocumentFileIndex:
         from docria.codec import MsgpackCodec
 
         if len(results) > 0:
-            reader = MsgpackDocumentIO.read(self.filepath)
+            reader = MsgpackDocumentIO.read(filepath)
             lastblk = None
 
             # Optimized reading if multiple hits exist within a block sequentially
@@ -764,7 +766,7 @@ class DocumentFileIndex:
                         yield MsgpackCodec.decode(next(lastblk._unpacker))
                 except Exception as e:
                     raise IOError("Failed to read document in %s "
-                                  "for ref %d, %d" % (self.filepath, ref[0], ref[1])) from e
+                                  "for ref %d, %d" % (filepath, ref[0], ref[1])) from e
 
 
 class DocumentIndex:
@@ -774,12 +776,13 @@ class DocumentIndex:
         self.index = {}  # type: Dict[str, DocumentFileIndex]
 
     def add(self, index: "DocumentFileIndex"):
-        index.filepath = os.path.relpath(index.filepath, self.basepath)
-        self.index[index.filepath] = index
+        # The path is only relative to basepath in this index, not for other users of the given one.
+        filepath = os.path.relpath(index.filepath, self.basepath)
+        self.index[filepath] = DocumentFileIndex(filepath, index.properties, index.docrefs)
 
     def search(self, conds, lazy=False):
         for indx in self.index.values():
-            for doc in indx.search(conds, lazy=lazy):
+            for doc in indx.search(conds, lazy=lazy, basepath=self.basepath):
                 yield doc
 
     def save(self, path):
-- 
2.43.0


From 608bf28f3d1cce4bec4741442e4aa639591c4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 25/31] fix: values which only resemble the declared type are
 rejected when encoding

A node in a node span field passed the checks of its left and right nodes and
was stored as the span from its left to its right neighbour.
---
 py/docria/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 1afa4fa..ecd0f83 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1995,7 +1995,9 @@ class Document:
             # Validate nodes
             if type_validation:
                 for n in v:
-                    validate_fn(n)
+                    if not validate_fn(n):
+                        # Close enough to pass the checks above, e.g. a node, which has left and right as a span does.
+                        raise SchemaValidationError("Invalid value in layer %s, node: %s" % (k, repr(n)), set(n.keys()))
 
                     if not extra_fields_ok and len(set(n.keys()).difference(fieldkeys)) > 0:
                         raise SchemaValidationError(
-- 
2.43.0


From f71457e90ec801675c3dce900687d4f774189f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 26/31] fix: adding a field which exists raises
 SchemaValidationError as documented, not TypeError

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index ecd0f83..6311787 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1327,7 +1327,7 @@ class NodeLayerCollection(NodeCollection):
         :raises SchemaValidationError if the field conflicts with existing field
         """
         if name in self._schema.fields:
-            raise SchemaValidationError("Cannot add field %s, it already exists!" % name)
+            raise SchemaValidationError("Cannot add field %s, it already exists!" % name, {name})
 
         self._schema.add(name, dtype)
         self._update_default_values()
-- 
2.43.0


From 2ee65449af4f09c5261ffd92a7583b6da08b613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 27/31] fix: add_field accepts type constructors as the schema
 does, the field was added before it failed

---
 py/docria/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 6311787..716bfda 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1334,7 +1334,7 @@ class NodeLayerCollection(NodeCollection):
 
         if init_with_default:
             # Set all current values to the default
-            defaultvalue = dtype.default()
+            defaultvalue = self._schema.fields[name].default()
             if defaultvalue is not None:
                 for n in self:
                     n[name] = defaultvalue
-- 
2.43.0


From d4dd1cd4e300f296b4548fa52ff2739eebdfa888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 28/31] fix: documents embedded in a document could be encoded
 as JSON, but not decoded again

---
 py/docria/codec.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/py/docria/codec.py b/py/docria/codec.py
index 0a03a2f..330ad11 100644
--- a/py/docria/codec.py
+++ b/py/docria/codec.py
@@ -293,15 +293,10 @@ class JsonCodec:
                 def ext_field(data):
                     nonlocal nodes
 
-                    typename = typedef.options["type"]
-                    if typename == "doc":
-                        extdata = MsgpackDocumentExt
-                    else:
-                        extdata = lambda v: ExtData(typename, v)
-
                     for n, v in zip(nodes, data):
                         if v is not None:
-                            n[col] = typename(standard_b64decode(data))
+                            # Documents are the only extended values which can be encoded
+                            n[col] = JsonCodec.decode_object(v)
 
                 decoder = simple_field
                 if typedef.typename == DataTypeEnum.SPAN:
-- 
2.43.0


From a1082000f951a7585b5d8ecc2ad5291ed6c8be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 29/31] fix: spans which are not in the document's text are
 rejected when encoding

---
 py/docria/model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py/docria/model.py b/py/docria/model.py
index 716bfda..d35bebd 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -2022,6 +2022,17 @@ class Document:
                                     raise SchemaValidationError(
                                         "Field '%s' in layer '%s' refers to a node which is not in layer '%s' "
                                         "of this document" % (field, k, fieldtype.options["layer"]), {field})
+                    elif fieldtype.typename == DataTypeEnum.SPAN:
+                        # The same goes for texts, only offsets are stored.
+                        text = self._texts[fieldtype.options["context"]]
+                        for n in v:
+                            if field in n:
+                                span = n[field]
+                                if (span.text is not text and span.text.text != text.text) or \
+                                        not 0 <= span.start <= span.stop <= len(text.text):
+                                    raise SchemaValidationError(
+                                        "Field '%s' in layer '%s' holds a span which is not in text '%s' "
+                                        "of this document" % (field, k, fieldtype.options["context"]), {field})
 
             # Collect span offsets
             for field, fieldtype in fieldtypes.items():
-- 
2.43.0


From d7c07633651b73c82676d208df3b0271024d5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 30/31] fix: storing a document ended iterations over its
 layers early

---
 py/docria/model.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index d35bebd..13f8f5e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1523,15 +1523,12 @@ class NodeLayerCollection(NodeCollection):
             # No compacting needed.
             return
 
-        i = 0
-        for k in range(0, len(self._nodes)):
-            if self._nodes[k] is not None:
-                self._nodes[i] = self._nodes[k]
-                self._nodes[i]._id = i
-                i += 1
-
-        # Trim it
-        del self._nodes[i:]
+        # A new list: iterations which are under way keep the nodes they have left to visit.
+        nodes = [n for n in self._nodes if n is not None]
+        for i, n in enumerate(nodes):
+            n._id = i
+
+        self._nodes = nodes
 
     def filter(self, *fields, fn):
         """
-- 
2.43.0


From edd3ef8f197466575643ff3e30d53b456125eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 31/31] fix: documents made from one schema object shared their
 fields

---
 py/docria/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/docria/model.py b/py/docria/model.py
index 13f8f5e..660df3e 100644
--- a/py/docria/model.py
+++ b/py/docria/model.py
@@ -1828,7 +1828,9 @@ class Document:
         :return: NodeLayerCollection instance with the specified schema
         """
         if isinstance(__name, NodeLayerSchema):
-            typedef = __name
+            # A copy: a schema can be used for several documents, which have their own fields from here on.
+            typedef = NodeLayerSchema(__name.name)
+            typedef.fields.update(__name.fields)
         else:
             typedef = NodeLayerSchema(__name)
             typedef.set(**kwargs)
-- 
2.43.0

