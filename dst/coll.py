"""Helpers shared by the worlds which write and read collections."""
import importlib
import io

from . import docs
from .core import SimError, Violation, first_diff, xname
from .simio import SimRaw, Store, open_stream

CODECS = ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "zstd:ultra"]
FRAMINGS = [None, None, 12, 12, 13, 14, 20]
SHORTS = [None, None, [1], [1, 2, 3, 0], [5, 0, 4096], [7], [4096], [1, 0]]
STREAMS = ["bytesio", "raw", "pipe", "buffered"]


_modules = {}


def codec_pool():
    """The codecs which are to be there: lz4 and zstd come with optional modules."""
    for name, mod in (("lz4", "lz4.frame"), ("zstd", "zstd")):
        if name not in _modules:
            try:
                importlib.import_module(mod)
                _modules[name] = True
            except ImportError:
                _modules[name] = False
    return [c for c in CODECS if _modules.get(c.split(":")[0], True)]


def gen_codec(r):
    from_pool = r.weighted([(3, "none"), (6, "zip"), (2, "bzip2"), (2, "zipsq"), (2, "lzma"), (2, "lz4"), (2, "zstd"),
                            (1, "zstd:high"), (1, "zstd:ultra")])
    return from_pool


def codec(name):
    from docria.collection import get_codec
    if name not in codec_pool():
        name = "zip"
    c = get_codec(name, no_except=True)
    if c is None:
        raise Violation("codec-missing", "get_codec(%r) although it comes with the library" % name)
    return c


def frame_writer(raw, framing):
    from docria.collection import _BoundaryWriter
    return raw if framing is None else _BoundaryWriter(raw, boundary=framing)


def frame_reader(stream, framing):
    from docria.collection import _BoundaryReader
    return stream if framing is None else _BoundaryReader(stream)


def as_input(doc, how, ctx=None):
    """A document in one of the forms a writer accepts."""
    from docria.codec import MsgpackCodec, MsgpackDocument
    if how == "doc":
        return doc
    if how == "lazy":
        return MsgpackDocument(doc)
    data = MsgpackCodec.encode(doc)
    if how == "bytes":
        return MsgpackDocument(data)
    if how == "used":       # partially decoded before it is passed on
        d = MsgpackDocument(data)
        d.texts()
        d.properties("uid")
        return d
    if how == "stream":
        return MsgpackDocument(SimRaw(ctx, Store(data), writable=False))
    if how in ("file", "usedfile"):     # neither bytes nor a BytesIO
        d = MsgpackDocument(io.BufferedReader(io.BytesIO(data), 64))
        if how == "usedfile":
            d.properties("uid")
        return d
    if how == "bstream":
        s = io.BytesIO(data)
        return MsgpackDocument(s)
    raise ValueError(how)


HOWS = ["doc", "doc", "doc", "doc", "lazy", "bytes", "used", "stream", "bstream", "file", "usedfile"]


class Closing:
    """Keeps streams alive until the run ends, so that no finaliser acts at an uncontrolled time."""
    def __init__(self, ctx):
        self.items = []
        ctx.cleanups.append(self._drop)

    def _drop(self):
        self.items.clear()

    def keep(self, *xs):
        self.items.extend(xs)
        return xs[0]


def full(lazy):
    """Canonical content of a lazy document."""
    return docs.observe(lazy.document())


READ_MODES = ["iter", "blocks", "documents", "docreader", "next", "io", "forblocks", "peeked", "mixed"]


def read_all(ctx, reader, mode, limit, eager=None):
    """Read a whole collection; returns [canonical document]. `limit` bounds invented documents."""
    from docria.collection import DocumentReader
    from docria.codec import MsgpackCodec
    out = []

    def put(c):
        out.append(c)
        if len(out) > limit:
            ctx.fail("too-many-documents", "more than %d documents" % limit)

    if mode in ("iter", "io"):
        for i, d in enumerate(reader):
            put(full(d) if i % 2 == 0 else docs.observe(MsgpackCodec.decode(d.binary())))
    elif mode == "next":
        while True:
            d = next(reader, None)
            if d is None:
                break
            put(full(d))
    elif mode == "blocks":
        for b in reader.blocks():
            for d in b:
                put(full(d))
    elif mode == "documents":
        while True:
            b = reader.readblock()
            if b is None:
                break
            for pos, d in b.documents():
                put(full(d))
    elif mode == "peeked":      # a few documents are looked at before all of a block are asked for
        for k, b in enumerate(reader.blocks()):
            for _ in range(k % 3 + 1):
                next(b, None)
            if k % 4 == 3:
                b.documents()
            for pos, d in b.documents():
                put(full(d))
    elif mode == "mixed":       # the first of each block by next(), the rest by a loop
        for b in reader.blocks():
            d = next(b, None)
            if d is not None:
                put(full(d))
            for d in b:
                put(full(d))
    elif mode == "forblocks":
        bl = []
        for b in reader.blocks():       # all blocks first, their documents later
            bl.append(b)
            if len(bl) > limit + 5:
                ctx.fail("too-many-documents", "endless blocks")
        for b in bl:
            for d in b:
                put(full(d))
    elif mode == "docreader":
        for d in DocumentReader(reader):
            put(docs.observe(d))
    return out


def same(ctx, got, want, kind, what=""):
    """Equal lists of canonical documents."""
    if got != want:
        gu, wu = [docs.uid(g) for g in got], [docs.uid(w) for w in want]
        if gu != wu:
            ctx.fail(kind, "%s documents read %s, expected %s" % (what, gu[:12], wu[:12]))
        ctx.fail(kind, "%s %s" % (what, first_diff(got, want)))
