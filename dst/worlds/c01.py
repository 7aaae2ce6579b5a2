"""C01: a closed collection reads back every document, equal and in order."""
import io
import os

from .. import coll, docs
from ..core import SimError, xname
from ..rng import derive
from ..simio import SimRaw, Store, open_stream, use_scratch

ID = "C01"
RUNS = {"quick": 9000, "thorough": 200000}
LISTS = ["ops", "hops", "reads"]
RULE = ("A run draws a history of document writes (decoded, encoded, partially decoded, stream-backed), flushes, "
        "caller edits after the write, a closing mode, a codec, block size, framing and target, then rewrite hops "
        "and readers over streams with short reads.")
NONTRIVIAL = "at least one document was written and read back by at least one reader."
STATES = "distinct (codec, block size class, framing, target, block count class, reader mode, stream kind) combinations"
STUB = ["file objects (SimRaw with short reads and writes, pipes; real files only in a scratch directory)"]


def gen(r, tier):
    ops = []
    big = r.chance(0.04)
    giant = r.chance(0.008)
    n = r.choice([0, 1, 2, 3, 5, 8, 13]) if not r.chance(0.06) else r.randrange(20, 140)
    for _ in range(n):
        tok = docs.doc_token(r) if not (n > 13) else docs.doc_token(r, [(3, "nil"), (3, "tiny"), (1, "small")])
        if big and r.chance(0.3):
            tok = [r.choice(["big", "huge"]), r.randrange(1 << 40)]
        ops.append(["write", tok, r.choice(coll.HOWS)])
        if r.chance(0.25):
            ops.append(["edit", r.randrange(1 << 30)])
        if r.chance(0.2):
            ops.append(["flush"])
        if r.chance(0.03):
            ops.append(["flush"])
        if r.chance(0.1):
            ops.append(["again", r.choice(coll.HOWS)])     # the same document object once more
    if giant:
        for i in range(r.choice([1, 1, 2, 5])):
            ops.insert(r.randrange(len(ops) + 1), ["write", ["giant", r.randrange(1 << 40)], r.choice(coll.HOWS)])
    if tier == "thorough" and r.chance(0.002):
        ops.append(["write", ["array32", r.randrange(100)], "doc"])
    shorts = [None, [4096], [65536, 100]] if giant else coll.SHORTS
    return {
        "codec": coll.gen_codec(r), "nper": r.choice([1, 2, 3, 4, 5, 7, 128, 128, 1000, 70000, 0, -1]),
        "framing": r.choice(coll.FRAMINGS), "out": r.choice(["raw", "raw", "buffered", "bytesio", "path", "docio"]),
        "bufsize": r.choice([512, 8192] if giant else [1, 16, 512, 8192]), "wshort": r.choice(shorts),
        "close": r.choice(["close", "close", "with", "exc", "interrupt", "exit", "generator", "double", "withclose"]),
        "ops": ops,
        "hops": [{"codec": coll.gen_codec(r), "nper": r.choice([1, 2, 3, 128, 0]), "framing": r.choice(coll.FRAMINGS),
                  "via": r.choice(["iter", "blocks", "documents", "peeked", "decoded"]), "touch": r.chance(0.4)}
                 for _ in range(r.choice([0, 0, 0, 1, 1, 2]))],
        "reads": [{"mode": r.choice(coll.READ_MODES), "stream": r.choice(coll.STREAMS),
                   "short": r.choice(shorts)} for _ in range(r.choice([1, 2, 2, 3]))],
    }


def open_writer(ctx, keep, plan):
    from docria.collection import DocumentIO, MsgpackDocumentWriter
    store = Store()
    c = coll.codec(plan["codec"])
    out = plan["out"]
    if out in ("path", "docio"):
        path = os.path.join(ctx.tmp, "c.docria")
        if out == "path" and plan["framing"] is None:
            w = MsgpackDocumentWriter(path, num_docs_per_block=plan["nper"], codec=c)
        else:
            w = DocumentIO.writefile(coll.frame_writer(open(path, "xb"), plan["framing"]),
                                     num_docs_per_block=plan["nper"], codec=c)
        keep.keep(w)
        return w, lambda: open(path, "rb").read()
    if out == "bytesio":
        class Keep(io.BytesIO):
            def close(s):
                if not s.closed:
                    s.final = s.getvalue()
                super().close()
        b = Keep()
        w = MsgpackDocumentWriter(coll.frame_writer(b, plan["framing"]), num_docs_per_block=plan["nper"], codec=c)
        keep.keep(w, b)
        return w, lambda: b.final
    raw = SimRaw(ctx, store, short=plan["wshort"])
    target = raw if out == "raw" else io.BufferedWriter(raw, plan["bufsize"])
    w = MsgpackDocumentWriter(coll.frame_writer(target, plan["framing"]), num_docs_per_block=plan["nper"], codec=c)
    keep.keep(w, raw, target)
    return w, lambda: bytes(store.data)


def execute(plan, ctx):
    from docria.collection import DocumentIO, MsgpackDocumentIO, MsgpackDocumentReader, MsgpackDocumentWriter
    from docria.codec import MsgpackDocument
    keep = coll.Closing(ctx)
    w, image = open_writer(ctx, keep, plan)
    expected = []

    def body():
        last, scrambled = None, False
        for op in plan["ops"]:
            ctx.steps += 1
            if op[0] == "write":
                doc = docs.build(docs.spec(op[1]))
                w.write(coll.as_input(doc, op[2], ctx))
                expected.append(docs.canon_token(op[1]))
                last, scrambled = doc, False
            elif op[0] == "again" and last is not None and not scrambled:
                last.props["again"] = len(expected)
                want = docs.observe(last)
                w.write(coll.as_input(last, op[1], ctx))
                expected.append(want)
            elif op[0] == "flush":
                w.flush()
            elif op[0] == "edit" and last is not None:
                docs.scramble(last, derive(op[1]))
                scrambled = True
                ctx.probes["edited after write"] += 1
            ctx.ev(op[0], len(expected))

    mode = plan["close"]
    if mode == "close":
        body()
        w.close()
    elif mode == "double":
        body()
        w.close()
        w.close()
    elif mode == "with":
        with w:
            body()
    elif mode == "withclose":
        with w:
            body()
            w.close()
    elif mode == "generator":
        def gen_():     # closing a suspended generator leaves the with-block
            with w:
                body()
                yield
        g = gen_()
        next(g)
        g.close()
        ctx.probes["left with-block by closing a generator"] += 1
    else:
        error = {"exc": SimError, "interrupt": KeyboardInterrupt, "exit": SystemExit}[mode]("caller")
        try:
            with w:
                body()
                raise error
        except (SimError, KeyboardInterrupt, SystemExit) as e:
            ctx.check(e is error, "exception-swallowed", "another exception: %r" % e)
            ctx.probes["left with-block by exception"] += 1
        else:
            ctx.fail("exception-swallowed", "with-block swallowed the caller's exception")
    data = image()
    ctx.ev("closed", len(expected))

    framing = plan["framing"]
    for h in plan["hops"]:
        reader = MsgpackDocumentReader(coll.frame_reader(io.BytesIO(data), framing))
        out = SimRaw(ctx, Store())
        keep.keep(reader, out)
        w2 = MsgpackDocumentWriter(coll.frame_writer(out, h["framing"]), num_docs_per_block=h["nper"],
                                   codec=coll.codec(h["codec"]))
        keep.keep(w2)

        def put(d):
            if h["touch"]:
                d.properties()
                d.texts("main")
            w2.write(d.document() if h["via"] == "decoded" else d)
        n = 0
        if h["via"] in ("iter", "decoded"):
            for d in reader:
                put(d)
                n += 1
                ctx.check(n <= len(expected), "too-many-documents", "rewrite hop")
        else:
            for b in reader.blocks():
                if h["via"] == "blocks":
                    for d in b:
                        put(d)
                        n += 1
                        ctx.check(n <= len(expected), "too-many-documents", "rewrite hop")
                else:
                    if h["via"] == "peeked":
                        next(b, None)
                    for pos, d in b.documents():
                        put(d)
        w2.close()
        data = bytes(out.store.data)
        framing = h["framing"]
        ctx.ev("hop", h["codec"], h["nper"], framing)
        ctx.probes["rewrite hop"] += 1

    for rd in plan["reads"]:
        store = Store(data)
        if rd["stream"] == "bytesio" and plan["out"] in ("path", "docio"):
            path = os.path.join(ctx.tmp, "r.docria")
            with open(path, "wb") as f:
                f.write(data)
            if framing is not None:
                reader = MsgpackDocumentReader(coll.frame_reader(open(path, "rb"), framing))
            elif rd["mode"] == "io":
                reader = MsgpackDocumentIO.read(path)
            elif rd["mode"] == "docreader":
                with DocumentIO.read(path) as dr:
                    got = []
                    for d in dr:
                        got.append(docs.observe(d))
                        ctx.check(len(got) <= len(expected), "too-many-documents", "")
                coll.same(ctx, got, expected, "read-back")
                continue
            else:
                reader = MsgpackDocumentReader(path)
        else:
            s = open_stream(ctx, store, rd["stream"], rd["short"])
            keep.keep(s)
            reader = MsgpackDocumentReader(coll.frame_reader(s, framing))
        keep.keep(reader)
        with reader:
            got = coll.read_all(ctx, reader, rd["mode"], len(expected))
        coll.same(ctx, got, expected, "read-back", "%s/%s" % (rd["mode"], rd["stream"]))
        ctx.ev("read", rd["mode"], rd["stream"], len(got))
        ctx.state(plan["codec"], min(plan["nper"], 128), framing, plan["out"], min(len(expected), 9), rd["mode"],
                  rd["stream"])
        if len(expected):
            ctx.nontrivial = True
    blocks = -(-len(expected) // max(1, plan["nper"]))
    if blocks > 1:
        ctx.probes["several blocks"] += 1
    if framing is not None and len(data) > (1 << framing):
        ctx.probes["crossed a boundary"] += 1
    if any(op[0] == "write" and op[1][0] in ("big", "huge", "giant") for op in plan["ops"]):
        ctx.probes["document over 16 KiB"] += 1
    if any(op[0] == "write" and op[1][0] == "giant" for op in plan["ops"]):
        ctx.probes["document over 1 MiB"] += 1
