"""C08: a truncated document is rejected and never looks like the end of data."""
import io
import os

from .. import coll, docs
from ..core import Violation, xname
from ..simio import SimRaw, Store

ID = "C08"
RUNS = {"quick": 7000, "thorough": 150000}
LISTS = ["cuts", "members"]
RULE = ("A run draws a document, cuts its encoding at every byte (small ones) or at section borders and random bytes, and "
        "decodes each remainder from bytes and streams, whole, lazily and as JSON; then truncated documents are placed "
        "between whole ones in a collection and read, indexed and searched.")
NONTRIVIAL = "at least one cut lay behind the header, or a truncated document was met inside a collection."
STATES = "distinct (document class, cut position class, way of decoding, error type) combinations"
STUB = ["encoded documents (a prefix survives), stream behind the decoder (SimRaw with short reads)"]


def gen(r, tier):
    cls = r.weighted([(1, "nil"), (4, "tiny"), (6, "small"), (2, "medium"), (0.7, "wide"), (0.3, "many"), (0.2, "big")])
    n = r.choice([10, 20, 40])
    cuts = [[r.choice(["any", "any", "tail", "head", "quarter"]), r.randrange(1 << 30)] for _ in range(n)]
    members = []
    if r.chance(0.5):
        for _ in range(r.choice([1, 2, 3, 5])):
            members.append([docs.doc_token(r, [(1, "nil"), (3, "tiny"), (3, "small")]),
                            r.randrange(1 << 30) if r.chance(0.45) else None])
    return {"doc": [cls, r.randrange(1 << 40)], "cuts": cuts, "all": cls in ("nil", "tiny") and r.chance(0.5),
            "short": r.choice(coll.SHORTS), "members": members, "nper": r.choice([1, 2, 3, 128]),
            "codec": coll.gen_codec(r), "json": r.chance(0.3)}


def must_raise(ctx, fn, what):
    """fn works on incomplete data: it has to raise a real error."""
    try:
        fn()
    except Violation:
        raise
    except StopIteration:
        ctx.fail("end-of-iteration-signal", what)
    except Exception as e:
        if isinstance(e, RuntimeError) and isinstance(e.__cause__, StopIteration):
            ctx.fail("end-of-iteration-signal", what + " (inside a generator)")
        return xname(e)
    ctx.fail("truncated-document-accepted", what)


def either(ctx, fn, check, what):
    try:
        v = fn()
    except Violation:
        raise
    except StopIteration:
        ctx.fail("end-of-iteration-signal", what)
    except Exception as e:
        return xname(e)
    if not check(v):
        ctx.fail("wrong-section", what)
    return "ok"


def execute(plan, ctx):
    from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument
    keep = coll.Closing(ctx)
    sp = docs.spec(plan["doc"])
    want = docs.canon_token(plan["doc"])
    data = MsgpackCodec.encode(docs.build(sp))
    coll.same(ctx, [docs.observe(MsgpackCodec.decode(data))], [want], "decode-differs", "whole document")
    props = {k: docs.canon_value(v) for k, v in sp["props"].items()}
    texts = dict(sp["texts"])

    if plan["all"] and len(data) <= 600:
        cuts = list(range(len(data)))
    else:
        cuts = []
        for kind, x in plan["cuts"]:
            n = len(data)
            cuts.append({"any": x % n, "tail": n - 1 - x % min(n, 16), "head": x % min(n, 24), "quarter": (x % 4) * n // 4}[kind])
    for i, cut in enumerate(cuts):
        ctx.steps += 1
        part = data[:cut]
        ctx.faults["truncated"] += 1
        if cut > 4:
            ctx.nontrivial = True
        where = "cut at %d of %d: " % (cut, len(data))
        res = [must_raise(ctx, lambda: MsgpackCodec.decode(part), where + "decode(bytes)")]

        def stream():
            if i % 3 == 0:
                return io.BytesIO(part)
            s = SimRaw(ctx, Store(part), short=plan["short"], writable=False, can_seek=i % 3 == 1)
            keep.keep(s)
            return s
        res.append(must_raise(ctx, lambda: MsgpackCodec.decode(stream()), where + "decode(stream)"))
        res.append(must_raise(ctx, lambda: MsgpackDocument(part).document(), where + "MsgpackDocument(bytes).document()"))
        if i % 3 != 2:
            res.append(must_raise(ctx, lambda: MsgpackDocument(stream()).document(), where + "MsgpackDocument(stream).document()"))
        if cut >= 4:
            d = MsgpackDocument(part)
            for k in range(3):
                j = (i + k) % 5
                if j == 0:
                    res.append(either(ctx, d.properties, lambda v: {a: docs.canon_value(b) for a, b in v.items()} == props,
                                      where + "properties()"))
                elif j == 1:
                    res.append(either(ctx, lambda: d.properties("uid"), lambda v: v == {"uid": sp["props"]["uid"]},
                                      where + "properties('uid')"))
                elif j == 2:
                    res.append(either(ctx, d.texts, lambda v: {a: "".join(b) for a, b in v.items()} == texts,
                                      where + "texts()"))
                elif j == 3:
                    res.append(either(ctx, lambda: d.texts("main"), lambda v: {a: "".join(b) for a, b in v.items()} ==
                                      {a: b for a, b in texts.items() if a == "main"}, where + "texts('main')"))
                else:
                    res.append(either(ctx, d.schema, lambda v: {n: sorted(f for f, _ in fs) for n, fs in v[1].items()} ==
                                      {n: sorted(f for f, _, _ in fs) for n, fs, _ in sp["layers"]}, where + "schema()"))
        ctx.ev(cut, tuple(res))
        ctx.state(plan["doc"][0], min(cut, 6), cut * 8 // len(data), len(data) - cut < 3, tuple(res))

    if plan["json"]:
        tok = plan["doc"]
        s = JsonCodec.encode(docs.unwrap(docs.build(docs.spec(tok, True))))
        coll.same(ctx, [docs.observe(JsonCodec.decode(s))], [docs.canon_token(tok, True)], "decode-differs", "JSON")
        for i in (0, 1, len(s) // 3, len(s) // 2, len(s) - 2, len(s) - 1):
            must_raise(ctx, lambda: JsonCodec.decode(s[:i]), "JSON cut at %d of %d" % (i, len(s)))

    if plan["members"]:
        collection(plan, ctx, keep)


def collection(plan, ctx, keep):
    """Whole and truncated documents side by side in one collection."""
    from docria.codec import MsgpackCodec, MsgpackDocument
    from docria.collection import (DocumentFileIndex, DocumentReader, MsgpackDocumentReader, MsgpackDocumentWriter)
    store = Store()
    raw = SimRaw(ctx, store)
    w = MsgpackDocumentWriter(raw, num_docs_per_block=plan["nper"], codec=coll.codec(plan["codec"]))
    keep.keep(raw, w)
    want, noprops = [], 0
    for tok, cut in plan["members"]:
        data = MsgpackCodec.encode(docs.build(docs.spec(tok)))
        if cut is None:
            want.append(docs.canon_token(tok))
            w.write(MsgpackDocument(data))
        else:
            n = 4 + cut % (len(data) - 4)
            part = data[:n]
            want.append(None)
            ctx.faults["truncated"] += 1
            w.write(MsgpackDocument(part))
    w.close()
    img = bytes(store.data)
    if None in want:
        ctx.nontrivial = True
        ctx.probes["truncated document inside a collection"] += 1

    # decoded reading: each truncated document raises, all others are delivered in their place
    rd = DocumentReader(MsgpackDocumentReader(io.BytesIO(img)))
    got = []
    for i in range(len(want) + 1):
        try:
            got.append(docs.observe(next(rd)))
        except StopIteration:
            break
        except Exception as e:
            got.append(None)
    ctx.check(len(got) == len(want), "documents-dropped", "DocumentReader: %d of %d" % (len(got), len(want)))
    for i, (g, e) in enumerate(zip(got, want)):
        if g != e:
            ctx.fail("truncated-document-accepted" if e is None else "documents-dropped", "DocumentReader: document %d" % i)

    # a plain loop must report it
    def loop():
        n = 0
        for d in DocumentReader(MsgpackDocumentReader(io.BytesIO(img))):
            n += 1
        return n
    if None in want:
        ctx.ev("loop", must_raise(ctx, loop, "loop over a collection with a truncated document"))
    else:
        ctx.check(loop() == len(want), "documents-dropped", "loop")

    # lazily: all documents are there, decoding the truncated ones raises
    n = 0
    for d in MsgpackDocumentReader(io.BytesIO(img)):
        if want[n] is None:
            must_raise(ctx, d.document, "document() of a truncated member")
        else:
            coll.same(ctx, [coll.full(d)], [want[n]], "documents-dropped", "lazy")
        n += 1
    ctx.check(n == len(want), "documents-dropped", "iteration: %d of %d" % (n, len(want)))

    # indexing: either all documents are in the index, or it raises
    path = os.path.join(ctx.tmp, "t.docria")
    with open(path, "wb") as f:
        f.write(img)
    try:
        idx = DocumentFileIndex.build(path, "uid")
    except StopIteration:
        ctx.fail("end-of-iteration-signal", "index build")
    except Exception as e:
        ctx.check(None in want, "spurious-failure", "index build: %s" % xname(e))
        ctx.ev("index", xname(e))
        return
    ctx.check(len(idx.docrefs) == len(want), "documents-dropped", "index: %d of %d" % (len(idx.docrefs), len(want)))
    for (tok, cut), e in zip(plan["members"], want):
        uid = docs.spec(tok)["props"]["uid"]
        same = [k for k, (t, c) in enumerate(plan["members"]) if docs.spec(t)["props"]["uid"] == uid]
        if len(same) > 1:
            continue

        def search():
            return list(idx.search({"uid": uid}))
        if e is None:
            ctx.ev("search", must_raise(ctx, search, "search for a truncated document"))
        else:
            coll.same(ctx, [docs.observe(d) for d in search()], [e], "documents-dropped", "search")
