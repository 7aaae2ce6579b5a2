"""C03: writer failures are never silent, leave no trace and can be retried."""
import io
import zlib

from .. import coll, docs
from ..core import READ_KINDS, WRITE_KINDS, SimError, SimIOError, xname
from ..simio import SimRaw, Store

ID = "C03"
RUNS = {"quick": 36000, "thorough": 700000}
LISTS = ["ops"]
RULE = ("A run draws writes of valid and invalid documents, flushes and closes over a raw, buffered or framed target; faults "
        "(EIO, ENOSPC, torn write, failing flush, failing close, failing compressor) strike inside chosen calls; the caller "
        "retries or goes on.")
NONTRIVIAL = "at least one fault fired or one invalid document was rejected while another document was accepted."
STATES = "distinct (target, operation, fault kind, documents pending, retry outcome) combinations"
STUB = ["output stream (SimRaw below an optional BufferedWriter), compressor wrapper which fails on demand"]

INVALID = ["dangling", "dangling_many", "dangling_span", "type", "extra", "notext", "nolayer", "prop", "bigint", "surrogate",
           "notdoc", "ext", "i32range"]


def gen_fault(r, out):
    k = r.weighted([(5, "write"), (2, "codec"), (2, "flush"), (1, "close")])
    f = {"on": k, "n": r.choice([0, 0, 0, 1, 2, 3]) if k == "write" else 0, "kind": r.choice(WRITE_KINDS)}
    if k == "write" and r.chance(0.2):
        f["kind"] = "torn"
        f["keep"] = r.randrange(1, 1000)
    if k == "codec":
        f["kind"] = r.choice(["error", "error", "memory", "zlib", "EIO"])
    return f


def gen(r, tier):
    ops = []
    rate = r.choice([0.1, 0.2, 0.4])
    out = r.choice(["raw", "raw", "buffered"])
    for _ in range(r.choice([2, 4, 7, 12])):
        k = r.random()
        if k < 0.6:
            op = {"op": "write", "doc": docs.doc_token(r, [(2, "nil"), (6, "tiny"), (4, "small"), (0.5, "medium"), (0.3, "big")]),
                  "how": r.choice(["doc", "doc", "lazy", "lazy", "bytes", "source", "source"])}
            if op["how"] == "source":
                op["short"] = r.choice([None, [1, 7, 0], [4096], [20, 0], [3]])
        elif k < 0.78:
            op = {"op": "bad", "kind": r.choice(INVALID), "n": r.randrange(1 << 30), "repair": r.chance(0.4)}
        else:
            op = {"op": "flush"}
        if op["op"] != "bad" and r.chance(rate):
            op["fault"] = gen_fault(r, out)
            if op.get("how") == "source" and r.chance(0.7):
                op["fault"] = {"on": r.choice(["read", "read", "read", "seek"]), "n": r.choice([0, 0, 1, 1, 2, 3, 5]),
                               "kind": r.choice(READ_KINDS)}
        ops.append(op)
        if "fault" in op and r.chance(0.6):
            ops.append({"op": "flush"})
    end = {"op": "close"}
    if r.chance(0.5):
        end["fault"] = gen_fault(r, out)
    return {"ops": ops, "end": end, "nper": r.choice([1, 2, 3, 4, 128]), "out": out,
            # below a framed buffered stream a failed write may leave accepted bytes in the buffer: not repeatable
            "framing": r.choice([None, None, 12, 13]) if out == "raw" else None,
            "bufsize": r.choice([1, 64, 8192, 1 << 20]), "init_fault": gen_fault(r, out) if r.chance(0.06) else None,
            "with": r.chance(0.3), "leave": r.choice([None, None, "raise", "raise", "stop"])}


def bad_document(kind, n):
    """(object to write, function which repairs it or None)."""
    from docria.model import DataTypes as T, Document, ExtData, Node, NodeSpan
    doc = Document(uid="bad%d" % n)
    doc.maintext = "some text"
    layer = doc.add_layer("x", v=T.int32(), r=T.noderef("x"), m=T.noderef_many("x"), s=T.nodespan("x"), t=T.span())
    nodes = [layer.add(v=i, t=doc.maintext[i:i + 2]) for i in range(4)]
    if kind == "dangling":
        nodes[0]["r"] = nodes[2]
        layer.remove(nodes[2])
        return doc, lambda: nodes[0].pop("r")
    if kind == "dangling_many":
        nodes[0]["m"] = [nodes[1], nodes[2]]
        layer.remove(nodes[2])
        return doc, lambda: nodes[0].pop("m")
    if kind == "dangling_span":
        nodes[0]["s"] = NodeSpan(nodes[1], nodes[2])
        layer.remove(nodes[2])
        return doc, lambda: nodes[0].pop("s")
    if kind == "type":
        nodes[n % 4]["v"] = "not an int"
        return doc, lambda: nodes[n % 4].pop("v")
    if kind == "i32range":
        nodes[n % 4]["v"] = 1 << 31
        return doc, lambda: nodes[n % 4].pop("v")
    if kind == "extra":
        nodes[n % 4]["undeclared"] = 1
        return doc, lambda: nodes[n % 4].pop("undeclared")
    if kind == "notext":
        doc.add_layer("y", t=T.span("missing"))
        return doc, lambda: doc.add_text("missing", "found")
    if kind == "nolayer":
        doc.add_layer("y", t=T.noderef("missing"))
        return doc, lambda: doc.add_layer("missing")
    if kind == "prop":
        doc.props["p"] = [1, {"k": object()}]
        return doc, lambda: doc.props.pop("p")
    if kind == "bigint":
        doc.props["p"] = 1 << 70
        return doc, lambda: doc.props.pop("p")
    if kind == "surrogate":
        doc.props["p"] = "\ud800"
        return doc, lambda: doc.props.pop("p")
    if kind == "ext":
        doc.add_layer("y", e=T.ext("blob")).add_many([Node(e=5)], full_validation=False)
        return doc, lambda: doc.remove_layer("y")
    return {"not": "a document"}, None


def chain(e):
    """An exception and all that it followed from."""
    seen = []
    while e is not None and not any(e is x for x in seen):
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def execute(plan, ctx):
    from docria.codec import MsgpackCodec, MsgpackDocument
    from docria.collection import CompressionCodec, MsgpackDocumentReader, MsgpackDocumentWriter
    keep = coll.Closing(ctx)
    store = Store()
    raw = SimRaw(ctx, store)
    target = raw if plan["out"] == "raw" else io.BufferedWriter(raw, plan["bufsize"])
    keep.keep(raw, target)

    def compress(x):
        f = ctx.io("codec")
        if f is not None:
            raise {"error": SimError, "memory": MemoryError, "zlib": zlib.error, "EIO": SimIOError}[f["kind"]]("compressor failed")
        return zlib.compress(x)
    codec = CompressionCodec("zip", compress, zlib.decompress)

    def call(fault, fn, name):
        """Run fn with the fault armed; returns the exception. A fault which fired must surface."""
        ctx.arm(fault)
        try:
            fn()
        except Exception as e:
            ctx.disarm()
            if not ctx.fired:
                ctx.fail("spurious-failure", "%s raised %s: %s" % (name, xname(e), str(e)[:200]))
            if not isinstance(e, (SimError, OSError, MemoryError, zlib.error)):
                ctx.fail("wrong-error", "%s raised %s: %s" % (name, xname(e), str(e)[:200]))
            return e
        finally:
            ctx.disarm()
        if ctx.fired:
            ctx.fail("silent-failure", "%s returned although the output failed (%s)" % (name, fault["kind"]))
        return None

    made = []

    def construct():
        made.append(MsgpackDocumentWriter(coll.frame_writer(target, plan["framing"]), num_docs_per_block=plan["nper"],
                                          codec=codec))
    e = call(plan["init_fault"], construct, "open")
    if e is not None:
        ctx.ev("open failed")
        ctx.nontrivial = True
        return
    w = keep.keep(made[0])

    accepted = []       # [canonical, required]
    torn = False
    stored_len = len(store.data)
    rejected = 0
    ops_done = []

    def ops_body():
        nonlocal torn, stored_len, rejected
        for op in plan["ops"]:
            ctx.steps += 1
            ops_done.append(op)
            before = len(store.data)
            fault = op.get("fault")
            if op["op"] == "write":
                doc = docs.build(docs.spec(op["doc"]))
                if op["how"] == "source":
                    x = keep.keep(MsgpackDocument(SimRaw(ctx, Store(MsgpackCodec.encode(doc)), short=op["short"], writable=False)))
                else:
                    x = coll.as_input(doc, op["how"], ctx)
                e = call(fault, lambda: w.write(x), "write")
                if e is not None and fault["on"] in ("read", "seek"):
                    # the document itself could not be read: it is not accepted and the writer goes on as if it was never given
                    rejected += 1
                    ctx.ev("rejected", "unreadable")
                    ctx.check(len(store.data) == before, "trace-of-rejected-document", "unreadable")
                    if doc.props["uid"] and len(ops_done) % 2:
                        w.write(x)
                        accepted.append([docs.canon_token(op["doc"]), True])
                        ctx.probes["unreadable document written again"] += 1
                    e = None
                else:
                    accepted.append([docs.canon_token(op["doc"]), e is None])
            elif op["op"] == "bad":
                doc, repair = bad_document(op["kind"], op["n"])
                ctx.arm(None)
                try:
                    w.write(doc)
                except Exception as e:
                    rejected += 1
                    ctx.ev("rejected", op["kind"])
                    ctx.check(len(store.data) == before, "trace-of-rejected-document", op["kind"])
                else:
                    ctx.fail("invalid-document-accepted", op["kind"])
                if op["repair"] and repair is not None:
                    repair()
                    w.write(doc)
                    accepted.append([docs.observe(doc), True])
                    ctx.probes["rejected document repaired and written"] += 1
                e = None
            else:
                e = call(fault, w.flush, "flush")
            ctx.ev(op["op"], None if e is None else xname(e), len(accepted))
            ctx.state(plan["out"], plan["framing"], op["op"], fault and (fault["on"], fault["kind"]), e is None,
                      min(3, len(accepted)))
            if e is not None:
                ctx.nontrivial = True
                ctx.probes["failed " + op["op"]] += 1
                if fault["kind"] == "torn" or len(store.data) != before or getattr(e, "characters_written", 0):
                    # bytes were stored before the failure: the caller stops here
                    torn = True
                    ctx.probes["stopped after a partial write"] += 1
                    stored_len = before
                    return
            if e is None:
                stored_len = len(store.data)

    def read(data, name):
        reader = MsgpackDocumentReader(coll.frame_reader(io.BytesIO(data), plan["framing"]))
        return coll.read_all(ctx, reader, "iter", len(accepted) + 1)

    def verify(got, name, complete):
        """got must be the accepted documents in order; one whose write raised may be missing."""
        i = 0
        for g in got:
            j = i
            while j < len(accepted) and accepted[j][0] != g:
                if accepted[j][1]:
                    break
                j += 1
            if j >= len(accepted) or accepted[j][0] != g:
                ctx.fail("wrong-documents", "%s: got %s of accepted %s" % (name, [docs.uid(x) for x in got], [
                    (docs.uid(a[0]), a[1]) for a in accepted]))
            i = j + 1
        if complete:
            missing = [docs.uid(a[0]) for a in accepted[i:] if a[1]]
            ctx.check(not missing, "lost-documents", "%s: %s" % (name, missing))

    def crashed_image():
        """Bytes were stored before the failure: the process stops; what was stored before stays readable."""
        data = bytes(store.data)
        got = []
        try:
            for d in MsgpackDocumentReader(coll.frame_reader(io.BytesIO(data), plan["framing"])):
                got.append(coll.full(d))
        except Exception:
            pass
        verify(got, "image after failure", False)
        if plan["out"] == "raw":
            whole = read(data[:stored_len], "prefix")
            ctx.check(len(got) >= len(whole), "stored-documents-unreadable", "%d of %d" % (len(got), len(whole)))
        ctx.ev("image", len(got))

    fault = plan["end"].get("fault")
    if plan["with"]:
        def leave():
            with w:
                ops_body()
                if torn:
                    raw.dead = True
                    raise SimError("stop")
                ctx.arm(fault)
                if own is not None:
                    raise own
        own = {"raise": KeyError("the caller's"), "stop": StopIteration("the caller's")}.get(plan["leave"])
        e = None
        try:
            leave()
        except (SimError, OSError, MemoryError, zlib.error) as ex:
            ctx.disarm()
            if torn:
                crashed_image()
                return
            e = ex
        except (KeyError, StopIteration) as ex:
            ctx.disarm()
            ctx.check(ex is own, "wrong-error", "leaving the with-block raised %s" % xname(ex))
            e = next((c for c in chain(ex) if isinstance(c, (SimError, OSError, MemoryError, zlib.error))), None)
        else:
            ctx.check(own is None, "caller's-exception-lost", "with-block")
        ctx.disarm()
        if e is None and ctx.fired:
            ctx.fail("silent-failure", "leaving the with-block returned although the output failed (%s)" % fault["kind"])
        if e is not None and not ctx.fired:
            ctx.fail("spurious-failure", "leaving the with-block raised %s" % xname(e))
    else:
        ops_body()
        if torn:
            raw.dead = True
            crashed_image()
            return
        e = call(fault, w.close, "close")
    ctx.ev("close", None if e is None else xname(e))
    if e is not None:
        ctx.nontrivial = True
        # (a buffered stream may keep a part of what it was given before it reports that it would block)
        if fault["on"] == "write" and (len(store.data) != stored_len or getattr(e, "characters_written", 0)):
            raw.dead = True
            crashed_image()
            return
        ctx.probes["close retried"] += 1
        try:
            w.close()
        except Exception as ex:
            # closing a stream which has already failed to close is the stream's business, as long as all is stored
            if not raw.closed:
                ctx.fail("retry-failed", "close raised again: %s: %s" % (xname(ex), str(ex)[:200]))
    if rejected and accepted:
        ctx.nontrivial = True
    got = read(bytes(store.data), "closed collection")
    verify(got, "closed collection", True)
    ctx.ev("read", len(got))
