"""C02: after a crash a collection yields exactly the documents already stored."""
import io
import os

from .. import coll, docs
from ..core import xname
from ..rng import derive
from ..simio import SimRaw, Store, open_stream
from .c03 import INVALID, bad_document

ID = "C02"
RUNS = {"quick": 12000, "thorough": 250000}
LISTS = ["ops", "cuts"]
RULE = ("A run draws a write/flush history over a raw, buffered or path target, records what the output holds after every "
        "operation, kills the writer, cuts the surviving bytes at block ends +-1, header bytes and random places, and reads "
        "each remainder; live readers are opened (and suspended) between writer operations.")
NONTRIVIAL = "at least one crash point lies behind at least one stored document."
STATES = "distinct (codec, framing, cut class, number of surviving blocks, outcome) combinations"
STUB = ["output device (SimRaw/Store, BufferedWriter above it), process crash (prefix of the device's bytes survives)"]


def gen(r, tier):
    ops = []
    for _ in range(r.choice([1, 2, 3, 5, 8, 12])):
        ops.append(["write", docs.doc_token(r, [(2, "nil"), (6, "tiny"), (6, "small"), (1, "medium"), (0.3, "big")]),
                    r.choice(["doc", "doc", "lazy", "used"])])
        if r.chance(0.3):
            ops.append(["flush"])
        if r.chance(0.2):
            ops.append(["live", r.randrange(6), r.choice(["bytesio", "raw", "pipe", "buffered"])])
        if r.chance(0.15):
            ops.append(["resume", r.randrange(8)])
        if r.chance(0.08):
            ops.append(["bad", r.choice(INVALID), r.randrange(1 << 30)])
    if r.chance(0.4):
        ops.append(["flush"])
    ops.append(["resume", 1 << 20])
    return {"codec": coll.gen_codec(r), "nper": r.choice([1, 2, 2, 3, 4, 128, 0]), "framing": r.choice(coll.FRAMINGS),
            "out": r.choice(["raw", "raw", "raw", "buffered", "path"]), "bufsize": r.choice([16, 512, 8192, 1 << 20]),
            "wshort": r.choice(coll.SHORTS), "ops": ops,
            "cuts": [[r.choice(["end", "end", "mid", "head", "any", "any"]), r.randrange(1 << 30),
                      r.choice([-2, -1, 0, 0, 1, 2]),
                      r.choice(coll.STREAMS), r.choice(coll.SHORTS), r.choice(["iter", "blocks", "documents", "docreader"])]
                     for _ in range(r.choice([4, 8, 12]))],
            "close": r.choice([False, False, True])}


def read_until(ctx, stream, framing, mode, limit):
    """(documents delivered, how it ended)."""
    from docria.collection import DocumentReader, MsgpackDocumentReader
    out = []

    def put(c):
        out.append(c)
        ctx.check(len(out) <= limit, "invented-document", "more than %d documents" % limit)
    try:
        reader = MsgpackDocumentReader(coll.frame_reader(stream, framing))
        if mode == "iter":
            for d in reader:
                put(coll.full(d))
        elif mode == "docreader":
            for d in DocumentReader(reader):
                put(docs.observe(d))
        else:
            for b in reader.blocks():
                if mode == "blocks":
                    for d in b:
                        put(coll.full(d))
                else:
                    for pos, d in b.documents():
                        put(coll.full(d))
    except Exception as e:
        return out, "raised"
    return out, "ended"


def execute(plan, ctx):
    from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
    keep = coll.Closing(ctx)
    framing, nper = plan["framing"], plan["nper"]
    store = Store()
    path = None
    if plan["out"] == "path":
        path = os.path.join(ctx.tmp, "live.docria")
        if framing is None:
            w = MsgpackDocumentWriter(path, num_docs_per_block=nper, codec=coll.codec(plan["codec"]))
        else:
            w = MsgpackDocumentWriter(coll.frame_writer(open(path, "wb"), framing), num_docs_per_block=nper,
                                      codec=coll.codec(plan["codec"]))
    else:
        raw = SimRaw(ctx, store, short=plan["wshort"])
        target = raw if plan["out"] == "raw" else io.BufferedWriter(raw, plan["bufsize"])
        keep.keep(raw, target)
        w = MsgpackDocumentWriter(coll.frame_writer(target, framing), num_docs_per_block=nper,
                                  codec=coll.codec(plan["codec"]))
    keep.keep(w)

    def device():
        if path is not None:
            with open(path, "rb") as f:
                return f.read()
        return bytes(store.data)

    direct = plan["out"] == "raw"
    want = []               # accepted documents
    pending = 0             # of these, not yet covered by a flush
    covered = 0             # covered by a returned explicit flush (or automatic one on a direct target)
    ends = []               # (device length, documents) at each block end, direct targets only
    live = []               # suspended live readers

    def flushed(explicit):
        nonlocal pending, covered
        if pending == 0 and not explicit:
            return
        if pending and direct:
            ends.append((len(store.data), len(want)))
        if explicit or direct:
            covered = len(want)
        pending = 0

    def verify_prefix(got, how, upto, least, where):
        ctx.check(len(got) <= upto, "invented-document", "%s: %d of %d" % (where, len(got), upto))
        coll.same(ctx, got, want[:len(got)], "wrong-document", where)
        ctx.check(len(got) >= least, "stored-document-lost",
                  "%s: %d read (%s), %d were stored" % (where, len(got), how, least))

    for op in plan["ops"]:
        ctx.steps += 1
        if op[0] == "write":
            w.write(coll.as_input(docs.build(docs.spec(op[1])), op[2], ctx))
            want.append(docs.canon_token(op[1]))
            pending += 1
            if pending == nper:
                flushed(False)
        elif op[0] == "bad":
            # a document which cannot be stored is not counted, either
            try:
                w.write(bad_document(op[1], op[2])[0])
            except Exception as e:
                ctx.ev("rejected", xname(e))
                ctx.probes["rejected document in between"] += 1
            else:
                ctx.fail("invalid-document-accepted", op[1])
        elif op[0] == "flush":
            w.flush()
            flushed(True)
        elif op[0] == "live":
            data = device()
            got, how = read_until(ctx, open_stream(ctx, Store(data), op[2], None), framing, "iter", len(want))
            verify_prefix(got, how, len(want), covered, "live reader")
            ctx.probes["live reader"] += 1
            if direct:
                ctx.check(len(got) == covered, "unstored-document", "live reader")
                st = open_stream(ctx, store, "raw", None)
                try:
                    rd = MsgpackDocumentReader(coll.frame_reader(st, framing))
                except Exception:
                    rd = None
                if rd is not None:
                    keep.keep(rd, st)
                    live.append([rd, 0, covered, False])
        elif op[0] == "resume":
            for lv in live:
                rd, n, least, done = lv
                for _ in range(op[1]):
                    if lv[3]:
                        break
                    try:
                        d = next(rd)
                    except StopIteration:
                        lv[3] = True
                        ctx.check(lv[1] >= lv[2], "stored-document-lost", "suspended live reader ended after %d of %d" % (
                            lv[1], lv[2]))
                        break
                    ctx.check(lv[1] < len(want), "invented-document", "suspended live reader")
                    coll.same(ctx, [coll.full(d)], [want[lv[1]]], "wrong-document", "suspended live reader")
                    lv[1] += 1
                    ctx.probes["suspended live reader resumed"] += 1
        ctx.ev(op[0], len(want), covered)
        if covered and not direct:
            data = device()
            if derive(len(want), covered).chance(0.5):
                got, how = read_until(ctx, io.BytesIO(data), framing, "iter", len(want))
                verify_prefix(got, how, len(want), covered, "after " + op[0])

    header_end = None
    if plan["close"]:
        w.close()
        flushed(True)
    # the process dies here
    image = device()
    if direct:
        stored = covered
    else:
        got, how = read_until(ctx, io.BytesIO(image), framing, "iter", len(want))
        verify_prefix(got, how, len(want), covered, "whole image")
        stored = len(got)
    points = [e for e, _ in ends] if direct else []
    for kind, x, delta, stream, short, mode in plan["cuts"]:
        if kind == "end" and points:
            cut = points[x % len(points)] + delta
        elif kind == "mid" and points:
            i = x % len(points)
            a = points[i - 1] if i else 0
            cut = (a + points[i]) // 2
        elif kind == "head":
            cut = x % 16
        else:
            cut = x % (len(image) + 1)
        cut = max(0, min(len(image), cut))
        ctx.faults["crash"] += 1
        got, how = read_until(ctx, open_stream(ctx, Store(image[:cut]), stream, short), framing, mode, len(want))
        if direct:
            exact = max([n for e, n in ends if e <= cut], default=0)
            verify_prefix(got, how, exact, exact, "cut at %d of %d" % (cut, len(image)))
        else:
            verify_prefix(got, how, stored, 0, "cut at %d of %d" % (cut, len(image)))
        ctx.ev("cut", kind, len(got), how)
        ctx.state(plan["codec"], framing, kind, delta if kind == "end" else 0, min(len(got), 6), how)
        if got:
            ctx.nontrivial = True
        if framing is not None and cut > (1 << framing):
            ctx.probes["cut behind a boundary"] += 1
    if not plan["close"] and path is not None:
        w.outputio.close()
