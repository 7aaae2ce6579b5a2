"""C04: a document reference always fetches its own document, in any access order."""
import io
import os
import pickle

from .. import coll, docs
from ..core import READ_KINDS, xname
from ..simio import Store, open_stream, use_scratch

ID = "C04"
RUNS = {"quick": 18000, "thorough": 400000}
LISTS = ["ops", "docs"]
RULE = ("A run draws a collection (codec, block sizes with early flushes, framing) and a history of next, get-by-reference, "
        "readblock, block iteration, block seeks and reader seeks on up to three readers over streams with short reads; read "
        "and seek errors strike inside chosen calls.")
NONTRIVIAL = "at least one document was fetched by its reference after other accesses to the same reader."
STATES = "distinct (last operation, operation, same/other block, position in block class, fault) combinations"
STUB = ["input streams (SimRaw with short reads and read/seek errors, BufferedReader above it; real files below a scratch "
        "directory with read and seek errors injected)"]


def gen_fault(r):
    return {"on": r.choice(["read", "read", "seek"]), "n": r.choice([0, 0, 0, 1, 2, 5]), "kind": r.choice(READ_KINDS)}


def gen(r, tier):
    n = r.choice([1, 2, 3, 5, 8, 12, 20])
    cls = r.choice([[(2, "nil"), (6, "tiny"), (3, "small")], [(1, "nil"), (3, "tiny"), (3, "small"), (1, "medium"), (0.3, "big")]])
    ds = [[docs.doc_token(r, cls), r.chance(0.15)] for _ in range(n)]
    short = r.choice(coll.SHORTS)
    if r.chance(0.006):
        ds[r.randrange(n)] = [["giant", r.randrange(1 << 40)], False]
        short = r.choice([None, [65536], [4096, 100000]])
    ops = []
    frate = r.choice([0, 0, 0.1, 0.25])
    for _ in range(r.choice([4, 8, 15, 30])):
        k = r.weighted([(5, "next"), (6, "get"), (2, "readblock"), (2, "blknext"), (1.5, "blkdocs"), (1.5, "blkseek"), (1.5, "seek"),
                        (0.5, "open"), (1, "blocks"), (0.4, "pickle"), (1, "run"), (0.7, "decoy")])
        op = [k, r.randrange(3), r.randrange(1 << 20), r.chance(0.3)]
        op.append(gen_fault(r) if r.chance(frate) else None)
        ops.append(op)
    return {"docs": ds, "ops": ops, "codec": coll.gen_codec(r), "nper": r.choice([1, 2, 3, 4, 128]),
            "framing": r.choice([None, None, None, 12, 13]), "stream": r.choice(["bytesio", "raw", "raw", "buffered", "path"]),
            "byname": r.chance(0.5), "short": short, "decoy": r.chance(0.5)}


class R:
    """One reader with the model of its position."""
    def __init__(self, rd):
        self.rd = rd
        self.cur = None         # (block, next document in it) while iterating inside a block
        self.nextblk = 0
        self.sync = True        # is the position below known?
        self.sync_blk = True    # is the position of the next block known, too?
        self.gen = None
        self.used = 0
        self.dirty = False      # an error left the underlying stream anywhere: no sequential reading before a seek
        self.held = None        # block which may still be answered from memory meanwhile

    def failed(self):
        if self.cur is not None:
            self.held = self.cur[0]
        elif not self.dirty:
            self.held = None
        self.cur, self.gen, self.dirty = None, None, True


def execute(plan, ctx):
    from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
    keep = coll.Closing(ctx)

    class Keep(io.BytesIO):
        def close(s):
            s.final = s.getvalue()

    def make(toks):
        out = Keep()
        w = MsgpackDocumentWriter(coll.frame_writer(out, plan["framing"]), num_docs_per_block=plan["nper"],
                                  codec=coll.codec(plan["codec"]))
        keep.keep(out, w)
        want, blocks, cur = [], [], []
        for tok, flush in toks:
            w.write(docs.build(docs.spec(tok)))
            cur.append(len(want))
            want.append(docs.canon_token(tok))
            if flush or len(cur) == plan["nper"]:
                w.flush()
                blocks.append(cur)
                cur = []
        if cur:
            blocks.append(cur)
        w.close()
        return want, blocks, out.final
    want, blocks, data = make(plan["docs"])
    store = Store(data)
    decoys = []             # documents of another collection of the same shape, with their references
    decoy = None
    path = None
    if plan["stream"] == "path":
        use_scratch(ctx)
        path = os.path.join(ctx.tmp, "c.docria")

    def by_path():
        if plan["byname"] and not plan["framing"]:
            return MsgpackDocumentReader(path)
        return MsgpackDocumentReader(coll.frame_reader(open(path, "rb"), plan["framing"]))

    def place(content):
        if path is not None:
            if os.path.exists(path):
                os.unlink(path)         # readers of the previous file keep it
            with open(path, "wb") as f:
                f.write(content)
    if plan["decoy"]:
        dwant, _, ddata = make([[[t[0], t[1] ^ 1], f] for t, f in plan["docs"]])
        if path is not None:
            # the name the collection is opened by belonged to another one before
            place(ddata)
            decoy = by_path()
        else:
            decoy = MsgpackDocumentReader(coll.frame_reader(io.BytesIO(ddata), plan["framing"]))
        keep.keep(decoy)
        decoys = [[d.ref, c] for d, c in zip(decoy, dwant)]
        ctx.check(len(decoys) == len(dwant), "missing-documents", "of the other collection")
        for ref, c in decoys:
            coll.same(ctx, [coll.full(decoy.get(ref))], [c], "wrong-document", "get of another collection")
    place(data)
    where = {i: (b, k) for b, ids in enumerate(blocks) for k, i in enumerate(ids)}
    ctx.ev("built", len(want), len(blocks))

    def fresh():
        if path is not None:
            rd = by_path()
            keep.keep(rd)
            return rd
        s = open_stream(ctx, store, plan["stream"], plan["short"])
        rd = MsgpackDocumentReader(coll.frame_reader(s, plan["framing"]))
        keep.keep(s, rd)
        return rd

    # references by plain iteration; the other ways must hand out the same ones
    refs, ids = [], {}
    first = fresh()
    for d in first:
        ctx.check(len(refs) < len(want), "too-many-documents", "")
        refs.append(d.ref)
    ctx.check(len(refs) == len(want), "missing-documents", "%d of %d" % (len(refs), len(want)))
    ctx.check(all(x is not None for x in refs) and len(set(refs)) == len(refs), "references-not-unique", repr(refs[:8]))
    ids = {x: i for i, x in enumerate(refs)}
    other = fresh()
    again = []
    for b in other.blocks():
        again += [(d.ref, b.position, pos) for pos, d in b.documents()]
    ctx.check(again == [(x, x[0], x[1]) for x in refs], "reference-differs", "documents() of blocks: %r, iterating: %r" % (
        again[:4], refs[:4]))
    if not want:
        return
    pending = []

    def content(d, i, what, defer):
        ctx.check(d.ref == refs[i], "reference-differs", "%s delivered %r, expected %r" % (what, d.ref, refs[i]))
        if defer:
            pending.append((d, i, what))
        else:
            coll.same(ctx, [coll.full(d)], [want[i]], "wrong-document", what)

    def consistent(d, what):
        """A document whose place is not predicted still has to match its own reference."""
        ctx.check(d.ref in ids, "unknown-reference", "%s: %r" % (what, d.ref))
        coll.same(ctx, [coll.full(d)], [want[ids[d.ref]]], "wrong-document", what)

    readers = [R(fresh()), R(first), R(fresh())]
    readers[1].nextblk = len(blocks)
    handles = []            # [block object, block number, position or None]
    last = "open"

    def predict(m):
        """(document, new cur, new nextblk) which next() has to deliver, document None at the end."""
        cur, nb = m.cur, m.nextblk
        if cur is not None and cur[1] < len(blocks[cur[0]]):
            return blocks[cur[0]][cur[1]], (cur[0], cur[1] + 1), nb
        if nb < len(blocks):
            return blocks[nb][0], (nb, 1), nb + 1
        return None, None, nb

    def attempt(fn, fault, what):
        ctx.arm(fault)
        try:
            return fn(), False
        except StopIteration:
            ctx.disarm()
            if ctx.fired:
                ctx.fail("error-hidden", "%s ended the iteration although a read failed" % what)
            return StopIteration, False
        except Exception as e:
            if not ctx.fired:
                raise
            ctx.disarm()
            e2 = e
            while e2 is not None and not isinstance(e2, OSError):
                e2 = e2.__cause__ or e2.__context__
            ctx.check(e2 is not None, "wrong-error", "%s: %s" % (what, xname(e)))
            return None, True
        finally:
            ctx.disarm()

    def do_next(m, fault, defer):
        if m.dirty and (m.cur is None or m.cur[1] >= len(blocks[m.cur[0]])):
            return "skipped"
        i, cur, nb = predict(m)
        res, failed = attempt(lambda: next(m.rd), fault, "next")
        if failed:
            m.failed()
            return "failed"
        if m.sync and (m.sync_blk or m.cur is not None and m.cur[1] < len(blocks[m.cur[0]])):
            if i is None:
                ctx.check(res is StopIteration, "document-after-end", "next")
                m.cur = None
            else:
                ctx.check(res is not StopIteration, "early-end", "next: document %d of %d expected" % (i, len(want)))
                content(res, i, "next", defer)
                m.cur, m.nextblk = cur, nb
        else:
            m.sync = m.sync_blk = False
            if res is not StopIteration:
                consistent(res, "next")
        return "end" if res is StopIteration else "doc"

    for op, ri, x, defer, fault in plan["ops"]:
        ctx.steps += 1
        m = readers[ri % len(readers)]
        note = ""
        if op == "next":
            note = do_next(m, fault, defer)
        elif op == "run":
            for _ in range(2 + x % 6):
                note = do_next(m, fault, False)
                fault = None
                if note != "doc":
                    break
        elif op in ("get", "pickle"):
            i = x % len(want)
            ref = refs[i]
            if op == "pickle":
                d, failed = attempt(lambda: first_get(m, ref), None, "get")
                ref = pickle.loads(pickle.dumps(d)).ref
                fault = None
            same = m.cur is not None and m.cur[0] == where[i][0]
            res, failed = attempt(lambda: m.rd.get(ref), fault, "get")
            note = "same" if same else "other"
            if failed:
                m.failed()
                note += " failed"
            else:
                ctx.check(res is not StopIteration, "reference-not-found", "get(%r) ended" % (ref,))
                content(res, i, "get", defer)
                if m.used:
                    ctx.nontrivial = True
                b, k = where[i]
                if m.dirty and b == m.held:
                    m.sync_blk = False
                elif not (same and m.sync):
                    m.nextblk = b + 1
                    m.sync_blk = True
                    m.dirty = False
                elif m.nextblk != b + 1:
                    m.sync_blk = False      # blocks were read on the side: where it goes after this block is left open
                m.cur = (b, k + 1)
                m.sync = True
        elif op == "seek":
            b = x % len(blocks)
            pos = refs[blocks[b][0]][0]
            res, failed = attempt(lambda: m.rd.seek(pos), fault, "seek")
            if failed:
                m.failed()
            else:
                m.cur, m.nextblk, m.sync, m.sync_blk, m.dirty = None, b, True, True, False
            m.gen = None
            note = failed
        elif op in ("readblock", "blocks") and not m.dirty:
            if op == "blocks":
                if m.gen is None:
                    m.gen = m.rd.blocks()
                res, failed = attempt(lambda: next(m.gen, None), fault, "blocks")
            else:
                res, failed = attempt(m.rd.readblock, fault, "readblock")
            if failed:
                m.failed()
            elif res is None:
                m.gen = None
                if m.sync and m.sync_blk:
                    ctx.check(m.nextblk >= len(blocks), "early-end", op)
            else:
                if m.sync and m.sync_blk:
                    ctx.check(m.nextblk < len(blocks), "block-after-end", op)
                    b = m.nextblk
                    ctx.check(res.position == refs[blocks[b][0]][0], "reference-differs", "%s: block at %r" % (op, res.position))
                    m.nextblk += 1
                else:
                    bl = [b for b in range(len(blocks)) if refs[blocks[b][0]][0] == res.position]
                    ctx.check(bl, "unknown-reference", "%s: block at %r" % (op, res.position))
                    b = bl[0]
                handles.append([res, b, 0])
                if len(handles) > 6:
                    handles.pop(0)
            note = "failed" if failed else res is None
        elif op in ("blknext", "blkdocs", "blkseek") and handles:
            h = handles[x % len(handles)]
            blk, b, k = h
            if op == "blknext":
                d = next(blk, None)
                if k >= len(blocks[b]):
                    ctx.check(d is None, "document-after-end", "block iteration")
                else:
                    ctx.check(d is not None, "early-end", "block iteration")
                    content(d, blocks[b][k], "block iteration", defer)
                    h[2] += 1
            elif op == "blkdocs":
                got = blk.documents()
                ctx.check(len(got) == len(blocks[b]), "wrong-document-count", "documents(): %d, expected %d" % (
                    len(got), len(blocks[b])))
                for (pos, d), i in zip(got, blocks[b]):
                    ctx.check(pos == refs[i][1], "reference-differs", "documents(): position %r" % pos)
                    content(d, i, "documents()", defer)
                h[2] = len(blocks[b])
            else:
                k = (x // 7) % len(blocks[b])
                blk.seek(refs[blocks[b][k]][1])
                ctx.check(blk.tell() == refs[blocks[b][k]][1], "reference-differs", "block tell after seek")
                d = next(blk, None)
                ctx.check(d is not None, "early-end", "block seek")
                content(d, blocks[b][k], "block seek", defer)
                h[2] = k + 1
        if op == "decoy" and decoys:
            ref, c = decoys[x % len(decoys)]
            coll.same(ctx, [coll.full(decoy.get(ref))], [c], "wrong-document", "get of another collection")
        if op == "open":
            readers[ri % 3] = R(fresh())
        m.used += 1
        ctx.ev(op, ri, note)
        ctx.state(last, op, note, fault is not None)
        last = op
    ctx.arm(None)
    for d, i, what in pending:
        coll.same(ctx, [coll.full(d)], [want[i]], "wrong-document", what + ", decoded at the end")
    # once errors have stopped every reader finds everything
    for m in readers:
        for i in (0, len(want) - 1, len(want) // 2):
            coll.same(ctx, [coll.full(m.rd.get(refs[i]))], [want[i]], "wrong-document", "get at the end")


def first_get(m, ref):
    return m.rd.get(ref)
