"""C06: damaged stored bytes are detected, never delivered as different documents."""
from .. import coll, docs
from ..core import Violation, xname
from ..simio import SimRaw, Store, open_stream

ID = "C06"
RUNS = {"quick": 35000, "thorough": 700000}
LISTS = ["accesses", "docs"]
RULE = ("A run writes a collection with an integrity-checked codec, damages the compressed payload of one or two blocks (bit "
        "flips, zeroed ranges, lost bytes; first, last and random bytes) and reads it by iteration, block by block, by "
        "reference and by seeking, in mixed order on shared readers.")
NONTRIVIAL = "the payload of at least one block was changed and an undamaged block was read."
STATES = "distinct (codec, damage kind, position class, access, outcome) combinations"
STUB = ["stored bytes (damaged in place), input streams"]


def gen(r, tier):
    n = r.choice([1, 2, 3, 5, 8])
    cls = [(2, "nil"), (5, "tiny"), (4, "small"), (1, "medium"), (0.2, "big")]
    dm = []
    for _ in range(r.choice([1, 1, 1, 2])):
        dm.append([r.weighted([(4, "flip"), (2, "flip2"), (2, "zero"), (2, "lose"), (1, "ones")]), r.randrange(1 << 20),
                   r.choice(["head", "tail", "any", "any"]), r.randrange(1 << 30), r.choice([1, 1, 2, 4, 8, 64])])
    return {"docs": [[docs.doc_token(r, cls), r.chance(0.2)] for _ in range(n)], "nper": r.choice([1, 1, 2, 3]),
            "codec": r.choice(["zip", "zip", "zipsq", "bzip2", "lzma"]), "damage": dm,
            "stream": r.choice(["bytesio", "raw", "buffered"]), "short": r.choice(coll.SHORTS),
            "accesses": [[r.choice(["iter", "iter", "blocks", "documents", "docreader", "get", "get", "get", "seek", "next"]),
                          r.randrange(1 << 20)] for _ in range(r.choice([2, 4, 8]))]}


def execute(plan, ctx):
    from docria.collection import DocumentReader, MsgpackDocumentReader, MsgpackDocumentWriter
    keep = coll.Closing(ctx)
    store = Store()
    raw = SimRaw(ctx, store)
    w = MsgpackDocumentWriter(raw, num_docs_per_block=plan["nper"], codec=coll.codec(plan["codec"]))
    keep.keep(w, raw)
    want, spans, blocks, cur = [], [], [], []
    start = len(store.data)

    def ended():
        nonlocal start, cur
        blocks.append(cur)
        spans.append((start, len(store.data)))
        start = len(store.data)
        cur = []
    for tok, flush in plan["docs"]:
        w.write(docs.build(docs.spec(tok)))
        cur.append(len(want))
        want.append(docs.canon_token(tok))
        if flush or len(cur) == plan["nper"]:
            w.flush()
            ended()
    if cur:
        w.flush()
        ended()
    w.close()
    data = bytearray(store.data)
    if not blocks:
        return
    refs = []
    for d in MsgpackDocumentReader(open_stream(ctx, Store(data), "bytesio")):
        refs.append(d.ref)
    ctx.check(len(refs) == len(want), "missing-documents", "before any damage")

    damaged, lost = set(), None
    for kind, bi, place, x, k in plan["damage"]:
        b = bi % len(blocks)
        a, e = spans[b]
        a += {0xc4: 2, 0xc5: 3, 0xc6: 5}[data[a]]
        size = e - a
        if kind == "lose":
            # the bytes behind the block must make up for the lost ones, otherwise it is a truncated file (C02)
            if lost is not None or len(data) - e < k or size <= k or damaged:
                continue
        p = a + {"head": x % min(size, 12), "tail": size - 1 - x % min(size, 12), "any": x % size}[place]
        old = bytes(data)
        if kind in ("flip", "flip2"):
            data[p] ^= 1 << (x >> 8) % 8
            if kind == "flip2":
                q = a + (x >> 11) % size
                data[q] ^= 1 << (x >> 24) % 8
        elif kind in ("zero", "ones"):
            for q in range(p, min(e, p + k)):
                data[q] = 0 if kind == "zero" else 255
        else:
            p = min(p, e - k)
            del data[p:p + k]
            lost = (b, k)
        if bytes(data) != old:
            damaged.add(b)
            ctx.faults["damage:" + kind] += 1
        ctx.ev(kind, b, p - a)
        if lost:
            break
    shift = {i: ((refs[i][0] - lost[1], refs[i][1]) if lost and b > lost[0] else refs[i])
             for b, ids in enumerate(blocks) for i in ids}
    byref = {v: i for i, v in shift.items()}
    blockof = {i: b for b, ids in enumerate(blocks) for i in ids}

    def fresh():
        s = open_stream(ctx, Store(data), plan["stream"], plan["short"])
        rd = MsgpackDocumentReader(s)
        keep.keep(s, rd)
        return rd

    def good(d, i, what):
        c = coll.full(d) if hasattr(d, "document") else docs.observe(d)
        if c != want[i]:
            ctx.fail("different-document", "%s: document %d of block %d (damaged: %s)" % (what, i, blockof[i], sorted(damaged)))

    shared = fresh()
    for op, x in plan["accesses"]:
        ctx.steps += 1
        outcome = "ok"
        if op in ("iter", "blocks", "documents", "docreader"):
            rd = fresh()

            def seq():
                if op == "iter":
                    yield from rd
                elif op == "docreader":
                    yield from DocumentReader(rd)
                elif op == "blocks":
                    for bl in rd.blocks():
                        yield from bl
                else:
                    for bl in rd.blocks():
                        for pos, d in bl.documents():
                            yield d
            n = 0
            raised = False
            try:
                for d in seq():
                    ctx.check(n < len(want), "invented-document", op)
                    good(d, n, op)
                    n += 1
            except Violation:
                raise
            except Exception:
                raised = True
                outcome = "raised"
            if not raised:
                ctx.check(n == len(want), "damage-not-reported", "%s ended after %d of %d documents" % (op, n, len(want)))
            else:
                ctx.check(damaged, "spurious-failure", op)
                least = min(blocks[b][0] for b in damaged)
                ctx.check(n >= least, "documents-before-damage-lost", "%s: %d delivered, %d lie before the damage" % (
                    op, n, least))
        elif op == "next":
            # go on after errors: whatever is still delivered must be what was written under its reference
            rd = shared
            for _ in range(1 + x % 6):
                try:
                    d = next(rd)
                except StopIteration:
                    break
                except Exception as e:
                    ctx.check(damaged, "spurious-failure", "next")
                    outcome = "raised"
                    continue
                if lost and d.ref not in byref:
                    # resynchronised inside the block after the lost bytes: positions are not claimed, content is
                    ctx.check(coll.full(d) in want, "different-document", "reference %r" % (d.ref,))
                    continue
                ctx.check(d.ref in byref, "invented-document", "reference %r" % (d.ref,))
                good(d, byref[d.ref], op)
        elif op == "get":
            i = x % len(want)
            b = blockof[i]
            rd = shared if x & 1024 else fresh()
            try:
                d = rd.get(shift[i])
            except Exception as e:
                ctx.check(b in damaged, "undamaged-block-unreadable", "get in block %d: %s (damaged: %s)" % (
                    b, xname(e), sorted(damaged)))
                outcome = "raised"
            else:
                good(d, i, op)
                if b not in damaged and damaged:
                    ctx.nontrivial = True
        else:
            b = x % len(blocks)
            rd = shared if x & 1024 else fresh()
            rd.seek(shift[blocks[b][0]][0])
            try:
                bl = rd.readblock()
                ctx.check(bl is not None or b in damaged, "undamaged-block-unreadable", "seek to block %d: end" % b)
                got = [] if bl is None else [d for d in bl]
            except Violation:
                raise
            except Exception as e:
                ctx.check(b in damaged, "undamaged-block-unreadable", "seek to block %d: %s" % (b, xname(e)))
                outcome = "raised"
            else:
                ctx.check(bl is not None, "damage-not-reported", "seek to damaged block %d: end of data" % b)
                ctx.check(len(got) == len(blocks[b]), "wrong-document-count", "block %d" % b)
                for d, i in zip(got, blocks[b]):
                    good(d, i, op)
                if b not in damaged and damaged:
                    ctx.nontrivial = True
        ctx.ev(op, outcome)
        ctx.state(plan["codec"], [d[0] for d in plan["damage"]], [d[2] for d in plan["damage"]], op, outcome)
