"""C12: stored copies are faithful, independent snapshots over any chain of hops."""
import copy
import io
import os
import pickle

from .. import coll, docs
from ..core import READ_KINDS, SimIOError, Violation, first_diff, xname
from ..rng import derive
from ..simio import SimRaw, Store, open_stream

ID = "C12"
RUNS = {"quick": 8000, "thorough": 200000}
LISTS = ["ops"]
RULE = ("A run draws a document and a history over a growing family of copies: random valid edits (also inside property values, "
        "lists, spans and embedded documents), hops by any route to a new copy or to kept bytes, and hops which fail (stream "
        "errors, values which cannot be stored) and are repeated.  Each copy is compared with the state it was made from, and "
        "after every step every other copy with its last known state.")
NONTRIVIAL = "at least two hops, with an edit between them."
STATES = "distinct (route, hops behind the source, edits since, failed before) combinations"
STUB = ["streams and files behind the routes (short reads and writes, read, write, flush, seek and close errors)"]

ROUTES = [(4, "bytes"), (2, "stream"), (3, "lazy"), (2, "lazybytes"), (2, "lazystream"), (3, "pickle"), (2, "deepcopy"), (1, "copy"),
          (3, "collection"), (1, "lazycollection"), (1.5, "tar"), (1, "picklelazy")]


def gen(r, tier):
    json = r.chance(0.5)
    ops = []
    for _ in range(r.choice([4, 8, 16, 30])):
        k = r.weighted([(5, "edit"), (5, "hop"), (1.5, "fail"), (1, "keep"), (0.5, "drop"), (1, "readback")])
        ops.append([k, r.randrange(8), r.randrange(1 << 30)])
    cls = r.weighted([(1, "nil"), (5, "tiny"), (8, "small"), (1.5, "medium"), (0.6, "wide"), (0.2, "many")])
    return {"json": json, "doc": [cls, r.randrange(1 << 40)], "ops": ops, "lists": r.chance(0.5),
            "inner": 0 if json or r.chance(0.6) else r.choice([1, 2, 2, 3])}


class Holder:
    def __init__(self, kind, obj, want, hops):
        self.kind, self.obj, self.want, self.hops = kind, obj, want, hops
        self.edits = 0


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.json = plan["json"]
        self.keep = coll.Closing(ctx)
        self.all = []
        self.files = 0

    def look(self, h):
        """What a holder shows now."""
        from docria.codec import JsonCodec, MsgpackCodec
        if h.kind == "doc":
            return docs.observe(h.obj)
        if h.kind == "bytes":
            return docs.observe(MsgpackCodec.decode(h.obj))
        if h.kind == "json":
            return docs.observe(JsonCodec.decode(h.obj))
        if h.kind == "lazy":
            return docs.observe(h.obj.document())
        if h.kind == "pickled":
            return docs.observe(pickle.loads(h.obj))
        raise ValueError(h.kind)

    def expect(self, h, kind, what):
        got = self.look(h)
        if got != h.want:
            self.ctx.fail(kind, "%s: %s" % (what, first_diff(got, h.want)))

    # -- one hop: returns (kind, object) ----------------------------------------------------------------
    def hop(self, route, doc, r):
        from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument
        from docria.collection import (MsgpackDocumentReader, MsgpackDocumentWriter, TarMsgpackReader, TarMsgpackWriter)
        ctx = self.ctx
        short = r.choice(coll.SHORTS)
        if route == "bytes":
            return "doc", MsgpackCodec.decode(MsgpackCodec.encode(doc))
        if route == "stream":
            s = self.keep.keep(open_stream(ctx, Store(MsgpackCodec.encode(doc)), r.choice(["raw", "bytesio", "buffered", "pipe"]),
                                           short=short))
            return "doc", MsgpackCodec.decode(s)
        if route == "lazy":
            lazy = MsgpackDocument(doc)
            return ("lazy", lazy) if r.chance(0.4) else ("doc", lazy.document())
        if route == "lazybytes":
            lazy = MsgpackDocument(MsgpackCodec.encode(doc))
            if r.chance(0.3):
                lazy.texts()
            return ("lazy", lazy) if r.chance(0.4) else ("doc", lazy.document())
        if route == "lazystream":
            s = self.keep.keep(open_stream(ctx, Store(MsgpackCodec.encode(doc)), r.choice(["raw", "bytesio", "buffered"]), short=short))
            lazy = MsgpackDocument(s)
            return ("lazy", lazy) if r.chance(0.4) else ("doc", lazy.document())
        if route == "json":
            return "doc", JsonCodec.decode(JsonCodec.encode(docs.unwrap(doc)))
        if route == "pickle":
            data = pickle.dumps(doc, protocol=r.choice([2, 4, 5]))
            return ("pickled", data) if r.chance(0.3) else ("doc", pickle.loads(data))
        if route == "deepcopy":
            return "doc", copy.deepcopy(doc)
        if route == "copy":
            return "doc", copy.copy(doc)
        if route == "picklelazy":
            return "doc", pickle.loads(pickle.dumps(MsgpackDocument(doc))).document()
        if route in ("collection", "lazycollection"):
            out = SimRaw(ctx, Store(), short=short)
            wr = MsgpackDocumentWriter(out, num_docs_per_block=r.choice([1, 2, 128]), codec=coll.codec(r.choice(coll.CODECS)))
            self.keep.keep(out, wr)
            where = r.randrange(3)
            other = docs.build(docs._spec("tiny", 5, True))
            for i in range(3):
                d = doc if i == where else other
                wr.write(MsgpackDocument(d) if route == "lazycollection" else d)
            wr.flush()
            data = bytes(out.store.data)
            s = open_stream(ctx, Store(data), r.choice(["raw", "bytesio", "buffered", "pipe"]), short=r.choice(coll.SHORTS))
            rd = MsgpackDocumentReader(s)
            self.keep.keep(s, rd)
            found = None
            for i, d in enumerate(rd):
                if i == where:
                    found = d
            ctx.check(i == 2, "wrong-result", "%d documents in the collection" % (i + 1))
            return ("lazy", found) if r.chance(0.4) else ("doc", found.document())
        if route == "tar":
            self.files += 1
            p = os.path.join(ctx.tmp, "f%d.tar" % self.files)
            with TarMsgpackWriter(p, mode="w") as wr:
                wr.write(doc)
            with TarMsgpackReader(p, mode="r") as rd:
                return "doc", next(rd).document()
        raise ValueError(route)


def edit_inner(doc, r, ctx):
    """Edit an embedded document in place; those beside it stay as they are."""
    if "emb" not in doc.layers or "d" not in doc.layers["emb"].schema.fields:
        return None
    cand = [n["d"] for n in doc.layers["emb"] if "d" in n]
    if not cand:
        return None
    at = r.randrange(len(cand))
    others = []
    for i, d in enumerate(cand):
        if hasattr(d, "decode") and (i == at or r.chance(0.5)):
            d = d.decode()
        d = getattr(d, "data", d)
        if i == at:
            chosen = d
        elif hasattr(d, "layers"):
            others.append(d)
    if not hasattr(chosen, "layers"):
        return None
    before = [docs.observe(d) for d in others]
    e = docs.mutate(chosen, r, False, 0)
    for d, b in zip(others, before):
        ctx.check(docs.observe(d) == b, "embedded-shared", lambda: "%s of one embedded document changed another one beside it" % e)
    return "inner " + e


LOCAL = {"inlist": 1, "inspan": 1, "set": 1, "unset": 1, "inext": 1, "inprop": 0, "prop": 0}


def places(a, b):
    """Places (texts, top-level properties, node fields) in which two documents of the same layers differ."""
    out = [("text", k) for k in set(a["texts"]) | set(b["texts"]) if a["texts"].get(k) != b["texts"].get(k)]
    p, q = a["props"][1], b["props"][1]
    out += [("prop", k) for k in set(p) | set(q) if p.get(k) != q.get(k)]
    for name, la in a["layers"].items():
        for i, (m, n) in enumerate(zip(la["nodes"], b["layers"][name]["nodes"])):
            out += [("node", name, i, f) for f in set(m) | set(n) if m.get(f) != n.get(f)]
    return out


def execute(plan, ctx):
    from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument
    w = World(plan, ctx)
    sp = docs.spec(plan["doc"], plan["json"])
    first = docs.build(sp)
    if plan["lists"]:
        first.props["nested"] = {"a": [1, {"b": [2]}], "c": []}
    for i in range(plan["inner"]):      # embedded documents
        from docria.codec import MsgpackDocumentExt
        from docria.model import DataTypes as T
        la = first.layers["emb"] if i else first.add_layer("emb", d=T.ext("doc"))
        inner = docs.build(docs._spec("tiny", plan["doc"][1] % 1000 + (i if plan["doc"][1] % 3 else 0), False))
        how = plan["doc"][1] % 4
        la.add(d=inner if how % 2 else MsgpackDocumentExt(inner if how else MsgpackCodec.encode(inner)))
    w.all.append(Holder("doc", first, docs.observe(first), 0))
    routes = ROUTES + ([(5, "json")] if plan["json"] else [])
    hops = 0
    for op, i, x in plan["ops"]:
        ctx.steps += 1
        r = derive("c12", op, x)
        live = [h for h in w.all if h.kind == "doc"]
        h = live[i % len(live)]
        touched = None
        if op == "edit":
            before = h.want
            for _ in range(r.choice([1, 1, 3])):
                e = docs.mutate(h.obj, r, plan["json"])
                if plan["inner"] and r.chance(0.5):
                    e = edit_inner(h.obj, r, ctx) or e
                last, h.want = h.want, docs.observe(h.obj)
                if h.hops and e in LOCAL:
                    # in a copy, values are as independent of each other as they are by their notation
                    diff = places(last, h.want)
                    ctx.check(len(diff) <= 1 and all((d[0] == "node") == LOCAL[e] for d in diff), "values-shared",
                              lambda: "%s of one value of a copy after %d hops changed %r" % (e, h.hops, diff[:4]))
            h.edits += 1
            touched = h
            if hops:
                h.edited = True
                ctx.probes["edit of a copy" if h.hops else "edit of the original after a hop"] += 1
            ctx.ev("edit", i, e)
        elif op == "hop":
            route = r.weighted(routes)
            kind, obj = w.hop(route, h.obj, r)
            n = Holder(kind, obj, h.want, h.hops + 1)
            w.expect(n, "copy-differs", "by %s after %d hops" % (route, h.hops))
            w.all.append(n)
            ctx.ev("hop", i, route, kind)
            ctx.state(route, min(4, h.hops), min(4, h.edits), kind)
            if hops and h.edits:
                ctx.nontrivial = True
            hops += 1
        elif op == "fail":
            route = r.weighted(routes)
            how = r.choice(["value", "field", "dangling", "io", "io", "io"])
            # a hop which fails, then the same hop again
            undo = lambda: None
            if how == "value":
                if route == "json" and r.chance(0.5):       # keys which JSON cannot hold
                    key = r.choice([b"k", ("a", "b"), frozenset(), b""])
                    at = h.obj.props if r.chance(0.5) else h.obj.props.setdefault("badmap", {})
                    at[key] = r.choice([0, None, "x"])
                    undo = lambda: (at.pop(key), h.obj.props.pop("badmap", None))
                else:
                    h.obj.props["bad"] = r.choice([object(), {1, 2}, 1j, range(3)]) if route == "json" or r.chance(0.5) else object()
                    undo = lambda: h.obj.props.pop("bad")
            elif how in ("field", "dangling"):
                ns = [n for la in h.obj.layers.values() for n in la]
                if not ns:
                    continue
                from docria.model import Node
                refs = [(n, f) for la in h.obj.layers.values() for f, dt in la.schema.fields.items()
                        if dt.typename.name == "NODEREF" for n in la if f in n]
                if how == "dangling" and refs:
                    n, f = r.choice(refs)
                    old = n[f]
                    n[f] = Node()
                    undo = lambda: n.update({f: old})
                else:
                    how = "field"
                    n = r.choice(ns)
                    n["undeclared"] = 1
                    undo = lambda: n.pop("undeclared")
            else:
                if route not in ("stream", "lazystream", "collection", "lazycollection"):
                    route = r.choice(["stream", "lazystream", "collection"])
                ctx.arm({"on": r.choice(["read", "read", "write", "seek", "flush"]), "n": r.choice([0, 0, 1, 2, 5]),
                         "kind": r.choice(READ_KINDS)})
            seed = r.randrange(1 << 30)
            try:
                kind, obj = w.hop(route, h.obj, derive("fail", seed))
                if kind == "lazy" and ctx.armed and not ctx.fired:
                    obj.document()      # still under the fault
                res = None
            except Violation:
                raise
            except Exception as e:
                res = e
            if how == "io":
                ctx.disarm()
                ctx.check(res is None or ctx.fired and isinstance(res, OSError), "spurious-failure", "%s: %s %s" % (
                    route, xname(res) if res else None, res))
                if res is None and ctx.fired and kind == "doc":
                    ctx.check(docs.observe(obj) == h.want, "fault-swallowed", route)
            else:
                ctx.check(res is not None, "failure-not-reported", "%s by %s" % (how, route))
                ctx.faults["hop fails: " + how] += 1
            undo()
            w.expect(h, "source-changed", "by a failing hop (%s, %s)" % (how, route))
            kind, obj = w.hop(route, h.obj, derive("fail", seed))
            n = Holder(kind, obj, h.want, h.hops + 1)
            w.expect(n, "copy-differs", "by %s, repeated after a failure (%s)" % (route, how))
            w.all.append(n)
            hops += 1
            ctx.ev("fail", i, route, how, xname(res) if res else None)
            ctx.state(route, how, res is not None)
        elif op == "keep":
            if plan["json"] and r.chance(0.4):
                n = Holder("json", JsonCodec.encode(docs.unwrap(h.obj)), h.want, h.hops + 1)
            else:
                n = Holder("bytes", MsgpackCodec.encode(h.obj), h.want, h.hops + 1)
            w.all.append(n)
            ctx.ev("keep", i, n.kind)
        elif op == "readback":
            # a new live document from kept bytes or a lazy document
            stored = [s for s in w.all if s.kind != "doc"]
            if stored:
                s = r.choice(stored)
                if s.kind == "bytes":
                    d = MsgpackCodec.decode(s.obj)
                elif s.kind == "json":
                    d = JsonCodec.decode(s.obj)
                elif s.kind == "pickled":
                    d = pickle.loads(s.obj)
                else:
                    k = r.randrange(4)
                    if k == 0:      # what the sections return belongs to the caller
                        p = s.obj.properties()
                        p["later"] = 1
                        for v in p.values():
                            if isinstance(v, list):
                                v.append(1)
                            elif isinstance(v, dict):
                                v["later"] = 1
                        for v in s.obj.texts().values():
                            v.append("later")
                        ctx.probes["edit of a lazy document's sections"] += 1
                    d = s.obj.document()
                w.all.append(Holder("doc", d, s.want, s.hops + 1))
                ctx.ev("readback", s.kind)
        elif op == "drop":
            if len(w.all) > 1 and len(live) > 1:
                w.all.remove(h)
        while len(w.all) > 9:
            w.all.pop(1 if w.all[0].kind == "doc" else 0)
        for s in w.all:
            w.expect(s, "copy-changed", "%s copy after %s of %s" % (s.kind, op, "itself" if s is touched else "another"))
