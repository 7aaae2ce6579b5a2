"""C13: threads working on separate documents and streams never affect each other."""
import copy
import hashlib
import io
import os
import pickle
import re
import tarfile

from .. import coll, docs, forked, sched, seams
from ..core import Violation, first_diff
from ..rng import derive
from ..simio import SimRaw, Store, use_scratch

ID = "C13"
RUNS = {"quick": 6000, "thorough": 60000}
LISTS = ["sched", "jobs"]
RULE = ("A run draws two to four threads, each with its own list of jobs (encoding, lazy access, writing and reading collections and "
        "tar files, indexes, edits, queries, traversals, printing, failing operations) on its own documents and streams, and a switch "
        "plan over the executed source lines or bytecode instructions of docria and msgpack. Each thread's results are compared with "
        "those of the same jobs alone in a fresh process image.")
NONTRIVIAL = "threads were switched at least three times while two of them had work left."
STATES = "distinct switch sequences (thread, position in the thread)"
STUB = ["thread scheduling (one thread at a time, switches at source lines, bytecode instructions, file opens)", "wall clock",
        "streams (SimRaw)", "locks created by docria (SimLock)"]
REAL = ["all docria modules including algorithm, printout and query (from /repo's working tree)", "threads (real ones, one running at a time)",
        "msgpack, zlib, bz2, lzma, lz4, zstd, tarfile, pickle, json (installed)"]

OPS = [(4, "codec"), (3, "json"), (4, "lazy"), (5, "collection"), (2, "tar"), (2, "index"), (4, "edit"), (3, "bad"), (3, "query"),
       (2, "graph"), (2, "print"), (2, "xml"), (2, "algo"), (2, "types"), (2, "pickle"), (1, "damaged"), (1.5, "refs")]
_ADDR = re.compile(r"0x[0-9a-fA-F]+")
_ROOT = re.compile(r"[^\s'\"]*/dst-[^/]+/(all|solo\d+)")


def gen(r, tier):
    n = r.choice([2, 2, 2, 3, 4])
    jobs = []
    same = r.chance(0.45)       # the threads do the same kinds of work
    twins = same and r.chance(0.6)              # on documents of the same content
    kinds = [r.weighted(OPS) for _ in range(3)] if r.chance(0.5) else [r.choice(OPS)[1]] * 3
    toks = [docs.doc_token(r, [(1, "nil"), (8, "tiny"), (6, "small"), (0.4, "medium")]) for _ in range(3)]
    for t in range(n):
        for k in range(r.choice([1, 1, 2, 3])):
            tok = docs.doc_token(r, [(1, "nil"), (8, "tiny"), (6, "small"), (0.4, "medium")])
            jobs.append([t, kinds[k] if same else r.weighted(OPS), list(toks[k]) if twins else tok, r.randrange(1 << 30)])
    return {"threads": n, "jobs": jobs, "quiet": r.chance(0.6), "codec": coll.gen_codec(r) if r.chance(0.4) else None, "pick": r.randrange(100) if same else None,
            "grain": r.weighted([(8, "line"), (2, "opcode")]), "deep": r.chance(0.35),
            "sched": sched.gen_plan(r, n, r.choice([2, 5, 15, 40, 120, 400]))}


def text(s):
    return _ROOT.sub("ROOT", _ADDR.sub("0x", str(s)))


def outcome(fn, *a):
    """Result or exception of one call as plain data."""
    try:
        return ("ok", fn(*a))
    except Violation:
        raise
    except Exception as e:
        return ("error", type(e).__name__, text(e))


class Job:
    """One thread's work; everything it touches is its own."""
    def __init__(self, ctx, t, root):
        self.ctx, self.t, self.root = ctx, t, root
        self.keep = []
        self.n = 0
        self.quiet = False
        self.codec = None
        self.pick = None

    def run(self, op, tok, x):
        self.n += 1
        return (op, outcome(getattr(self, "do_" + op), tok, derive("job", x), x))

    def make(self, tok, plain=False):
        with sched.quiet(self.quiet):
            return docs.build(docs.spec(tok, plain))

    def do_codec(self, tok, r, x):
        from docria.codec import MsgpackCodec
        doc = self.make(tok)
        data = MsgpackCodec.encode(doc)
        back = MsgpackCodec.decode(data)
        return [data, docs.observe(back), MsgpackCodec.encode(back)]

    def do_json(self, tok, r, x):
        from docria.codec import JsonCodec
        doc = docs.unwrap(self.make(tok, True))
        s = JsonCodec.encode(doc)
        back = JsonCodec.decode(s)
        return [s, docs.observe(back), JsonCodec.encode(back)]

    def do_lazy(self, tok, r, x):
        from docria.codec import MsgpackCodec, MsgpackDocument
        data = MsgpackCodec.encode(self.make(tok))
        src = r.choice(["bytes", "raw", "bytesio"])
        d = MsgpackDocument(data if src == "bytes" else io.BytesIO(data) if src == "bytesio" else
                            SimRaw(self.ctx, Store(data), short=[7], writable=False))
        self.keep.append(d)
        out = []
        for _ in range(r.choice([1, 3, 6])):
            k = r.randrange(6)
            if k == 0:
                out.append(docs.canon_value(d.properties()))
            elif k == 1:
                out.append({n: str(t) for n, t in d.texts().items()})
            elif k == 2:
                out.append(text(repr(d.schema())))
            elif k == 3:
                out.append(docs.observe(d.document()))
            elif k == 4:
                names = [n for n, _, _ in docs.spec(tok)["layers"]][:2]
                out.append(outcome(lambda: sorted(d.document(*names).layers)))
            else:
                out.append(d.binary())
        return out

    def do_collection(self, tok, r, x):
        from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
        codec, framing = self.codec or coll.gen_codec(r), r.choice([None, None, 12])
        raw = SimRaw(self.ctx, Store(), short=r.choice([None, [5, 0, 4096], [1, 2, 3, 0]]))
        w = MsgpackDocumentWriter(coll.frame_writer(raw, framing), num_docs_per_block=r.choice([1, 2, 128]), codec=coll.codec(codec))
        n = r.choice([1, 2, 4])
        out = []
        for i in range(n):
            how = r.choice(coll.HOWS)
            w.write(coll.as_input(self.make([tok[0], tok[1] + i]), how, self.ctx))
            if r.chance(0.2):
                out.append(outcome(w.write, object()))
            if r.chance(0.2):
                w.flush()
        w.flush()
        data = bytes(raw.store.data)
        out.append(data)
        rd = MsgpackDocumentReader(coll.frame_reader(io.BytesIO(data), framing))
        self.keep += [raw, w, rd]
        refs = []
        for d in rd:
            out.append(coll.full(d))
            refs.append(d.ref)
        r.shuffle(refs)
        for ref in refs:
            out.append((ref, docs.uid(coll.full(rd.get(ref)))))
        return out

    def do_tar(self, tok, r, x):
        from docria.collection import TarMsgpackReader, TarMsgpackWriter
        p = os.path.join(self.root, "t%d_%d.tar" % (self.t, self.n))
        mode = r.choice(["w|gz", "w", "w|"])
        w = TarMsgpackWriter(p, mode=mode, rootdir=r.choice([None, "root"]))
        for i in range(r.choice([1, 2, 4])):
            w.write(self.make([tok[0], tok[1] + i]))
        w.close()
        rd = TarMsgpackReader(p, mode="r:*")
        out = [coll.full(d) for d in rd]
        rd.close()
        with tarfile.open(p, "r:*") as t:
            out.append([(m.name, m.size, m.mtime, m.mode, m.type) for m in t])
        return out

    def do_index(self, tok, r, x):
        from docria.collection import DocumentFileIndex, DocumentIndex, MsgpackDocumentWriter
        p = os.path.join(self.root, "i%d_%d.docria" % (self.t, self.n))
        with MsgpackDocumentWriter(p, num_docs_per_block=2) as w:
            for i in range(4):
                d = self.make(["tiny", tok[1] + i])
                d.props["k"] = i % 2
                w.write(d)
        idx = DocumentFileIndex.build(p, "k", "uid")
        multi = DocumentIndex(self.root)
        multi.add(idx)
        a, b = idx.search({"k": 1}, lazy=r.chance(0.5)), multi.search({"k": 0})
        out = []
        for _ in range(3):
            for g in (a, b):
                d = next(g, None)
                if d is not None:
                    out.append(docs.observe(d.document() if hasattr(d, "document") else d))
        return [out, [tuple(x) for x in idx.docrefs], sorted(multi.index)]

    def do_edit(self, tok, r, x):
        from docria.codec import MsgpackCodec
        doc = self.make(tok)
        if r.chance(0.5):
            doc = MsgpackCodec.decode(MsgpackCodec.encode(doc))
        out = []
        for _ in range(r.choice([2, 5, 10])):
            out.append(docs.mutate(doc, r, False))
        out.append(docs.observe(doc))
        out.append(outcome(MsgpackCodec.encode, doc))
        return out

    def do_bad(self, tok, r, x):
        from docria.codec import JsonCodec, MsgpackCodec
        from docria.model import DataTypes as T, Document, Node, NodeSpan
        doc = Document(id=x)
        doc.maintext = docs.rstr(r, 9)
        a = doc.add_layer("bad", i=T.int32(), ref=T.noderef("bad"), many=T.noderef_many("bad"), sp=T.span("main"), ns=T.nodespan("bad"))
        n, m = a.add(i=1), a.add(i=2)
        out = []
        for _ in range(3):
            k = r.randrange(9)
            if k == 0:
                n["undeclared"] = 1
            elif k == 1:
                n["i"] = "text"
            elif k == 2:
                n["ref"] = m
                a.remove(m)
                m = a.add(i=3)
            elif k == 3:
                n["ref"] = Node()
            elif k == 4:
                out.append(outcome(lambda: text(a.add(i=1, nope=2))))
            elif k == 5:
                out.append(outcome(lambda: a.remove(Node())))
            elif k == 6:
                out.append(outcome(lambda: text(doc.add_layer("bad"))))
            elif k == 7:
                out.append(outcome(lambda: doc.remove_layer("none")))
            else:
                doc.props["p"] = object()
            out.append(outcome(MsgpackCodec.encode, doc))
            out.append(outcome(JsonCodec.encode, doc) if "p" not in doc.props else None)
            out.append(outcome(lambda: sorted(doc.compile(extra_fields_ok=True)[0])))
            if "p" in doc.props:
                del doc.props["p"]
            n.clear()
            n["i"] = 1
        return out

    def do_damaged(self, tok, r, x):
        from docria.codec import MsgpackCodec, MsgpackDocument
        from docria.collection import MsgpackDocumentReader
        data = MsgpackCodec.encode(self.make(tok))
        cut = data[:r.randrange(len(data) + 1)]
        out = [outcome(lambda: docs.observe(MsgpackCodec.decode(cut))), outcome(lambda: docs.canon_value(MsgpackDocument(cut).properties()))]
        out.append(outcome(lambda: [coll.full(d) for d in MsgpackDocumentReader(io.BytesIO(b"Dmf1" + cut))]))
        return out

    def layered(self, r):
        with sched.quiet(self.quiet):
            return self.graph(r)

    def graph(self, r):
        from docria.model import DataTypes as T, Document
        doc = Document()
        doc.maintext = docs.rstr(r, 30)
        lay = doc.add_layer("n", v=T.int32(None), s=T.string(), nxt=T.noderef_many("n"), up=T.noderef("n"), text=T.span())
        nodes = []
        for i in range(r.choice([3, 8, 15])):
            a = r.randrange(31)
            n = lay.add(v=r.randrange(4), s="s%d" % r.randrange(3), text=doc.maintext[a:r.randrange(a, 31)])
            nodes.append(n)
        for n in nodes:
            n["nxt"] = [r.choice(nodes) for _ in range(r.randrange(4))]
            if r.chance(0.7):
                n["up"] = r.choice(nodes)
        return doc, lay, nodes

    def do_query(self, tok, r, x):
        doc, lay, nodes = self.layered(r)
        ids = {n: i for i, n in enumerate(nodes)}
        out = []
        qs = [lay["v"] == 2, lay["v"] != 1, lay["v"] > 1, (lay["v"] <= 2) & (lay["s"] == "s1"), (lay["v"] == 0) | ~(lay["s"] == "s2"),
              lay["s"].is_any("s0", "s1"), lay["text"].covered_by(3, 20), lay["text"].intersected_by(3, 9), lay["up"].is_none(),
              lay.filter("v", "s", fn=lambda v, s: v != 1 and s != "s0"), lay.filter("v", fn=lambda v: v == 2 or v == 3),
              lay["v"].filter(lambda v: v < 2), lay["s"].has_value(), lambda n: n["v"] == 3]
        for _ in range(r.choice([2, 3, 6])):
            q = r.choice(qs) if self.pick is None or r.chance(0.5) else qs[self.pick % len(qs)]
            view = lay[q]
            out.append([ids[n] for n in view])
            out.append((len(view), [v for v in lay["v"]]))
            if r.chance(0.4):
                lay.remove(list(lay)[:1])
                out.append([ids[n] for n in view])
        return out

    def do_graph(self, tok, r, x):
        from docria import algorithm as A
        doc, lay, nodes = self.layered(r)
        ids = {n: i for i, n in enumerate(nodes)}
        its = [A.dfs(nodes[0], A.children_of(lay, "nxt")), A.bfs(nodes[0], A.children_of(lay, "nxt", "up")),
               A.dfs_leaves(nodes[0], A.children_of(lay, "up")), A.dfs(nodes[-1], A.children_of(lay, "up"), lambda n: n["v"] > 1)]
        out = []
        while its:
            i = r.randrange(len(its))
            n = next(its[i], None)
            if n is None:
                its.pop(i)
                continue
            out.append((i, (n[0], ids[n[1]]) if isinstance(n, tuple) else ids[n]))
        return out

    def do_print(self, tok, r, x):
        doc, lay, nodes = self.layered(r)
        out = [text(doc), text(repr(doc)), text(lay), text(repr(lay)), text(lay._repr_html_()), text(nodes[0]), text(repr(nodes[0])),
               text(nodes[0]._repr_html_()), text(lay["v"]), text(lay[lay["v"] > 1]), outcome(lambda: text(lay.to_list()))]
        return out

    def do_xml(self, tok, r, x):
        from docria.codec import XmlCodec
        doc, lay, nodes = self.layered(r)
        opts = {"document_id": r.choice(["", "d%d" % x, "d%d" % self.t]), "verbose": r.chance(0.4)}
        return [outcome(lambda: XmlCodec.encode_utf8string(d, **opts)) for d in (doc, self.make(tok, True), self.make(tok, True))]

    def do_algo(self, tok, r, x):
        from docria import algorithm as A
        doc, lay, nodes = self.layered(r)
        ids = {n: i for i, n in enumerate(nodes)}
        out = [[ids[n] for n in A.dominant_right_span(lay)]]
        g = A.group_by_span(list(lay)[:3], {"n": list(lay)}, resolution=r.choice(["intersect", "cover"]))
        out.append([(ids[n], sorted(ids[m] for m in d["n"])) for n, d in g])
        s = doc.maintext.text
        toks = [s[i:i + r.choice([1, 2, 3])] for i in range(0, len(s), 4)] + ["zz"]
        out.append([(sp.start, sp.stop) for sp in A.sequence_to_textspans(toks, doc.maintext)])
        return out

    def do_types(self, tok, r, x):
        from docria.model import DataTypes as T, DataTypeEnum, Document
        doc = Document(id=x)
        v = r.randrange(1000)
        lay = doc.add_layer("l", a=T.int32(v), b=T.int64(), c=T.float64(v / 4), d=T.string("s%d" % v), e=T.bool(bool(v % 2)), f=T.int32())
        out = []
        for k in range(3):
            n = lay.add()
            out.append(sorted((k, docs.canon_value(u)) for k, u in n.items()))
            lay.add_field("x%d" % k, r.choice([T.int32(v + k), T.string("d%d" % v), T.int64(None)]))
        out += [text(dt) for dt in lay.schema.fields.values()]
        out.append(docs.observe(doc))
        for val in (1, True, 2.5, "s", b"b", None, [1], 1 << 40, lay.first, doc):
            out.append(outcome(lambda: text(T.typeof(val))))
        return out

    def do_pickle(self, tok, r, x):
        doc = self.make(tok)
        d2 = pickle.loads(pickle.dumps(doc))
        d3 = copy.deepcopy(doc)
        for _ in range(3):
            docs.mutate(d2, r, False)
        return [docs.observe(doc), docs.observe(d2), docs.observe(d3)]

    def do_refs(self, tok, r, x):
        from docria.codec import MsgpackDocument
        from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
        s = io.BytesIO()
        w = MsgpackDocumentWriter(s, num_docs_per_block=3, codec=coll.codec(self.codec or coll.gen_codec(r)))
        with sched.quiet(self.quiet):
            for i in range(6):
                w.write(self.make(["tiny", tok[1] + i]))
            w.flush()
        rd = MsgpackDocumentReader(io.BytesIO(s.getvalue()))
        refs = [d.ref for d in rd]
        out = []
        for _ in range(8):
            ref = r.choice(refs)
            out.append((ref, coll.full(rd.get(ref))))
        return out


def task(ctx, plan, t, root):
    j = Job(ctx, t, root)
    j.quiet = plan.get("quiet", False)
    j.codec = plan.get("codec")
    j.pick = plan.get("pick")

    def body():
        out = []
        for u, op, tok, x in plan["jobs"]:
            if u == t:
                out.append(j.run(op, tok, x))
        return out
    return body, j


def execute(plan, ctx):
    seams.clock_hook = lambda: 1700000000.0
    n = max([u for u, _, _, _ in plan["jobs"]], default=-1) + 1
    if n == 0:
        return
    tmp = ctx.tmp
    solo = []
    for t in range(n):
        root = os.path.join(tmp, "solo%d" % t)
        os.mkdir(root)

        def alone(t=t, root=root):
            os.chdir(root)
            return task(ctx, plan, t, ".")[0]()
        solo.append(forked.call(alone))
    root = os.path.join(tmp, "all")
    os.mkdir(root)

    def together():
        os.chdir(root)
        fns = [task(ctx, plan, t, ".") for t in range(n)]
        s = sched.Sched(ctx, [f for f, _ in fns], plan["sched"], grain=plan["grain"], deep=plan["deep"])
        use_scratch(ctx, on_open=lambda p, m: s.point())
        tasks = s.run()
        return ([(t.result, None if t.error is None else "%s: %s" % (type(t.error).__name__, text(t.error))) for t in tasks],
                s.trace, s.total, s.switches, ctx.io_calls)

    results, trace, total, switches, io_calls = forked.call(together)
    ctx.io_calls += io_calls
    ctx.steps += total
    ctx.now += total * 1e-6
    ctx.faults["thread switch"] += switches
    ctx.probes["source lines interleaved"] += total
    ctx.ev("trace", hashlib.sha256(repr(trace).encode()).hexdigest()[:12], len(trace))
    ctx.state(tuple(trace))
    if switches >= n + 3:
        ctx.nontrivial = True
    for t in range(n):
        got, err = results[t]
        ctx.ev("thread", t, hashlib.sha256(repr(solo[t]).encode("utf-8", "backslashreplace")).hexdigest()[:12])
        if err is not None:
            ctx.fail("thread-failed", "thread %d: %s" % (t, err))
        for k, (a, b) in enumerate(zip(got, solo[t])):
            if a != b:
                ctx.fail("differs-from-running-alone", "thread %d job %d (%s): %s" % (t, k, b[0], first_diff(a, b)))


