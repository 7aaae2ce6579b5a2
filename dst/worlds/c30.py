"""C30: equal documents give equal bytes, in any process and after any history."""
import hashlib
import io
import os

from .. import coll, docs, peer, seams
from ..core import Violation, first_diff, xname
from ..rng import derive
from ..simio import SimRaw, Store

ID = "C30"
RUNS = {"quick": 7000, "thorough": 150000}
LISTS = ["docs", "ops"]
RULE = ("A run draws documents, edit histories for them and the parameters of a collection and an archive. Everything is encoded by all "
        "routes, and again: later, under another clock and address layout, in another process with another string hash seed, from a "
        "document with the same content and order reached by a different history (detours, other order of filling in), after attempts "
        "which failed, and after decoding. The bytes are compared.")
NONTRIVIAL = "a document with at least two layers or three fields was compared with one of another history or another process."
STATES = "distinct (route, size class, codec, framing, document class, detours) combinations"
STUB = ["wall clock", "output streams (SimRaw: short writes, failing attempts)"]
REAL = ["docria.collection, docria.codec, docria.model, docria.query, docria.algorithm (from /repo's working tree)", "a second Python process with another hash seed",
        "msgpack, zlib, bz2, lzma, lz4, zstd, tarfile, pickle, json (installed)"]
HASHSEEDS = [1, 77]


def gen(r, tier):
    n = r.choice([1, 1, 2, 3, 5])
    return {"docs": [docs.doc_token(r, [(1, "nil"), (5, "tiny"), (9, "small"), (2, "medium"), (1.2, "wide"), (0.5, "big"), (0.2, "many")]) for _ in range(n)],
            "json": r.chance(0.4), "x": r.randrange(1 << 30),
            "ops": [[r.randrange(n), r.randrange(1 << 30)] for _ in range(r.choice([0, 0, 2, 6, 15]))],
            "codec": coll.gen_codec(r), "block": r.choice([1, 2, 3, 128]), "framing": r.choice(coll.FRAMINGS),
            "tar": r.choice(["w|gz", "w|", "w:gz", "w|bz2", "w|xz"]), "root": r.choice([None, "root"]),
            "hashseed": r.choice(HASHSEEDS) if r.chance(0.5) else None, "clock": r.choice([0, 1, 1700000000, 4000000000])}


def make(plan):
    """The documents of a plan, after their edits."""
    ds = [docs.build(docs.spec(t, plan["json"])) for t in plan["docs"]]
    for i, x in plan["ops"]:
        if ds:
            docs.mutate(ds[i % len(ds)], derive("c30", x), plan["json"])
    if plan["json"]:
        for d in ds:
            docs.unwrap(d)
    return ds


def sha(b):
    return "%d:%s" % (len(b), hashlib.sha256(b).hexdigest()[:20])


def attempt(fn):
    try:
        v = fn()
    except Violation:
        raise
    except Exception as e:
        return "error " + xname(e)
    return sha(v.encode("utf-8", "surrogatepass") if isinstance(v, str) else bytes(v))


def collection(plan, ds, ctx=None, short=None):
    from docria.collection import MsgpackDocumentWriter
    raw = io.BytesIO() if ctx is None else SimRaw(ctx, Store(), short=short)
    w = MsgpackDocumentWriter(coll.frame_writer(raw, plan["framing"]), num_docs_per_block=plan["block"], codec=coll.codec(plan["codec"]))
    for d in ds:
        w.write(d)
    w.flush()
    return raw.getvalue() if ctx is None else bytes(raw.store.data)


def archive(plan, ds):
    from docria.collection import TarMsgpackWriter
    out = io.BytesIO()
    w = TarMsgpackWriter(None, mode=plan["tar"], rootdir=plan["root"], fileobj=out)
    for d in ds:
        w.write(d)
    w.close()
    return out.getvalue()


def encode_all(plan, ds):
    """(route, bytes) of everything."""
    from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument, MsgpackDocumentExt, XmlCodec
    out = []
    for i, d in enumerate(ds):
        out.append(["msgpack %d" % i, attempt(lambda: MsgpackCodec.encode(d))])
        out.append(["lazy %d" % i, attempt(lambda: MsgpackDocument(d).binary())])
        out.append(["ext %d" % i, attempt(lambda: MsgpackDocumentExt(d).encode())])
        if plan["json"]:
            out.append(["json %d" % i, attempt(lambda: JsonCodec.encode(d))])
            out.append(["xml %d" % i, attempt(lambda: XmlCodec.encode_utf8string(d))])
    out.append(["collection", attempt(lambda: collection(plan, ds))])
    out.append(["archive", attempt(lambda: archive(plan, ds))])
    return out


def produce(plan, ctx):
    """What the other process computes as well."""
    from docria.collection import DocumentFileIndex, MsgpackDocumentReader
    clock(plan["clock"])
    try:
        ds = make(plan)
        out = encode_all(plan, ds)
        try:
            data = collection(plan, ds)
            out.append(["refs", repr([d.ref for d in MsgpackDocumentReader(coll.frame_reader(io.BytesIO(data), plan["framing"]))])])
            if plan["framing"] is None:
                p = os.path.join(ctx.tmp, "c.docria")
                with open(p, "wb") as f:
                    f.write(data)
                ix = DocumentFileIndex.build(p, "uid", "lang")
                out.append(["index", repr((ix.properties, ix.docrefs))])
        except TypeError as e:          # unhashable property values
            out.append(["index", xname(e)])
        return out
    finally:
        seams.clock_hook = None


def clock(t):
    seams.clock_hook = lambda: float(t)


# -- the same content by another way -------------------------------------------------------------------------

def again_type(dt):
    from docria.model import DataTypes as T
    t, o = dt.typename.name, dt.options
    if t in ("I32", "I64", "F64", "STRING", "BOOL"):
        return {"I32": T.int32, "I64": T.int64, "F64": T.float64, "STRING": T.string, "BOOL": T.bool}[t](dt.options.get("default"))
    if t == "BINARY":
        return T.binary
    if t == "SPAN":
        return T.span(o["context"])
    if t == "EXT":
        return T.ext(o["type"])
    return {"NODEREF": T.noderef, "NODEREF_MANY": T.noderef_many, "NODEREF_SPAN": T.nodespan}[t](o["layer"])


def rebuild(doc, r, detour):
    """A document with the same content and order, made through the public API along another way."""
    from docria.model import DataTypes as T, Document, ExtData, Node, NodeSpan, TextSpan
    from docria.codec import MsgpackCodec
    new = Document()

    def spoil(p):
        return detour and r.chance(p)

    for k, v in doc.props.items():
        new.props[k] = docs._copy(v)
        if spoil(0.3):
            new.props["detour"] = 1
            del new.props["detour"]
    for name, t in doc.texts.items():
        new.add_text(name, t.text) if name != "main" else setattr(new, "maintext", t.text)
        if spoil(0.3):
            new.add_text("detour", "x" * 9)
            del new.texts["detour"]
    m = {}
    todo = []
    for name, lay in doc.layers.items():
        if spoil(0.2):
            new.add_layer("detour", a=T.int32(), b=T.noderef("detour")).add()
            new.remove_layer("detour")
        fs = list(lay.schema.fields.items())
        k = r.randrange(len(fs) + 1) if detour else len(fs)
        L = new.add_layer(name, **{f: again_type(dt) for f, dt in fs[:k] if f != "self"}) if all(f != "self" for f, _ in fs[:k]) else new.add_layer(name)
        for f, dt in fs:
            if f not in L.schema.fields:
                L.add_field(f, again_type(dt), init_with_default=False)
                if spoil(0.3):
                    L.add_field("detour", T.string("zz"))
                    L.remove_field("detour")
        junk = []
        for n in lay:
            if spoil(0.2):
                junk.append(Node())
                L.add(junk[-1])
            o = Node()
            L.add(o)
            m[id(n)] = o
            todo.append((n, o))
        if junk:
            L.remove(junk) if r.chance(0.5) else [j.detach() for j in junk]
        if detour and r.chance(0.3):
            order = {o: i for i, o in enumerate(L)}
            L.sort(lambda o: -order[o])
            L.sort(order.__getitem__)
    if detour:
        r.shuffle(todo)

    def value(v):
        if isinstance(v, Node):
            return m[id(v)]
        if isinstance(v, TextSpan):
            return new.texts[v.text.name][v.start:v.stop]
        if isinstance(v, NodeSpan):
            return NodeSpan(m[id(v.left)], m[id(v.right)])
        if isinstance(v, list):
            return [m[id(x)] for x in v]
        if isinstance(v, Document):
            return rebuild(v, r, detour)
        if isinstance(v, ExtData) and isinstance(v.data, Document):
            return type(v)(rebuild(v.data, r, detour))
        if isinstance(v, ExtData):
            return ExtData(v.type, bytes(v.encode()))
        return v

    for n, o in todo:
        items = list(n.items())
        if detour:
            r.shuffle(items)
        for f, v in items:
            if spoil(0.1):
                o["detour"] = 1
            o[f] = value(v)
            o.pop("detour", None)
    if spoil(0.3):
        try:
            MsgpackCodec.encode(new)
        except Exception:
            pass
    if spoil(0.5):
        other_state(new, r)
    return new


def other_state(doc, r):
    """The document is something else for a while, and is stored as that."""
    from docria.codec import JsonCodec, MsgpackCodec, XmlCodec
    undo = []
    fields = [(l, f, dt) for l in doc.layers.values() for f, dt in l.schema.fields.items()]

    def restore(n, f, old):
        n.pop(f, None)
        if old:
            n[f] = old[0]

    for _ in range(r.choice([1, 2, 6])):
        if not fields:
            break
        lay, f, dt = r.choice(fields if r.chance(0.5) else [t for t in fields if t[2].typename.name == "SPAN"] or fields)
        v = docs._value_for(doc, dt, r, False)
        ns = list(lay)
        if ns and r.chance(0.6):
            n = r.choice(ns)
            undo.append((restore, n, f, [n[f]] if f in n else []))
        else:
            n = lay.add()
            undo.append((lay.remove, n))
        n.pop(f, None)
        if v is not None:
            n[f] = v
    for _ in range(r.choice([1, 1, 2])):
        try:
            r.choice([MsgpackCodec.encode, MsgpackCodec.encode, JsonCodec.encode, XmlCodec.encode_tree])(doc)
        except Exception:
            pass
    for fn, *args in reversed(undo):
        fn(*args)


def sabotage(doc, r):
    """Attempts which fail leave nothing behind that shows in the bytes."""
    from docria.codec import JsonCodec, MsgpackCodec
    from docria.model import Node
    how = r.randrange(4)
    lay = next((l for l in doc.layers.values() if len(l)), None)
    if how == 0 or lay is None:
        doc.props["bad"] = object()
        undo = lambda: doc.props.pop("bad")
    elif how == 1:
        n = r.choice(list(lay))
        n["undeclared"] = 1
        undo = lambda: n.pop("undeclared")
    elif how == 2:
        doc.add_layer("bad", r=__import__("docria").model.DataTypes.noderef("missing"))
        undo = lambda: doc.remove_layer("bad")
    else:
        n = Node()
        n["undeclared"] = 1
        lay.add(n)
        undo = lambda: lay.remove(n)
    failed = 0
    for fn in (MsgpackCodec.encode, JsonCodec.encode):
        try:
            fn(doc)
        except Exception:
            failed += 1
    undo()
    return failed


def check(ctx, got, want, what):
    for (route, a), (_, b) in zip(got, want):
        ctx.check(a == b, "bytes-differ", "%s, %s: %s instead of %s" % (route, what, a[:300], b[:300]))


def execute(plan, ctx):
    from docria.codec import JsonCodec, MsgpackCodec
    if not plan["docs"]:
        return
    first = produce(plan, ctx)
    ctx.steps += len(first)
    for route, a in first:
        ctx.ev(route, a[:120])
    ctx.now += 1
    # in another process
    if plan["hashseed"] is not None:
        other = peer.ask(ID, plan["hashseed"], plan)
        check(ctx, other, first, "in a process with another hash seed")
        ctx.probes["compared with another process"] += 1
    # later, elsewhere in memory; only the archive holds times
    garbage = [object() for _ in range(plan["x"] % 997)] + ["%d" % i for i in range(plan["x"] % 313)]
    check(ctx, produce(plan, ctx), first, "made again")
    clock(plan["clock"] + 86400 * 365)
    ds = make(plan)
    plainroutes = [p for p in first if p[0].split()[0] not in ("archive", "refs", "index")]
    routes = lambda xs: [p for p in encode_all(plan, xs) if p[0] != "archive"]
    check(ctx, routes(ds), plainroutes, "a year later")
    check(ctx, routes(ds), plainroutes, "encoded again")
    # another history
    r = derive("c30r", plan["x"])
    for detour in (False, True):
        alt = [rebuild(d, r, detour) for d in ds]
        for a, b in zip(alt, ds):
            c, d = docs.observe(a), docs.observe(b)
            if c != d:
                ctx.fail("harness", "rebuild: %s" % first_diff(c, d))
        check(ctx, routes(alt), plainroutes, "the same document by another history" if detour else "the same document built directly")
    for d in alt:
        if r.chance(0.5):
            ctx.faults["failed encoding"] += sabotage(d, r)
    check(ctx, routes(alt), plainroutes, "after failed attempts")
    clock(plan["clock"])
    if any(a[0] == "archive" and not a[1].startswith("error") for a in first):
        ctx.check(attempt(lambda: archive(plan, alt)) == dict(map(tuple, first))["archive"], "bytes-differ", "archive of the same documents by another history")
    # streams which take less than they are given
    ctx.check(attempt(lambda: collection(plan, alt, ctx, [1, 0, 7, 3])) == dict(map(tuple, first))["collection"], "bytes-differ",
              "collection through a stream with short writes")
    # decoding and encoding
    wide = 0
    for i, d in enumerate(ds):
        data = MsgpackCodec.encode(d)
        back = MsgpackCodec.decode(data)
        ctx.check(MsgpackCodec.encode(back) == data, "bytes-differ", "encoding of the decoded document %d" % i)
        docs.observe(back)
        ctx.check(MsgpackCodec.encode(back) == data, "bytes-differ", "second encoding of the decoded document %d" % i)
        if plan["json"]:
            s = JsonCodec.encode(d)
            b2 = JsonCodec.decode(s)
            ctx.check(JsonCodec.encode(b2) == s, "bytes-differ", "JSON of the document %d decoded from JSON" % i)
        wide += len(d.layers) >= 2 or any(len(l.schema.fields) >= 3 for l in d.layers.values())
        ctx.state(plan["docs"][i % len(plan["docs"])][0], len(data).bit_length(), plan["codec"], plan["framing"], plan["json"], plan["hashseed"])
    del garbage
    if wide:
        ctx.nontrivial = True
