"""C07: lazy document access agrees with full decoding in any order."""
import copy
import io
import pickle

from .. import coll, docs
from ..core import READ_KINDS, xname
from ..simio import SimRaw, Store

ID = "C07"
RUNS = {"quick": 24000, "thorough": 500000}
LISTS = ["ops"]
RULE = ("A run draws a document, a backing (bytes, memory stream, raw stream with short reads, buffered stream, reader of a "
        "collection) and a history of lazy requests on several handles, with read and seek errors inside chosen requests and "
        "pickling, copying and storing in between.")
NONTRIVIAL = "at least two requests of different kinds were answered on one handle."
STATES = "distinct (backing, previous request, request, fault fired) combinations"
STUB = ["stream behind the document (SimRaw: short reads, read and seek errors)"]

OPS = ["props", "props", "someprops", "texts", "sometexts", "schema", "document", "document", "subset", "subset", "binary",
       "pickle", "deepcopy", "store", "decode"]


def gen(r, tier):
    ops = []
    frate = r.choice([0, 0, 0.15, 0.3])
    for _ in range(r.choice([2, 4, 8, 16])):
        f = None
        if r.chance(frate):
            f = {"on": r.choice(["read", "read", "read", "seek"]), "n": r.choice([0, 0, 1, 2, 3, 5]), "kind": r.choice(READ_KINDS)}
        ops.append([r.choice(OPS), r.randrange(4), r.randrange(1 << 30), r.chance(0.3), f])
    tok = docs.doc_token(r, [(1, "nil"), (4, "tiny"), (8, "small"), (3, "medium"), (1, "wide"), (0.5, "many"), (0.3, "big"), (0.05, "giant")])
    short = r.choice(coll.SHORTS)
    if tok[0] == "giant":
        short = r.choice([None, [65536], [4096, 100000]])
        del ops[6:]
    return {"doc": tok, "back": r.choice(["bytes", "doc", "bytesio", "raw", "raw", "raw", "buffered", "reader", "get"]),
            "short": short, "ops": ops}


def closure(sp, start):
    """Layers reachable from `start` through reference fields."""
    fields = {name: f for name, f, _ in sp["layers"]}
    todo, seen = list(start), []
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.append(n)
        todo += [a for _, t, a in fields[n] if t in ("noderef", "noderef_many", "nodespan")]
    return seen


def execute(plan, ctx):
    from docria.codec import MsgpackCodec, MsgpackDocument
    from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
    keep = coll.Closing(ctx)
    sp = docs.spec(plan["doc"])
    want = docs.canon_token(plan["doc"])
    doc = docs.build(sp)
    data = MsgpackCodec.encode(doc)
    full = MsgpackCodec.decode(data)
    coll.same(ctx, [docs.observe(full)], [want], "decode-differs", "full decoding")
    props = {k: docs.canon_value(v) for k, v in full.props.items()}
    texts = {k: t.text for k, t in full.texts.items()}
    schema = {name: {f: (dt.typename.name, docs._canon_opts(dt.options)) for f, dt in layer.schema.fields.items()}
              for name, layer in full.layers.items()}
    forder = {name: list(layer.schema.fields) for name, layer in full.layers.items()}
    back = plan["back"]

    def fresh():
        if back == "bytes":
            return MsgpackDocument(data)
        if back == "doc":
            return MsgpackDocument(doc)
        if back in ("reader", "get"):
            out = SimRaw(ctx, Store())
            w = MsgpackDocumentWriter(out, codec=coll.codec("none"))
            keep.keep(out, w)
            for _ in range(2):
                w.write(doc)
            w.close()
            rd = MsgpackDocumentReader(io.BytesIO(bytes(out.store.data)))
            d = next(rd)
            return d if back == "reader" else rd.get(d.ref)
        if back == "bytesio":
            return MsgpackDocument(io.BytesIO(data))
        s = SimRaw(ctx, Store(data), short=plan["short"], writable=False)
        if back == "buffered":
            s = io.BufferedReader(s, 64)
        keep.keep(s)
        return MsgpackDocument(s)

    handles = [[fresh(), None]]
    keep.keep(handles[0][0])

    def spoil(v, x):
        """What callers do with answers must not show up in later ones."""
        if isinstance(v, dict):
            v["spoiled"] = x
            for u in list(v.values()):
                if isinstance(u, list):
                    u.append("spoiled")
        elif isinstance(v, list):
            v.append("spoiled")

    for op, hi, x, touch, fault in plan["ops"]:
        ctx.steps += 1
        h = handles[hi % len(handles)]
        d = h[0]
        pick = derive_pick(x)
        if op == "decode" and back not in ("bytes", "doc"):
            op = "document"
        ctx.arm(fault)
        try:
            if op == "props":
                v = d.properties()
                ctx.check({k: docs.canon_value(u) for k, u in v.items()} == props, "properties-differ", op)
                if touch:
                    spoil(v, x)
            elif op == "someprops":
                names = pick(sorted(props) + ["absent"])
                v = d.properties(*names)
                if names:
                    exp = {k: props[k] for k in names if k in props}
                    ctx.check({k: docs.canon_value(u) for k, u in v.items()} == exp, "properties-differ", "selected %r" % names)
            elif op == "texts":
                v = d.texts()
                ctx.check({k: "".join(u) for k, u in v.items()} == texts, "texts-differ", op)
                if touch:
                    spoil(v, x)
            elif op == "sometexts":
                names = pick(sorted(texts) + ["absent"])
                v = d.texts(*names)
                if names:
                    exp = {k: texts[k] for k in names if k in texts}
                    ctx.check({k: "".join(u) for k, u in v.items()} == exp, "texts-differ", "selected %r" % names)
            elif op == "schema":
                types, sch = d.schema()
                ctx.check(sorted(types) == sorted(schema), "schema-differs", "layers %r" % types)
                got = {n: {f: (dt.typename.name, docs._canon_opts(dt.options)) for f, dt in fs} for n, fs in sch.items()}
                ctx.check(got == schema, "schema-differs", op)
                ctx.check({n: [f for f, dt in fs] for n, fs in sch.items()} == forder, "schema-differs", "field order")
                if touch:
                    for fs in sch.values():
                        fs[:1 + x % 2] = []
                    sch.pop(types[0] if types else None, None)
                    types.append("spoiled")
            elif op == "document":
                v = d.document()
                coll.same(ctx, [docs.observe(v)], [want], "document-differs", "document()")
                if touch:
                    docs.scramble(v, derive_r(x))
            elif op == "decode":
                v = MsgpackCodec.decode(d.binary())
                coll.same(ctx, [docs.observe(v)], [want], "document-differs", "decode(binary())")
            elif op == "subset":
                names = [n for n, _, _ in sp["layers"]]
                sub = closure(sp, pick(names))
                if sub:
                    sub = derive_r(x).sample(sub, len(sub))
                    v = d.document(*sub)
                    exp = dict(want)
                    exp["layers"] = {n: want["layers"][n] for n in sub}
                    coll.same(ctx, [docs.observe(v)], [exp], "subset-differs", "document(%s)" % ", ".join(sub))
                    if len(sub) < len(names):
                        ctx.probes["proper subset of the layers"] += 1
                    if touch:
                        docs.scramble(v, derive_r(x))
            elif op == "binary":
                ctx.check(d.binary() == data, "binary-differs", op)
            elif op in ("pickle", "deepcopy"):
                v = pickle.loads(pickle.dumps(d)) if op == "pickle" else copy.deepcopy(d)
                ctx.check(v.ref == d.ref, "reference-lost", op)
                ctx.check(v.binary() == data, "binary-differs", op)
                if len(handles) < 4:
                    handles.append([v, None])
            elif op == "store":
                out = SimRaw(ctx, Store())
                keep.keep(out)
                w = MsgpackDocumentWriter(out, num_docs_per_block=2, codec=coll.codec("none"))
                keep.keep(w)
                w.write(d)
                ctx.disarm()
                w.close()
                got = next(MsgpackDocumentReader(io.BytesIO(bytes(out.store.data))), None)
                ctx.check(got is not None and got.binary() == data, "binary-differs", op)
            note = "ok"
        except OSError:
            if not ctx.fired:
                raise
            note = "raised"
            ctx.probes["request failed, later requests checked"] += 1
        finally:
            ctx.disarm()
        ctx.ev(op, hi, note)
        ctx.state(back, h[1], op, note)
        if h[1] not in (None, op) and note == "ok":
            ctx.nontrivial = True
        h[1] = op
    # every handle still gives everything
    for h in handles:
        coll.same(ctx, [coll.full(h[0])], [want], "document-differs", "at the end")
        ctx.check(h[0].binary() == data, "binary-differs", "at the end")


def derive_r(x):
    from ..rng import derive
    return derive("c07", x)


def derive_pick(x):
    r = derive_r(x)

    def pick(names):
        k = r.randrange(len(names) + 1) if names else 0
        return r.sample(names, k)
    return pick
