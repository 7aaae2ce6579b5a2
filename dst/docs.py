"""Plain-data documents: generation, construction through the public API, canonical observation.

A document token in a plan is [class, seed]; spec(token) is a pure function of it. A spec is
  {"props": {...}, "texts": [(name, str)], "layers": [(name, [(field, type, arg)], [{field: value}])]}
with references as node positions. canon_spec(spec) and observe(document) give the same canonical form
exactly when the document holds what the spec says.
"""
import functools

from .rng import derive

CHARS = ["a", "b", "C", " ", "\n", "\t", "0", "é", "ß", "世", "界", "😀", "𝔘", "\u0301", "<", "&", "\"", "\\", "\u0000", "\u2028", "\r", "\r\n", "\ufeff", "\x85"]
NAMES = ["token", "sentence", "node", "Ünï", "a b", "x.y", "layer_7", "i", "名", "self", "", "n" * 40]
FIELDS = ["text", "id", "pos", "head", "kids", "span", "w", "é", "keys", "self", "name", "left", "f0", "f1", "f2", "", "名" * 90]
SCALARS = ["i32", "i64", "f64", "bool", "str", "bin"]


def rstr(r, n):
    return "".join(r.choice(CHARS) for _ in range(n))


def rbytes(r, n):
    return bytes(r.getrandbits(8) for _ in range(n))


def rint(r, bits):
    k = r.randrange(6)
    if k == 0:
        return r.choice([0, 1, -1, 127, 128, 255, 256, -32, -33, -128, -129, 32767, 32768, 65535, 65536])
    if k == 1:
        return -(1 << (bits - 1))
    if k == 2:
        return (1 << (bits - 1)) - 1
    return r.randrange(-(1 << r.randrange(1, bits - 1)), 1 << r.randrange(1, bits - 1))


def rfloat(r):
    return r.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, float("inf"), float("-inf"), 0.1, 3.0, r.random()])


def scalar(r, t, big=False):
    if t == "i32":
        return rint(r, 32)
    if t == "i64":
        return rint(r, 64)
    if t == "f64":
        return rfloat(r)
    if t == "bool":
        return r.chance(0.5)
    if t == "str":
        return rstr(r, r.choice([0, 1, 2, 5, 31, 32, 40] + ([300] if big else [])))
    if t == "bin":
        return rbytes(r, r.choice([0, 1, 3, 31, 32, 40] + ([300] if big else [])))
    raise ValueError(t)


def rprop(r, depth, json):
    k = r.randrange(9 if depth else 7)
    if k == 0:
        return None
    if k == 1:
        return r.chance(0.5)
    if k == 2:
        return rint(r, 64)
    if k == 3:
        return rfloat(r)
    if k in (4, 5):
        return rstr(r, r.choice([0, 1, 4, 33]))
    if k == 6:
        return rstr(r, 3) if json else rbytes(r, r.choice([0, 2, 33]))
    if k == 7:
        return [rprop(r, depth - 1, json) for _ in range(r.randrange(4))]
    return {rstr(r, 2) + str(i): rprop(r, depth - 1, json) for i in range(r.randrange(4))}


# class -> (max layers, max nodes per layer, max fields)
SHAPE = {"nil": (0, 0, 0), "tiny": (1, 2, 2), "small": (3, 8, 4), "medium": (5, 40, 6), "many": (2, 400, 3),
         "wide": (20, 4, 20), "big": (2, 6, 3), "huge": (2, 6, 3), "giant": (1, 2, 2), "array32": (1, 0, 1)}


@functools.lru_cache(maxsize=4096)
def _spec(cls, seed, json):
    r = derive("doc", cls, seed, json)
    maxl, maxn, maxf = SHAPE[cls]
    props = {"uid": "u%s" % seed}
    for i in range(r.randrange(4) if cls != "wide" else 20):
        props[r.choice(["k", "é", "lang", "url", ""]) + (str(i) if r.chance(0.9) else "")] = rprop(r, 2, json)
    texts = []
    if cls == "nil":
        ntexts = r.randrange(2)
    else:
        ntexts = r.choice([1, 1, 1, 2, 3]) if cls != "wide" else 17
    long = r.randrange(ntexts) if cls in ("big", "huge", "giant") and ntexts else 0      # the text which is long
    for i in range(ntexts):
        n = r.choice([0, 1, 5, 20, 60])
        s = rstr(r, n)
        if cls == "big" and i == long:
            s = s + rstr(r, 64) * r.choice([300, 1100])
        if cls == "huge" and i == long:
            s = s + "".join(r.choices("abcdefghijklmnop \n世", k=r.choice([40000, 90000])))
        if cls == "giant" and i == long:
            s = s + (rstr(r, 64) * r.choice([20000, 33000, 70000]))
        texts.append(("main" if i == 0 else "" if i == 2 else "t%d" % i, s))
    if cls == "array32":
        n = 65536 + r.randrange(3)
        return {"props": props, "texts": texts,
                "layers": [("n", [("v", "i32", 0)], [{"v": (i * 7) & 127} for i in range(n)])]}
    nl = r.randrange(maxl + 1) if cls != "wide" else r.randrange(17, 21)
    names = [("L%d" % i if cls == "wide" else r.choice(NAMES) + ("" if i == 0 else str(i))) for i in range(nl)]
    counts = [r.choice([0, 1, 2, maxn, r.randrange(maxn + 1)]) for _ in range(nl)]
    layers = []
    for li in range(nl):
        nf = r.randrange(maxf + 1) if not (cls == "wide" and li == 0) else r.randrange(16, 20)
        fields, used = [], set()
        for fi in range(nf):
            fname = r.choice(FIELDS)
            if fname in used:
                fname = "f_%d" % fi
            used.add(fname)
            t = r.choice(SCALARS + ["span", "span", "noderef", "noderef_many", "nodespan", "noderef", "ext", "doc"])
            if t == "doc" and cls not in ("small",):
                t = "ext"
            if json and t in ("bin", "ext"):
                t = "str"
            if t == "span":
                if not texts:
                    t, arg = "i32", 0
                else:
                    arg = r.choice(texts)[0]
            elif t in ("noderef", "noderef_many", "nodespan"):
                arg = r.choice(names)
            elif t == "ext":
                arg = r.choice(["blob", "img"])
            elif t == "doc":
                arg = "doc"
            else:
                # default: 0 = the type's own, None = no default, else explicit
                arg = r.choice([0, 0, None, 1])
            fields.append((fname, t, arg))
        layers.append((names[li], fields, []))
    tl = dict(texts)
    for li in range(nl):
        name, fields, nodes = layers[li]
        for ni in range(counts[li]):
            n = {}
            for fname, t, arg in fields:
                if r.chance(0.25):
                    continue
                if t in SCALARS:
                    n[fname] = scalar(r, t, cls == "medium")
                elif t == "span":
                    L = len(tl[arg])
                    a = r.randrange(L + 1)
                    b = r.choice([a, L, r.randrange(a, L + 1), min(L, a + 3)])
                    n[fname] = (a, b)
                elif t == "ext":
                    n[fname] = rbytes(r, r.choice([0, 1, 40]))
                elif t == "doc":
                    n[fname] = _spec("tiny", r.randrange(1 << 30), json)
                else:
                    c = counts[names.index(arg)]
                    if c == 0:
                        continue
                    if t == "noderef":
                        n[fname] = r.randrange(c)
                    elif t == "noderef_many":
                        n[fname] = [r.randrange(c) for _ in range(r.choice([0, 1, 2, 3, 17]))]
                    else:
                        a = r.randrange(c)
                        n[fname] = (a, r.randrange(a, c))
            nodes.append(n)
    return {"props": props, "texts": texts, "layers": layers}


def spec(token, json=False):
    return _spec(token[0], token[1], json)


# -- construction -----------------------------------------------------------------------------------------

def default_arg(t, arg):
    """The explicit default used for arg == 1."""
    return {"i32": 7, "i64": -9, "f64": 2.5, "str": "dflt", "bool": True}[t]


def dtype(t, arg):
    from docria.model import DataTypes as T
    if t in ("i32", "i64", "f64", "str", "bool"):
        fn = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "str": T.string, "bool": T.bool}[t]
        if arg == 0:
            return fn()
        if arg is None:
            return fn(None)
        return fn(default_arg(t, arg))
    if t == "bin":
        return T.binary
    if t == "span":
        return T.span(arg)
    if t == "noderef":
        return T.noderef(arg)
    if t == "noderef_many":
        return T.noderef_many(arg)
    if t == "nodespan":
        return T.nodespan(arg)
    if t in ("ext", "doc"):
        return T.ext(arg)
    raise ValueError(t)


def default_of(t, arg):
    """Default value a new node gets for an unset field, None = none."""
    if t not in ("i32", "i64", "f64", "str", "bool") or arg is None:
        return None
    if arg == 0:
        return {"i32": 0, "i64": 0, "f64": 0.0, "str": "", "bool": False}[t]
    return default_arg(t, arg)


def options_of(t, arg):
    if t in ("i32", "i64", "f64", "str", "bool"):
        d = default_of(t, arg)
        return {} if d is None else {"default": d}
    if t == "bin":
        return {}
    if t == "span":
        return {"context": arg}
    if t in ("noderef", "noderef_many", "nodespan"):
        return {"layer": arg}
    return {"type": arg}


TYPENAMES = {"i32": "I32", "i64": "I64", "f64": "F64", "bool": "BOOL", "str": "STRING", "bin": "BINARY",
             "span": "SPAN", "noderef": "NODEREF", "noderef_many": "NODEREF_MANY", "nodespan": "NODEREF_SPAN",
             "ext": "EXT", "doc": "EXT"}


def build(sp):
    """Build the document of a spec through the public API."""
    from docria.model import Document, Node, NodeSpan, ExtData, Text
    doc = Document()
    doc.props.update(_copy(sp["props"]))
    for name, s in sp["texts"]:
        if name == "main":
            doc.maintext = Text("main", s) if len(s) % 3 == 0 else s
        else:
            doc.add_text(name, s)
    allnodes = {}
    for name, fields, nodes in sp["layers"]:
        layer = doc.add_layer(name, **{f: dtype(t, a) for f, t, a in fields if f != "self"})
        for f, t, a in fields:
            if f == "self":
                layer.add_field(f, dtype(t, a))
        objs = [Node() for _ in nodes]
        layer.add_many(objs, default_fill=False)
        allnodes[name] = objs
    for name, fields, nodes in sp["layers"]:
        for obj, n in zip(allnodes[name], nodes):
            for f, t, a in fields:
                if f not in n:
                    continue
                v = n[f]
                if t == "span":
                    v = doc.texts[a][v[0]:v[1]]
                elif t == "noderef":
                    v = allnodes[a][v]
                elif t == "noderef_many":
                    v = [allnodes[a][k] for k in v]
                elif t == "nodespan":
                    v = NodeSpan(allnodes[a][v[0]], allnodes[a][v[1]])
                elif t == "ext":
                    v = ExtData(a, v)
                elif t == "doc":
                    from docria.codec import MsgpackDocumentExt
                    v = MsgpackDocumentExt(build(v))
                obj[f] = v
    return doc


def _copy(v):
    if isinstance(v, dict):
        return {k: _copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [_copy(x) for x in v]
    return v


# -- canonical forms ------------------------------------------------------------------------------------

def canon_value(v):
    """Type-faithful canonical form of a property value."""
    if v is None:
        return ("none",)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", v.hex())
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return ("bytes", bytes(v).hex())
    if isinstance(v, (list, tuple)):
        return ("list", [canon_value(x) for x in v])
    if isinstance(v, dict):
        return ("map", {repr(canon_value(k)): canon_value(x) for k, x in v.items()})
    return ("other", type(v).__name__)


def _canon_scalar(t, v):
    """Field value of declared type t: bool in int -> int, int in float -> float."""
    if t in ("i32", "i64", "I32", "I64") and isinstance(v, bool):
        v = int(v)
    if t in ("f64", "F64") and isinstance(v, int):
        v = float(v)
    return canon_value(v)


def _canon_opts(opts):
    out = {}
    for k, v in opts.items():
        if isinstance(v, (bool, int, float)):
            out[k] = ("num", float(v))
        else:
            out[k] = canon_value(v)
    return out


def canon_spec(sp):
    out = {"props": canon_value(sp["props"]), "texts": dict(sp["texts"]), "layers": {}}
    for name, fields, nodes in sp["layers"]:
        cf = {f: (TYPENAMES[t], _canon_opts(options_of(t, a))) for f, t, a in fields}
        cn = []
        for n in nodes:
            d = {}
            for f, t, a in fields:
                if f not in n or n[f] is None:
                    continue
                v = n[f]
                if t in SCALARS:
                    d[f] = _canon_scalar(t, v)
                elif t == "span":
                    d[f] = ("span", a, v[0], v[1])
                elif t == "noderef":
                    d[f] = ("ref", a, v)
                elif t == "noderef_many":
                    if v:
                        d[f] = ("refs", [(a, k) for k in v])
                elif t == "nodespan":
                    d[f] = ("nodespan", (a, v[0]), (a, v[1]))
                elif t == "ext":
                    d[f] = ("ext", v.hex())
                elif t == "doc":
                    d[f] = ("doc", canon_spec(v))
            cn.append(d)
        out["layers"][name] = {"fields": cf, "nodes": cn}
    return out


@functools.lru_cache(maxsize=2048)
def _canon_token(cls, seed, json):
    return canon_spec(_spec(cls, seed, json))


def canon_token(token, json=False):
    return _canon_token(token[0], token[1], json)


def observe(doc):
    """Canonical form of a document, through its public API only."""
    from docria.model import Node, NodeSpan, NodeCollection, TextSpan, ExtData, Document
    out = {"props": canon_value(doc.props), "texts": {}, "layers": {}}
    for name, t in doc.texts.items():
        out["texts"][name] = t.text
        if t.name != name:
            out["texts"][name] = ("misnamed", t.name)
    where = {}
    lists = {}
    for name, layer in doc.layers.items():
        nodes = list(layer)
        lists[name] = nodes
        for i, n in enumerate(nodes):
            where[id(n)] = (name, i)

    def ref(n):
        return where.get(id(n), ("nowhere", -1))

    for name, layer in doc.layers.items():
        fields = layer.schema.fields
        cf = {f: (dt.typename.name, _canon_opts(dt.options)) for f, dt in fields.items()}
        cn = []
        for n in lists[name]:
            d = {}
            for f, v in n.items():
                if v is None:
                    continue
                if f not in fields:
                    d[f] = ("undeclared",)
                    continue
                t = fields[f].typename.name
                if isinstance(v, TextSpan):
                    d[f] = ("span", v.text.name, v.start, v.stop)
                    if doc.texts.get(v.text.name) is not v.text:
                        d[f] += ("foreign",)
                elif isinstance(v, Node):
                    d[f] = ("ref",) + ref(v)
                elif isinstance(v, NodeSpan) and t != "NODEREF_MANY":
                    d[f] = ("nodespan", ref(v.left), ref(v.right))
                elif t == "NODEREF_MANY" and isinstance(v, (list, NodeCollection)):
                    lst = [ref(x) for x in v]
                    if lst:
                        d[f] = ("refs", lst)
                elif isinstance(v, Document):
                    d[f] = ("doc", observe(v))
                elif isinstance(v, ExtData):
                    if v.type == "doc":
                        from docria.codec import MsgpackCodec
                        d[f] = ("doc", observe(v.data if isinstance(v.data, Document) else MsgpackCodec.decode(bytes(v.data))))
                    else:
                        d[f] = ("ext", bytes(v.encode()).hex())
                elif t == "EXT" and isinstance(v, bytes):
                    d[f] = ("ext", v.hex())
                else:
                    d[f] = _canon_scalar(t, v)
            cn.append(d)
        out["layers"][name] = {"fields": cf, "nodes": cn}
        if layer.name != name:
            out["layers"][name]["name"] = layer.name
    return out


def uid(c):
    """uid property out of a canonical document."""
    try:
        return c["props"][1].get("('str', 'uid')", ("?", None))[1]
    except Exception:
        return None


def doc_token(r, classes=None):
    cls = r.weighted(classes or [(2, "nil"), (6, "tiny"), (8, "small"), (3, "medium"), (1, "wide"), (0.6, "many"),
                                 (0.3, "big"), (0.15, "huge")])
    return [cls, r.randrange(1 << 40)]


# -- caller edits which make a live document differ from what was written -----------------------------------

def scramble(doc, r):
    """Edit a document in place (used after a write: what was written must not change)."""
    doc.props["scrambled"] = r.randrange(1000)
    for v in doc.props.values():
        if isinstance(v, list):
            v.append("later")
        elif isinstance(v, dict):
            v["later"] = 1
    for layer in list(doc.layers.values()):
        nodes = list(layer)
        for n in nodes[::2]:
            n.clear()
        if nodes:
            layer.remove(nodes[0])
    doc.add_text("later", "later text")
    doc.add_layer("later")


# -- random valid edits of any document ------------------------------------------------------------------

def _value_for(doc, dt, r, json):
    from docria.model import ExtData, NodeSpan
    t, o = dt.typename.name, dt.options
    simple = {"I32": "i32", "I64": "i64", "F64": "f64", "BOOL": "bool", "STRING": "str", "BINARY": "bin"}
    if t in simple:
        return scalar(r, simple[t])
    if t == "SPAN":
        tx = doc.texts[o["context"]]
        a = r.randrange(len(tx.text) + 1)
        return tx[a:r.randrange(a, len(tx.text) + 1)]
    if t == "EXT":
        if o["type"] == "doc":
            return build(_spec("tiny", r.randrange(1 << 30), json))
        return ExtData(o["type"], rbytes(r, 3))
    nodes = list(doc.layers[o["layer"]])
    if t == "NODEREF_MANY":
        return [r.choice(nodes) for _ in range(r.randrange(4))] if nodes else []
    if not nodes:
        return None
    if t == "NODEREF":
        return r.choice(nodes)
    i = r.randrange(len(nodes))
    return NodeSpan(nodes[i], nodes[r.randrange(i, len(nodes))])


def unwrap(doc):
    """Embedded documents as such, the form of them which JSON takes."""
    from docria.model import Document, ExtData
    for layer in doc.layers.values():
        for f, dt in layer.schema.fields.items():
            if dt.typename.name == "EXT" and dt.options.get("type") == "doc":
                for n in layer:
                    v = n.get(f)
                    if isinstance(v, ExtData):
                        v = n[f] = v.decode()
                    if isinstance(v, Document):
                        unwrap(v)
    return doc


def tidy(doc):
    """Drop references to nodes which are gone and spans which run backwards."""
    for layer in doc.layers.values():
        for f, dt in layer.schema.fields.items():
            t = dt.typename.name
            if not t.startswith("NODEREF"):
                continue
            target = doc.layers[dt.options["layer"]]
            for n in layer:
                v = n.get(f)
                if v is None:
                    continue
                if t == "NODEREF":
                    bad = v.collection is not target
                elif t == "NODEREF_MANY":
                    v[:] = [m for m in v if m.collection is target]
                    bad = False
                else:
                    bad = v.left.collection is not target or v.right.collection is not target or v.left.i > v.right.i
                if bad:
                    del n[f]


EDITS = [(4, "prop"), (4, "inprop"), (1, "rmprop"), (1, "text"), (1, "layer"), (4, "node"), (2, "nodes"), (4, "remove"), (8, "set"),
         (2, "unset"), (3, "inlist"), (2, "inspan"), (2, "sort"), (1.5, "addfield"), (1, "rmfield"), (3, "inner"), (0.6, "rmlayer"),
         (1, "inext")]


def mutate(doc, r, json, depth=1):
    """One random edit which keeps the document valid; returns its name."""
    from docria.model import DataTypes as T, Document, ExtData, Node, NodeSpan
    op = r.weighted(EDITS)
    layers = list(doc.layers.values())
    layer = r.choice(layers) if layers else None
    nodes = list(layer) if layer is not None else []
    fields = list(layer.schema.fields.items()) if layer is not None else []
    if op == "prop" or op not in ("inprop", "rmprop", "text", "layer") and layer is None:
        doc.props[r.choice(["uid2", "k0", "é1", "edit%d" % r.randrange(5)])] = rprop(r, 2, json)
        return "prop"
    if op == "inprop":
        cand = [v for v in doc.props.values() if isinstance(v, (list, dict))]
        while cand and r.chance(0.4):
            v = r.choice(cand)
            deeper = [x for x in (v.values() if isinstance(v, dict) else v) if isinstance(x, (list, dict))]
            if not deeper:
                break
            cand = deeper
        if not cand:
            doc.props["nested"] = {"a": [1, {"b": []}], "c": rprop(r, 2, json)}
            return op
        v = r.choice(cand)
        if isinstance(v, list):
            v.insert(r.randrange(len(v) + 1), r.randrange(100))
        else:
            v["in%d" % r.randrange(4)] = r.randrange(100)
    elif op == "rmprop":
        ks = [k for k in doc.props if k != "uid"]
        if ks:
            del doc.props[r.choice(ks)]
    elif op == "text":
        name = "t%d" % r.randrange(20)
        if name not in doc.texts:
            doc.add_text(name, rstr(r, r.choice([0, 3, 20])))
    elif op == "layer":
        name = "new%d" % r.randrange(6)
        if name not in doc.layers:
            fs = {"v": T.int32(), "s": T.string(None), "me": T.noderef_many(name)}
            if doc.texts:
                fs["p"] = T.span(r.choice(list(doc.texts)))
            doc.add_layer(name, **fs)
    elif op in ("node", "nodes"):
        new = []
        for _ in range(1 if op == "node" else r.choice([2, 5])):
            n = Node()
            for f, dt in fields:
                if r.chance(0.6):
                    v = _value_for(doc, dt, r, json)
                    if v is not None:
                        n[f] = v
            new.append(n)
        if op == "node":
            layer.add(new[0])
        else:
            layer.add_many(new)
    elif op == "remove":
        k = r.choice([1, 1, len(nodes) // 2, len(nodes)])
        layer.remove(r.sample(nodes, min(k, len(nodes))))
        tidy(doc)
    elif op in ("set", "unset"):
        if nodes and fields:
            n = r.choice(nodes)
            f, dt = r.choice(fields)
            v = _value_for(doc, dt, r, json) if op == "set" else None
            if v is not None:
                n[f] = v
            else:
                n.pop(f, None)
    elif op == "inlist":
        cand = [(n[f], dt) for n in nodes for f, dt in fields if dt.typename.name == "NODEREF_MANY" and f in n]
        if cand:
            v, dt = r.choice(cand)
            t = list(doc.layers[dt.options["layer"]])
            if v and r.chance(0.5):
                v.pop()
            elif t:
                v.append(r.choice(t))
    elif op == "inspan":
        cand = [n[f] for n in nodes for f, dt in fields if dt.typename.name == "NODEREF_SPAN" and f in n]
        if cand:
            v = r.choice(cand)
            if r.chance(0.5):
                v.right = v.left
            else:
                v.left = v.right
    elif op == "sort":
        rank = {n: r.randrange(5) for n in nodes}
        layer.sort(rank.__getitem__)
        tidy(doc)
    elif op == "addfield":
        f = "e%d" % r.randrange(6)
        if f not in layer.schema.fields:
            opts = [T.int64(5), T.string(), T.bool(None), T.float64(), T.noderef(r.choice(layers).name), T.noderef_many(layer.name),
                    T.nodespan(layer.name)]
            if doc.texts:
                opts.append(T.span(r.choice(list(doc.texts))))
            opts.append(T.ext("doc"))
            if not json:
                opts += [T.binary, T.ext("blob")]
            layer.add_field(f, r.choice(opts), init_with_default=r.chance(0.6))
    elif op == "rmfield":
        if fields:
            layer.remove_field(r.choice(fields)[0])
    elif op == "inner":
        cand = [n[f] for n in nodes for f, dt in fields if dt.typename.name == "EXT" and f in n]
        cand = [d.data if isinstance(d, ExtData) else d for d in cand]
        cand = [d for d in cand if isinstance(d, Document)]
        if cand and depth:
            return "inner " + mutate(r.choice(cand), r, json, depth - 1)
    elif op == "inext":
        cand = [n[f] for n in nodes for f, dt in fields if dt.typename.name == "EXT" and f in n]
        cand = [d for d in cand if isinstance(d, ExtData) and d.type != "doc"]
        if cand:
            r.choice(cand).data = rbytes(r, 4)
    elif op == "rmlayer":
        doc.remove_layer(layer.name, fieldcascade=True)
    return op
