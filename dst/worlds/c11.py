"""C11: dangling references and schema violations are never stored."""
import copy
import io
import pickle

from .. import docs
from ..core import xname
from ..rng import derive

ID = "C11"
RUNS = {"quick": 20000, "thorough": 450000}
LISTS = ["ops"]
RULE = ("A run draws layers whose fields refer to each other and a history of edits which create violations (removed targets, "
        "wrong layers, foreign nodes, reversed spans, wrong types, undeclared fields, missing or replaced layers and texts) and "
        "repair them; at drawn points the document is stored by a drawn route, and success is compared with an independent "
        "judgement of the live objects.")
NONTRIVIAL = "the document was rejected at least once and stored at least once."
STATES = "distinct (route, set of violation classes present, reloaded) combinations"
STUB = ["output files (in memory)"]

MAIN = "Lorem ipsum dolor sit amet 世界 😀."
ALT = "alt text\nof the document"
LAYERS = ["a", "b", "c"]
OPS = [(4, "add"), (2, "addmany"), (7, "set"), (5, "bad"), (4, "remove"), (1, "removemany"), (1, "retain"), (1.5, "readd"), (1.5, "sort"),
       (0.7, "rmfield"), (1, "addfield"), (0.7, "rmlayer"), (0.5, "dellayer"), (1, "addlayer"), (0.4, "droptext"), (0.5, "swaptext"), (1, "addtext"),
       (3, "repair"), (1.5, "repairall"), (7, "store"), (0.7, "reload"), (1, "mutate"), (0.7, "nested")]
ROUTES = [(4, "msgpack"), (2, "lazy"), (3, "json"), (1, "xml"), (2, "pickle"), (1, "deepcopy"), (1, "copy"), (2, "writer"), (1, "tar"),
          (2, "extra"), (1, "compile")]
SCALAR = {"k": ("i32", 0), "z": ("i64", None), "f": ("f64", 0), "t": ("str", None), "o": ("bool", None), "w": ("bin", None),
          "d": ("doc", "doc"), "p": ("span", "main"), "q": ("span", "alt")}
BADVALUES = {"i32": ["x", "", "7", None, 1 << 31, -(1 << 31) - 1, 1.5, b"a", [1]], "i64": ["x", None, [], 1 << 63, -(1 << 63) - 1, 1.5, [1]],
             "f64": ["x", "", "1.5", 0, True, None, b"", [1.0], {}, 1, 1 << 60], "str": [b"a", b"", 5, 0, ["a"], [], False, None], "bool": ["x", 2, 0.5, [True], 0, 1, 1.0, None], "bin": ["a", "", 5, 0, [1], [], None, bytearray(b"a")],
             "doc": [5, "x", []]}


def gen(r, tier):
    names = r.sample(LAYERS, r.choice([1, 2, 2, 3, 3]))
    fields = {}
    for n in names:
        fs = []
        for _ in range(r.choice([1, 2, 3, 5])):
            f = r.choice(["r", "r", "m", "m", "s", "s"]) + r.choice(names)
            if r.chance(0.35):
                f = r.choice(list("kzftowdpq") + ["p", "q"])
            if f not in fs:
                fs.append(f)
        fields[n] = fs
    if r.chance(0.7):      # most documents can go to JSON
        fields = {n: [f for f in fs if f not in ("w", "d")] for n, fs in fields.items()}
    n = r.choice([6, 12, 25, 50])
    ops = [["addmany", r.randrange(1 << 30), i] for i in range(len(names))] if r.chance(0.8) else []
    ops += [[r.weighted(OPS), r.randrange(1 << 30), r.randrange(3)] for _ in range(n)]
    ops += [["repairall", 1, 0], ["store", r.randrange(1 << 30), 0]]
    return {"layers": fields, "ops": ops, "big": r.choice([300, 600, 1100]) if r.chance(0.02) else 0}


def ftype(f):
    if f in SCALAR:
        return SCALAR[f]
    return {"r": "noderef", "m": "noderef_many", "s": "nodespan"}[f[0]], f[1:]


class LM:
    def __init__(self, real, name, fields):
        self.real, self.name = real, name
        self.fields = {f: True for f in fields}     # field -> scalar type is checked
        self.nodes = []


class World:
    def __init__(self, plan, ctx):
        from docria.model import Document, Node
        self.ctx = ctx
        self.doc = Document(uid="c11")
        self.doc.maintext = MAIN
        self.doc.add_text("alt", ALT)
        self.texts = dict(self.doc.texts)
        self.alltexts = dict(self.doc.texts)
        self.layers = {}
        self.dead = []          # removed nodes, nodes of removed layers
        self.reloaded = False
        for n, fs in plan["layers"].items():
            self.addlayer(n, fs)
        other = Document()
        self.foreign = []
        for n in LAYERS:
            la = other.add_layer(n)
            ns = [Node() for _ in range(3)]
            la.add_many(ns)
            self.foreign += ns
        self.other = other

    def addlayer(self, n, fs):
        real = self.doc.add_layer(n, **{f: docs.dtype(*ftype(f)) for f in fs})
        self.layers[n] = LM(real, n, fs)

    # -- the independent judgement ---------------------------------------------------------------------
    def ok_value(self, f, typed, v):
        from docria.model import Document, ExtData, Node, NodeCollection, NodeSpan, TextSpan
        t, a = ftype(f)
        if t == "span":
            if not isinstance(v, TextSpan) or v.text.name != a or a not in self.texts:
                return False
            text = self.texts[a].text
            return v.text.text == text and 0 <= v.start <= v.stop <= len(text)
        if t in ("noderef", "noderef_many", "nodespan"):
            L = self.layers.get(a)
            if L is None:
                return False
            pos = self.positions(L)
            if t == "noderef":
                return isinstance(v, Node) and id(v) in pos
            if t == "noderef_many":
                if isinstance(v, NodeSpan):
                    return id(v.left) in pos and id(v.right) in pos and pos[id(v.left)] <= pos[id(v.right)]
                return isinstance(v, (list, NodeCollection)) and all(id(n) in pos for n in v)
            return isinstance(v, NodeSpan) and id(v.left) in pos and id(v.right) in pos and pos[id(v.left)] <= pos[id(v.right)]
        if t == "doc":
            if isinstance(v, ExtData):
                v = v.data
            if isinstance(v, bytes):
                return True
            return isinstance(v, Document) and nested_ok(v)
        if not typed:
            return True
        if t == "i32":
            return type(v) is int and -(1 << 31) <= v < 1 << 31
        if t == "i64":
            return type(v) is int and -(1 << 63) <= v < 1 << 63
        return type(v) is {"f64": float, "str": str, "bool": bool, "bin": bytes}[t]

    def positions(self, L):
        if L.name not in self.pos:
            self.pos[L.name] = {id(n): i for i, n in enumerate(L.nodes)}
        return self.pos[L.name]

    def violations(self):
        out = []
        self.pos = {}
        for L in self.layers.values():
            for f in L.fields:
                t, a = ftype(f)
                if t == "span" and a not in self.texts:
                    out.append(("notext", L, None, f))
                elif t in ("noderef", "noderef_many", "nodespan") and a not in self.layers:
                    out.append(("nolayer", L, None, f))
            for n in L.nodes:
                for f, v in n.items():
                    if f not in L.fields:
                        out.append(("extra", L, n, f))
                    elif not self.ok_value(f, L.fields[f], v):
                        out.append((ftype(f)[0], L, n, f))
        return out

    # -- values ---------------------------------------------------------------------------------------
    def good(self, f, x):
        """A conforming value, or None when there is none."""
        from docria.model import NodeList, NodeSpan
        r = derive("good", x)
        t, a = ftype(f)
        if t == "span":
            if a not in self.texts:
                return None
            tx = self.texts[a]
            if r.chance(0.1):       # of another document with the same text
                from docria.model import Document
                tx = Document().add_text(a, tx.text)
            i = r.randrange(len(tx.text) + 1)
            return tx[i:r.randrange(i, len(tx.text) + 1)]
        if t in ("noderef", "noderef_many", "nodespan"):
            L = self.layers.get(a)
            if L is None:
                return None
            if t == "noderef_many":
                if r.chance(0.15):      # other collections of nodes of that layer
                    k = r.randrange(4)
                    if k < 2 and L.nodes:
                        i = r.randrange(len(L.nodes))
                        return NodeSpan(L.nodes[i], L.nodes[min(i + r.randrange(4), len(L.nodes) - 1)])
                    if k == 3 and r.chance(0.3):
                        return L.real
                    chosen = set(r.sample(L.nodes, min(len(L.nodes), r.choice([0, 1, 3]))))
                    return L.real[lambda n: n in chosen]
                v = [r.choice(L.nodes) for _ in range(r.choice([0, 1, 2, 5]))] if L.nodes else []
                return NodeList(v, fieldtypes=L.real.fieldtypes) if r.chance(0.15) else v
            if not L.nodes:
                return None
            if t == "noderef":
                return r.choice(L.nodes)
            i = r.randrange(len(L.nodes))
            return NodeSpan(L.nodes[i], L.nodes[r.randrange(i, len(L.nodes))])
        if t == "doc":
            from docria.codec import MsgpackDocumentExt
            d = nested(r)
            return MsgpackDocumentExt(d) if r.chance(0.4) else d
        if t == "str":
            return r.choice(["", "a", "世", "a b"])
        v = docs.scalar(r, t)
        return 1.5 if v != v or v in (float("inf"), float("-inf")) else v

    def bad(self, f, typed, x):
        """A value which does not conform, or None."""
        from docria.model import Node, NodeSpan
        r = derive("bad", x)
        t, a = ftype(f)
        L = self.layers.get(a)
        if t == "span":
            other = "alt" if a == "main" else "main"
            if a in self.texts and r.chance(0.5):
                from docria.model import Document, TextSpan
                text = self.texts[a].text
                k = len(text)
                if r.chance(0.5):   # the text of that name in another document
                    tx = Document().add_text(a, r.choice([text + "!", text[:-1], text[::-1] + "-", text.swapcase() + " "]))
                    i = r.randrange(len(tx.text) + 1)
                    return tx[i:r.randrange(i, len(tx.text) + 1)]
                return TextSpan(self.texts[a], *r.choice([(0, k + 1), (k + 1, k + 1), (k, k + 5), (-1, 0), (-1, k), (-3, -1), (1, k + 100)]))
            return r.choice([self.texts[other][1:3]] * 3 + ["text", 5, (0, 1)]) if other in self.texts else "text"
        if t in ("noderef", "noderef_many", "nodespan"):
            wrong = [n for m, M in self.layers.items() if m != a for n in M.nodes]
            pool = [self.dead, wrong, self.foreign, [Node()], [Node(k=1)]]
            cand = r.choice(r.choice([p for p in pool if p]))
            if L is not None and any(cand is n for n in L.nodes):
                return None
            alike = []          # things of the right layer which are not what the field holds
            if L is not None and L.nodes:
                n = L.nodes[len(L.nodes) // 2]
                alike = [[L.real, [n], NodeSpan(n, n)] if t == "noderef" else
                         [n, (n,), {n: 1}] if t == "noderef_many" else [n, n, n, [n, n], L.real]]
            if alike and r.chance(0.2):
                return r.choice(alike[0])
            if t == "noderef":
                return r.choice([cand] * 6 + [0, "x", [cand], []])
            if t == "noderef_many":
                lst = [r.choice(L.nodes) for _ in range(r.choice([0, 1, 3, 9]))] if L is not None and L.nodes else []
                lst.insert(r.randrange(len(lst) + 1), r.choice([cand] * 6 + [0, "x", None]))
                return r.choice([lst] * 6 + [tuple(lst), 5])
            k = r.randrange(4)
            if k == 0 and L is not None and len(L.nodes) > 1:
                s = NodeSpan(L.nodes[0], L.nodes[-1])
                s.left, s.right = s.right, s.left
                return s
            if k == 1:
                return NodeSpan(wrong[0], wrong[0]) if wrong else r.choice([5, "x", [0, 1]])
            if L is None or not L.nodes:
                return r.choice([5, "x"])
            s = NodeSpan(L.nodes[0], L.nodes[-1])
            if k == 2:
                s.left = cand
            else:
                s.right = cand
            return s
        if t == "doc":
            return r.choice(BADVALUES[t] + [nested(r, broken=True)] * 4)
        return r.choice(BADVALUES[t]) if typed else None

    # -- snapshots -------------------------------------------------------------------------------------
    def snap(self):
        out = [list(self.doc.props.items()), [(k, id(t), t.text) for k, t in self.doc.texts.items()]]
        for name, layer in self.doc.layers.items():
            rows = []
            for n in layer:
                rows.append((id(n), {f: (id(v), [id(m) for m in v] if isinstance(v, list) else
                                         (id(v.left), id(v.right)) if type(v).__name__ == "NodeSpan"
                                         else None) for f, v in n.items()}))
            out.append((name, id(layer), [(f, id(t)) for f, t in layer.schema.fields.items()], rows))
        return out


def nested(r, broken=False):
    from docria.model import Document, Node, DataTypes as T
    d = Document(uid="n%d" % r.randrange(100))
    d.maintext = "nested"
    la = d.add_layer("n", r=T.noderef("n"), p=T.span())
    a, b = Node(), Node()
    la.add_many([a, b])
    a["r"] = b
    b["p"] = d.maintext[1:3]
    if broken:
        k = r.randrange(3)
        if k == 0:
            la.remove(b)
        elif k == 1:
            b["undeclared"] = 1
        else:
            o = Document()
            o.maintext = "the text of another document"
            b["p"] = o.maintext[r.randrange(5):r.randrange(5, 20)]
    return d


def nested_ok(d):
    """Judge the small documents made by nested()."""
    la = list(d.layers["n"])
    for n in la:
        if any(f not in ("r", "p") for f in n):
            return False
        if "p" in n and n["p"].text is not d.texts["main"]:
            return False
        if "r" in n and not any(n["r"] is m for m in la):
            return False
    return True


def check_nodes(w, what):
    for L in w.layers.values():
        got = list(L.real)
        w.ctx.check(len(got) == len(L.nodes) and all(a is b for a, b in zip(got, L.nodes)), "document-changed",
                    "%s: nodes of layer %s" % (what, L.name))


def store(w, x):
    """Store by a route; the outcome must agree with the judgement."""
    from docria.codec import JsonCodec, MsgpackCodec, MsgpackDocument, XmlCodec
    from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter, TarMsgpackReader, TarMsgpackWriter
    from docria.model import DataTypes as T, Document
    ctx, doc = w.ctx, w.doc
    r = derive("store", x)
    route = r.weighted(ROUTES)
    if route in ("json", "xml"):
        used = {f for L in w.layers.values() for f in L.fields}
        if used & {"w", "d"}:
            route = "msgpack"
    bad = w.violations()
    if route == "extra":
        bad = [b for b in bad if b[0] != "extra"]
    if route == "compile":
        bad = [b for b in bad if b[0] != "doc"]     # embedded documents are only looked at when they are encoded
    before = w.snap()
    back = None
    try:
        if route == "msgpack":
            back = lambda d=MsgpackCodec.encode(doc): MsgpackCodec.decode(d)
        elif route == "extra":
            back = lambda d=MsgpackCodec.encode(doc, extra_fields_ok=True): MsgpackCodec.decode(d)
        elif route == "lazy":
            back = MsgpackDocument(doc).document
        elif route == "json":
            back = lambda d=JsonCodec.encode(doc): JsonCodec.decode(d)
        elif route == "xml":
            s = XmlCodec.encode_utf8string(doc)
            ctx.check("<document" in s, "wrong-result", "xml")
        elif route == "pickle":
            back = lambda d=pickle.dumps(doc): pickle.loads(d)
        elif route == "deepcopy":
            back = lambda d=copy.deepcopy(doc): d
        elif route == "copy":
            back = lambda d=copy.copy(doc): d
        elif route == "compile":
            doc.compile()
        elif route == "writer":
            out = io.BytesIO()
            wr = MsgpackDocumentWriter(out)
            data = None
            try:
                if x % 3 == 0:      # options are for one document
                    other = Document()
                    other.add_layer("o", k=T.int32()).add()["undeclared"] = 1
                    wr.write(other, extra_fields_ok=True, type_validation=True)
                wr.write(doc)
            finally:
                wr.flush()
                data = out.getvalue()
                got = [d for d in MsgpackDocumentReader(io.BytesIO(data))]
                wr.close()
            ctx.check(len(got) == 1 + (x % 3 == 0), "wrong-result", "%d documents in the collection" % len(got))
            back = got[-1].document
        elif route == "tar":
            out = io.BytesIO()
            wr = TarMsgpackWriter(None, mode="w", fileobj=out)
            try:
                wr.write(doc)
            finally:
                wr.close()
            import tempfile, os
            p = os.path.join(ctx.tmp, "x.tar")
            with open(p, "wb") as f:
                f.write(out.getvalue())
            rd = TarMsgpackReader(p, mode="r")
            got = list(rd)
            rd.close()
            ctx.check(len(got) == 1, "wrong-result", "%d documents in the archive" % len(got))
            back = got[0].document
        failed = None
    except Exception as e:
        failed = e
    kinds = sorted({b[0] for b in bad})
    ctx.ev("store", route, kinds, xname(failed) if failed else None)
    ctx.state(route, kinds, w.reloaded)
    ctx.probes[("the only violation: " + kinds[0]) if len(bad) == 1 else "several violations" if bad else "conforming"] += 1
    ctx.check(w.snap() == before, "document-changed", "by storing (%s, %s)" % (route, xname(failed) if failed else "stored"))
    check_nodes(w, "storing by " + route)
    for L in w.layers.values():
        for i, n in enumerate(L.nodes):
            ctx.check(L.real[n.i] is n, "document-changed", "indices after storing by " + route)
    if bad and failed is None:
        k, L, n, f = bad[0]
        ctx.fail("violation-stored", "%s by %s: field %s of layer %s: %r" % (
            k, route, f, L.name, None if n is None else type(n[f]).__name__))
    if not bad and failed is not None:
        ctx.fail("valid-document-rejected", "by %s: %s: %s" % (route, xname(failed), str(failed)[:200]))
    if failed is None and back is not None:
        copy_ = back()
        want = docs.observe(doc)
        if route == "extra":
            for name, L in want["layers"].items():
                for n in L["nodes"]:
                    for f in [f for f, v in n.items() if v == ("undeclared",)]:
                        del n[f]
        for L in want["layers"].values():      # an equal text of another document comes back as the document's
            for n in L["nodes"]:
                for f, v in n.items():
                    if type(v) is tuple and v[0] == "span" and v[-1] == "foreign":
                        n[f] = v[:-1]
        got = docs.observe(copy_)
        if got != want:
            from ..core import first_diff
            ctx.fail("copy-differs", "by %s: %s" % (route, first_diff(got, want)))
        return True, copy_
    return failed is None, None


def execute(plan, ctx):
    from docria.model import DataValidationError, Node, NodeSpan
    w = World(plan, ctx)
    rejected = stored = 0
    for op, x, li in plan["ops"]:
        ctx.steps += 1
        r = derive("c11", op, x)
        if not w.layers and op not in ("addlayer", "addtext", "store", "repairall"):
            continue
        names = list(w.layers)
        L = w.layers[names[li % len(names)]] if names else None
        if op in ("add", "addmany"):
            new = []
            for i in range(1 if op == "add" else plan["big"] if plan["big"] and len(L.nodes) < 300 else r.choice([1, 3, 8, 20])):
                v = {}
                for f in L.fields:
                    if r.chance(0.6):
                        u = w.good(f, x + i)
                        if u is not None:
                            v[f] = u
                new.append(v)
            if op == "add":
                L.nodes.append(L.real.add(**new[0]))
            else:
                ns = [Node(**v) for v in new]
                L.real.add_many(ns, default_fill=r.chance(0.5))
                L.nodes += ns
        elif op in ("set", "bad"):
            if not L.nodes:
                continue
            n = r.choice(L.nodes)
            if op == "bad" and r.chance(0.15) or not L.fields:
                if op == "bad":
                    n["undeclared%d" % (x % 3)] = r.choice([1, "x", None, n])
                    ctx.faults["undeclared field"] += 1
                continue
            f = r.choice(list(L.fields))
            v = w.good(f, x) if op == "set" else w.bad(f, L.fields[f], x)
            if v is not None:
                n[f] = v
                if op == "bad":
                    ctx.faults["bad value " + ftype(f)[0]] += 1
        elif op in ("remove", "removemany", "retain"):
            k = 1 if op == "remove" else r.randrange(len(L.nodes) + 1)
            ns = r.sample(L.nodes, min(k, len(L.nodes)))
            if op == "remove":
                for n in ns:
                    if r.chance(0.4):
                        n.detach()
                    else:
                        L.real.remove(n)
            elif op == "removemany":
                L.real.remove(iter(ns))
            else:
                keep = [n for n in L.nodes if n not in set(ns)]
                L.real.retain(keep)
            L.nodes = [n for n in L.nodes if n not in set(ns)]
            w.dead = (w.dead + ns)[-30:]
        elif op == "readd":
            back = [n for n in w.dead if n.is_dangling()]
            if back:
                n = r.choice(back)
                if r.chance(0.5):
                    L.real.add(n)
                else:
                    L.real.add_many([n], default_fill=False, full_validation=False)
                L.nodes.append(n)
                w.dead.remove(n)
        elif op == "sort":
            rank = {n: r.randrange(6) for n in L.nodes} if r.chance(0.6) else {n: -i for i, n in enumerate(L.nodes)}
            L.real.sort(rank.__getitem__)
            L.nodes.sort(key=rank.__getitem__)
        elif op == "mutate":
            # change the inside of a stored list or span
            cand = [(n, f) for n in L.nodes for f in n if f in L.fields and ftype(f)[0] in ("noderef_many", "nodespan")]
            if cand:
                n, f = r.choice(cand)
                v = n[f]
                target = w.layers.get(ftype(f)[1])
                pool = (w.dead[-3:] + (target.nodes if target else [])) or w.foreign
                if isinstance(v, list):
                    if v and r.chance(0.4):
                        v.pop(r.randrange(len(v)))
                    else:
                        v.insert(r.randrange(len(v) + 1), r.choice(pool))
                elif isinstance(v, NodeSpan):
                    setattr(v, r.choice(["left", "right"]), r.choice(pool))
        elif op == "nested":
            cand = [n["d"] for n in L.nodes if "d" in n]
            cand = [getattr(d, "data", d) for d in cand]
            cand = [d for d in cand if hasattr(d, "layers") and len(d["n"])]
            if cand:
                d = r.choice(cand)["n"]
                n = r.choice(list(d))
                if r.chance(0.5):
                    d.remove(n)
                else:
                    n["later"] = 1
        elif op == "rmfield":
            if L.fields:
                f = r.choice(list(L.fields))
                L.real.remove_field(f, leave_data=r.chance(0.5))
                del L.fields[f]
        elif op == "addfield":
            f = r.choice(["r", "m", "s"]) + r.choice(LAYERS) if r.chance(0.6) else r.choice(list("kzftopq"))
            if f not in L.fields:
                L.real.add_field(f, docs.dtype(*ftype(f)), init_with_default=r.chance(0.5))
                L.fields[f] = True
        elif op == "rmlayer":
            refs = [(M, f) for M in w.layers.values() if M is not L for f in M.fields
                    if ftype(f)[0] in ("noderef", "noderef_many", "nodespan") and ftype(f)[1] == L.name]
            cascade = r.chance(0.5)
            try:
                if cascade:
                    res = w.doc.remove_layer(L.name, True)
                elif r.chance(0.5):
                    res = w.doc.remove_layer(L.name)
                else:
                    del w.doc[L.name]
                    res = True
                done = True
            except DataValidationError:
                done = False
            ctx.check(done == (cascade or not refs), "wrong-removal", "layer %s, referenced by %d fields, cascade %s, removed %s" % (
                L.name, len(refs), cascade, done))
            ctx.check((L.name in w.doc) == (not done), "wrong-removal", "layer %s" % L.name)
            if done:
                ctx.check(res is True, "wrong-removal", "remove_layer returned %r" % res)
                for M, f in refs:
                    del M.fields[f]
                    ctx.check(f not in M.real.schema.fields and not any(f in n for n in M.nodes), "wrong-removal",
                              "field %s of layer %s is still there" % (f, M.name))
                del w.layers[L.name]
                w.dead = (w.dead + L.nodes[:5])[-30:]
                ctx.check(w.doc.remove_layer(L.name) is False, "wrong-removal", "second removal")
        elif op == "dellayer":
            del w.doc.layers[L.name]
            del w.layers[L.name]
            w.dead = (w.dead + L.nodes[:5])[-30:]
            ctx.faults["layer deleted"] += 1
        elif op == "addlayer":
            n = LAYERS[x % 3]
            if n in w.layers:
                if r.chance(0.6):
                    continue
                w.dead = (w.dead + w.layers[n].nodes[:5])[-30:]
                ctx.faults["layer replaced"] += 1
            w.addlayer(n, plan["layers"].get(n, []))
        elif op == "droptext":
            n = r.choice(["main", "alt"])
            if n in w.texts:
                del w.doc.texts[n]
                del w.texts[n]
                ctx.faults["text deleted"] += 1
        elif op == "swaptext":
            n = r.choice(["main", "alt"])
            if n in w.texts:
                old = w.texts[n].text
                w.texts[n] = w.doc.add_text(n, r.choice([old, old, old + "+", "new" + old, old[:3], "", old[1:] + old[:1]]))
                ctx.faults["text replaced"] += 1
        elif op == "addtext":
            for n, t in w.alltexts.items():
                if n not in w.texts:
                    w.doc.texts[n] = w.texts[n] = t
        elif op in ("repair", "repairall"):
            for _ in range(400 if op == "repairall" else 1):
                bad = w.violations()
                if not bad:
                    break
                k, M, n, f = bad[0] if op == "repairall" else r.choice(bad)
                if k == "notext":
                    n = ftype(f)[1]
                    w.doc.texts[n] = w.texts[n] = w.alltexts[n]
                elif k == "nolayer":
                    if r.chance(0.5):
                        w.addlayer(ftype(f)[1], [])
                    else:
                        M.real.remove_field(f)
                        del M.fields[f]
                elif k == "span" and op == "repair" and ftype(f)[1] in w.texts and r.chance(0.3):
                    n = ftype(f)[1]     # take back that the text was replaced
                    w.doc.texts[n] = w.texts[n] = w.alltexts[n]
                elif k == "extra" or r.chance(0.5):
                    del n[f]
                else:
                    v = w.good(f, x)
                    if v is None:
                        del n[f]
                    else:
                        n[f] = v
        elif op in ("store", "reload"):
            if op == "reload" and w.violations():
                continue
            done, copy_ = store(w, x)
            if done:
                stored += 1
            else:
                rejected += 1
            if op == "reload" and copy_ is not None:
                w.doc = copy_
                w.texts = dict(copy_.texts)
                for n in w.alltexts:
                    if n in w.texts:
                        w.alltexts[n] = w.texts[n]
                    else:       # not stored with the document
                        w.texts[n] = w.alltexts[n] = copy_.add_text(n, MAIN if n == "main" else ALT)
                for M in w.layers.values():
                    M.real = copy_.layers[M.name]
                    M.nodes = list(M.real)
                    M.fields = {f: False for f in M.fields}
                w.dead = []
                w.reloaded = True
        else:
            raise ValueError(op)
        check_nodes(w, op)
    if stored and rejected:
        ctx.nontrivial = True
