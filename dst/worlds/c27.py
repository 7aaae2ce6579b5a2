"""C27: schema edits are complete and all-or-nothing at every point of a document's history."""
import copy
import pickle

from .. import docs
from ..core import SimError, first_diff, xname
from ..rng import derive

ID = "C27"
RUNS = {"quick": 16000, "thorough": 400000}
LISTS = ["ops"]
RULE = ("A run draws a document whose layers refer to each other and a history which interleaves schema edits (layers and fields "
        "added and removed, with and without cascade, accepted and refused, with failing type constructors) with node edits and "
        "storage; after each operation every layer, field type, node and value is compared by identity with a model.")
NONTRIVIAL = "a removal cascaded over at least two fields, or was refused, and a schema edit followed it."
STATES = "distinct (operation, outcome, number of referring fields, reloaded, field left behind) combinations"
STUB = ["nothing outside the document is involved"]

MAIN = "Lorem ipsum dolor sit amet 世界 😀."
NAMES = ["a", "b", "c", "d", "Ünï x", ""]
FNAMES = ["k", "p", "head", "kids", "span", "w", "self", "é", "name", "text"]
TYPES = ["i32", "i64", "f64", "str", "bool", "bin", "span", "noderef", "noderef", "noderef_many", "noderef_many", "nodespan", "nodespan"]
OPS = [(3, "addlayer"), (5, "rmlayer"), (0.6, "rmmissing"), (6, "addfield"), (1.5, "addbad"), (1, "addlayerbad"), (3, "rmfield"),
       (0.5, "rmfieldmissing"), (4, "set"), (1, "setbad"), (3, "addnode"), (1.5, "addmany"), (1.5, "rmnode"), (0.8, "addwrong"), (1, "sort"), (1.5, "store"),
       (1, "reload"), (0.6, "retry")]


def gen(r, tier):
    n = r.choice([5, 10, 20, 40])
    start = [["addlayer", r.randrange(1 << 30)] for _ in range(r.choice([2, 3, 4, 5]))]
    start += [["addmany", r.randrange(1 << 30)] for _ in range(4)] + [["set", r.randrange(1 << 30)] for _ in range(3)]
    return {"ops": start + [[r.weighted(OPS), r.randrange(1 << 30)] for _ in range(n)]}


class L:
    def __init__(self, real):
        self.real = real
        self.fields = {}        # field -> [type code, arg, type object or None, checked]
        self.nodes = []         # [(node, {field: value})]


def is_ref(t):
    return t.startswith("node")


class W:
    def __init__(self, ctx):
        from docria.model import Document
        self.ctx = ctx
        self.doc = Document(uid="c27", nested={"a": [1, 2]})
        self.doc.maintext = MAIN
        self.doc.add_text("alt", "alt text")
        self.layers = {}
        self.reloaded = False
        self.schemas = []       # [(schema object of the caller, its fields, layer of another document made from it, type codes)]

    # -- drawing ---------------------------------------------------------------------------------------
    def draw_type(self, r):
        t = r.choice(TYPES)
        if t == "span":
            return t, r.choice(["main", "alt"])
        if is_ref(t):
            return t, r.choice(list(self.layers) * 3 + NAMES[:4])
        if t == "bin":
            return t, None
        return t, r.choice([0, 0, None, 1])

    def value(self, t, a, r):
        from docria.model import NodeSpan
        if t == "span":
            tx = self.doc.texts[a]
            i = r.randrange(len(tx.text) + 1)
            return tx[i:r.randrange(i, len(tx.text) + 1)]
        if not is_ref(t):
            v = docs.scalar(r, t)
            return 0.5 if v != v else v
        T = self.layers.get(a)
        if T is None:
            return None
        ns = [n for n, _ in T.nodes]
        if t == "noderef_many":
            return [r.choice(ns) for _ in range(r.choice([0, 1, 3]))] if ns else []
        if not ns:
            return None
        if t == "noderef":
            return r.choice(ns)
        i = r.randrange(len(ns))
        return NodeSpan(ns[i], ns[r.randrange(i, len(ns))])

    def values(self, M, r, p):
        out = {}
        for f, (t, a, _, _) in M.fields.items():
            if r.chance(p):
                v = self.value(t, a, r)
                if v is not None:
                    out[f] = v
        return out

    def defaults(self, M):
        return {f: d for f, (t, a, _, _) in M.fields.items() for d in [docs.default_of(t, a)] if d is not None}

    def referring(self, name):
        return [(m, f) for m, M in self.layers.items() if m != name for f, (t, a, _, _) in M.fields.items() if is_ref(t) and a == name]

    # -- judgement --------------------------------------------------------------------------------------
    def verify(self, what):
        ctx, doc = self.ctx, self.doc
        ctx.check(list(doc.layers) == list(self.layers), "wrong-layers", "%s: layers %s, expected %s" % (
            what, list(doc.layers), list(self.layers)))
        for n in NAMES:
            ctx.check((n in doc) == (n in self.layers), "wrong-layers", "%s: membership of %r" % (what, n))
        for name, M in self.layers.items():
            real = doc.layers[name]
            ctx.check(real is M.real and doc[name] is real and real.name == name, "wrong-layers", "%s: layer %r was replaced" % (what, name))
            got, want = real.schema.fields, M.fields
            ctx.check(sorted(got) == sorted(want), "wrong-fields", "%s: layer %r has fields %s, expected %s" % (
                what, name, list(got), list(want)))
            ctx.check(sorted(real.fieldtypes) == sorted(want), "wrong-fields", "%s: layer %r, field types of %s" % (
                what, name, list(real.fieldtypes)))
            for f, (t, a, obj, _) in want.items():
                if obj is not None:
                    ctx.check(got[f] is obj, "wrong-fields", "%s: type of field %s of layer %r is another object" % (what, f, name))
                c = (got[f].typename.name, docs._canon_opts(got[f].options))
                ctx.check(c == (docs.TYPENAMES[t], docs._canon_opts(docs.options_of(t, a))), "wrong-fields", "%s: field %s of layer %r: %s" % (
                    what, f, name, c))
            nodes = list(real)
            ctx.check(len(nodes) == len(M.nodes) and all(x is y for x, (y, _) in zip(nodes, M.nodes)), "wrong-nodes", "%s: layer %r" % (what, name))
            for i, (n, v) in enumerate(M.nodes):
                if set(n) != set(v) or n.collection is not real:
                    ctx.fail("wrong-nodes", "%s: node %d of layer %r has %s, expected %s" % (what, i, name, sorted(n), sorted(v)))
                for f, u in v.items():
                    if n[f] is not u and not (type(n[f]) is type(u) and not isinstance(u, (list, dict)) and n[f] == u
                                              or u == 0 and n[f] == 0 and not isinstance(n[f], bool)):
                        ctx.fail("wrong-values", "%s: node %d of layer %r, field %s: %r, expected %r" % (what, i, name, f, n[f], u))
        for sch, fields, lay, _ in self.schemas:
            for where, got in (("the caller's schema", sch.fields), ("another document's layer", lay.schema.fields)):
                if list(got.items()) != list(fields.items()) or any(got[f] is not t for f, t in fields.items()):
                    ctx.fail("wrong-rest", "%s: %s has fields %s, expected %s" % (what, where, list(got), list(fields)))
            if len(lay):
                ctx.fail("wrong-rest", "%s: nodes in another document's layer" % what)
        ctx.check(doc.props == {"uid": "c27", "nested": {"a": [1, 2]}} and list(doc.texts) == ["main", "alt"]
                  and doc.texts["main"].text == MAIN, "wrong-rest", what)

    def storable(self):
        for M in self.layers.values():
            pos = {}
            for f, (t, a, _, _) in M.fields.items():
                if is_ref(t) and a not in self.layers:
                    return False
            for n, v in M.nodes:
                for f, u in v.items():
                    if f not in M.fields or not self.fits(M.fields[f], u):
                        return False
        return True

    def fits(self, fld, u):
        from docria.model import Node, NodeSpan, TextSpan
        t, a, _, _ = fld
        if t == "span":
            return isinstance(u, TextSpan) and u.text.name == a
        if is_ref(t):
            pos = {n: i for i, (n, _) in enumerate(self.layers[a].nodes)}
            if t == "noderef":
                return isinstance(u, Node) and u in pos
            if t == "noderef_many":
                return isinstance(u, list) and all(n in pos for n in u)
            return isinstance(u, NodeSpan) and u.left in pos and u.right in pos and pos[u.left] <= pos[u.right]
        if t in ("i32", "i64"):
            b = 31 if t == "i32" else 63
            return type(u) is int and -(1 << b) <= u < 1 << b
        return type(u) is {"f64": float, "str": str, "bool": bool, "bin": bytes}[t]

    def clean(self):
        """Make the document conform through ordinary edits."""
        for name, M in self.layers.items():
            for f, (t, a, _, _) in list(M.fields.items()):
                if is_ref(t) and a not in self.layers:
                    self.ctx.check(M.real.remove_field(f) is True, "wrong-result", "remove_field(%r)" % f)
                    del M.fields[f]
                    for _, v in M.nodes:
                        v.pop(f, None)
        for name, M in self.layers.items():
            for n, v in M.nodes:
                for f in [f for f, u in v.items() if f not in M.fields or not self.fits(M.fields[f], u)]:
                    del n[f]
                    del v[f]


def outcome(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def execute(plan, ctx):
    from docria.codec import JsonCodec, MsgpackCodec
    from docria.model import DataTypes as T, DataValidationError, Node, NodeLayerSchema, SchemaValidationError
    w = W(ctx)
    cascaded = False
    last = None
    for op, x in plan["ops"]:
        ctx.steps += 1
        r = derive("c27", op, x)
        names = list(w.layers)
        name = r.choice(names) if names else None
        M = w.layers.get(name)
        doc = w.doc
        if M is None and op not in ("addlayer", "rmmissing", "addlayerbad", "store", "reload"):
            continue
        note = None
        if op == "retry":
            if last is None:
                continue
            op, x = last
            r = derive("c27", op, x, "again")
            name = r.choice(names)
            M = w.layers[name]
        if op == "addlayer":
            free = [n for n in NAMES if n not in w.layers]
            name = r.choice(names) if names and r.chance(0.12) else r.choice(free) if free else None
            if name is None:
                continue
            if name in w.layers:
                ctx.probes["layer declared again"] += 1
            fields = {}
            for f in r.sample(FNAMES, r.choice([0, 1, 2, 3, 5])):
                t, a = w.draw_type(r)
                fields[f] = [t, a, docs.dtype(t, a), True]
            way = r.randrange(4)
            if way == 3 and w.schemas:
                # a schema which was used before, with what it declares
                sch, decl, _, codes = r.choice(w.schemas)
                name = sch.name
                fields = {f: [*codes[f], t, True] for f, t in decl.items()}
                real = doc.add_layer(sch)
                ctx.probes["schema used again"] += 1
            elif way == 0 and "self" not in fields:
                real = doc.add_layer(name, **{f: v[2] for f, v in fields.items()})
            else:
                sch = NodeLayerSchema(name)
                for f, v in fields.items():
                    # a type may be given as its constructor
                    plain = v[0] in ("i32", "i64", "f64", "str", "bool") and v[1] == 0 or v[0] == "span" and v[1] == "main"
                    if plain and way == 2:
                        ctor = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "str": T.string, "bool": T.bool, "span": T.span}[v[0]]
                        sch.add(f, ctor)
                        v[2] = sch.fields[f]
                    else:
                        sch.add(f, v[2])
                if r.chance(0.5):
                    from docria.model import Document
                    w.schemas.append((sch, dict(sch.fields), Document().add_layer(sch), {f: v[:2] for f, v in fields.items()}))
                real = doc.add_layer(sch)
            ctx.check(real is doc.layers.get(name), "wrong-layers", "add_layer returned another object")
            M = w.layers[name] = L(real)
            M.fields = fields
            note = len(fields)
        elif op == "addlayerbad":
            # a refused declaration leaves no trace
            free = r.choice(NAMES)
            bad = r.choice(["x", 5, None, object, SimError])

            def boom():
                raise SimError("type constructor")
            fields = {f: docs.dtype(*w.draw_type(r)) for f in r.sample([f for f in FNAMES if f != "self"], r.choice([0, 1, 3]))}
            fields["zz"] = boom if bad is SimError else bad
            if r.chance(0.5):
                fields["zzz"] = T.int32()
            _, e = outcome(lambda: doc.add_layer(free, **fields))
            ctx.check(e is not None, "invalid-declaration-accepted", "add_layer with a field of type %r" % (bad,))
            ctx.check(bad is not SimError or isinstance(e, SimError), "wrong-exception", "%s for a failing type constructor" % xname(e))
            ctx.faults["refused declaration"] += 1
        elif op == "rmlayer":
            refs = w.referring(name)
            cascade = r.chance(0.5)
            form = r.randrange(3)
            if cascade:
                res, e = outcome(lambda: doc.remove_layer(name, fieldcascade=True) if form else doc.remove_layer(name, True))
            elif form == 0:
                def rm():
                    del doc[name]
                    return True
                res, e = outcome(rm)
            else:
                res, e = outcome(lambda: doc.remove_layer(name))
            note = (len(refs), cascade, xname(e) if e else None)
            if refs and not cascade:
                ctx.check(isinstance(e, DataValidationError), "referenced-layer-removed", "layer %r is referred to by %s; %s" % (
                    name, refs, "raised " + xname(e) if e else "removed"))
                ctx.faults["refused removal"] += 1
                cascaded = True
            else:
                ctx.check(e is None, "removal-refused", "layer %r, cascade %s, referred to by %s: %s %s" % (name, cascade, refs, xname(e), e))
                ctx.check(res is True, "wrong-result", "remove_layer returned %r" % (res,))
                for m, f in refs:
                    del w.layers[m].fields[f]
                    for _, v in w.layers[m].nodes:
                        v.pop(f, None)
                del w.layers[name]
                if len(refs) > 1:
                    ctx.probes["cascade over several fields"] += 1
                    cascaded = True
        elif op == "rmmissing":
            free = [n for n in NAMES if n not in w.layers] + ["nothing"]
            free = r.choice(free)
            ctx.check(doc.remove_layer(free, r.chance(0.5)) is False, "wrong-result", "remove_layer of a missing layer")
            # other layers may refer to a layer which is not there (yet): nothing of theirs is touched
        elif op == "addfield":
            f = r.choice([f for f in FNAMES if f not in M.fields] or ["more"])
            if f in M.fields:
                continue
            t, a = w.draw_type(r)
            dt = docs.dtype(t, a)
            give = dt
            if (t in ("i32", "i64", "f64", "str", "bool") and a == 0 or t == "span" and a == "main") and r.chance(0.3):
                give = {"i32": T.int32, "i64": T.int64, "f64": T.float64, "str": T.string, "bool": T.bool, "span": T.span}[t]
            init = r.choice([None, True, False])
            left = sum(f in v for _, v in M.nodes)
            if init is None:
                M.real.add_field(f, give)
            else:
                M.real.add_field(f, give, init_with_default=init)
            M.fields[f] = [t, a, dt if give is dt else M.real.schema.fields.get(f), True]
            d = docs.default_of(t, a)
            if init is not False and d is not None:
                for _, v in M.nodes:
                    v[f] = d
            note = (t, init, left > 0)
            if cascaded:
                ctx.nontrivial = True
        elif op == "addbad":
            # existing name, or something which is no type
            if M.fields and r.chance(0.6):
                f = r.choice(list(M.fields))
                _, e = outcome(lambda: M.real.add_field(f, docs.dtype(*w.draw_type(r)), init_with_default=r.chance(0.7)))
                ctx.check(isinstance(e, SchemaValidationError), "wrong-exception" if e else "invalid-declaration-accepted",
                          "add_field of the existing %s: %s" % (f, xname(e) if e else "accepted"))
            else:
                f = "fresh"
                bad = r.choice(["int32", 5, None, dict, SimError])

                def boom():
                    raise SimError("type constructor")
                _, e = outcome(lambda: M.real.add_field(f, boom if bad is SimError else bad))
                ctx.check(e is not None, "invalid-declaration-accepted", "add_field with type %r" % (bad,))
                ctx.check(bad is not SimError or isinstance(e, SimError), "wrong-exception", xname(e))
            ctx.faults["refused declaration"] += 1
        elif op == "rmfield":
            if not M.fields:
                continue
            f = r.choice(list(M.fields))
            leave = r.chance(0.3)
            res = M.real.remove_field(f, leave_data=True) if leave else M.real.remove_field(f)
            ctx.check(res is True, "wrong-result", "remove_field returned %r" % (res,))
            del M.fields[f]
            if not leave:
                for _, v in M.nodes:
                    v.pop(f, None)
            note = leave
            if cascaded:
                ctx.nontrivial = True
        elif op == "rmfieldmissing":
            left = {f for _, v in M.nodes for f in v if f not in M.fields}
            f = r.choice(sorted(left) + ["nothing", "__missing__"])
            ctx.check(M.real.remove_field(f, leave_data=r.chance(0.3)) is False, "wrong-result", "remove_field of a missing field")
        elif op == "set":
            for n, v in M.nodes:
                if r.chance(0.7):
                    new = w.values(M, r, 0.5)
                    n.update(new)
                    v.update(new)
        elif op == "setbad":
            # what a node holds need not be storable: a removed field leaves nothing behind all the same
            for n, v in M.nodes:
                if M.fields and r.chance(0.4):
                    f = r.choice(list(M.fields))
                    n[f] = v[f] = r.choice([None, None, None, SimError])
            note = len(M.fields)
        elif op == "addnode":
            v = w.values(M, r, 0.4)
            if "self" in v:
                n = Node()
                n.update(v)
                M.real.add_many([n])
            else:
                n = M.real.add(**v)
            M.nodes.append((n, {**w.defaults(M), **v}))
        elif op == "addmany":
            fill = r.chance(0.7)
            new = []
            for _ in range(r.choice([1, 2, 5, 12])):
                n = Node()
                v = w.values(M, r, 0.5)
                n.update(v)
                new.append((n, {**(w.defaults(M) if fill else {}), **v}))
            M.real.add_many([n for n, _ in new], default_fill=fill)
            M.nodes += new
        elif op == "addwrong":
            # the declared types apply to new nodes, whenever they were declared
            cand = [(f, t) for f, (t, a, _, chk) in M.fields.items() if (chk or is_ref(t) or t == "span") and f != "self"]
            if not cand:
                continue
            f, t = r.choice(cand)
            bad = {"i32": "x", "i64": "x", "f64": "x", "str": 5, "bool": "x", "bin": "x"}.get(t, 5)
            _, e = outcome(lambda: M.real.add(**{f: bad}))
            ctx.check(e is not None, "wrong-value-accepted", "%r for field %s of type %s" % (bad, f, t))
            ctx.faults["refused value"] += 1
        elif op == "rmnode":
            if not M.nodes:
                continue
            gone = set(r.sample([n for n, _ in M.nodes], r.choice([1, 1, len(M.nodes) // 2])))
            M.real.remove(list(gone))
            M.nodes = [(n, v) for n, v in M.nodes if n not in gone]
        elif op == "sort":
            rank = {n: r.randrange(5) for n, _ in M.nodes}
            M.real.sort(rank.__getitem__)
            M.nodes.sort(key=lambda p: rank[p[0]])
        elif op in ("store", "reload"):
            if op == "reload" or r.chance(0.4):
                w.clean()
                w.verify("cleaning")
            ok = w.storable()
            if not ok and w.reloaded:
                continue        # values of reloaded fields are not checked, see C11
            route = r.choice(["msgpack", "msgpack", "pickle", "deepcopy", "json"])
            if route == "json" and any(t == "bin" for K in w.layers.values() for t, _, _, _ in K.fields.values()):
                route = "msgpack"
            fn = {"msgpack": lambda: MsgpackCodec.decode(MsgpackCodec.encode(doc)), "pickle": lambda: pickle.loads(pickle.dumps(doc)),
                  "deepcopy": lambda: copy.deepcopy(doc), "json": lambda: JsonCodec.decode(JsonCodec.encode(doc))}[route]
            back, e = outcome(fn)
            note = (route, xname(e) if e else None)
            ctx.check(ok == (e is None), "wrong-storage", "by %s: %s although the document %s" % (
                route, "raised %s %s" % (xname(e), str(e)[:100]) if e else "stored", "conforms" if ok else "does not conform"))
            if e is None:
                want = docs.observe(doc)
                got = docs.observe(back)
                if got != want:
                    ctx.fail("copy-differs", "by %s: %s" % (route, first_diff(got, want)))
                if op == "reload":
                    w.doc = doc = back
                    new = {}
                    for m, K in w.layers.items():
                        real = back.layers[m]
                        N = L(real)
                        N.fields = {f: [t, a, real.schema.fields[f], False] for f, (t, a, _, _) in K.fields.items()}
                        N.nodes = [(n, dict(n)) for n in real]
                        new[m] = N
                    w.layers = {m: new[m] for m in back.layers if m in new}
                    w.reloaded = True
        else:
            raise ValueError(op)
        if op in ("addfield", "rmlayer", "rmfield", "addbad"):
            last = (op, x)
        ctx.ev(op, name, note)
        ctx.state(op, note if not isinstance(note, tuple) else tuple(map(str, note)), w.reloaded)
        w.verify("%s %r" % (op, note))
    w.clean()
    w.verify("cleaning")
    _, e = outcome(lambda: MsgpackCodec.encode(w.doc))
    ctx.check(e is None, "wrong-storage", "the cleaned document: %s %s" % (e and xname(e), str(e)[:150]))
