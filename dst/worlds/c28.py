"""C28: looking at a document never changes it, from one thread or from many."""
import contextlib
import copy
import hashlib
import io
import itertools
import pickle
import re

from .. import docs, sched
from ..core import SimError, Violation, first_diff, xname
from ..rng import derive
from ..simio import SimRaw

ID = "C28"
RUNS = {"quick": 16000, "thorough": 400000}
LISTS = ["sched", "ops", "looks"]
RULE = ("A run draws a document and a history which interleaves edits with observations of every kind (printing, queries, lists, "
        "spans, iteration, grouping, traversals, conversion, encoding), also while it holds values which cannot be stored, some suspended half-way across edits and resumed, some failing "
        "in the caller's function or stream; or two to four threads which look at the same document under a drawn switch plan. After "
        "each observation everything visible in the document is compared by identity with what it was, and answers with earlier ones.")
NONTRIVIAL = "an answer was compared with one given earlier, after other observations or a thread switch in between."
STATES = "distinct (observation, class of outcome, observations suspended, layers with gaps, document spoiled) combinations, or distinct switch sequences"
STUB = ["thread scheduling (one thread at a time, switches at docria source lines or bytecode instructions)", "caller's predicates, "
        "child functions and output streams (they fail when told)"]

ADDR = re.compile("0x[0-9a-f]+|[0-9a-fx]+(?=>|&gt;)")     # object addresses, also shortened ones, are not part of the log
LOOKS = ["str", "repr", "html", "printschema", "layerstr", "layerhtml", "nodestr", "nodehtml", "noderepr", "fieldstr", "query", "query", "query",
         "querystr", "list", "listof", "liststr", "slice", "iterate", "neighbours", "range", "nodespan", "spantext", "spanstr", "textspan", "trim", "field",
         "firstlast", "membership", "isvalid", "validate", "group", "dominant", "align", "bfs", "dfs", "leaves", "children", "typeof", "dtype",
         "update", "keys", "texthtml", "sorted", "getprop"]
STORES = ["msgpack", "json", "lazy", "pickle", "deepcopy", "copy", "xml", "compile", "writer", "badwriter", "extbinary"]
FAILS = ["failquery", "failchildren", "failfilter", "missingfield", "outofrange", "foreign"]
SUSPEND = ["iter", "slice-iter", "query-iter", "field-iter", "span-iter", "bfs", "dfs", "leaves", "text-iter", "blocks"]


def gen(r, tier):
    token = docs.doc_token(r, [(4, "tiny"), (8, "small"), (1, "medium")])
    plan = {"token": token, "nodes": r.choice([0, 1, 4, 9, 30]), "x": r.randrange(1 << 30), "ops": [], "looks": [], "sched": [],
            "threads": 0, "grain": "line"}
    if r.chance(0.25):
        n = r.choice([2, 2, 3, 4])
        plan["threads"] = n
        same = r.chance(0.5)
        kinds = [r.choice(LOOKS + STORES[:4] + FAILS[:3]) for _ in range(3)]
        for t in range(n):
            for k in range(r.choice([1, 2, 3, 5])):
                plan["looks"].append([t, kinds[k % 3] if same else r.choice(LOOKS + STORES[:4] + FAILS[:3]), r.randrange(4) if same else r.randrange(1 << 30)])
        plan["grain"] = r.weighted([(4, "line"), (1, "opcode")])
        plan["sched"] = sched.gen_plan(r, n, r.choice([2, 5, 20, 80, 300]))
        if r.chance(0.2):
            # Every thread is at the same schema, again and again, with a switch possible inside each line
            pair = [r.choice(["msgpack", "json", "dtype", "lazy"]), "dtype"]
            plan["looks"] = [[t, pair[t % 2], 0] for t in range(n) for _ in range(1 if pair[t % 2] != "dtype" else 6)]
            plan["token"] = docs.doc_token(r, [(3, "tiny"), (1, "small")])
            plan["nodes"] = r.choice([0, 1])
            plan["grain"] = "opcode"
            plan["sched"] = sched.gen_plan(r, n, r.choice([2, 3, 5, 20]))
        return plan
    for _ in range(r.choice([6, 12, 25, 50])):
        k = r.weighted([(8, "look"), (2.5, "store"), (1.5, "fail"), (2, "again"), (3, "edit"), (0.8, "thin"), (1.5, "suspend"), (2.5, "resume"),
                        (0.5, "abandon"), (0.7, "spoil")])
        name = r.choice(LOOKS if k == "look" else STORES if k == "store" else FAILS if k == "fail" else SUSPEND) if k in (
            "look", "store", "fail", "suspend") else ""
        plan["ops"].append([k, name, r.randrange(1 << 30)])
    return plan


def build(plan):
    from docria.model import DataTypes as T, Node, NodeSpan
    r = derive("c28", plan["x"])
    doc = docs.build(docs.spec(plan["token"]))
    if "main" not in doc.texts:
        doc.maintext = "A fallback text"
    N = len(doc.maintext)
    name = "graph"
    lay = doc.add_layer(name, text=T.span(), v=T.int32(None), s=T.string(), nxt=T.noderef_many(name), up=T.noderef(name), rng=T.nodespan(name))
    nodes = []
    for i in range(plan["nodes"]):
        a = r.randrange(N + 1)
        nodes.append(lay.add(v=r.randrange(4), s="s%d" % r.randrange(3), text=doc.maintext[a:min(N, a + r.randrange(9))]))
    for n in nodes:
        n["nxt"] = [r.choice(nodes) for _ in range(r.randrange(4))]
        if r.chance(0.7):
            n["up"] = r.choice(nodes)
        if r.chance(0.5):
            i = r.randrange(len(nodes))
            n["rng"] = NodeSpan(nodes[i], nodes[r.randrange(i, len(nodes))])
    p = r.choice([0.15, 0.15, 0.7])
    gone = [n for n in nodes if r.chance(p)]
    if gone and r.chance(0.5):
        lay.remove(gone)
        docs.tidy(doc)
    return doc


# -- what must not change ----------------------------------------------------------------------------------

def deep(v, depth=0):
    from docria.model import Document, ExtData, Node, NodeSpan, TextSpan
    if isinstance(v, Node):
        return ("node", id(v))
    if isinstance(v, TextSpan):
        return ("textspan", id(v), id(v.text), v.start, v.stop)
    if isinstance(v, NodeSpan):
        return ("nodespan", id(v), id(v.left), id(v.right))
    if isinstance(v, ExtData):
        return ("ext", id(v), v.type, deep(v.data, depth + 1))
    if isinstance(v, Document):
        return ("doc", id(v), snap(v, depth + 1) if depth < 3 else None)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v), [deep(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ("dict", id(v), [(k, deep(x, depth + 1)) for k, x in v.items()])
    return (type(v).__name__, repr(v))


def snap(doc, depth=0, ids=False):
    out = [deep(doc.props), [(k, id(t), t.name, t.text) for k, t in doc.texts.items()]]
    for name, lay in doc.layers.items():
        fs = [(f, id(dt), dt.typename.name, docs._canon_opts(dt.options), repr(dt.default())) for f, dt in lay.schema.fields.items()]
        out.append((name, id(lay), lay.name, len(lay), fs))
        for n in lay:
            out.append((id(n), n.i if ids else 0, n.is_dangling(), n.collection is lay, [(f, deep(v, depth + 1)) for f, v in n.items()]))
    return out


def spoil(doc, r):
    """Make the document one which cannot be stored; looking must still change nothing. Returns what to undo it with."""
    nodes = [(lay, n) for lay in doc.layers.values() for n in lay]
    if not nodes:
        return None
    lay, n = r.choice([(l, m) for l, m in nodes if l.name == "graph"] or nodes)
    how = r.choice(["none", "none", "type", "extra", "dangling", "dangling"])
    if how == "dangling":
        refs = [m for l, o in nodes for v in o.values() if isinstance(v, list) for m in v if getattr(m, "collection", None) is not None]
        m = r.choice(refs) if refs else n
        m.detach()
        return how, lambda: None    # tidied before the next edit
    f = r.choice(list(lay.schema.fields)) if how != "extra" and lay.schema.fields else "not declared"
    old = [n[f]] if f in n else []
    v = {"none": None, "type": r.choice([object, 7, "text", b"b", 1.5, [3]]), "extra": 1}[how]
    if how == "type" and lay.name == "graph" and r.chance(0.4):
        # sequences of nodes which are no lists
        from docria.model import NodeSpan
        f = "nxt" if "nxt" in lay.schema.fields else f
        old = [n[f]] if f in n else []
        v = NodeSpan(n, n)
        v = r.choice([v, v, v, tuple(v), v.to_list()])
    n[f] = v

    def undo():
        n.pop(f, None)
        if old:
            n[f] = old[0]
    return how, undo


def thin(doc, r):
    """Remove most of a layer, in one go or one by one."""
    layers = [lay for lay in doc.layers.values() if len(lay)]
    if not layers:
        return 0
    lay = r.choice(layers + [l for l in layers if l.name == "graph"] * 3)
    gone = r.sample(list(lay), int(len(lay) * r.choice([0.3, 0.6, 0.8, 1.0])))
    if r.chance(0.5):
        lay.remove(gone)
    else:
        for n in gone:
            r.choice([n.detach, lambda n=n: lay.remove(n)])()
    return len(gone)


def indices(known):
    return {k: n.i for k, n in known.items() if not n.is_dangling()}


def gaps(doc):
    return [name for name, lay in doc.layers.items() if any(n.i != k for k, n in enumerate(lay))]


# -- observations: each gives plain data ----------------------------------------------------------------------

class Looker:
    def __init__(self, doc):
        self.doc = doc
        self.where = {}
        self.nodes = {}
        for name, lay in doc.layers.items():
            for k, n in enumerate(lay):
                self.where[id(n)] = (name, k)
                self.nodes[id(n)] = n

    def plain(self, v):
        from docria.model import Node, NodeSpan, TextSpan
        if isinstance(v, Node):
            return ("node",) + tuple(self.where.get(id(v), ("?", id(type(v)) * 0)))
        if isinstance(v, TextSpan):
            return ("span", v.text.name, v.start, v.stop, str(v))
        if isinstance(v, NodeSpan):
            return ("nodespan", self.plain(v.left), self.plain(v.right))
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        if isinstance(v, dict):
            return sorted(((repr(k), self.plain(x)) for k, x in v.items()), key=repr)
        if isinstance(v, (int, str, bytes, float, type(None))):
            return docs.canon_value(v)
        return ADDR.sub("0x", repr(v))

    def layer(self, r):
        ls = list(self.doc.layers.values())
        return r.choice(ls + [self.doc.layers["graph"]] * 3) if "graph" in self.doc.layers else r.choice(ls) if ls else None

    def graph(self):
        lay = self.doc.layers.get("graph")
        return lay if lay is not None and all(f in lay.schema.fields for f in ("v", "s", "text", "nxt", "up", "rng")) else None

    def run(self, name, x):
        """(outcome, data): the answer, or the type of the exception."""
        r = derive("look", name, x)
        try:
            return ("ok", self.plain(getattr(self, "do_" + name)(r, x)))
        except Exception as e:
            return ("error", xname(e), ADDR.sub("0x", str(e))[:200] if isinstance(e, SimError) else "")

    @staticmethod
    def text(s):
        return ADDR.sub("0x", str(s))

    def do_str(self, r, x):
        return self.text(self.doc)

    def do_repr(self, r, x):
        return self.text(repr(self.doc))

    def do_html(self, r, x):
        return [self.text(t._repr_html_()) for t in self.doc.texts.values()]

    do_texthtml = do_html

    def do_printschema(self, r, x):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            self.doc.printschema()
        return out.getvalue()

    def do_layerstr(self, r, x):
        lay = self.layer(r)
        return [self.text(lay), self.text(repr(lay))]

    def do_layerhtml(self, r, x):
        return self.text(self.layer(r)._repr_html_())

    def node(self, r):
        ns = list(self.layer(r))
        return r.choice(ns)

    def do_nodestr(self, r, x):
        return self.text(self.node(r))

    def do_nodehtml(self, r, x):
        return self.text(self.node(r)._repr_html_())

    def do_noderepr(self, r, x):
        return self.text(repr(self.node(r)))

    def field(self, r):
        lay = self.layer(r)
        return lay, r.choice(list(lay.schema.fields))

    def do_fieldstr(self, r, x):
        lay, f = self.field(r)
        return [self.text(lay[f]), self.text(repr(lay[f])), self.text(lay[f]._repr_html_())]

    def do_field(self, r, x):
        lay, f = self.field(r)
        return [lay[f].to_list(), len(lay[f]), [v for v in lay[f]], self.text(lay[f].dtype)]

    def preds(self, lay, r):
        f = r.choice(list(lay.schema.fields))
        t = lay.schema.fields[f].typename.name
        vals = [v for v in lay[f].to_list() if v is not None]
        v = r.choice(vals) if vals else 0
        out = [lay[f].is_none(), lay[f].has_value(), lay[f] == v, lay[f] != v, lambda n: f in n, lay.filter(f, fn=lambda u: u is v)]
        if t in ("I32", "I64", "F64", "STRING", "BOOL"):
            out += [lay[f] > v, lay[f] <= v, lay[f] < v, lay[f] >= v, lay[f].is_any(v, 0)]
        if t == "SPAN":
            out += [lay[f].covered_by(0, 9), lay[f].intersected_by(2, 7)]
        p = r.choice(out)
        if r.chance(0.5):
            q = r.choice(out[:4])
            p2 = r.choice(out[:4])
            p = r.choice([p2 & q, p2 | q, ~q, ~(p2 & ~q)])
        return p

    def do_query(self, r, x):
        lay = self.layer(r)
        q = lay[self.preds(lay, r)]
        return [list(q), len(q), q.first(), q.last(), list(q.to_list())]

    def do_querystr(self, r, x):
        lay = self.layer(r)
        q = lay[self.preds(lay, r)]
        return [self.text(q), self.text(repr(q))]

    def do_update(self, r, x):
        lay = self.layer(r)
        q = lay[self.preds(lay, r)]
        a = list(q)
        q.update()
        return [a, list(q)]

    def do_list(self, r, x):
        lay = self.layer(r)
        l = lay.to_list()
        return [list(l), list(l[::2]), list(l[[0, len(l) - 1]]) if len(l) else [], l.first(), l.last()]

    def do_listof(self, r, x):
        from docria.model import NodeList
        lay = self.layer(r)
        ns = [n for n in lay][: r.randrange(6)]
        l = NodeList(ns)
        return [list(l), sorted(l.fieldtypes), sorted(NodeList(ns, fieldtypes=lay.fieldtypes).fieldtypes)]

    def do_liststr(self, r, x):
        l = self.layer(r).to_list()
        return [self.text(l), self.text(l._repr_html_())]

    def do_slice(self, r, x):
        lay = self.layer(r)
        a = r.randrange(6)
        return [list(lay[a:a + r.randrange(8)]), list(lay[:])]

    def do_iterate(self, r, x):
        return [[n for n in lay] for lay in self.doc.layers.values()]

    def do_neighbours(self, r, x):
        return [(n.left, n.right) for n in self.layer(r)]

    def do_range(self, r, x):
        ns = list(self.layer(r))
        return [n for n in r.choice(ns).iter_span(r.choice(ns))]

    def spans(self):
        return [n["rng"] for n in self.graph() if "rng" in n]

    def do_nodespan(self, r, x):
        s = r.choice(self.spans())
        return [len(s), list(s), s.first(), s.last(), list(s.to_list())]

    def do_spantext(self, r, x):
        s = r.choice(self.spans())
        return [s.text(), s.textspan(), s.text("text")]

    def do_spanstr(self, r, x):
        s = r.choice(self.spans())
        return [self.text(s), self.text(repr(s)), self.text(s._repr_html_())]

    def do_textspan(self, r, x):
        s = r.choice([n["text"] for n in self.graph()])
        t = r.choice([n["text"] for n in self.graph()])
        return [repr(s), str(s), len(s), s.covered_by(t), s.intersected_by(t), s == t, s[0:2], s.text_to(t), [c for c in s], hash(s) == hash(s)]

    def do_trim(self, r, x):
        return [n["text"].trim() for n in self.graph()]

    def do_firstlast(self, r, x):
        return [(lay.first(), lay.last(), len(lay)) for lay in self.doc.layers.values()]

    def do_membership(self, r, x):
        n = self.node(r)
        return [[n in lay for lay in self.doc.layers.values()], n.is_dangling(), n.collection.name, n.collection[n], "graph" in self.doc]

    def do_isvalid(self, r, x):
        n = self.node(r)
        return [n.is_valid(), n.collection.validate(n)]

    def do_validate(self, r, x):
        return self.layer(r).to_list().validate()

    def do_group(self, r, x):
        from docria import algorithm as A
        lay = self.graph()
        ns = list(lay)
        g = A.group_by_span(ns[:4] if r.chance(0.7) else self.doc.layers["graph"], {"a": ns, "b": ns[2:]}, resolution=r.choice(["intersect", "cover"]), include_empty_groups=r.chance(0.5))
        return [(n, {k: sorted((self.plain(m) for m in v), key=repr) for k, v in d.items()}) for n, d in g]

    def do_dominant(self, r, x):
        from docria import algorithm as A
        return A.dominant_right_span(self.graph())

    def do_align(self, r, x):
        from docria import algorithm as A
        t = self.doc.maintext
        return A.sequence_to_textspans([t.text[i:i + 2] for i in range(0, len(t), 3)] + ["zz"], t)

    def do_bfs(self, r, x):
        from docria import algorithm as A
        lay = self.graph()
        return list(A.bfs(list(lay)[x % len(lay)], A.children_of(lay, "nxt", "up")))

    def do_dfs(self, r, x):
        from docria import algorithm as A
        lay = self.graph()
        return list(A.dfs(list(lay)[x % len(lay)], A.children_of(lay, "nxt"), lambda n: n["v"] != 1))

    def do_leaves(self, r, x):
        from docria import algorithm as A
        lay = self.graph()
        return list(A.dfs_leaves(list(lay)[x % len(lay)], A.children_of(lay, "nxt")))

    def do_children(self, r, x):
        from docria import algorithm as A
        lay = self.graph()
        ch = A.children_of(lay, "up", "nxt")
        return [list(ch(n)) for n in lay]

    def do_getprop(self, r, x):
        from docria import algorithm as A
        lay, f = self.field(r)
        g = A.chain(A.get_prop(f, 5), lambda v: [v])
        return [g(n) for n in lay]

    def do_typeof(self, r, x):
        from docria.model import DataTypes as T
        n = self.node(r)
        return [(f, self.text(T.typeof(v))) for f, v in n.items()]

    def do_dtype(self, r, x):
        return [(f, self.text(dt), self.text(dt.default()), self.plain(dt.encode())) for lay in self.doc.layers.values() for f, dt in lay.schema.fields.items()]

    def do_keys(self, r, x):
        lay = self.layer(r)
        return [self.doc._ipython_key_completions_(), lay._ipython_key_completions_(), [n._ipython_key_completions_() for n in lay],
                [n.fld.s if "s" in n else 0 for n in lay]]

    def do_sorted(self, r, x):
        lay = self.graph()
        return sorted(lay, key=lambda n: (n["text"].start, n["v"]))

    # storing: everything stays, except that the indices become consecutive
    def do_msgpack(self, r, x):
        from docria.codec import MsgpackCodec
        return hashlib.sha256(MsgpackCodec.encode(self.doc)).hexdigest()

    def do_json(self, r, x):
        from docria.codec import JsonCodec
        return JsonCodec.encode(self.doc)

    def do_lazy(self, r, x):
        from docria.codec import MsgpackDocument
        d = MsgpackDocument(self.doc)
        return [hashlib.sha256(d.binary()).hexdigest(), sorted(d.properties()), sorted(d.texts())]

    def do_pickle(self, r, x):
        return len(pickle.loads(pickle.dumps(self.doc)).layers)

    def do_deepcopy(self, r, x):
        return sorted(copy.deepcopy(self.doc).layers)

    def do_copy(self, r, x):
        return sorted(copy.copy(self.doc).layers)

    def do_xml(self, r, x):
        from docria.codec import XmlCodec
        return XmlCodec.encode_utf8string(self.doc)

    def do_compile(self, r, x):
        return [(k, sorted(v[0].items()), list(v[1])) for k, v in self.doc.compile().items()]

    def do_writer(self, r, x):
        from docria.collection import MsgpackDocumentWriter
        out = io.BytesIO()
        w = MsgpackDocumentWriter(out)
        w.write(self.doc)
        w.flush()
        return hashlib.sha256(out.getvalue()).hexdigest()

    def do_badwriter(self, r, x):
        from docria.collection import MsgpackDocumentWriter
        raw = SimRaw(self.ctx)
        w = MsgpackDocumentWriter(raw, num_docs_per_block=1)
        self.ctx.arm({"on": "write", "n": r.randrange(2), "kind": r.choice(["EIO", "ENOSPC"])})
        try:
            w.write(self.doc)
        finally:
            self.ctx.disarm()

    def do_extbinary(self, r, x):
        from docria.codec import MsgpackDocumentExt
        e = MsgpackDocumentExt(self.doc)
        return hashlib.sha256(e.encode()).hexdigest()

    # observations which fail
    def do_failquery(self, r, x):
        k = itertools.count()

        def pred(n):
            if next(k) == x % 4:
                raise SimError("predicate")
            return True
        return list(self.layer(r)[pred])

    def do_failchildren(self, r, x):
        from docria import algorithm as A
        lay = self.graph()
        k = itertools.count()

        def ch(n):
            if next(k) == x % 5:
                raise SimError("children")
            return iter(n.get("nxt", []))
        return list(r.choice([A.bfs, A.dfs, A.dfs_leaves])(list(lay)[0], ch))

    def do_failfilter(self, r, x):
        from docria import algorithm as A
        lay = self.graph()
        k = itertools.count()

        def ok(n):
            if next(k) == x % 5:
                raise SimError("filter")
            return True
        return list(A.bfs(list(lay)[0], A.children_of(lay, "nxt"), ok))

    def do_missingfield(self, r, x):
        return self.layer(r)["there is no such field"]

    def do_outofrange(self, r, x):
        lay = self.layer(r)
        if r.chance(0.5):
            return lay[len(lay) + 1000]
        return self.doc.maintext[5:2]

    def do_foreign(self, r, x):
        from docria.model import Node
        return self.layer(r)[Node(a=1)]


def suspended(w, name, r):
    from docria import algorithm as A
    lay = w.layer(r)
    g = w.graph()
    if name in ("span-iter", "bfs", "dfs", "leaves") and (g is None or len(g) == 0) or lay is None:
        return iter([])
    if name == "iter":
        return iter(lay)
    if name == "slice-iter":
        return iter(lay[0:5])
    if name == "query-iter":
        return iter(lay[lambda n: len(n) % 2 == 0])
    if name == "field-iter":
        fs = list(lay.schema.fields)
        return iter(lay[r.choice(fs)]) if fs else iter([])
    if name == "span-iter":
        s = w.spans()
        return iter(r.choice(s)) if s else iter([])
    if name in ("bfs", "dfs", "leaves"):
        return {"bfs": A.bfs, "dfs": A.dfs, "leaves": A.dfs_leaves}[name](list(g)[0], A.children_of(g, "nxt", "up"))
    if name == "text-iter":
        return iter(w.doc.maintext)
    return iter([n for n in lay])


class Suspended:
    """An iteration which is under way: until the next edit it goes on to give what it would have given at once."""
    def __init__(self, name, it, want, epoch):
        self.name, self.it, self.want, self.epoch = name, it, want, epoch
        self.pos = 0

    def step(self, ctx, epoch):
        try:
            v = next(self.it, ctx)
        except Exception as e:
            if epoch == self.epoch:
                ctx.fail("answer-changed", "%s resumed after %d of %d: %s" % (self.name, self.pos, len(self.want), xname(e)))
            raise
        if epoch == self.epoch:
            end = self.pos == len(self.want)
            w = ctx if end else self.want[self.pos]
            if v is not w and not (v is not ctx and w is not ctx and type(v) is type(w) and v == w):
                ctx.fail("answer-changed", "%s resumed after %d of %d: %s" % (
                    self.name, self.pos, len(self.want), "ended" if v is ctx else "went on" if end else "another item"))
            self.pos += 1
            if v is not ctx:
                ctx.probes["resumed with no edit in between"] += 1
        return v is not ctx


def compare(ctx, a, b, what):
    if a != b:
        ctx.fail("document-changed", "%s: %s" % (what, first_diff(a, b)))


def execute(plan, ctx):
    doc = build(plan)
    if plan["threads"]:
        return threaded(plan, ctx, doc)
    memo = {}
    pending = []
    undo = []
    others = 0
    epoch = 0
    known = Looker(doc).nodes       # all nodes ever seen: their positions can be read without going through the layer
    for k, name, x in plan["ops"]:
        ctx.steps += 1
        r = derive("c28", k, x)
        if k in ("spoil", "edit", "thin"):
            epoch += 1
        if k == "spoil":
            got = spoil(doc, r)
            if got is not None:
                undo.append(got[1])
                memo.clear()
                ctx.ev("spoil", got[0])
            continue
        if k in ("edit", "thin"):
            while undo:
                undo.pop()()
            docs.tidy(doc)
            if k == "edit":
                what = docs.mutate(doc, r, False)
            else:
                what = thin(doc, r)
                at = indices(known)
                docs.tidy(doc)
                compare(ctx, indices(known), at, "going through the layers")
            at = indices(known)
            known.update(Looker(doc).nodes)
            compare(ctx, {i: n for i, n in indices(known).items() if i in at}, at, "going through the layers")
            memo.clear()
            ctx.ev("edit", what)
            continue
        if "graph" in doc.layers and not all(f in doc.layers["graph"].schema.fields for f in ("v", "s", "text", "nxt", "up", "rng")):
            graph = False
        else:
            graph = "graph" in doc.layers
        w = Looker(doc)
        w.ctx = ctx
        g = gaps(doc)
        before = snap(doc, ids=k != "store")
        if k in ("look", "store", "fail"):
            a = w.run(name, x)
            compare(ctx, snap(doc, ids=k != "store"), before, "%s (%s)" % (name, a[0] if a[0] == "ok" else a[1]))
            if k == "store":
                if a[0] == "ok" and gaps(doc):
                    ctx.fail("wrong-indices", "after %s" % name)
                if a[0] == "error" and name != "badwriter" and graph:
                    # json cannot hold everything; anything else which raises is judged by other properties
                    ctx.probes["%s raised %s" % (name, a[1])] += 1
                if g:
                    memo.clear()
            b = w.run(name, x)
            compare(ctx, snap(doc, ids=k != "store"), before, "%s, second time" % name)
            ctx.check(a == b, "answer-changed", lambda: "%s asked twice: %s" % (name, first_diff(b, a)))
            if g and k == "store":
                memo.clear()
            memo[(name, x)] = (a, others)
            others += 1
            ctx.ev(name, a[0], hashlib.sha256(ADDR.sub("0x", repr(a)).encode("utf-8", "backslashreplace")).hexdigest()[:8])
            ctx.state(name, a[0] if a[0] == "ok" else a[1], min(len(pending), 3), bool(g), bool(undo))
            if k == "fail":
                ctx.faults["failing observation"] += 1
        elif k == "again":
            if memo:
                (nm, y), (a, at) = r.choice(sorted(memo.items(), key=lambda t: t[1][1]))
                b = w.run(nm, y)
                ctx.check(a == b, "answer-changed", lambda: "%s after %d other observations: %s" % (nm, others - at, first_diff(b, a)))
                compare(ctx, snap(doc, ids=True), before, "%s, asked again" % nm)
                if others - at > 1:
                    ctx.nontrivial = True
                ctx.ev("again", nm)
        elif k == "suspend":
            try:
                y = r.randrange(1 << 30)
                want = list(suspended(w, name, derive("suspend", y)))
                it = Suspended(name, suspended(w, name, derive("suspend", y)), want, epoch)
                for _ in range(r.randrange(3)):
                    it.step(ctx, epoch)
                pending.append(it)
            except Violation:
                raise
            except Exception as e:
                ctx.ev("suspend", name, xname(e))
            compare(ctx, snap(doc, ids=True), before, "suspending %s" % name)
        elif k in ("resume", "abandon"):
            if not pending:
                continue
            it = pending.pop(r.randrange(len(pending)))
            name = it.name
            if k == "resume":
                n = r.choice([1, 2, 50])
                try:
                    for _ in range(n):
                        if not it.step(ctx, epoch):
                            break
                    else:
                        pending.append(it)
                except Violation:
                    raise
                except Exception as e:
                    ctx.ev("resume", name, xname(e))
                ctx.probes["resumed across edits or observations"] += 1
            else:
                if hasattr(it.it, "close"):
                    it.it.close()
                it.it = None
            compare(ctx, snap(doc, ids=True), before, "%s of %s" % (k, name))
        else:
            raise ValueError(k)


def threaded(plan, ctx, doc):
    from docria.codec import MsgpackCodec
    looks = [[name, x] for _, name, x in plan["looks"]]
    if not looks:
        return
    MsgpackCodec.encode(doc)        # no gaps from here on
    n = plan["threads"]
    w = Looker(doc)
    w.ctx = ctx
    before = snap(doc, ids=True)
    names = [[name, x] for t, name, x in plan["looks"] if name != "printschema"]
    solo = {(name, x): w.run(name, x) for name, x in names}
    compare(ctx, snap(doc, ids=True), before, "looking before the threads start")

    def body(t):
        def run():
            return [((name, x), w.run(name, x)) for u, name, x in plan["looks"] if u == t and name != "printschema"]
        return run

    s = sched.Sched(ctx, [body(t) for t in range(n)], plan["sched"], grain=plan["grain"])
    tasks = s.run()
    ctx.steps += s.total
    ctx.now += s.total * 1e-6
    ctx.faults["thread switch"] += s.switches
    ctx.state(tuple(s.trace))
    ctx.ev("trace", hashlib.sha256(repr(s.trace).encode()).hexdigest()[:12], len(s.trace))
    if s.switches >= n + 2:
        ctx.nontrivial = True
    for t in tasks:
        if t.error is not None:
            ctx.fail("thread-failed", "%s: %s" % (xname(t.error), t.error))
        for key, got in t.result:
            if got != solo[key]:
                ctx.fail("answer-changed", "%s in thread %d of %d: %s" % (key[0], t.i, n, first_diff(got, solo[key])))
    compare(ctx, snap(doc, ids=True), before, "looking from %d threads" % n)
    for (name, x), a in solo.items():
        b = w.run(name, x)
        ctx.check(a == b, "answer-changed", lambda: "%s after the threads: %s" % (name, first_diff(b, a)))
    compare(ctx, snap(doc, ids=True), before, "looking after the threads")
