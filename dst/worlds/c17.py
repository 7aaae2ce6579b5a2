"""C17: queries, node lists and node spans keep their meaning while layers change."""
import operator

from .. import docs, hist
from ..core import SimError, Violation, xname
from ..rng import derive

ID = "C17"
RUNS = {"quick": 18000, "thorough": 400000}
LISTS = ["ops"]
RULE = ("A run draws a history of layer edits interleaved with the creation, update and use of handles (queries with composite "
        "conditions over layers, lists and other queries, node lists, field views, node spans); after every step (in half of the runs: "
        "after a drawn few of them and at the end) each handle is compared with an evaluation of its meaning on the model.")
NONTRIVIAL = "a handle was judged after an edit that followed its creation."
STATES = "distinct (handle kind, edits since creation class, last edit, valid or not) combinations"
STUB = ["nothing: schedule of edits and handle uses is the input; predicates of the caller are simulated"]

MAKE = [(5, "query"), (2, "subquery"), (2, "list"), (2, "listof"), (1, "sublist"), (3, "view"), (1.5, "viewof"), (5, "span")]


def gen(r, tier):
    n = r.choice([6, 12, 25, 60])
    rate = r.choice([0.25, 0.4, 0.6])
    ops = []
    for op in hist.gen_edits(r, n):
        if r.chance(rate):
            k = r.weighted([(6, "make"), (2, "update"), (0.7, "failquery")])
            op = [("make " + r.weighted(MAKE)) if k == "make" else k, r.randrange(4), r.randrange(1 << 30)]
        ops.append(op)
    if r.chance(0.85):
        ops.insert(0, ["addmany", 0, r.randrange(1 << 30)])
    return {"fields": hist.gen_fields(r), "nlayers": r.choice([1, 1, 2]), "ops": ops, "watch": hist.gen_watch(r)}


# -- conditions: (library predicate, model function of a node's values) ---------------------------------------

def same(v, c):
    """v == c as documented: spans compare by offsets, with a string by their text."""
    if hasattr(v, "start_offset"):
        if isinstance(c, str):
            return hist.TEXT[v.start:v.stop] == c
        if hasattr(c, "start_offset"):
            return (v.start, v.stop) == (c.start, c.stop)
        return False
    if hasattr(c, "start_offset"):
        return False
    return v == c


def leaf(h, L, views, r):
    f, k = r.choice(list(L.fields)), r.randrange(12)
    again = getattr(L, "leafs", None)       # often another condition of the same kind on the same field
    if again and again[0] in L.fields and r.chance(0.4):
        f, k = again
    L.leafs = f, k
    t, a = L.fields[f]
    view = views(f)
    x = r.randrange(1 << 30)
    c = hist.value(h.doc, t, a, x)
    live = [v[f] for v in L.vals.values() if f in v]
    if live and r.chance(0.6):
        c = r.choice(live)
    if t == "span" and r.chance(0.3):
        c = hist.TEXT[c.start:c.stop]
    if k == 0:
        return view.is_none(), lambda v: v.get(f) is None, "none"
    if k == 1:
        return view.has_value(), lambda v: v.get(f) is not None, "value"
    if k == 2:
        if r.chance(0.1):
            return view == None, lambda v: v.get(f) is None, "eq None"      # noqa: E711
        return view == c, lambda v: f in v and same(v[f], c), "eq"
    if k == 3:
        if r.chance(0.1):
            return view != None, lambda v: v.get(f) is not None, "ne None"      # noqa: E711
        return view != c, lambda v: not (f in v and same(v[f], c)), "ne"
    if k == 4 and t != "span" and c == c:
        cs = [c] + [hist.value(h.doc, t, a, x + i) for i in range(1, r.choice([1, 2, 4]))]
        cs = [y for y in cs if y == y]      # membership of NaN is by identity
        if r.chance(0.2):
            cs[r.randrange(len(cs))] = None
        if r.chance(0.1):
            cs = []
        return view.is_any(*cs), lambda v: any(v.get(f) is None if y is None else f in v and v[f] == y for y in cs), "any"
    if k == 5:
        return L.real.filter(f, fn=lambda u: u is not None and len(repr(u)) % 2 == 0), \
            lambda v: f in v and len(repr(v[f])) % 2 == 0, "filter"
    if k == 6:
        g = r.choice(list(L.fields))
        return L.real.filter(f, g, fn=lambda u, w: (u is None) != (w is None)), lambda v: (f in v) != (g in v), "filter2"
    if k == 7:
        return view.filter(lambda u: bool(u)), lambda v: bool(v.get(f)) if t != "span" else f in v and v[f].stop > v[f].start, "fieldfilter"
    if t == "span":
        i = r.randrange(len(hist.TEXT) + 1)
        j = r.randrange(i, len(hist.TEXT) + 1)
        if r.chance(0.5):
            return view.has_value() & view.covered_by(i, j), lambda v: f in v and i <= v[f].start and v[f].stop <= j, "covered"
        return view.has_value() & view.intersected_by(i, j), lambda v: f in v and j > v[f].start and i < v[f].stop, "intersected"
    if t == "bool":
        return view == c, lambda v: f in v and v[f] == c, "eq"
    k = r.randrange(4)
    p = [view < c, view <= c, view > c, view >= c][k]
    op = [operator.lt, operator.le, operator.gt, operator.ge][k]
    what = ["lt", "le", "gt", "ge"][k]
    if r.chance(0.3):       # raises for nodes without a value
        return p, lambda v: op(v.get(f), c), what
    if r.chance(0.3):
        return view.has_value() & ~p, lambda v: f in v and not op(v[f], c), "not " + what
    return view.has_value() & p, lambda v: f in v and op(v[f], c), what


POOL = 8


def cond(h, L, views, r, depth=2):
    """A condition: new, or one made earlier, which may be part of several others."""
    pool = L.conds = [c for c in getattr(L, "conds", []) if fits(L, c[3])]
    if pool and r.chance(0.3):
        return r.choice(pool)[:3]
    out = make_cond(h, L, views, r, depth)
    if r.chance(0.6) and len(out[2]) < 120:
        pool.append(out + (dict(L.fields),))
        if len(pool) > POOL:
            pool.pop(r.randrange(POOL))
    return out


def fits(L, fields):
    """Do the fields which a condition was made over still have the same types?"""
    return all(f not in L.fields or L.fields[f][0] == t for f, (t, _) in fields.items())


def make_cond(h, L, views, r, depth):
    if depth and r.chance(0.5):
        k = r.randrange(3)
        p, m, a = cond(h, L, views, r, depth - 1)
        if k == 0:
            return ~p, lambda v: not m(v), "not " + a
        q, n, b = cond(h, L, views, r, depth - 1)
        if k == 1:
            return p & q, lambda v: m(v) and n(v), "(%s and %s)" % (a, b)
        return p | q, lambda v: m(v) or n(v), "(%s or %s)" % (a, b)
    return leaf(h, L, views, r)


class Handle:
    def __init__(self, kind, obj, L, what=""):
        self.kind, self.obj, self.L, self.what = kind, obj, L, what
        self.nodes = None       # expected content, where it is fixed
        self.model = None       # condition
        self.base = None        # handle or layer it was made from
        self.field = None
        self.edits = 0


def nodes_of(hd):
    """The nodes a collection handle holds by the model."""
    return hd.nodes


def judge(ctx, h, hd, last):
    L, o = hd.L, hd.obj
    what = "%s %s, %d edits after it was made, last %s" % (hd.kind, hd.what, hd.edits, last)
    valid = True
    if hd.kind in ("query", "list"):
        got = list(o)
        ctx.check(h.same(got, hd.nodes), "wrong-handle-content", lambda: "%s: holds %s, expected %s" % (
            what, ids(L, got), ids(L, hd.nodes)))
        ctx.check(len(o) == len(hd.nodes), "wrong-handle-length", what)
        ctx.check(o.first() is (hd.nodes[0] if hd.nodes else None), "wrong-handle-content", what + ": first()")
        ctx.check(o.last() is (hd.nodes[-1] if hd.nodes else None), "wrong-handle-content", what + ": last()")
    elif hd.kind == "view":
        nodes = L.nodes if hd.base is None else hd.base.nodes
        want = [L.vals[n].get(hd.field) if n in L.vals else n.get(hd.field) for n in nodes]
        got = list(o)
        ok = len(got) == len(want) and all(a is None and b is None or a is not None and b is not None and h.eq(a, b)
                                           for a, b in zip(got, want))
        ctx.check(ok, "wrong-view", lambda: "%s: %r, expected %r" % (what, got[:8], want[:8]))
        ctx.check(len(o) == len(want), "wrong-view", what + ": length")
        tl = o.to_list()
        ctx.check(len(tl) == len(got) and all(a is b for a, b in zip(tl, got)), "wrong-view", what + ": to_list()")
    elif hd.kind == "span":
        a, b = hd.nodes
        pos = {n: i for i, n in enumerate(L.nodes)}
        valid = a in pos and b in pos and pos[a] <= pos[b]
        if valid:
            want = L.nodes[pos[a]:pos[b] + 1]
            got = list(o)
            ctx.check(h.same(got, want), "wrong-span", lambda: "%s: %s, expected %s" % (what, ids(L, got), ids(L, want)))
            ctx.check(len(o) == len(want), "wrong-span", what + ": length")
            ctx.check(o.first() is a and o.last() is b, "wrong-span", what + ": ends")
        else:
            n = 0
            try:
                for _ in o:
                    n += 1
                    break
            except Exception as e:
                ctx.ev("span", xname(e))
            else:
                ctx.fail("invalid-span-accepted", "%s: an end was %s, iteration does not raise" % (
                    what, "moved" if a in pos and b in pos else "removed"))
            ctx.check(n == 0, "invalid-span-yields", what)
            try:
                len(o)
            except Exception:
                pass
            else:
                ctx.fail("invalid-span-accepted", what + ": length")
            ctx.probes["invalid node span met"] += 1
    if hd.edits:
        ctx.nontrivial = True
    ctx.state(hd.kind, min(6, hd.edits), last, valid)


def ids(L, nodes):
    pos = {n: i for i, n in enumerate(L.nodes)}
    return [pos.get(n, "gone") for n in nodes][:20]


def select(L, nodes, model):
    """The nodes a condition holds for; None if it cannot be evaluated on one of them."""
    try:
        return [n for n in nodes if model(L.vals[n] if n in L.vals else dict(n))]
    except (TypeError, AttributeError):
        return None


def execute(plan, ctx):
    from docria.model import NodeList, NodeSpan
    h = hist.Hist(ctx, plan["fields"], plan["nlayers"], plan["watch"])
    handles = []
    for op, li, x in plan["ops"]:
        ctx.steps += 1
        L = h.layers[li % len(h.layers)]
        real = L.real
        r = derive("c17", op, x)
        mine = [hd for hd in handles if hd.L is L]
        views = lambda f: real[f]
        if op.startswith("make "):
            kind = op[5:]
            hd = None
            if kind == "query":
                if r.chance(0.15):
                    k = x % 3
                    hd = Handle("query", real[lambda n: len(n) % 3 == k], L, "lambda")
                    hd.model = lambda v: len(v) % 3 == k
                    hd.nodes = select(L, L.nodes, hd.model)
                else:
                    p, m, a = cond(h, L, views, r)
                    want = select(L, L.nodes, m)
                    if want is None:
                        continue
                    hd = Handle("query", real[p], L, a)
                    hd.model, hd.nodes = m, want
            elif kind == "subquery":
                base = [b for b in mine if b.kind in ("query", "list")]
                if base:
                    b = r.choice(base)
                    p, m, a = cond(h, L, views, r)
                    want = select(L, b.nodes, m)
                    if want is None:
                        continue
                    hd = Handle("query", b.obj[p], L, "%s of a %s" % (a, b.kind))
                    hd.base, hd.model, hd.nodes = b, m, want
            elif kind == "list":
                if r.chance(0.5) or not L.nodes:
                    hd = Handle("list", real.to_list(), L, "to_list")
                    hd.nodes = list(L.nodes)
                else:
                    i = r.randrange(L.nodes[-1].i + 1)
                    j = r.randrange(i, L.nodes[-1].i + 2)
                    hd = Handle("list", real[i:j], L, "slice")
                    hd.nodes = [n for n in L.nodes if i <= n.i < j]
            elif kind == "listof":
                ns = h.pick(L, x)
                hd = Handle("list", NodeList(ns) if r.chance(0.5) else NodeList(iter(ns), fieldtypes=real.fieldtypes), L, "NodeList")
                hd.nodes = list(ns)
            elif kind == "sublist":
                base = [b for b in mine if b.kind == "list" and b.nodes]
                if base:
                    b = r.choice(base)
                    n = len(b.nodes)
                    if r.chance(0.5):
                        i, j = r.randrange(n), r.randrange(n + 1)
                        hd = Handle("list", b.obj[i:j], L, "slice of a list")
                        hd.nodes = b.nodes[i:j]
                    else:
                        pick = [r.randrange(n) for _ in range(r.randrange(4))]
                        hd = Handle("list", b.obj[pick], L, "selection of a list")
                        hd.nodes = [b.nodes[i] for i in pick]
                    i = r.randrange(n)
                    ctx.check(b.obj[i] is b.nodes[i], "wrong-handle-content", "element of a list")
                elif mine:
                    b = r.choice([b for b in mine])
                    if b.kind == "query":
                        hd = Handle("list", b.obj.to_list(), L, "list of a query")
                        hd.nodes = list(b.nodes)
            elif kind == "view":
                f = r.choice(list(L.fields))
                hd = Handle("view", real[f], L, "of the layer")
                hd.field = f
            elif kind == "viewof":
                base = [b for b in mine if b.kind == "list" or b.kind == "query" and b.base is None]
                if base:
                    b = r.choice(base)
                    fs = [f for f in L.fields if f in b.obj.fieldtypes]
                    if fs:
                        f = r.choice(fs)
                        hd = Handle("view", b.obj[f], L, "of a " + b.kind)
                        hd.field, hd.base = f, b
            elif kind == "span":
                if L.nodes:
                    i = r.randrange(len(L.nodes))
                    j = r.choice([i, min(len(L.nodes) - 1, i + r.randrange(6)), r.randrange(i, len(L.nodes))])
                    a, b = L.nodes[i], L.nodes[j]
                    hd = Handle("span", NodeSpan(a, b), L)
                    hd.nodes = (a, b)
            if hd is not None:
                handles.append(hd)
                ctx.ev(op, hd.what, None if hd.nodes is None else len(hd.nodes))
                if r.chance(plan["watch"]):
                    judge(ctx, h, hd, "none")
                if len(handles) > 14:
                    handles.pop(r.randrange(7))
            continue
        if op == "update":
            qs = [b for b in mine if b.kind == "query"]
            if not qs:
                continue
            hd = r.choice(qs)
            want = select(L, L.nodes if hd.base is None else hd.base.nodes, hd.model)
            if want is None:
                continue
            hd.obj.update()
            hd.nodes = want
            ctx.ev(op, len(hd.nodes))
        elif op == "failquery":
            # a predicate which fails while an existing query is updated leaves the query as it was
            err, fuse = SimError("simulated"), [1 << 30]

            def pred(n):
                fuse[0] -= 1
                if fuse[0] < 0:
                    raise err
                return len(n) % 2 == 0

            q = real[pred]
            before = [n for n in L.nodes if len(L.vals[n]) % 2 == 0]
            ctx.check(h.same(list(q), before), "wrong-handle-content", "new query")
            if L.nodes:
                fuse[0] = x % len(L.nodes)
                try:
                    q.update()
                except SimError as e:
                    ctx.check(e is err, "exception-lost", "update")
                else:
                    ctx.fail("failure-not-reported", "update")
                ctx.faults["predicate raises"] += 1
                ctx.check(h.same(list(q), before), "wrong-handle-content", "query after a failing update")
        else:
            doc = h.doc
            h.step(op, L, x)
            h.verify(op, x)
            if h.doc is not doc:
                handles = []
                for M in h.layers:
                    M.conds = []
            for hd in handles:
                if hd.L is L:
                    hd.edits += 1
            ctx.ev(op, len(L.nodes))
        for i, hd in enumerate(handles):
            if plan["watch"] == 1 or derive("c17w", x, i).chance(plan["watch"]):
                judge(ctx, h, hd, op)
    h.verify("the end", final=True)
    for hd in handles:
        judge(ctx, h, hd, "the end")
