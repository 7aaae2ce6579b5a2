"""C18: interleaved graph traversals each visit every reachable node exactly once."""
from ..core import SimError, Violation, xname
from ..rng import derive

ID = "C18"
RUNS = {"quick": 150000, "thorough": 2000000}
LISTS = ["ops"]
RULE = ("A run draws a graph over one or two layers (cycles, self-links, shared and repeated children, chains, forests) and a "
        "schedule that creates, advances, abandons and restarts traversals of all kinds with drawn child sources and filters; "
        "child functions and filters raise at drawn calls.  Each traversal is compared node by node with its own oracle.")
NONTRIVIAL = "at least two traversals were suspended at the same time and one was finished."
STATES = "distinct (kind, children source, filter, graph shape, position class when suspended, traversals alive) combinations"
STUB = ["the caller's child functions and result filters (they raise when told)"]

SHAPES = ["random", "dense", "chain", "cycle", "tree", "dag", "selfloops", "sparse"]


def gen(r, tier):
    ops = []
    for _ in range(r.choice([3, 8, 20, 50])):
        ops.append([r.weighted([(4, "new"), (9, "step"), (1, "drain"), (0.7, "abandon"), (0.4, "edit")]), r.randrange(8), r.randrange(1 << 30)])
    if r.chance(0.4):   # run everything to its end
        ops += [["drain", i, 0] for i in range(7, -1, -1)]
    n = r.choice([1, 2, 3, 5, 8, 8, 20, 60])
    shape = r.choice(SHAPES)
    if r.chance(0.002):     # deeper than any stack
        n, shape = r.choice([1500, 3000]), r.choice(["chain", "cycle"])
        ops = [["new", 0, r.randrange(1 << 30)] for _ in range(r.choice([2, 3]))] + ops[:8] + [["drain", 0, 0]]
    return {"shape": shape, "n": n, "layers": r.choice([1, 1, 2]),
            "graph": r.randrange(1 << 30), "ops": ops}


def links(shape, n, r):
    """(one, second, many) per node: positions or None, list of positions."""
    out = []
    for i in range(n):
        one = two = None
        many = []
        if shape == "random":
            one = r.randrange(n) if r.chance(0.5) else None
            two = r.randrange(n) if r.chance(0.4) else None
            many = [r.randrange(n) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        elif shape == "dense":
            one, two = r.randrange(n), r.randrange(n)
            many = [r.randrange(n) for _ in range(min(n, 12))]
        elif shape == "chain":
            one = i + 1 if i + 1 < n else None
            many = [i + 1] if i + 1 < n else []
        elif shape == "cycle":
            one = (i + 1) % n
            two = (i - 1) % n
            many = [(i + 1) % n]
        elif shape == "tree":
            many = [j for j in (2 * i + 1, 2 * i + 2) if j < n]
            one = many[0] if many else None
        elif shape == "dag":
            later = range(i + 1, n)
            many = [j for j in later if r.chance(0.4)][:5]
            one = r.choice(later) if later and r.chance(0.6) else None
            two = r.choice(later) if later and r.chance(0.3) else None
        elif shape == "selfloops":
            one = i if r.chance(0.5) else r.randrange(n)
            many = [i, i] if r.chance(0.3) else [r.randrange(n)] if r.chance(0.4) else []
        elif shape == "sparse":
            one = r.randrange(n) if r.chance(0.25) else None
            many = [r.randrange(n)] if r.chance(0.25) else []
        out.append((one, two, many))
    return out


class G:
    """The graph in the library and as plain data."""
    def __init__(self, plan):
        from docria.model import Document, DataTypes as T, Node
        n = plan["n"]
        self.doc = Document()
        names = ["a", "b"][:plan["layers"]]
        self.layers = [self.doc.add_layer(x, one=T.noderef(names[0]), two=T.noderef(names[-1]), many=T.noderef_many(names[0]),
                                          v=T.int32()) for x in names]
        self.nodes = [Node(v=i) for i in range(n)]
        for i, node in enumerate(self.nodes):
            self.layers[i % len(self.layers)].add(node)
        self.rows = links(plan["shape"], n, derive("g", plan["graph"]))
        self.store()

    def store(self):
        for i, (node, (one, two, many)) in enumerate(zip(self.nodes, self.rows)):
            node.clear()
            node["v"] = i
            if one is not None:
                node["one"] = self.nodes[one]
            if two is not None:
                node["two"] = self.nodes[two]
            if many:
                node["many"] = [self.nodes[j] for j in many]
            elif len(self.nodes) % 2:
                node["many"] = []


FIELDS = [["one"], ["many"], ["one", "many"], ["many", "one"], ["one", "two"], ["one", "two", "many"], ["two", "many", "one"],
          ["many", "many"], ["two"]]


def kids(rows, fields, i):
    out = []
    for f in fields:
        one, two, many = rows[i]
        if f == "many":
            out += many
        else:
            j = one if f == "one" else two
            if j is not None:
                out.append(j)
    return out


def oracle(rows, kind, fields, start):
    """[(depth, position)] or [position], computed the slow and plain way."""
    if kind == "bfs":
        level, seen, out, depth = [start], {start}, [], 0
        while level:
            out += [(depth, i) for i in level]
            nxt = []
            for i in level:
                for j in kids(rows, fields, i):
                    if j not in seen:
                        seen.add(j)
                        nxt.append(j)
            level, depth = nxt, depth + 1
        return out
    seen, out, todo = set(), [], [start]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        ch = kids(rows, fields, i)
        if kind == "dfs" or not ch:
            out.append(i)
        todo += ch[::-1]
    return out


class T_:
    """One traversal."""
    def __init__(self, gen, want, exc, key):
        self.gen, self.want, self.exc, self.key = gen, want, exc, key
        self.got = 0
        self.done = False


def execute(plan, ctx):
    from docria import algorithm
    g = G(plan)
    pos = {n: i for i, n in enumerate(g.nodes)}
    ts = []
    edits = []
    shared = {}     # child functions and filters which several traversals use

    def make(x):
        r = derive("c18", x)
        kind = r.choice(["bfs", "dfs", "dfs_leaves"])
        fields = r.choice(FIELDS)
        rows = [(o, t, list(m)) for o, t, m in g.rows]
        how = r.choice(["field", "field", "list", "generator", "tuple", "live"])
        key = (how, tuple(fields), r.randrange(len(g.layers)))
        reuse = r.chance(0.4) and key in shared
        if how == "live":
            fields = ["many"]
        if reuse:
            fn = shared[key]
            ctx.probes["child function used again"] += 1
        elif how == "field":
            fn = algorithm.children_of(g.layers[r.randrange(len(g.layers))], *fields)
        elif how == "live":
            fn = lambda n: n.get("many", ())    # the node's own list, not a copy
        elif how == "generator":
            fn = lambda n: (g.nodes[j] for j in kids(rows, fields, pos[n]))
        elif how == "tuple":
            fn = lambda n: tuple(g.nodes[j] for j in kids(rows, fields, pos[n]))
        else:
            fn = lambda n: [g.nodes[j] for j in kids(rows, fields, pos[n])]
        shared[key] = fn
        if edits and reuse:
            ctx.probes["child function used after the graph changed"] += 1
        start = r.randrange(len(g.nodes))
        want = oracle(rows, kind, fields, start)
        filt = r.choice(["none", "none", "odd", "all", "nothing", "raising"])
        exc, res = None, None
        if filt == "odd":
            res = lambda n: [1] if pos[n] % 2 else []
        elif filt == "all":
            res = lambda n: True
        elif filt == "nothing":
            res = lambda n: None
        if filt in ("odd", "nothing"):
            want = [w for w in want if filt == "odd" and (w[1] if kind == "bfs" else w) % 2]
        if filt == "raising":
            exc = SimError("filter")
            left = [r.choice([0, 1, 3, 7])]

            def res(n):
                left[0] -= 1
                if left[0] < 0:
                    raise exc
                return True
        elif r.chance(0.2):
            exc = SimError("children")
            count = [r.choice([0, 1, 2, 5])]
            inner, late = fn, r.chance(0.5)

            def fn(n):
                count[0] -= 1
                if count[0] >= 0:
                    return inner(n)
                if not late:
                    raise exc

                def gen():
                    yield from list(inner(n))[:1]
                    raise exc
                return gen()
        call = getattr(algorithm, kind)
        t = T_(iter(call(g.nodes[start], fn, res) if res is not None else call(g.nodes[start], fn)), want, exc,
               (kind, how, len(fields), filt, plan["shape"]))
        t.kind = kind
        t.what = "%s over %s (%s), filter %s, from %d" % (kind, "+".join(fields), how, filt, start)
        return t

    def step(t):
        """Advance one traversal by one node; False when it is over."""
        try:
            item = next(t.gen)
        except StopIteration:
            t.done = True
            ctx.check(t.got == len(t.want) or t.exc is not None and t.raised, "nodes-missing", lambda: "%s: %d nodes, expected %s" % (
                t.what, t.got, t.want[:20]))
            return False
        except SimError as e:
            ctx.check(e is t.exc and not t.raised, "exception-lost", t.what)
            t.raised = True
            ctx.faults["%s raises" % e] += 1
            return True
        ctx.check(not t.raised, "yield-after-failure", t.what)
        if t.kind == "bfs":
            ctx.check(isinstance(item, tuple) and len(item) == 2, "wrong-node", t.what)
            got = (item[0], pos.get(item[1], -1))
        else:
            got = pos.get(item, -1)
        ctx.check(t.got < len(t.want) and got == t.want[t.got], "wrong-node", lambda: "%s: element %d is %s, expected %s" % (
            t.what, t.got, got, t.want[t.got] if t.got < len(t.want) else "the end"))
        t.got += 1
        return True

    for op, i, x in plan["ops"]:
        ctx.steps += 1
        alive = [t for t in ts if not t.done]
        if op == "new":
            t = make(x)
            t.raised = False
            ts.append(t)
            ctx.ev("new", t.key, len(t.want))
            if len(ts) > 12:
                ts = [t for t in ts if not t.done]
        elif not alive:
            continue
        elif op in ("step", "drain"):
            t = alive[i % len(alive)]
            n = (x % 3 + 1) if op == "step" else 1 << 20
            limit = len(t.want) + 3
            while n and step(t):
                n -= 1
                limit -= 1
                ctx.check(limit > -5, "too-many-nodes", t.what)
            if t.done and len(alive) > 1:
                ctx.nontrivial = True
            ctx.ev(op, i % len(alive), t.got, t.done)
            ctx.state(t.key, 0 if t.got == 0 else 2 if t.done else 1, min(4, len(alive)))
        elif op == "abandon":
            t = alive[i % len(alive)]
            if x % 2 and hasattr(t.gen, "close"):
                t.gen.close()
            ts.remove(t)
            ctx.ev("abandon")
        elif op == "edit":
            # the graph changes only while no traversal is under way
            for t in alive:
                while step(t):
                    pass
            ts = []
            r = derive("edit", x)
            for _ in range(r.choice([1, 3])):
                j = r.randrange(len(g.rows))
                g.rows[j] = links(r.choice(SHAPES[:2]), len(g.rows), r)[j]
            g.store()
            for key in [k for k in shared if k[0] not in ("field", "live")]:
                del shared[key]     # (the others read the nodes as they are)
            edits.append(x)
            ctx.ev("edit")
    for i, n in enumerate(g.nodes):
        one, two, many = g.rows[i]
        ok = n.get("one") is (None if one is None else g.nodes[one]) and n.get("two") is (None if two is None else g.nodes[two]) \
            and [pos.get(m, -1) for m in n.get("many", ())] == many and n["v"] == i
        ctx.check(ok, "graph-changed", "node %d holds %r after the traversals" % (i, dict(n)))
