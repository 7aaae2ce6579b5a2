"""Histories of layer edits with an executable model: a plain list of the same node objects plus their expected values."""
import pickle

from . import docs
from .core import SimError, xname
from .rng import derive

TEXT = "The quick brown fox  jumps over\nthe lazy dog. 世界 😀 end"
FIELDS = [["k", "i32", 0], ["k", "i64", 1], ["k", "i32", None], ["s", "str", 0], ["s", "str", None], ["f", "f64", 0], ["f", "f64", 1],
          ["b", "bool", 0], ["b", "bool", None], ["p", "span", "main"], ["p", "span", "main"], ["w", "bin", None], ["z", "i64", 1]]
UNSET = object()


def gen_fields(r):
    out, used = [], set()
    for f in r.sample(FIELDS, r.choice([1, 2, 3, 5])):
        if f[0] not in used:
            used.add(f[0])
            out.append(f)
    return out


def value(doc, t, arg, x):
    """A valid value for a field, small ranges so that equal values are frequent."""
    r = derive("hv", x)
    if t in ("i32", "i64"):
        return r.choice([x % 4, x % 4, x % 7 - 3, docs.rint(r, 32)])
    if t == "str":
        return r.choice(["", "a", "b", "ab", docs.rstr(r, 3)])
    if t == "f64":
        return float("nan") if r.chance(0.06) else r.choice([0.0, 1.5, -2.0, docs.rfloat(r)])
    if t == "bool":
        return x % 2 == 0
    if t == "bin":
        return r.choice([b"", b"a", docs.rbytes(r, 3)])
    if t == "span":
        a = x % (len(TEXT) + 1)
        b = min(len(TEXT), a + x // 64 % 7)
        return doc.texts[arg][a:b]
    raise ValueError(t)


class Layer:
    """The model of one layer."""
    def __init__(self, real, name, fields):
        self.real, self.name = real, name
        self.fields = {f: (t, a) for f, t, a in fields}
        self.nodes = []
        self.vals = {}      # live node -> expected field values
        self.maybe = set()  # nodes of a failed bulk addition: defaults may or may not be filled in
        self.dead = []

    def defaults(self):
        return {f: docs.default_of(t, a) for f, (t, a) in self.fields.items() if docs.default_of(t, a) is not None}

    def put(self, n, v):
        self.nodes.append(n)
        self.vals[n] = v
        if n in self.dead:
            self.dead.remove(n)

    def drop(self, n):
        self.nodes.remove(n)
        self.vals.pop(n)
        self.maybe.discard(n)
        self.dead.append(n)
        if len(self.dead) > 40:
            self.dead.pop(0)


class Hist:
    def __init__(self, ctx, fields, nlayers=1, watch=1):
        from docria.model import Document
        self.ctx = ctx
        self.watch = watch      # how often the layer is looked at: looking may itself repair or hide a defect
        self.doc = Document(uid="h")
        self.doc.maintext = TEXT
        self.layers = []
        self.reloaded = False   # the schema came from storage: scalar values are not checked
        for i in range(nlayers):
            name = ["x", "y", "z"][i]
            real = self.doc.add_layer(name, **{f: docs.dtype(t, a) for f, t, a in fields})
            self.layers.append(Layer(real, name, fields))

    # -- helpers -------------------------------------------------------------------------------------
    def values(self, L, x, some=True):
        out = {}
        for j, (f, (t, a)) in enumerate(L.fields.items()):
            if some and derive("hs", x, j).chance(0.35):
                continue
            out[f] = value(self.doc, t, a, x + 31 * j)
        return out

    def node(self, **kw):
        from docria.model import Node
        return Node(**kw)

    def pick(self, L, x, k=None):
        """Distinct live nodes."""
        r = derive("hp", x)
        if k is None:
            k = r.choice([0, 1, 2, 3, len(L.nodes) // 2, len(L.nodes) * 4 // 5, len(L.nodes)])
        return r.sample(L.nodes, min(k, len(L.nodes)))

    def fits(self, L, f, v):
        """Is a value of a node removed earlier still one of the declared type?"""
        if f not in L.fields:
            return False
        t, a = L.fields[f]
        if t == "span":
            return hasattr(v, "start_offset") and v.text is self.doc.texts[a]
        if type(v) is not {"i32": int, "i64": int, "f64": float, "str": str, "bool": bool, "bin": bytes}[t]:
            return False
        return t != "i32" or -(1 << 31) <= v < 1 << 31

    @staticmethod
    def eq(a, b):
        from docria.model import TextSpan
        if isinstance(a, TextSpan) and isinstance(b, TextSpan):
            return a.text is b.text and (a.start, a.stop) == (b.start, b.stop)
        if {type(a), type(b)} == {int, float} and a == 0 == b:
            return True     # the default of a float field, as a reloaded schema gives it
        return type(a) is type(b) and (a == b or a != a and b != b)

    # -- the operations of an error-free history --------------------------------------------------------
    def step(self, op, L, x):
        """Apply one edit to the library and to the model."""
        ctx, real = self.ctx, L.real
        r = derive("ho", op, x)
        if op == "add":
            v = self.values(L, x)
            n = real.add(**v)
            L.put(n, {**L.defaults(), **v})
        elif op == "addnode":
            v = self.values(L, x)
            n = self.node(**v)
            real.add(n)
            L.put(n, dict(v))
        elif op == "addnodes":
            new = [(self.node(**v), v) for v in (self.values(L, x + i) for i in range(r.choice([1, 2, 3])))]
            real.add(*[n for n, _ in new])
            for n, v in new:
                L.put(n, dict(v))
        elif op == "addmany":
            fill, full = r.chance(0.7), r.chance(0.7)
            k = r.choice([0, 1, 3, 8, 20, 20, 60])
            new = [(self.node(**v), v) for v in (self.values(L, x + i) for i in range(k))]
            src = [n for n, _ in new]
            real.add_many(iter(src) if r.chance(0.3) else src, default_fill=fill, full_validation=full)
            for n, v in new:
                L.put(n, {**(L.defaults() if fill else {}), **v})
        elif op == "readd":
            if not L.dead:
                return
            k = r.choice([1, 1, 2])
            back = []
            for n in r.sample(L.dead, min(k, len(L.dead))):
                if n.is_dangling() and all(self.fits(L, f, v) for f, v in n.items()):
                    back.append(n)
            for n in back:
                v = dict(n)
                if r.chance(0.5):
                    real.add(n)
                else:
                    real.add_many([n], full_validation=False)
                    v = {**L.defaults(), **v}
                L.put(n, v)
        elif op == "remove":
            for n in self.pick(L, x, 1):
                real.remove(n)
                L.drop(n)
        elif op == "detach":
            for n in self.pick(L, x, 1):
                n.detach()
                L.drop(n)
        elif op == "del":
            for n in self.pick(L, x, 1):
                del real[n]
                L.drop(n)
        elif op == "removemany":
            ns = self.pick(L, x)
            arg = list(ns)
            if r.chance(0.3):
                arg.insert(r.randrange(len(arg) + 1), None)
            form = r.randrange(4)
            real.remove(arg if form == 0 else iter(arg) if form == 1 else tuple(arg) if form == 2 else (n for n in arg))
            for n in ns:
                L.drop(n)
        elif op == "removelazy":
            # the caller's iterable reads the layer while the removal goes on
            way = x % 6
            k = r.choice([2, 3, 5])
            kept = set(self.pick(L, x)) if way == 5 else ()
            keep = {n for i, n in enumerate(L.nodes) if (len(L.vals[n]) % 2 == 0 if way < 2 else i % k == 0 if way == 4 else n in kept)}
            if way == 0:
                real.remove(n for n in real if len(n) % 2)
            elif way == 1:
                real.remove(filter(lambda n: len(n) % 2, real))
            elif way == 2:
                real.remove(real)
            elif way == 3:
                real.remove(iter(real))
            elif way == 4:
                real.remove(n for i, n in enumerate(real) if i % k)
            else:
                real.remove(n if n not in kept else None for n in real)
            for n in [n for n in L.nodes if n not in keep]:
                L.drop(n)
        elif op == "retainlazy":
            k = r.choice([1, 2, 3])
            way = x % 3
            keep = {n for i, n in enumerate(L.nodes) if way == 2 or i % k == 0}
            if way == 0:
                real.retain(n for i, n in enumerate(real) if i % k == 0)
            elif way == 1:
                real.retain(real.to_list()[::k])
            else:
                real.retain(real)
            for n in [n for n in L.nodes if n not in keep]:
                L.drop(n)
        elif op == "removequery":
            if "k" in L.fields:
                want = [n for n in L.nodes if n.get("k") == x % 4]
                real.remove(real[real["k"] == x % 4])
            else:
                want = [n for n in L.nodes if len(n) % 3 == x % 3]
                real.remove(real[lambda n: len(n) % 3 == x % 3])
            for n in want:
                L.drop(n)
        elif op == "removeslice":
            if L.nodes:
                a = L.nodes[x % len(L.nodes)].i
                b = a + 1 + x // 7 % 9
                want = [n for n in L.nodes if a <= n.i < b]
                real.remove(real[a:b])
                for n in want:
                    L.drop(n)
        elif op == "removeall":
            real.remove(list(real))
            for n in list(L.nodes):
                L.drop(n)
        elif op == "retain":
            ns = self.pick(L, x)
            form = r.randrange(3)
            arg = ns + ns[:1] if r.chance(0.2) else ns
            real.retain(arg if form == 0 else iter(arg) if form == 1 else tuple(arg))
            for n in [n for n in L.nodes if n not in set(ns)]:
                L.drop(n)
        elif op == "retainquery":
            keep = [n for n in L.nodes if len(n) % 2 == x % 2]
            real.retain(real[lambda n: len(n) % 2 == x % 2])
            for n in [n for n in L.nodes if n not in set(keep)]:
                L.drop(n)
        elif op == "sort":
            key = self.sortkey(L, x)
            ranks = {n: key(n) for n in L.nodes} if x % 5 != 4 else {n: -i for i, n in enumerate(L.nodes)}
            real.sort(key)
            L.nodes.sort(key=ranks.__getitem__)
        elif op == "compact":
            real.compact()
        elif op == "edit":
            for n in self.pick(L, x, r.choice([1, 1, 3])):
                for f, v in self.values(L, x).items():
                    self.edit(L, n, f, v, r)
        elif op == "unset":
            for n in self.pick(L, x, 1):
                for f in list(n)[:1]:
                    del n[f]
                    L.vals[n].pop(f, None)
        elif op == "addfield":
            f = "g%d" % (x % 3)
            if f in L.fields:
                return
            t, a = r.choice([("i32", 0), ("i32", 1), ("str", 0), ("str", None), ("bool", 0), ("f64", 1)])
            init = r.chance(0.6)
            real.add_field(f, docs.dtype(t, a), init_with_default=init)
            L.fields[f] = (t, a)
            d = docs.default_of(t, a)
            if init and d is not None:
                for n in L.nodes:
                    L.vals[n][f] = d
        elif op == "rmfield":
            fs = list(L.fields)
            if len(fs) < 2:
                return
            f = fs[x % len(fs)]
            ctx.check(real.remove_field(f) is True, "wrong-result", "remove_field")
            ctx.check(real.remove_field(f) is False, "wrong-result", "remove_field of a missing field")
            del L.fields[f]
            for v in L.vals.values():
                v.pop(f, None)
        elif op == "encode":
            from docria.codec import MsgpackCodec
            data = MsgpackCodec.encode(self.doc)
            for M in self.layers:
                ids = [n.i for n in M.nodes]
                ctx.check(ids == list(range(len(ids))), "indices-after-encoding", "%r" % ids[:20])
            return data
        elif op == "pickle":
            copy = pickle.loads(pickle.dumps(self.doc))
            self.check_copy(copy, "pickled copy")
            if x % 3 == 0:
                self.adopt(copy)
                ctx.probes["continued on the pickled copy"] += 1
        else:
            raise ValueError(op)

    def edit(self, L, n, f, v, r):
        if r.chance(0.3) and f.isidentifier() and not f.startswith("__"):
            setattr(n.fld, f, v)
        elif r.chance(0.3):
            n.update({f: v})
        else:
            n[f] = v
        L.vals[n][f] = v

    def sortkey(self, L, x):
        r = derive("hk", x)
        f = r.choice(list(L.fields)) if L.fields else None
        t = L.fields[f][0] if f else None
        kind = x % 5
        if kind == 4:
            return lambda n: -n.i
        if kind == 3 or f is None:
            return lambda n: 0          # all equal: the order stays
        if t == "span":
            return lambda n: (n[f].start, n[f].stop) if f in n else (-1, -1)
        return lambda n: (f in n, n[f]) if f in n and n[f] == n[f] else (False, 0)

    def adopt(self, copy):
        """Go on with a copy of the document: its nodes take the places of the old ones."""
        for L in self.layers:
            real = copy.layers[L.name]
            new = list(real)
            vals = {}
            for n, old in zip(new, L.nodes):
                v = {}
                for f, u in L.vals[old].items():
                    v[f] = copy.texts[u.text.name][u.start:u.stop] if hasattr(u, "start_offset") else u
                vals[n] = v
            L.real, L.nodes, L.vals, L.dead, L.maybe = real, new, vals, [], set()
        self.doc = copy
        self.reloaded = True

    def check_copy(self, copy, what):
        from docria.model import TextSpan
        for L in self.layers:
            nodes = list(copy.layers[L.name])
            self.ctx.check(len(nodes) == len(L.nodes), "copy-differs", "%s: %d nodes, expected %d" % (what, len(nodes), len(L.nodes)))
            for i, (n, old) in enumerate(zip(nodes, L.nodes)):
                for f in set(n) | set(L.vals[old]):
                    a, b = n.get(f), L.vals[old].get(f)
                    if isinstance(b, TextSpan):
                        same = isinstance(a, TextSpan) and (a.text.name, a.start, a.stop) == (b.text.name, b.start, b.stop)
                    else:
                        same = self.eq(a, b)
                    self.ctx.check(same or a is None and f not in L.vals[old], "copy-differs", "%s: node %d field %s: %r, expected %r" % (
                        what, i, f, a, b))

    # -- judgement --------------------------------------------------------------------------------------
    def verify(self, what, x=0, final=False):
        if not final and self.watch < 1 and not derive("hw", what, x).chance(self.watch):
            return
        for L in self.layers:
            self.verify_layer(L, what, x)

    def verify_layer(self, L, what, x):
        ctx, real = self.ctx, L.real
        got = list(real)
        if len(got) != len(L.nodes) or any(a is not b for a, b in zip(got, L.nodes)):
            pos = {n: i for i, n in enumerate(L.nodes)}
            ctx.fail("wrong-content", "%s: iteration gives model positions %s, expected 0..%d" % (
                what, [pos.get(n, -1) if n is not None else None for n in got][:30], len(L.nodes) - 1))
        N = len(got)
        ctx.check(len(real) == N, "wrong-length", "%s: len() is %d, iteration gives %d" % (what, len(real), N))
        ctx.check(real.first() is (got[0] if got else None), "wrong-first", what)
        ctx.check(real.last() is (got[-1] if got else None), "wrong-last", what)
        ids = [n.i for n in got]
        ctx.check(all(a < b for a, b in zip(ids, ids[1:])) and (not ids or ids[0] >= 0), "wrong-indices", "%s: %r" % (what, ids[:30]))
        for i, n in enumerate(got):
            if n.collection is not real or n.is_dangling() or n not in real or real[ids[i]] is not n:
                ctx.fail("wrong-membership", "%s: node %d of %d" % (what, i, N))
            if real[n] is not n:
                ctx.fail("wrong-membership", "%s: node %d of %d asked for by itself" % (what, i, N))
            v = L.vals[n]
            if len(n) != len(v) or any(f not in n or not self.eq(n[f], u) for f, u in v.items()):
                if n in L.maybe:
                    d = L.defaults()
                    if all(self.eq(n.get(f), v[f]) if f in v else self.eq(n[f], d.get(f)) for f in set(n) | set(v)):
                        continue
                f = next((f for f in list(v) + list(n) if f not in n or f not in v or not self.eq(n[f], v[f])), None)
                ctx.fail("wrong-value", "%s: node %d field %s: %r, expected %r" % (what, i, f, n.get(f, "unset"), v.get(f, "unset")))
        r = derive("hc", x, N)
        probe = sorted({0, N - 1} | {r.randrange(N) for _ in range(4)}) if N else []
        for i in probe:
            ctx.check(got[i].left is (got[i - 1] if i else None), "wrong-neighbour", "%s: left of node %d of %d" % (what, i, N))
            ctx.check(got[i].right is (got[i + 1] if i + 1 < N else None), "wrong-neighbour", "%s: right of node %d of %d" % (
                what, i, N))
            j = r.choice(probe)
            a, b = min(i, j), max(i, j)
            ctx.check(self.same(list(got[i].iter_span(got[j])), got[a:b + 1]), "wrong-range", "%s: %d to %d of %d" % (what, i, j, N))
            lo, hi = ids[a], ids[b]
            ctx.check(self.same(list(real[lo:hi]), got[a:b]), "wrong-slice", "%s: [%d:%d]" % (what, lo, hi))
            ctx.check(self.same(list(real[lo + 1:hi + 50]), [n for n in got if lo + 1 <= n.i < hi + 50]), "wrong-slice", what)
        ctx.check(self.same(list(real[:]), got), "wrong-slice", what + ": [:]")
        ctx.check(self.same(list(real.to_list()), got), "wrong-content", what + ": to_list()")
        for n in L.dead:
            ctx.check(n.is_dangling() and n not in real, "removed-node-attached", what)
            if not r.chance(0.2):
                continue
            try:
                got = real[n]
            except Exception:
                continue
            ctx.fail("removed-node-attached", "%s: the layer gives %r for it" % (what, type(got).__name__))

    @staticmethod
    def same(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))


EDITS = [(6, "add"), (2, "addnode"), (1, "addnodes"), (3, "addmany"), (1, "readd"), (4, "remove"), (2, "detach"), (1, "del"),
         (3, "removemany"), (1.2, "removelazy"), (0.5, "retainlazy"), (1.5, "removequery"), (1, "removeslice"), (0.3, "removeall"), (1.5, "retain"), (0.5, "retainquery"),
         (2, "sort"), (1.5, "compact"), (3, "edit"), (1, "unset"), (0.8, "addfield"), (0.5, "rmfield"), (1.5, "encode"), (0.7, "pickle")]
SHRINKING = {"remove", "detach", "del", "removemany", "removequery", "removeslice", "removelazy"}


def gen_watch(r):
    return r.choice([1, 1, 1, 0.4, 0.1, 0])


def gen_edits(r, n, mood=None):
    """Edit operations; moods make long growing or shrinking phases, so that compaction is crossed at many points."""
    ops = []
    while len(ops) < n:
        mood = r.choice(["mixed", "mixed", "grow", "shrink", "single"])
        for _ in range(r.randrange(3, 20)):
            if mood == "single":
                op = r.choice(["remove", "remove", "detach", "add", "encode", "compact"])
            else:
                w = [(p * (3 if mood == "shrink" and o in SHRINKING else 3 if mood == "grow" and o.startswith("add") else 1), o)
                     for p, o in EDITS]
                op = r.weighted(w)
            ops.append([op, r.randrange(4), r.randrange(1 << 30)])
    return ops[:n]
