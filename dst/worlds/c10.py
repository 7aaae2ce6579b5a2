"""C10: a failing edit never corrupts a layer."""
from .. import docs, hist
from ..core import SimError, xname
from ..rng import derive

ID = "C10"
RUNS = {"quick": 14000, "thorough": 300000}
LISTS = ["ops"]
RULE = ("A run draws a history of edits over two layers in which about a third fail: the caller's iterable, key, comparison or "
        "predicate raises at a drawn call, or an element or value is unacceptable at a drawn position.  After every edit, "
        "failed or not, the whole observable layer is compared with the model.")
NONTRIVIAL = "at least one edit failed after it had begun, and a later edit worked."
STATES = "distinct (operation, failing position class, element or exception kind, layer size class, gaps) combinations"
STUB = ["the caller's iterables, key functions, comparisons and predicates (they raise when told)"]

FAILS = [(4, "!addmany"), (3, "!addelem"), (2, "!addinvalid"), (4, "!remove"), (3, "!removeelem"), (3, "!retain"), (3, "!retainelem"),
         (4, "!sort"), (3, "!cmp"), (1, "!mixed"), (2, "!add"), (1, "!addargs"), (1, "!single"), (1, "!field"), (1, "!query"),
         (1, "!noniter")]


class SimAbort(BaseException):
    """Like an interrupt arriving inside the caller's code."""


class SimTypeError(TypeError):
    pass


class SimValueError(ValueError):
    pass


class SimLookup(IndexError):
    pass


class SimAssert(AssertionError):
    pass


EXC = [SimError, SimError, SimAbort, SimTypeError, SimValueError, SimLookup, SimAssert]


def gen(r, tier):
    n = r.choice([4, 8, 15, 30, 60])
    rate = r.choice([0.2, 0.35, 0.5])
    ops = []
    for op in hist.gen_edits(r, n):
        if r.chance(rate):
            op = [r.weighted(FAILS), r.randrange(4), r.randrange(1 << 30)]
        ops.append(op)
    if r.chance(0.7):
        ops.insert(0, ["addmany", 0, r.randrange(1 << 30)])
    return {"fields": hist.gen_fields(r), "ops": ops, "watch": hist.gen_watch(r)}


def failing_iter(items, k, exc, fired, lazy):
    """Yields items, raises exc instead of item k (or at the end)."""
    def g():
        for i, it in enumerate(items):
            if i == k:
                fired.append(1)
                raise exc
            yield it
        fired.append(1)
        raise exc

    class It:
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i >= min(k, len(items)):
                fired.append(1)
                raise exc
            self.i += 1
            return items[self.i - 1]

    return g() if lazy else It()


class Key:
    """Sort key whose comparisons raise at the nth one."""
    def __init__(self, v, box):
        self.v, self.box = v, box

    def __lt__(self, other):
        self.box[0] -= 1
        if self.box[0] < 0:
            self.box[2].append(1)
            raise self.box[1]
        return self.v < other.v


def attempt(ctx, fn, what, exc=None, fired=None):
    """The edit must fail, with the caller's own exception where there is one."""
    try:
        fn()
    except (Exception, SimAbort) as e:
        if exc is not None:
            ok = e is exc
            if not ok and isinstance(exc, TypeError):
                c = e
                while c is not None and c is not exc:
                    c = c.__cause__ or c.__context__
                ok = c is exc
            ctx.check(ok, "exception-lost", "%s: the caller raised %s, but got %s: %s" % (what, xname(exc), xname(e), e))
        return e
    if exc is not None and not fired:
        return None     # the caller's code was never run up to the failure
    ctx.fail("failure-not-reported", what)




def execute(plan, ctx):
    from docria.model import Node
    h = hist.Hist(ctx, plan["fields"], 2, plan["watch"])
    failed = 0
    for op, li, x in plan["ops"]:
        ctx.steps += 1
        L, M = h.layers[li % 2], h.layers[1 - li % 2]
        real = L.real
        before = len(L.nodes)
        gaps = (L.nodes[-1].i + 1 if L.nodes else 0) - before
        r = derive("c10", op, x)
        if not op.startswith("!"):
            h.step(op, L, x)
            h.verify(op, x)
            if failed:
                ctx.nontrivial = True
            ctx.ev(op, before, len(L.nodes))
            ctx.state(op, failed > 0, min(12, before), min(8, gaps))
            continue
        exc = r.choice(EXC)("simulated")
        fired = []
        kind = xname(exc)
        k = -1

        def fresh(n, base=0):
            return [(h.node(**v), v) for v in (h.values(L, x + base + i) for i in range(n))]

        def settle(new, must=None):
            """Which prefix was added; defaults may or may not be filled in yet."""
            c = len(real) - before
            if must is not None:
                ctx.check(c == must, "wrong-count", "%s: %d nodes added, expected the %d before the failure" % (op, c, must))
            ctx.check(0 <= c <= len(new), "wrong-count", "%s: %d nodes added of %d" % (op, c, len(new)))
            d = L.defaults()
            for n, v in new[:c]:
                ctx.check(all(f in n and h.eq(n[f], u) for f, u in v.items()) and all(
                    f in v or f in d and h.eq(n[f], d[f]) for f in n), "wrong-value", "%s: added node holds %r" % (op, dict(n)))
                L.put(n, dict(n))
            for n, v in new[c:]:
                ctx.check(n.is_dangling(), "half-added-node", op)
                if must is not None:
                    ctx.check(len(n) == len(v), "half-added-node", op)
            return c

        fill, fullv = r.chance(0.7), r.chance(0.7)
        if op == "!addmany":
            new = fresh(r.choice([0, 1, 2, 5, 20]))
            k = r.choice([0, 1, len(new) // 2, len(new)])
            it = failing_iter([n for n, _ in new], k, exc, fired, r.chance(0.5))
            attempt(ctx, lambda: real.add_many(it, default_fill=fill, full_validation=fullv), op, exc, fired)
            settle(new, min(k, len(new)))
        elif op == "!addelem":
            new = fresh(r.choice([0, 1, 2, 5, 20]))
            k = r.choice([0, len(new) // 2, len(new)])
            items = [n for n, _ in new]
            bad = r.choice(["other", "bound", "bound", "foreign", "dup"])
            if bad == "bound" and L.nodes:
                b = r.choice(L.nodes)
            elif bad == "foreign" and M.nodes:
                b = r.choice(M.nodes)
            elif bad == "dup" and k:
                b = r.choice(items[:k])
            else:
                bad = "other"
                b = r.choice([None, {}, 5, "x", [], object()])
            kind = bad
            items.insert(k, b)
            arg = items if r.chance(0.5) else iter(items)
            attempt(ctx, lambda: real.add_many(arg, default_fill=fill, full_validation=fullv), op)
            settle(new, k)
        elif op == "!addinvalid":
            new = fresh(r.choice([1, 2, 5, 20]))
            k = r.randrange(len(new))
            f = r.choice(list(L.fields))
            if h.reloaded and L.fields[f][0] != "span":
                continue
            n, v = new[k]
            n[f] = v[f] = [1]       # no field type accepts a list of numbers
            kind = L.fields[f][0]
            attempt(ctx, lambda: real.add_many([n for n, _ in new], default_fill=fill, full_validation=True), op)
            c = settle(new)
            if c > k:
                if r.chance(0.5):
                    real.remove(n)
                    L.drop(n)
                else:
                    h.edit(L, n, f, hist.value(h.doc, *L.fields[f], x), r)
        elif op == "!remove":
            ns = h.pick(L, x)
            k = r.choice([0, 1, len(ns) // 2, len(ns)])
            it = failing_iter(ns, k, exc, fired, r.chance(0.5))
            attempt(ctx, lambda: real.remove(it), op, exc, fired)
            for n in ns[:k]:
                L.drop(n)
        elif op in ("!removeelem", "!retainelem"):
            ns = h.pick(L, x)
            k = r.choice([0, len(ns) // 2, len(ns)])
            bad = r.choice(["other", "foreign", "dead", "again", "new"])
            if bad == "foreign" and M.nodes:
                b = r.choice(M.nodes)
            elif bad == "dead" and L.dead:
                b = r.choice(L.dead)
            elif bad == "again" and k and op == "!removeelem":
                b = r.choice(ns[:k])
            elif bad == "new":
                b = Node()
            else:
                bad = "other"
                b = r.choice([{}, 5, "x", [], object()])
            kind = bad
            items = ns[:k] + [b] + ns[k:]
            arg = items if r.chance(0.4) else iter(items) if r.chance(0.5) else tuple(items)
            attempt(ctx, lambda: (real.remove if op == "!removeelem" else real.retain)(arg), op)
            if op == "!removeelem":
                for n in ns[:k]:
                    L.drop(n)
        elif op == "!retain":
            ns = h.pick(L, x)
            k = r.choice([0, 1, len(ns) // 2, len(ns)])
            it = failing_iter(ns, k, exc, fired, r.chance(0.5))
            attempt(ctx, lambda: real.retain(it), op, exc, fired)
        elif op == "!sort":
            k = r.choice([0, 1, before // 2, max(0, before - 1)])
            key, count = h.sortkey(L, x), [0]

            def failing_key(n):
                count[0] += 1
                if count[0] == k + 1:
                    fired.append(1)
                    raise exc
                return key(n)

            if k >= before:
                continue
            attempt(ctx, lambda: real.sort(failing_key), op, exc, fired)
        elif op == "!cmp":
            k = r.choice([0, 1, before // 2, before])
            box = [k, exc, fired]
            rr = derive("cmp", x)
            rank = {n: rr.randrange(5) for n in L.nodes}
            done = attempt(ctx, lambda: real.sort(lambda n: Key(rank[n], box)), op, exc, fired)
            if done is None:
                L.nodes.sort(key=rank.__getitem__)
        elif op == "!mixed":
            if before < 2:
                continue
            odd = r.choice(L.nodes)
            kind = "incomparable keys"
            attempt(ctx, lambda: real.sort(lambda n: "x" if n is odd else n.i), op)
        elif op == "!add":
            f = r.choice(list(L.fields))
            if h.reloaded and L.fields[f][0] != "span":
                continue
            v = h.values(L, x)
            v[f] = [1]
            kind = L.fields[f][0]
            attempt(ctx, lambda: real.add(**v), op)
        elif op == "!addargs":
            new = fresh(r.choice([0, 1, 3]))
            k = r.randrange(len(new) + 1)
            items = [n for n, _ in new]
            items.insert(k, r.choice([None, 5, "x"]))
            attempt(ctx, lambda: real.add(*items), op)
            settle(new, k)
        elif op == "!single":
            cand = [Node()] + M.nodes[:1] + L.dead[-1:]
            b = r.choice(cand)
            how = r.randrange(3)
            kind = how
            if how == 0:
                attempt(ctx, lambda: real.remove(b), op)
            elif how == 1:
                attempt(ctx, lambda: real.__delitem__(b), op)
            elif b.is_dangling():
                attempt(ctx, b.detach, op)
        elif op == "!field":
            from docria.model import DataTypes as T
            f = r.choice(list(L.fields))
            if r.chance(0.5):
                attempt(ctx, lambda: real.add_field(f, T.string("zz")), op)
            else:
                attempt(ctx, lambda: real.add_field("new", "str"), op)
        elif op == "!query":
            k, count = r.choice([0, 1, before // 2]), [0]

            def pred(n):
                count[0] += 1
                if count[0] == k + 1:
                    fired.append(1)
                    raise exc
                return True

            if k >= before:
                continue
            how = r.randrange(4)
            kind = how
            if how == 0:
                attempt(ctx, lambda: real[pred], op, exc, fired)
            elif how == 1:
                attempt(ctx, lambda: real.remove(real[pred]), op, exc, fired)
            elif how == 2:
                attempt(ctx, lambda: real.retain(n for n in real if pred(n)), op, exc, fired)
            else:
                attempt(ctx, lambda: real.remove(real[real.filter(fn=lambda: pred(None))]), op, exc, fired)
        elif op == "!noniter":
            b = r.choice([5, 1.5, object()])
            kind = r.choice(["remove", "retain", "add_many"])
            attempt(ctx, lambda: getattr(real, kind)(b), op)
        else:
            raise ValueError(op)
        failed += 1
        ctx.faults[op[1:] + " fails"] += 1
        ctx.ev(op, before, k, kind, len(L.nodes))
        ctx.state(op, 0 if k == 0 else 2 if k >= before else 1, kind, min(12, before), min(8, gaps))
        h.verify(op, x)
        if x % 7 == 0:
            h.step("encode", L, x)
            h.verify("encode after " + op, x)
    h.verify("the end", final=True)
