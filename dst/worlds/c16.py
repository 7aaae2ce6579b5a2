"""C16: tar collections keep every document under any clock and after a crash."""
import os

from .. import coll, docs, seams
from ..core import WRITE_KINDS, Violation, xname
from ..rng import derive
from ..simio import SimRaw, Store

ID = "C16"
RUNS = {"quick": 18000, "thorough": 400000}
LISTS = ["ops", "cuts"]
RULE = ("A run draws one or two tar collections (mode, root directory, naming), a history of writes of decoded and encoded "
        "documents, some of which cannot be encoded, under a simulated clock (standing, running, jumping both ways), an output "
        "error at a drawn call or a crash; then the archive is read back, whole and cut at drawn bytes.")
NONTRIVIAL = "at least two documents were written and read back, or a cut or a fault was judged."
STATES = "distinct (mode, root, clock, documents, end kind, cut class, outcome) combinations"
STUB = ["output file (SimRaw: write errors, loss of unwritten data), wall clock"]

MODES = ["w|gz", "w|gz", "w|", "w|bz2", "w|xz", "w:gz", "w", "w:xz", "w:bz2"]
ROOTS = [None, None, "root", "a/b", "ünï", "r" * 120, "with space", "."]
CLOCKS = ["stand", "run", "jumps", "zero", "back", "fraction", "before1970"]


def gen(r, tier):
    ops = []
    for _ in range(r.choice([0, 1, 2, 4, 8, 16])):
        ops.append([r.weighted([(6, "doc"), (3, "lazy"), (1, "bytes"), (1, "used"), (0.6, "stream"), (0.7, "file"), (0.7, "usedfile"), (0.8, "bad"), (0.3, "wrong")]),
                    docs.doc_token(r, [(1, "nil"), (4, "tiny"), (4, "small"), (1, "medium"), (0.2, "big"), (0.1, "huge"), (0.05, "giant")]),
                    r.randrange(1 << 30)])
    end = r.weighted([(6, "close"), (2, "crash"), (2, "fault")])
    fault = None
    if end == "fault":
        fault = {"on": "write", "n": r.choice([0, 0, 1, 2, 3, 5, 10, 30]), "kind": r.choice(WRITE_KINDS + ["torn", "torn"]),
                 "keep": r.randrange(1 << 20), "sticky": r.chance(0.3)}
    return {"mode": r.choice(MODES), "root": r.choice(ROOTS), "clock": r.choice(CLOCKS), "cseed": r.randrange(1 << 30),
            "fmt": r.choice([None, None, None, "%d", "x-%03d.bin", "d" * 95 + "%06d", ".%d", "._doc%d", "a/b/%04d", "é %d.tar", "doc%%%d"]), "ops": ops, "end": end, "fault": fault,
            "two": r.chance(0.25), "with": r.chance(0.5), "path": r.chance(0.3),
            "cuts": [[r.choice(["any", "any", "tail", "head", "block"]), r.randrange(1 << 30)] for _ in range(r.choice([0, 2, 5]))]}


class Clock:
    def __init__(self, ctx, kind, seed):
        self.ctx, self.kind, self.r = ctx, kind, derive("clock", seed)
        self.opened = False
        self.t = {"zero": 0.0, "back": 4e9}.get(kind, float(self.r.randrange(1 << 31)))

    def __call__(self):
        k = self.kind
        if k == "run":
            self.t += self.r.random() * 3
        elif k == "fraction":
            self.t += 0.123456789
        elif k == "jumps":
            self.t = float(self.r.randrange(1 << 32))
            self.ctx.faults["clock jump"] += 1
        elif k == "before1970" and self.opened:      # gzip headers cannot hold such a time: only after opening
            self.t = -self.r.random() * 1e9
            self.ctx.faults["clock before 1970"] += 1
        elif k == "back":
            self.t = max(0.0, self.t - self.r.random() * 1e6)
            self.ctx.faults["clock step back"] += 1
        self.ctx.now += 0.001
        return self.t


class Out:
    """One archive being written."""
    def __init__(self, ctx, plan, i):
        from docria.collection import TarMsgpackWriter
        kw = {"mode": plan["mode"], "rootdir": plan["root"]}
        if plan["fmt"]:
            kw["docformat"] = plan["fmt"]
        self.path = os.path.join(ctx.tmp, "o%d.tar" % i)
        self.raw = None
        if not plan["path"] or plan["end"] != "close":
            self.raw = SimRaw(ctx, Store())
            kw["fileobj"] = self.raw
        self.written = []
        self.w = TarMsgpackWriter(self.path if self.raw is None else "x.tar", **kw)

    def data(self):
        if self.raw is not None:
            return bytes(self.raw.store.data)
        with open(self.path, "rb") as f:
            return f.read()


def read(ctx, path, mode, limit):
    """(documents, error)"""
    from docria.collection import TarMsgpackReader
    out = []
    rd = None
    try:
        rd = TarMsgpackReader(path, mode=mode)
        it = iter(rd)
        while True:
            try:
                d = next(it)
            except StopIteration:
                break
            out.append(docs.observe(d.document()) if len(out) % 2 else coll.full(d))
            if len(out) > limit:
                ctx.fail("too-many-documents", "%d documents" % len(out))
        return out, None
    except Violation:
        raise
    except Exception as e:
        return out, e
    finally:
        if rd is not None:
            try:
                rd.close()
            except Exception:
                pass


def execute(plan, ctx):
    seams.clock_hook = Clock(ctx, plan["clock"], plan["cseed"])
    mode = plan["mode"]
    ctx.arm(plan["fault"]) if plan["fault"] else None
    outs, broken = [], None
    keep = coll.Closing(ctx)
    try:
        for i in range(2 if plan["two"] else 1):
            outs.append(Out(ctx, plan, i))
            keep.keep(outs[-1])
        seams.clock_hook.opened = True
        for k, (how, tok, x) in enumerate(plan["ops"]):
            ctx.steps += 1
            o = outs[x % len(outs)]
            doc = docs.build(docs.spec(tok))
            if how in ("bad", "wrong"):
                arg = doc
                if how == "wrong":
                    arg = [None, b"", "x", {}][x % 4]
                elif x % 2:
                    doc.props["bad"] = object()
                else:
                    from docria.model import DataTypes as T
                    doc.add_layer("bad", v=T.int32()).add()["undeclared"] = 1
                try:
                    o.w.write(arg)
                except OSError:
                    raise
                except Exception as e:
                    ctx.faults["document fails to encode"] += 1
                    ctx.ev("bad", xname(e))
                else:
                    ctx.fail("bad-document-accepted", how)
                continue
            arg = coll.as_input(doc, {"doc": "doc", "stream": "bstream"}.get(how, how), ctx)
            o.w.write(arg)
            if x % 3 == 0 and how == "doc":
                docs.scramble(doc, derive("scramble", x))     # the archive must not change any more
            o.written.append(docs.canon_token(tok))
        if plan["end"] == "crash":
            for o in outs:
                o.raw.dead = True
            ctx.faults["crash before close"] += 1
        else:
            for o in outs:
                if plan["with"]:
                    o.w.__exit__(None, None, None)
                else:
                    o.w.close()
    except OSError as e:
        # gzip's BufferedWriter reports a blocked output with a BlockingIOError of its own
        if not ctx.fired:
            raise
        broken = e
    finally:
        ctx.disarm()
    if plan["fault"] and ctx.fired:
        ctx.check(broken is not None, "failure-not-reported", "output error in mode %s" % mode)
        for o in outs:
            o.raw.dead = True
    whole = plan["end"] != "crash" and broken is None
    total = sum(len(o.written) for o in outs)
    for n, o in enumerate(outs):
        if o.w is not None and not whole:
            pass
        data = o.data()
        ctx.ev("archive", n, len(o.written), len(data) if plan["clock"] != "x" else 0, xname(broken) if broken else None)
        p = os.path.join(ctx.tmp, "r%d" % n)
        with open(p, "wb") as f:
            f.write(data)
        comp = mode[2:] if len(mode) > 1 else ""
        modes = ["r|" + comp, "r:" + comp, "r|*", "r:*", "r"]
        rmode = modes[plan["cseed"] % 5]
        if whole:
            got, err = read(ctx, p, rmode, len(o.written) + 2)
            ctx.check(err is None, "unreadable-archive", "%s, read with %s: %s %s after %d of %d documents" % (
                mode, rmode, xname(err) if err else "", err, len(got), len(o.written)))
            coll.same(ctx, got, o.written, "wrong-documents", "%s, read with %s:" % (mode, rmode))
            if mode == "w|gz":
                got, err = read(ctx, p, "r|gz", len(o.written) + 2)
                ctx.check(err is None and got == o.written, "wrong-documents", "default mode")
            if len(got) > 1:
                ctx.nontrivial = True
        elif len(data):
            # a document counts as possibly stored once write() was entered
            got, err = read(ctx, p, rmode, len(plan["ops"]) + 2)
            known = o.written + ([docs.canon_token(plan["ops"][len_written(plan, outs, o)][1])]
                                 if broken is not None and len_written(plan, outs, o) is not None else [])
            ctx.check(got == known[:len(got)], "wrong-prefix", "%d documents after %s" % (len(got), plan["end"]))
            ctx.nontrivial = True
        ctx.state(mode, plan["root"], plan["clock"], min(4, len(o.written)), plan["end"], whole)
        if not whole:
            continue
        for kind, x in plan["cuts"]:
            if not data:
                continue
            m = len(data)
            cut = {"any": x % m, "tail": m - 1 - x % min(m, 1100), "head": x % min(m, 600), "block": (x % m) // 512 * 512}[kind]
            with open(p, "wb") as f:
                f.write(data[:cut])
            got, err = read(ctx, p, rmode, len(o.written) + 2)
            ctx.faults["file cut"] += 1
            if got != o.written[:len(got)]:
                ctx.fail("wrong-prefix", "%s cut at %d of %d, read with %s: %d documents" % (mode, cut, m, rmode, len(got)))
            ctx.nontrivial = True
            ctx.ev("cut", cut, len(got), xname(err) if err else None)
            ctx.state("cut", mode, kind, rmode, xname(err) if err else None, min(3, len(got)))


def len_written(plan, outs, o):
    """Position in the plan of the document whose write was under way, for this archive."""
    n = len(o.written)
    for k, (how, tok, x) in enumerate(plan["ops"]):
        if outs[x % len(outs)] is o and how not in ("bad", "wrong"):
            if n == 0:
                return k
            n -= 1
    return None
