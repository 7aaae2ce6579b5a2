"""C19: creating a collection by path never overwrites an existing one."""
import hashlib
import io
import os

from .. import coll, docs, sched, seams
from ..core import xname
from ..simio import use_scratch

ID = "C19"
RUNS = {"quick": 20000, "thorough": 450000}
LISTS = ["sched", "attempts"]
RULE = ("A run draws one to three paths (free, or holding an empty file, foreign bytes, a collection, a symlink to one or to nothing), two to four "
        "threads with attempts to create a writer on one of them in the default mode, to write documents, flush and close, and a "
        "switch plan over the source lines (or bytecode instructions) of docria and over file opens.")
NONTRIVIAL = "two attempts on the same path were made, or the path existed."
STATES = "distinct (switch sequence, outcome of every attempt)"
STUB = ["thread scheduling (one thread at a time, switches at docria source lines, bytecode instructions and file opens)", "file opens"]

KINDS = ["free", "free", "free", "free", "empty", "bytes", "collection", "collection", "link", "dangling", "dir", "big"]


def gen(r, tier):
    npaths = r.choice([1, 1, 1, 2, 3])
    nthreads = r.choice([2, 2, 3, 4])
    at = []
    for t in range(nthreads):
        for _ in range(r.choice([1, 1, 2, 3])):
            at.append([t, r.randrange(npaths), {
                "block": r.choice([1, 2, 128]), "codec": r.choice(["none", "zip", "bzip2"]), "form": r.randrange(4),
                "docs": [docs.doc_token(r, [(3, "nil"), (5, "tiny")]) for _ in range(r.choice([0, 1, 2, 4]))],
                "end": r.choice(["close", "close", "with", "flush", "abandon"]), "pass": r.choice(["pos", "pos", "kw"])}])
    return {"kinds": [r.choice(KINDS) for _ in range(npaths)], "threads": nthreads, "attempts": at,
            "grain": r.choice(["line", "line", "line", "opcode"]), "sched": sched.gen_plan(r, nthreads, r.choice([3, 10, 30, 80]))}


def content(path):
    with io.FileIO(path) as f:
        return f.readall()


def execute(plan, ctx):
    from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
    tmp = ctx.tmp
    os.makedirs(os.path.join(tmp, "d"))
    os.symlink(os.path.join(tmp, "d"), os.path.join(tmp, "l"))
    cwd = os.getcwd()
    ctx.cleanups.append(lambda: os.chdir(cwd))
    os.chdir(tmp)
    names = ["p%d.docria" % i for i in range(len(plan["kinds"]))]
    real = [os.path.join(tmp, "d", n) for n in names]
    before = []
    for kind, p in zip(plan["kinds"], real):
        data = None
        if kind in ("collection", "link"):
            s = io.BytesIO()
            w = MsgpackDocumentWriter(s)
            w.write(docs.build(docs.spec(["tiny", 7])))
            w.flush()
            data = s.getvalue()
        elif kind == "empty":
            data = b""
        elif kind == "bytes":
            data = b"precious\x00bytes"
        elif kind == "big":
            data = b"0123456789abcdef" * 1000
        if kind == "dir":
            os.mkdir(p)
        elif kind == "dangling":
            os.symlink(p + ".target", p)
        elif kind == "link":
            with open(p + ".target", "wb") as f:
                f.write(data)
            os.symlink(p + ".target", p)
        elif data is not None:
            with open(p, "wb") as f:
                f.write(data)
        before.append(data)
    keep = coll.Closing(ctx)
    built = {}
    for t, p, a in plan["attempts"]:
        for tok in a["docs"]:
            built[tuple(tok)] = (docs.build(docs.spec(tok)), docs.canon_token(tok))
    outcomes = []

    def body(t):
        for n, (u, p, a) in enumerate(plan["attempts"]):
            if u != t:
                continue
            path = [real[p], os.path.join("d", names[p]), os.path.join(tmp, "l", names[p]), os.path.join("d", "..", "l", names[p])][a["form"]]
            try:
                if a["pass"] == "kw":
                    w = MsgpackDocumentWriter(outputio=path, num_docs_per_block=a["block"], codec=coll.codec(a["codec"]))
                else:
                    w = MsgpackDocumentWriter(path, a["block"], coll.codec(a["codec"]))
            except Exception as e:
                outcomes.append((n, p, "lost", xname(e)))
                continue
            outcomes.append((n, p, "won", None))
            keep.keep(w)
            for tok in a["docs"]:
                w.write(built[tuple(tok)][0])
            if a["end"] == "with":
                w.__exit__(None, None, None)
            elif a["end"] == "close":
                w.close()
            elif a["end"] == "flush":
                w.flush()

    def on_open(path, mode):
        s.point()

    nth = max([t for t, p, a in plan["attempts"]], default=-1) + 1
    if nth == 0:
        return
    s = sched.Sched(ctx, [lambda t=t: body(t) for t in range(nth)], plan["sched"], grain=plan["grain"])
    use_scratch(ctx, on_open=on_open)
    tasks = s.run()
    for t in tasks:
        if t.error is not None:
            raise t.error
    seams.open_hook = None
    ctx.steps += s.total
    ctx.now += s.total * 1e-6
    ctx.faults["thread switch"] += s.switches
    ctx.ev("switches", hashlib.sha256(repr(s.trace).encode()).hexdigest()[:12])
    ctx.ev(*outcomes)
    ctx.state(tuple(s.trace), tuple(outcomes))
    for p, path in enumerate(real):
        tries = [o for o in outcomes if o[1] == p]
        won = [o for o in tries if o[2] == "won"]
        if len(tries) > 1 or (tries and plan["kinds"][p] != "free"):
            ctx.nontrivial = True
        if plan["kinds"][p] == "dir":
            ctx.check(not won and os.path.isdir(path), "existing-path-replaced", "directory")
            continue
        if plan["kinds"][p] == "dangling":
            ctx.check(not won and os.path.islink(path) and not os.path.exists(path + ".target"), "existing-path-replaced", "dangling link")
            continue
        if before[p] is not None:
            if won:
                ctx.fail("writer-opened-on-existing-file", "%s file, attempt %d" % (plan["kinds"][p], won[0][0]))
            if content(path) != before[p]:
                ctx.fail("existing-file-changed", "%s file: %d bytes instead of %d" % (
                    plan["kinds"][p], len(content(path)), len(before[p])))
            continue
        if not tries:
            continue
        if len(won) != 1:
            ctx.fail("not-exactly-one-winner", "%d of %d attempts succeeded" % (len(won), len(tries)))
        a = plan["attempts"][won[0][0]][2]
        if a["end"] == "abandon":
            continue
        if a["end"] == "flush" and not os.path.exists(path):
            ctx.fail("file-missing", path)
        got = []
        with MsgpackDocumentReader(path) as rd:
            for d in rd:
                got.append(coll.full(d))
        want = [built[tuple(tok)][1] for tok in a["docs"]]
        coll.same(ctx, got, want, "not-the-winners-documents")


