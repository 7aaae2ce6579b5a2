"""C15: directory indexing is complete and independent of worker scheduling."""
import io
import os
import sys

from .. import coll, docs, seams
from ..core import OPEN_KINDS, READ_KINDS, Violation, first_diff, xname
from ..rng import derive
from ..simio import SimPool, use_scratch

ID = "C15"
RUNS = {"quick": 14000, "thorough": 300000}
LISTS = ["names", "docs", "builds"]
RULE = ("A run draws a directory of collection files (names, documents, block size, codec) among other files, and a history of "
        "builds: each with its own number of workers, listing order, completion order, base path, working directory and possibly a "
        "file which cannot be opened or read, is not a collection, or is cut inside its header. Every index is judged against the "
        "model: files, references, searches.")
NONTRIVIAL = "at least two collection files were indexed, or a build failed."
STATES = "distinct completion orders and (files, workers, failure kind, outcome) combinations"
STUB = ["process pool (SimPool: pickles tasks and results, seeded completion order)", "directory listing order", "cpu count",
        "file reads (open and read errors)"]
ASSUMPTIONS = ["workers do not die; file names have no further dots before the .docria suffix"]

NAMES = ["a.docria", "b.docria", "c.docria", "a.docria.z", "a.docria.xz", "d.docria.bz2", "e.docria.lz4", "é-1.docria", "with space.docria",
         "x_y.docria", "0.docria", "docria.docria", "[b].docria", "-v.docria"]
OTHER = ["notes.txt", "a.docria.bak", "b.docria.tmp", "docria", ".hidden.docria", ".docria", "c.docriax", "xdocria", "README", "a.docria.z~"]
PROPS = ["k", "cat", "uid", "absent"]
VALUES = [0, 1, "x", "y", None, True, 2.5, b"x", ""]


def gen(r, tier):
    names = r.sample(NAMES, r.choice([0, 1, 2, 3, 4, 6, 9]))
    other = [[n, r.choice(["garbage", "valid", "empty"])] for n in r.sample(OTHER, r.choice([0, 0, 1, 3]))]
    if r.chance(0.3):
        other.append(["sub", "dir"])
    out = []
    for _ in range(r.choice([0, 3, 8, 15, 30]) if names else 0):
        out.append([r.choice(names), docs.doc_token(r, [(2, "nil"), (6, "tiny"), (1, "small"), (0.1, "medium")]),
                    {p: r.randrange(len(VALUES)) for p in ("k", "cat") if r.chance(0.8)}])
    builds = []
    for _ in range(r.choice([1, 2, 3])):
        fail = None
        if r.chance(0.45):
            fail = r.weighted([(3, ["fault", {"on": "open", "n": r.randrange(8), "kind": r.choice(OPEN_KINDS), "sticky": r.chance(0.3)}]),
                               (4, ["fault", {"on": "read", "n": r.randrange(16), "kind": r.choice(READ_KINDS), "sticky": r.chance(0.3)}]),
                               (1, ["gone", r.randrange(99)]), (1, ["empty", r.randrange(99)]), (1, ["garbage", r.randrange(99)]),
                               (1, ["cut", r.randrange(9999)]), (1, ["broken-block", r.randrange(9999)])])
        builds.append({"workers": r.choice([1, 1, 2, 3, 4, 8, 30, None]), "pool": r.randrange(1 << 30), "list": r.randrange(1 << 30),
                       "base": r.randrange(4), "path": r.randrange(4), "cwd": r.randrange(3), "fail": fail,
                       "props": r.sample(PROPS, r.choice([0, 1, 2, 4])), "tqdm": r.chance(0.5),
                       "change": [r.choice(["add", "remove", "swap"]), r.randrange(99)] if builds and r.chance(0.5) else None})
    return {"names": [[n, r.choice([1, 2, 128]), coll.gen_codec(r)] for n in names], "other": other, "docs": out, "builds": builds}


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.dir = os.path.join(ctx.tmp, "data")
        self.side = os.path.join(ctx.tmp, "side")
        os.makedirs(self.dir)
        os.makedirs(self.side)
        cwd = os.getcwd()
        ctx.cleanups.append(lambda: os.chdir(cwd))
        self.model, self.bytes, self.codecs = {}, {}, {}

    def put(self, name, data):
        with open(os.path.join(self.dir, name), "wb") as f:
            f.write(data)

    def encode(self, name, block, codec, items):
        from docria.collection import MsgpackDocumentWriter
        s = io.BytesIO()
        w = MsgpackDocumentWriter(s, num_docs_per_block=block, codec=coll.codec(codec))
        out = []
        for tok, vals in items:
            sp = docs.spec(tok)
            props = {k: v for k, v in sp["props"].items() if k not in PROPS or k == "uid"}
            props.update({k: VALUES[v] for k, v in vals.items()})
            sp = dict(sp, props=props)
            w.write(docs.build(sp))
            out.append((props, docs.canon_spec(sp)))
        w.flush()
        return s.getvalue(), out

    def setup(self):
        for name, block, codec in self.plan["names"]:
            data, out = self.encode(name, block, codec, [(t, v) for n, t, v in self.plan["docs"] if n == name])
            self.model[name], self.bytes[name], self.codecs[name] = out, data, codec
            self.put(name, data)
        stray, _ = self.encode("x", 2, "zip", [(["tiny", 5], {"k": 0}), (["tiny", 6], {"k": 1})])
        for name, kind in self.plan["other"]:
            if kind == "dir":
                os.makedirs(os.path.join(self.dir, name))
                with open(os.path.join(self.dir, name, "in.docria"), "wb") as f:
                    f.write(stray)
            else:
                self.put(name, {"garbage": b"\x00\x01garbage", "valid": stray, "empty": b""}[kind])

    def build(self, b):
        from docria.collection import build_msgpack_directory_fileindex
        ctx = self.ctx
        lr, pr = derive("list", b["list"]), derive("pool", b["pool"])

        def order(names):
            names = list(names)
            lr.shuffle(names)
            return names

        seams.listdir_hook = order
        seams.pool_hook = lambda n: SimPool(ctx, pr, n if n is not None else 5)
        cwd = [self.dir, self.side, ctx.tmp][b["cwd"]]
        os.chdir(cwd)
        path = [self.dir, os.path.relpath(self.dir), self.dir + os.sep, os.path.join(self.side, "..", "data")][b["path"]]
        base = [".", self.dir, ctx.tmp, self.side][b["base"]]
        absbase = os.path.abspath(base)
        had = sys.modules.get("tqdm", False)
        if not b["tqdm"]:
            sys.modules["tqdm"] = None
        try:
            return build_msgpack_directory_fileindex(path, *b["props"], basepath=base, num_workers=b["workers"]), absbase
        finally:
            if not b["tqdm"]:
                if had is False:
                    del sys.modules["tqdm"]
                else:
                    sys.modules["tqdm"] = had
            seams.listdir_hook = seams.pool_hook = None

    def change(self, how, x):
        """The files change from one build to the next."""
        from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
        names = sorted(self.model)
        self.ctx.probes["files changed between builds"] += 1
        if how == "add":
            name = "new%d.docria" % x
            data, out = self.encode(name, 1 + x % 2, "zip", [(["tiny", 7000 + 10 * x + i], {"k": i}) for i in range(x % 4)])
            if name not in self.model:
                self.model[name], self.bytes[name] = out, data
                self.put(name, data)
                self.codecs[name] = "zip"
        elif names and how == "remove":
            name = names[x % len(names)]
            os.unlink(os.path.join(self.dir, name))
            del self.model[name], self.bytes[name]
        elif names:
            # two files change places
            a, b = names[x % len(names)], names[(x // 7) % len(names)]
            for m in (self.model, self.bytes, self.codecs):
                m[a], m[b] = m[b], m[a]
            for n in (a, b):
                self.put(n, self.bytes[n])

    def judge(self, idx, base, b, what):
        from docria.collection import MsgpackDocumentReader
        ctx = self.ctx
        got = {}
        for key, fi in idx.index.items():
            p = os.path.normpath(os.path.join(base, key))
            if p in got:
                ctx.fail("file-indexed-twice", "%s: %s" % (what, os.path.basename(p)))
            got[p] = fi
        want = {os.path.join(self.dir, n): n for n in self.model}
        missing, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
        ctx.check(not missing, "file-missing", lambda: "%s: %s" % (what, [os.path.basename(p) for p in missing]))
        ctx.check(not extra, "foreign-file-indexed", lambda: "%s: %s" % (what, [os.path.relpath(p, self.dir) for p in extra]))
        for p, fi in sorted(got.items()):
            model = self.model[want[p]]
            if len(fi.docrefs) != len(model):
                ctx.fail("documents-missing", "%s: %s has %d references for %d documents" % (what, want[p], len(fi.docrefs), len(model)))
            with MsgpackDocumentReader(p) as rd:
                for i, ref in enumerate(fi.docrefs):
                    c = docs.observe(rd.get(ref).document())
                    if c != model[i][1]:
                        ctx.fail("wrong-reference", "%s: %s document %d" % (what, want[p], i))
        for prop in b["props"]:
            values = VALUES if prop != "uid" else [m[0]["uid"] for ms in self.model.values() for m in ms][:6]
            for v in values[:5]:
                hits = sorted((docs.observe(d) for d in idx.search({prop: v})), key=lambda c: str(docs.uid(c)))
                exp = sorted((c for ms in self.model.values() for props, c in ms if prop in props and props[prop] == v),
                             key=lambda c: str(docs.uid(c)))
                if hits != exp:
                    ctx.fail("wrong-search-result", "%s: %r=%r: %d documents instead of %d" % (what, prop, v, len(hits), len(exp)))

    def run(self):
        ctx = self.ctx
        self.setup()
        use_scratch(ctx)
        names = sorted(self.model)
        for k, b in enumerate(self.plan["builds"]):
            ctx.steps += 1
            if b.get("change"):
                self.change(*b["change"])
                names = sorted(self.model)
            what = "build %d" % k
            fail, victim = b["fail"], None
            must_fail = False
            ctx.arm(None)
            if fail and fail[0] == "fault":
                ctx.arm(fail[1])
            elif fail and names:
                victim = names[fail[1] % len(names)]
                data = self.bytes[victim]
                if fail[0] == "gone":
                    # listed, but not there any more when a worker opens it
                    ctx.arm({"on": "open:" + victim, "n": 0, "kind": "ENOENT", "sticky": True})
                elif fail[0] == "empty":
                    self.put(victim, b"")
                    must_fail = True
                elif fail[0] == "garbage":
                    self.put(victim, b"PK\x03\x04" + data[4:])
                    must_fail = True
                elif fail[0] == "cut":
                    self.put(victim, data[:1 + fail[1] % 7])      # inside the header
                    must_fail = True
                elif fail[0] == "broken-block":
                    codec = self.codecs[victim]
                    if coll.codec(codec).name == "zip" and self.model[victim]:
                        i = len(data) - 1 - fail[1] % 4         # adler32 of the last block
                        self.put(victim, data[:i] + bytes([data[i] ^ 0x41]) + data[i + 1:])
                        must_fail = True
            try:
                idx, base = self.build(b)
                err = None
            except Exception as e:
                idx, err = None, e
            finally:
                ctx.disarm()
                if victim is not None and fail[0] != "gone":
                    self.put(victim, self.bytes[victim])
            must_fail = must_fail or ctx.fired
            if must_fail:
                ctx.faults["file: " + fail[0]] += 1
            ctx.ev(what, xname(err) if err else None, len(names))
            ctx.state(len(names), b["workers"], fail[0] if must_fail else None, xname(err) if err else None)
            if err is not None:
                if isinstance(err, Violation):
                    raise err
                ctx.check(must_fail, "spurious-failure", "%s: %s %s" % (what, xname(err), err))
                ctx.nontrivial = True
                again = dict(b, fail=None)
                idx, base = self.build(again)
                self.judge(idx, base, b, what + " repeated")
                continue
            ctx.check(not must_fail, "index-without-unreadable-file", "%s: %s" % (what, fail))
            self.judge(idx, base, b, what)
            if len(names) > 1:
                ctx.nontrivial = True


def execute(plan, ctx):
    World(plan, ctx).run()
