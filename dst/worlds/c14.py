"""C14: index search returns exactly the matching documents, however interleaved."""
import io
import os
import pickle

from .. import coll, docs, seams
from ..core import READ_KINDS, SimIOError, xname
from ..rng import derive
from ..simio import use_scratch

ID = "C14"
RUNS = {"quick": 12000, "thorough": 300000}
LISTS = ["ops", "docs"]
RULE = ("A run draws one to three collection files (documents, property values from a small domain, block size, codec), builds a "
        "file index for each and a multi-file index over them, and then a history of searches which are started, advanced, "
        "suspended, closed and repeated, of saves and loads, of reads through separate readers and of working directory changes, "
        "with an I/O error at a drawn open, read or seek of some operations. Every search is judged against a scan of the model.")
NONTRIVIAL = "two searches were open at the same time, or an injected error hit a search, or an index was saved and loaded."
STATES = "distinct (open searches, hits, blocks, eager/lazy, single/multi, fault outcome) combinations"
STUB = ["file reads (PathFile over a scratch directory: open, read and seek errors)", "directory listing", "working directory"]
ASSUMPTIONS = ["indexed property values are hashable; a search has at least one condition and conditions name indexed properties"]

PROPS = ["k", "cat", "é2", "", "absent", "uid"]
VALUES = [0, 1, 2, -1, 1 << 40, "x", "y", "", "é", None, True, False, 1.0, 2.5, b"x", b"", "1"]


def gen_conds(r, props, dom, ndocs):
    conds = []
    for p in r.sample(props, min(len(props), r.choice([1, 1, 1, 2, 2, 3]))):
        if p == "uid":
            conds.append([p, ["uid", r.randrange(max(1, ndocs))]])
        else:
            conds.append([p, r.choice(dom) if r.chance(0.93) else r.randrange(len(VALUES))])
    if r.chance(0.06):      # a property which no document has
        conds.insert(r.randrange(len(conds) + 1), ["absent", r.choice(dom)])
    return conds


def gen(r, tier):
    nfiles = r.choice([1, 1, 2, 2, 3])
    dom = r.sample(range(len(VALUES)), r.choice([1, 2, 3, 4]))
    props = r.sample(PROPS, r.choice([1, 2, 3, 4]))
    if set(props) <= {"absent", "uid"}:
        props.append("k")
    files = [{"block": r.choice([1, 2, 3, 5, 128]), "codec": coll.gen_codec(r)} for _ in range(nfiles)]
    out = []
    for _ in range(r.choice([0, 2, 5, 10, 20, 40])):
        vals = {p: r.choice(dom) for p in ["k", "cat", "é2", ""] if r.chance(0.75)}
        out.append([r.randrange(nfiles), docs.doc_token(r, [(1, "nil"), (6, "tiny"), (4, "small"), (0.3, "medium"), (0.1, "big")]), vals])
    ops = []
    for _ in range(r.choice([3, 8, 15, 30, 50])):
        k = r.weighted([(5, "start"), (9, "next"), (1, "drop"), (1, "close"), (1, "save"), (1, "get"), (1.5, "read"), (0.5, "build"),
                        (0.6, "chdir"), (2, "rest"), (0.5, "scramble"), (0.3, "cut"), (0.2, "restore"), (0.3, "swap")])
        x = r.randrange(1 << 30)
        op = [k, x, None, None]
        if k == "start":
            op[2] = {"conds": gen_conds(r, props, dom, len(out)), "lazy": r.chance(0.5), "multi": r.chance(0.5),
                     "form": r.choice(["dict", "dict", "pairs", "items"]), "step": r.choice([0, 0, 1, 2])}
        elif k in ("next", "read"):
            op[2] = r.choice([1, 1, 2, 5])
        if k in ("start", "next", "rest", "build") and r.chance(0.12):
            op[3] = {"on": r.choice(["read", "read", "seek", "open"]), "n": r.choice([0, 0, 0, 1, 1, 2, 3, 6]),
                     "kind": r.choice(READ_KINDS + ["ENOENT", "EACCES", "EMFILE"]), "sticky": r.chance(0.3)}
        ops.append(op)
    return {"files": files, "docs": out, "props": props, "ops": ops, "rel": r.chance(0.4), "base": r.randrange(4)}


class Search:
    def __init__(self, gen, want, lazy, what):
        self.gen, self.want, self.lazy, self.what = gen, want, lazy, what
        self.pos = {f: 0 for f in want}     # documents delivered per file
        self.seen = 0
        self.total = sum(len(w) for w in want.values())
        self.hit = False
        self.cut = False        # one of its files was cut meanwhile
        self.done = False
        self.kept = []


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.keep = coll.Closing(ctx)
        self.paths, self.model, self.home = [], {}, {}
        self.dirs = [os.path.join(ctx.tmp, d) for d in ("a", "b", os.path.join("a", "c"), "ünï dir")]
        for d in self.dirs:
            os.makedirs(d)
        cwd = os.getcwd()
        ctx.cleanups.append(lambda: os.chdir(cwd))
        os.chdir(self.dirs[0])
        self.searches = []
        self.readers = {}
        self.lost = {}      # file -> its whole content, while it is cut
        self.uids = []

    def write(self):
        from docria.collection import MsgpackDocumentWriter
        for f, spec in enumerate(self.plan["files"]):
            p = os.path.join(self.dirs[f % 4], "f%d.docria" % f)
            s = io.BytesIO()
            w = MsgpackDocumentWriter(s, num_docs_per_block=spec["block"], codec=coll.codec(spec["codec"]))
            self.model[f] = []
            for g, tok, vals in self.plan["docs"]:
                if g != f:
                    continue
                sp = docs.spec(tok)
                props = dict(sp["props"])
                for k in PROPS[:4]:
                    props.pop(k, None)
                for k, v in vals.items():
                    props[k] = VALUES[v]
                sp = dict(sp, props=props)
                w.write(docs.build(sp))
                self.model[f].append((props, docs.canon_spec(sp)))
                self.uids.append(props["uid"])
                self.home[props["uid"]] = f
            w.flush()
            with open(p, "wb") as out:
                out.write(s.getvalue())
            os.utime(p, (10 ** 9, 10 ** 9))     # the clock stands still
            self.paths.append(os.path.relpath(p) if self.plan["rel"] else p)

    def swap(self, f):
        """The file is replaced by one with its documents in reverse order, of the same age, and indexed again."""
        from docria.collection import MsgpackDocumentReader, MsgpackDocumentWriter
        if f in self.lost or (self.plan["rel"] and os.getcwd() != self.dirs[0]):
            return
        for s in self.searches:
            if not s.done and f in s.want:
                self.advance(s, None)
            s.kept = [t for t in s.kept if t[1] != f]
        for key in [k for k in self.readers if k[1] == f]:
            del self.readers[key]
        with MsgpackDocumentReader(self.real(f)) as rd:
            ds = [d for d in rd]
        spec = self.plan["files"][f]
        s = io.BytesIO()
        w = MsgpackDocumentWriter(s, num_docs_per_block=spec["block"], codec=coll.codec(spec["codec"]))
        for d in ds[::-1]:
            w.write(d)
        w.flush()
        self.model[f].reverse()
        with open(self.real(f), "wb") as out:
            out.write(s.getvalue())
        os.utime(self.real(f), (10 ** 9, 10 ** 9))
        self.index[f] = self.build(f)
        self.multi.add(self.index[f])
        self.ctx.probes["file replaced and indexed again"] += 1

    def expected(self, f, conds):
        return [c for props, c in self.model[f] if all(k in props and props[k] == v for k, v in conds)]

    def conds(self, raw):
        out = []
        for p, v in raw:
            if isinstance(v, list):
                out.append((p, self.uids[v[1] % len(self.uids)] if self.uids else "none"))
            else:
                out.append((p, VALUES[v]))
        return out

    def build(self, f):
        from docria.collection import DocumentFileIndex, build_msgpack_fileindex
        if f % 2:
            return DocumentFileIndex.build(self.paths[f], *self.plan["props"])
        return build_msgpack_fileindex(self.paths[f], *self.plan["props"])

    def start(self, spec, x):
        conds = self.conds(spec["conds"])
        form = {"dict": dict(conds), "pairs": [tuple(c) for c in conds], "items": dict(conds).items()}[spec["form"]]
        moves = any(o[0] == "chdir" for o in self.plan["ops"])     # a relative path only names its file in its directory
        if spec["multi"] or (self.plan["rel"] and moves):
            g = self.multi.search(form, lazy=spec["lazy"])
            want = {f: self.expected(f, conds) for f in range(len(self.paths))}
            what = "multi %r" % (conds,)
        else:
            f = x % len(self.paths)
            g = self.index[f].search(form, lazy=spec["lazy"])
            want = {f: self.expected(f, conds)}
            what = "file %d %r" % (f, conds)
        s = Search(g, want, spec["lazy"], what)
        s.cut = any(f in self.lost for f in want)
        self.searches.append(s)
        return s

    def advance(self, s, n):
        """Up to n documents (None: all the rest) of one search; True if it ended."""
        ctx = self.ctx
        k = 0
        while n is None or k < n:
            k += 1
            before = ctx.fired
            try:
                d = next(s.gen)
            except StopIteration:
                s.done = True
                if ctx.fired and not before:
                    s.hit = True
                ctx.check(not s.hit, "read-error-swallowed", s.what)
                ctx.check(s.seen == s.total, "documents-missing", "%s: %d of %d documents" % (s.what, s.seen, s.total))
                return True
            except OSError as e:
                s.done = True
                ctx.check(s.hit or ctx.fired or s.cut, "spurious-failure", "%s: %s %s" % (s.what, xname(e), e))
                ctx.probes["search failed"] += 1
                ctx.nontrivial = True
                ctx.ev("failed", s.what, s.seen)
                ctx.state("failed", min(4, s.seen), s.lazy, len(s.want))
                return True
            if ctx.fired and not before:
                s.hit = True
            c = docs.observe(d.document()) if s.lazy else docs.observe(d)
            uid = docs.uid(c)
            f = self.home.get(uid)
            w = s.want.get(f)
            if w is None:
                ctx.fail("wrong-document", "%s: %s" % (s.what, uid))
            i = s.pos[f]
            if i >= len(w) or w[i] != c:
                ctx.fail("wrong-document", "%s: %s delivered after %d of %s" % (
                    s.what, uid, i, [docs.uid(q) for q in w][:10]))
            s.pos[f] += 1
            s.seen += 1
            s.kept.append((d, f, c))
        return False

    def run(self):
        from docria.collection import DocumentIndex, MsgpackDocumentReader
        plan, ctx = self.plan, self.ctx
        self.write()
        use_scratch(ctx)
        self.index = [self.build(f) for f in range(len(self.paths))]
        self.multi = DocumentIndex(basepath=[".", ctx.tmp, self.dirs[1], self.dirs[3]][plan["base"]])
        for i in self.index:
            self.multi.add(i)
        for k, (op, x, arg, fault) in enumerate(plan["ops"]):
            ctx.steps += 1
            live = [s for s in self.searches if not s.done]
            ctx.arm(fault)
            try:
                if op == "start":
                    s = self.start(arg, x)
                    if live:
                        ctx.nontrivial = True
                    if arg["step"]:
                        self.advance(s, arg["step"])
                    ctx.state(len(live), min(6, s.total), len(s.want), s.lazy, len(plan["docs"]) // 8)
                elif op == "next" and live:
                    self.advance(live[x % len(live)], arg)
                elif op == "rest" and live:
                    self.advance(live[x % len(live)], None)
                elif op == "drop" and live:
                    s = live[x % len(live)]
                    s.gen, s.done = None, True
                elif op == "close" and live:
                    s = live[x % len(live)]
                    s.gen.close()
                    s.done = True
                elif op == "save":
                    p = os.path.join(ctx.tmp, "index%d" % (x % 2))
                    self.multi.save(p)
                    self.multi = DocumentIndex.load(p)
                    f = x % len(self.index)
                    self.index[f] = pickle.loads(pickle.dumps(self.index[f]))
                    ctx.nontrivial = True
                elif op == "get":
                    self.get(x)
                elif op == "read":
                    self.read(x, arg)
                elif op == "scramble":
                    for s in self.searches:
                        if s.kept and not s.lazy:
                            docs.scramble(s.kept.pop(x % len(s.kept))[0], derive("scramble", x))
                elif op == "cut":
                    self.cut(x)
                elif op == "swap":
                    self.swap(x % len(self.paths))
                elif op == "restore":
                    self.restore()
                elif op == "chdir":
                    os.chdir((self.dirs + [ctx.tmp])[x % 5])
                elif op == "build":
                    if not plan["rel"] or os.getcwd() == self.dirs[0]:
                        f = x % len(self.paths)
                        if f in self.lost:
                            continue
                        try:
                            self.index[f] = self.build(f)
                            ctx.check(not ctx.fired, "read-error-swallowed", "building the index of file %d" % f)
                        except OSError as e:
                            ctx.check(ctx.fired, "spurious-failure", "build: %s" % xname(e))
            finally:
                ctx.disarm()
            ctx.ev(op, x, [(s.seen, s.done) for s in self.searches])
        # what is still suspended is finished; then every search is repeated from the start
        for s in self.searches:
            if not s.done:
                self.advance(s, None)
        self.restore()
        for op, x, arg, fault in plan["ops"]:
            if op == "start":
                s = self.start(arg, x)
                self.advance(s, None)
                ctx.ev("again", s.seen)
        for s in self.searches:
            if s.lazy:
                for d, f, c in s.kept:
                    if docs.observe(d.document()) != c:
                        ctx.fail("delivered-document-changed", s.what)

    def real(self, f):
        return os.path.join(self.dirs[0], self.paths[f])

    def cut(self, x):
        """A file loses its tail after it was indexed; its header survives."""
        f = x % len(self.paths)
        if f in self.lost or not self.model[f]:
            return
        with open(self.real(f), "rb") as s:
            data = s.read()
        first = self.index[f].docrefs[0][0] if self.index[f].docrefs else len(data)
        if first >= len(data):
            return
        self.lost[f] = data
        with open(self.real(f), "r+b") as s:
            s.truncate(first + derive("cut", x).randrange(len(data) - first))
        self.ctx.faults["indexed file cut"] += 1
        for s in self.searches:
            if not s.done and f in s.want:
                s.cut = True

    def restore(self):
        for f, data in self.lost.items():
            with open(self.real(f), "wb") as s:
                s.write(data)
        self.lost = {}

    def get(self, x):
        from docria.collection import MsgpackDocumentReader
        kept = [(s, t) for s in self.searches for t in s.kept if s.lazy]
        if not kept:
            return
        s, (d, f, c) = kept[x % len(kept)]
        if f in self.lost:
            return
        rd = self.reader(f)
        got = docs.observe(rd.get(d.ref).document())
        if got != c:
            self.ctx.fail("wrong-document-by-reference", "%s: %s instead of %s" % (s.what, docs.uid(got), docs.uid(c)))

    def reader(self, f):
        from docria.collection import MsgpackDocumentReader
        key = ("r", f)
        if key not in self.readers:
            p = self.paths[f]
            if self.plan["rel"]:
                p = os.path.join(self.dirs[0], p)
            self.readers[key] = self.keep.keep(MsgpackDocumentReader(p))
        return self.readers[key]

    def read(self, x, n):
        f = x % len(self.paths)
        if f in self.lost:
            return
        key = ("it", f)
        if key not in self.readers:
            from docria.collection import MsgpackDocumentReader
            p = os.path.join(self.dirs[0], self.paths[f]) if self.plan["rel"] else self.paths[f]
            self.readers[key] = [self.keep.keep(MsgpackDocumentReader(p)), 0]
        st = self.readers[key]
        for _ in range(n):
            d = next(st[0], None)
            want = self.model[f][st[1]][1] if st[1] < len(self.model[f]) else None
            got = coll.full(d) if d is not None else None
            if got != want:
                self.ctx.fail("separate-reader-affected", "file %d document %d" % (f, st[1]))
            if d is None:
                del self.readers[key]
                return
            st[1] += 1


def execute(plan, ctx):
    World(plan, ctx).run()
