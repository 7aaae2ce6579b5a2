"""C29: files are closed when their user is done with them, not later and not earlier."""
import gc
import io
import os

from .. import coll, docs, seams
from ..core import OPEN_KINDS, READ_KINDS, WRITE_KINDS, SimError, Violation, first_diff, xname
from ..rng import derive
from ..simio import SimPool, use_scratch

ID = "C29"
RUNS = {"quick": 14000, "thorough": 300000}
LISTS = ["files", "ops"]
RULE = ("A run draws collection files (some damaged, cut or of an unknown codec) and a history of readers, writers, archives, index builds, searches "
        "and saved indices over them. Each is ended in a drawn way: closed, closed twice, left by an exception, exhausted, abandoned, "
        "dropped, or broken off by a failing open, read, write or flush. Afterwards the process's open descriptors of these files are counted, "
        "while everything the caller may keep (documents, indices, closed readers) is kept.")
NONTRIVIAL = "an operation was broken off, abandoned or left by an exception."
STATES = "distinct (operation, file kind, way of ending, fault, outcome) combinations"
STUB = ["file opens, reads, writes and flushes (fail at drawn calls)", "process pool (SimPool, in this process)", "caller's streams"]

KINDS = ["good", "good", "good", "good", "cut", "garbage", "unknown", "empty", "missing", "framed"]
ENDS = ["with", "with", "close", "close2", "raise", "raise", "drop", "exhaust"]


def gen(r, tier):
    n = r.choice([1, 2, 3, 4])
    files = [[r.choice(KINDS) if i else "good", r.choice([1, 2, 128]), coll.gen_codec(r), r.choice([0, 1, 3, 8]), r.randrange(1 << 20)] for i in range(n)]
    ops = []
    for _ in range(r.choice([1, 3, 6, 12])):
        fault = None
        if r.chance(0.35):
            on = r.choice(["open", "read", "read", "write", "flush"])
            fault = {"on": on, "n": r.randrange(3 if on == "open" else 12), "sticky": r.chance(0.3),
                     "kind": r.choice(OPEN_KINDS if on == "open" else READ_KINDS if on == "read" else WRITE_KINDS)}
        ops.append([r.weighted([(6, "read"), (5, "write"), (2, "tarread"), (2, "tarwrite"), (3, "build"), (6, "search"), (2, "dir"), (2, "save"), (2, "stream"),
                                (1, "exists")]),
                    r.randrange(1 << 10), r.randrange(1 << 10), r.choice(ENDS), fault, r.randrange(1 << 30)])
    return {"files": files, "ops": ops}


def body_error(x):
    """What the body of a with block raises."""
    import struct
    import tarfile
    import zlib
    import lzma
    return [SimError, SimError, ValueError, KeyError, OSError, EOFError, tarfile.TarError, tarfile.ReadError, tarfile.StreamError, zlib.error, lzma.LZMAError,
            struct.error, UnicodeError, NotImplementedError, AssertionError, StopIteration, GeneratorExit, KeyboardInterrupt,
            SystemExit][x % 19]("the caller's own")


class Foreign(io.BytesIO):
    """A stream of the caller."""
    closes = 0

    def close(self):
        Foreign.closes += 1
        super().close()


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.dir = os.path.join(ctx.tmp, "d")
        os.makedirs(self.dir)
        self.kept = []              # what the caller keeps all the time
        self.n = 0
        self.files = []

    # -- descriptors -------------------------------------------------------------------------------------
    def open_files(self):
        mine = {}
        for root, _, names in os.walk(self.dir):
            for f in names:
                st = os.stat(os.path.join(root, f))
                mine[(st.st_dev, st.st_ino)] = f
        out = []
        for fd in range(3, 160):
            try:
                st = os.fstat(fd)
            except OSError:
                continue
            f = mine.get((st.st_dev, st.st_ino))
            if f is not None:
                out.append(f)
        return sorted(out)

    def closed(self, what):
        left = self.open_files()
        if left:
            self.ctx.fail("file-left-open", "%s: %s" % (what, left))

    def gone(self, what):
        if self.open_files():
            gc.collect()            # reference cycles are nobody's fault
            self.closed(what)

    # -- files -------------------------------------------------------------------------------------------
    def setup(self):
        from docria.collection import CompressionCodec, MsgpackDocumentWriter
        for i, (kind, block, cname, k, x) in enumerate(self.plan["files"]):
            out = io.BytesIO()
            codec = coll.codec(cname)
            if kind == "unknown":
                codec = CompressionCodec("no such codec", codec.compress, codec.decompress)
            w = MsgpackDocumentWriter(coll.frame_writer(out, 12 if kind == "framed" else None), block, codec)
            model = []
            for j in range(k):
                sp = docs.spec(["tiny", x + j])
                sp = dict(sp, props=dict({p: v for p, v in sp["props"].items() if p not in ("g",)}, uid="%d-%d" % (i, j), g=j % 2))
                w.write(docs.build(sp))
                model.append(docs.canon_spec(sp))
            w.flush()
            data = out.getvalue()
            if kind == "cut":
                data = data[:max(5, len(data) - 1 - x % 40)]
            elif kind == "garbage":
                data = b"Dmf2" + data[4:]
            elif kind == "empty":
                data = b""
            path = os.path.join(self.dir, "f%d.docria" % i)
            if kind != "missing":
                with open(path, "wb") as f:
                    f.write(data)
            self.files.append((kind, path, model))

    def file(self, a):
        return self.files[a % len(self.files)] if self.files else None

    def keep_docs(self, got, model, what):
        """Documents live on when their reader is closed."""
        self.kept.append(got)
        for d, want in zip(got, model):
            c = docs.observe(d.document() if hasattr(d, "binary") else d)
            if c != want:
                self.ctx.fail("document-changed", "%s: a document used after its reader was closed: %s" % (what, first_diff(c, want)))

    # -- operations --------------------------------------------------------------------------------------
    def drive(self, what, op, opener, use, closer=None):
        """Open, use and end one object in the drawn way; returns (outcome, object)."""
        ctx = self.ctx
        _, a, b, end, fault, x = op
        obj = err = None
        mine = body_error(x)
        ctx.arm(fault)
        try:
            obj = opener()
            if end in ("with", "raise"):
                with obj as o:
                    if o is not obj:
                        self.kept.append(o)
                    use(obj)
                    if end == "raise":
                        raise mine
            else:
                use(obj)
                if end != "drop" and (end != "exhaust"):
                    obj.close()
                if end == "close2":
                    obj.close()
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            err = xname(e)
            own = e is mine or e.__context__ is mine or e.__cause__ is mine
            del e
        else:
            own = False
        fired = ctx.fired
        ctx.disarm()
        ctx.nontrivial = ctx.nontrivial or err is not None or end in ("raise", "drop", "exhaust")
        if end == "raise" and obj is not None and err is None:
            ctx.fail("body-exception-lost", "%s: the with block swallowed it" % what)
        if err is not None and not fired and not own:
            return err, obj, fired
        if err is not None and own and xname(mine) != err and not fired:
            ctx.fail("body-exception-lost", "%s: %s instead of it" % (what, err))
        return ("own" if own else err), obj, fired

    def op_read(self, op):
        from docria.collection import DocumentIO, MsgpackDocumentIO, MsgpackDocumentReader
        k, a, b, end, fault, x = op
        f = self.file(a)
        if f is None:
            return "-"
        kind, path, model = f
        how = b % 3
        got = []

        def use(rd):
            if end == "exhaust":
                got.extend(rd)
                return
            for _ in range(x % 5):
                d = next(rd, None)
                if d is None:
                    break
                got.append(d)
        what = "reader of a %s file, %s" % (kind, end)
        out, rd, fired = self.drive(what, op, [lambda: MsgpackDocumentReader(path), lambda: MsgpackDocumentIO.read(path), lambda: DocumentIO.read(path)][how], use)
        if how == 2 and rd is not None and end in ("close", "close2"):
            # DocumentReader has no close() of its own
            rd = None
        self.kept.append(rd if end not in ("drop", "exhaust") and (out is None or end in ("with", "raise")) else None)
        rd = None
        if self.kept[-1] is not None:
            self.closed(what)
        else:
            self.gone(what)
        if kind == "good" and not fired and out not in (None, "own") and how != 2:
            self.ctx.fail("read-failed", "%s: %s" % (what, out))
        if kind == "good":
            self.keep_docs(got, model, what)
        return kind, end, how, out, fired

    def op_write(self, op):
        from docria.collection import DocumentIO, MsgpackDocumentReader, MsgpackDocumentWriter
        k, a, b, end, fault, x = op
        path = os.path.join(self.dir, "w%d.docria" % self.n)
        self.n += 1
        wrote = []
        how = b % 2
        block = [1, 2, 128][a % 3]

        def use(w):
            for j in range(x % 5):
                w.write(docs.build(docs.spec(["tiny", x + j])))
                wrote.append(docs.canon_token(["tiny", x + j]))
            if x & 64:
                w.flush()
        what = "writer, %s" % end
        out, w, fired = self.drive(what, op, [lambda: MsgpackDocumentWriter(path, block), lambda: DocumentIO.write(path, num_docs_per_block=block)][how], use)
        if not fired and out not in (None, "own"):
            self.ctx.fail("write-failed", "%s: %s" % (what, out))
        done = end not in ("drop", "exhaust")
        if w is not None and done and fired:
            # the device works again
            try:
                w.close()
            except Exception as e:
                self.ctx.probes["close keeps failing: " + xname(e)] += 1
                w = None
        if done and w is not None:
            self.kept.append(w)
            self.closed(what)
        w = None
        self.gone(what)
        if done and not fired:
            with MsgpackDocumentReader(path) as rd:
                got = [docs.observe(d.document()) for d in rd]
            if got != wrote:
                self.ctx.fail("documents-lost", "%s: %d documents in the file, %d were written" % (what, len(got), len(wrote)))
        return end, how, out, fired

    def op_exists(self, op):
        from docria.collection import MsgpackDocumentWriter
        f = self.file(op[1])
        if f is None:
            return "-"
        path = f[1] if op[2] % 2 else os.path.join(self.dir, "none", "x.docria")
        if f[0] == "missing":
            return "-"
        try:
            MsgpackDocumentWriter(path)
        except Exception as e:
            out = xname(e)
        else:
            out = "opened"
        self.gone("writer which could not be created")
        return out

    def op_tarwrite(self, op):
        from docria.collection import TarMsgpackReader, TarMsgpackWriter
        k, a, b, end, fault, x = op
        path = os.path.join(self.dir, "t%d.tar" % self.n)
        self.n += 1
        mode = ["gz", "", "bz2", "xz"][a % 4]
        wrote = []

        def use(w):
            for j in range(x % 4):
                w.write(docs.build(docs.spec(["tiny", x + j])))
                wrote.append(docs.canon_token(["tiny", x + j]))
        what = "archive writer, %s" % end
        out, w, fired = self.drive(what, op, lambda: TarMsgpackWriter(path, mode="w" + "|:"[b % 2] + mode, rootdir=[None, "r"][x % 2]), use)
        if not fired and out not in (None, "own"):
            self.ctx.fail("write-failed", "%s: %s" % (what, out))
        done = end not in ("drop", "exhaust") and not fired
        if done:
            self.kept.append(w)
            self.closed(what)
        w = None
        self.gone(what)
        if done:
            with TarMsgpackReader(path, mode="r:*") as rd:
                got = [docs.observe(d.document()) for d in rd]
            if got != wrote:
                self.ctx.fail("documents-lost", "%s: %d documents in the archive, %d were written" % (what, len(got), len(wrote)))
            self.tars.append((path, wrote))
        return end, mode, out, fired

    tars = ()

    def op_tarread(self, op):
        from docria.collection import TarMsgpackReader
        k, a, b, end, fault, x = op
        if not self.tars:
            return "-"
        path, model = self.tars[a % len(self.tars)]
        got = []

        def use(rd):
            if end == "exhaust":
                got.extend(rd)
                return
            for _ in range(x % 4):
                d = next(rd, None)
                if d is None:
                    break
                got.append(d)
        what = "archive reader, %s" % end
        mode = "r:*" if b % 2 else "r|*"
        out, rd, fired = self.drive(what, op, lambda: TarMsgpackReader(path, mode=mode), use)
        if not fired and out not in (None, "own"):
            self.ctx.fail("read-failed", "%s: %s" % (what, out))
        if end not in ("drop", "exhaust") and not fired:
            self.kept.append(rd)
            self.closed(what)
        rd = None
        self.gone(what)
        self.keep_docs(got, model, what)
        return end, mode, out, fired

    def build(self, path, b):
        from docria.collection import DocumentFileIndex, build_msgpack_fileindex
        return build_msgpack_fileindex(path, "g", "uid") if b % 2 else DocumentFileIndex.build(path, "g", "uid")

    def op_build(self, op):
        k, a, b, end, fault, x = op
        f = self.file(a)
        if f is None:
            return "-"
        kind, path, model = f
        self.ctx.arm(fault)
        try:
            self.kept.append(self.build(path, b))
            out = "ok"
        except Exception as e:
            out = xname(e)
            self.ctx.nontrivial = True
        fired = self.ctx.fired
        self.ctx.disarm()
        self.gone("index of a %s file (%s)" % (kind, out))
        if kind == "good" and not fired and out != "ok":
            self.ctx.fail("read-failed", "building an index: %s" % out)
        return kind, out, fired

    def op_search(self, op):
        from docria.collection import DocumentIndex
        k, a, b, end, fault, x = op
        good = [f for f in self.files if f[0] == "good"]
        if not good:
            return "-"
        if b & 4:
            ix = DocumentIndex(basepath=[self.dir, self.ctx.tmp][b & 1])
            for f in good:
                ix.add(self.build(f[1], b))
            model = [c for f in good for c in f[2]]
        else:
            f = good[a % len(good)]
            ix, model = self.build(f[1], b), f[2]
        self.gone("index")
        self.kept.append(ix)
        lazy = bool(b & 8)
        cond = {"g": x % 2} if x & 4 else {"g": x % 2, "uid": "0-%d" % (x % 5)}
        want = [c for c in model if all(self.prop(c, p) == v for p, v in cond.items())]
        got, it = [], None
        out = "ok"
        self.ctx.arm(fault)
        try:
            it = ix.search(cond, lazy=lazy)
            if end in ("with", "close", "close2", "raise", "drop"):
                for _ in range(1 + x % 3):
                    d = next(it, None)
                    if d is None:
                        break
                    got.append(d)
                else:
                    self.ctx.nontrivial = True
                if end in ("close", "close2"):
                    it.close()
            else:
                got.extend(it)
        except Exception as e:
            out = xname(e)
            self.ctx.nontrivial = True
        fired = self.ctx.fired
        self.ctx.disarm()
        if not fired and out != "ok":
            self.ctx.fail("read-failed", "search: %s" % out)
        if end == "exhaust" or out != "ok":
            self.kept.append(it)    # ended, kept nevertheless (a closed generator may still hold its frame, by CPython's version)
        it = None
        self.gone("search, %s, %s" % (end, out))
        self.keep_docs(got, want, "search")
        return "many" if b & 4 else "one", end, out, fired, lazy

    def prop(self, c, p):
        v = c["props"][1].get("('str', %r)" % p)
        return v[1] if isinstance(v, (list, tuple)) else v

    def op_dir(self, op):
        from docria.collection import build_msgpack_directory_fileindex
        k, a, b, end, fault, x = op
        seams.pool_hook = lambda n: SimPool(self.ctx, derive("pool", x), n if n is not None else 3)
        bad = [f for f in self.files if f[0] not in ("good", "missing")]
        self.ctx.arm(fault)
        try:
            self.kept.append(build_msgpack_directory_fileindex(self.dir, "g", num_workers=[1, 2, None][a % 3]))
            out = "ok"
        except Exception as e:
            out = xname(e)
            self.ctx.nontrivial = True
        fired = self.ctx.fired
        self.ctx.disarm()
        seams.pool_hook = None
        self.gone("index of a directory (%s)" % out)
        if not bad and not fired and out != "ok" and not self.n:
            self.ctx.fail("read-failed", "building an index of a directory: %s" % out)
        return out, fired

    def op_save(self, op):
        from docria.collection import DocumentIndex
        k, a, b, end, fault, x = op
        ix = DocumentIndex(basepath=self.dir)
        for f in self.files:
            if f[0] == "good":
                ix.add(self.build(f[1], b))
        path = os.path.join(self.dir, "saved.idx")
        outs = []
        for name, fn in [("save", lambda: ix.save(path)), ("load", lambda: self.kept.append(DocumentIndex.load(path)))]:
            self.ctx.arm(fault if x % 2 == (name == "load") else None)
            try:
                fn()
                out = "ok"
            except Exception as e:
                out = xname(e)
                self.ctx.nontrivial = True
            self.ctx.disarm()
            self.gone("%s of an index (%s)" % (name, out))
            outs.append(out)
        return tuple(outs)

    def op_stream(self, op):
        """Streams of the caller are closed with close() and with blocks only."""
        from docria.collection import DocumentReader, MsgpackDocumentReader, MsgpackDocumentWriter
        k, a, b, end, fault, x = op
        out = Foreign()
        w = MsgpackDocumentWriter(out, num_docs_per_block=2)
        for j in range(x % 4):
            w.write(docs.build(docs.spec(["tiny", x + j])))
        w.flush()
        if out.closed:
            self.ctx.fail("callers-stream-closed", "by flush")
        data = out.getvalue()
        if end in ("close", "close2", "with", "raise"):
            if end == "close":
                w.close()
            elif end == "close2":
                w.close()
                w.close()
            else:
                w.__exit__(*((None, None, None) if end == "with" else (SimError, SimError("x"), None)))
            self.ctx.check(out.closed, "stream-not-closed", "writer, " + end)
        else:
            del w
            self.ctx.check(not out.closed, "callers-stream-closed", "when the writer was dropped")
            self.ctx.check(out.getvalue() == data, "stream-changed", "when the writer was dropped")
        inp = Foreign(data)
        rd = MsgpackDocumentReader(inp)
        how = b % 6
        if how == 0:
            got = list(rd)
        elif how == 1:
            got = list(DocumentReader(rd))
        elif how == 2:
            got = [d for block in rd.blocks() for d in block]
        elif how == 3:
            got = [d for block in rd.blocks() for _, d in block.documents()]
        elif how == 4:
            # looked at the first block only, then fetched again
            it = rd.blocks()
            refs = [d.ref for d in next(it, ())]
            del it
            self.ctx.check(not inp.closed, "callers-stream-closed", "when blocks() was abandoned")
            for ref in refs:
                rd.get(ref)
            rd.seek(self.header(data))
            got = list(rd)
        else:
            dr = DocumentReader(rd)
            first = [d for d in [next(dr, None)] if d is not None]
            del dr
            self.ctx.check(not inp.closed, "callers-stream-closed", "when the document reader was dropped")
            got = first + list(rd)
        self.ctx.check(not inp.closed, "callers-stream-closed", "at the end of the documents, route %d" % how)
        if len(got) != x % 4:
            self.ctx.fail("documents-lost", "%d documents, %d were written" % (len(got), x % 4))
        if end in ("close", "close2", "with", "raise"):
            if end in ("with", "raise"):
                rd.__exit__(None, None, None)
            else:
                rd.close()
            self.ctx.check(inp.closed, "stream-not-closed", "reader, " + end)
        else:
            del rd
            self.ctx.check(not inp.closed, "callers-stream-closed", "when the reader was dropped")
        return end

    @staticmethod
    def header(data):
        import msgpack
        u = msgpack.Unpacker(io.BytesIO(data[4:]), raw=False)
        for _ in range(3):
            u.unpack()
        return 4 + u.tell()

    def run(self):
        self.tars = []
        self.setup()
        use_scratch(self.ctx)
        self.closed("setup")
        for i, op in enumerate(self.plan["ops"]):
            self.ctx.steps += 1
            out = getattr(self, "op_" + op[0])(op)
            self.gone("operation %d (%s)" % (i, op[0]))
            self.ctx.ev(op[0], out)
            self.ctx.state(op[0], out, op[3], (op[4] or {}).get("on"))
            if len(self.kept) > 60:
                del self.kept[:30]


def execute(plan, ctx):
    World(plan, ctx).run()
