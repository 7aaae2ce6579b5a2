"""C31: the codec registry: stored data is never read with another codec than its own."""
import bz2
import hashlib
import io
import os
import zlib

from .. import coll, docs, sched
from ..core import SimError, xname

ID = "C31"
RUNS = {"quick": 20000, "thorough": 500000}
LISTS = ["sched", "ops"]
RULE = ("A run draws a history of registrations and removals of codecs (own ones, aliases of names in use, replacements of built-in ones), of "
        "writers filled and flushed between them, and of readers and index searches opened, read and kept open across them, with "
        "codec functions which fail at drawn calls; sequentially, or from several threads with names of their own under a drawn interleaving.")
NONTRIVIAL = "a collection was read after the registry had changed since it was written, or threads were switched between registrations."
STATES = "distinct sequences of (operation, outcome), and thread interleavings"
STUB = ["caller's codec functions (fail at drawn calls)", "thread scheduling (one thread at a time, switches at docria source lines or bytecode instructions)"]

BUILTIN = ["none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "zstd:ultra"]
PROBE = b"probe \x00\xff" * 9
OWN = ["u0", "u1", "u2", "zip2", "ü:x", "", "Zip", "zstd:mine"]
ERRORS = [ValueError, OSError, MemoryError, RuntimeError, SimError, zlib.error, KeyError, EOFError]


def gen(r, tier):
    threads = r.chance(0.3)
    n = r.choice([2, 2, 3, 4]) if threads else 1
    ops = []
    for _ in range(r.choice([3, 8, 15, 30]) * (n if threads else 1)):
        k = r.weighted([(5, "register"), (3, "unregister"), (3, "get"), (5, "writer"), (7, "write"), (4, "flush"), (2, "close"),
                        (4, "reader"), (6, "read"), (2, "getter"), (3, "ref"), (1.5, "index"), (1, "restore"), (1.5, "swap"), (1.5, "flush_fail"), (1, "read_fail"), (2, "whole")])
        ops.append([r.randrange(n), k, r.randrange(1 << 20), r.randrange(1 << 20), r.randrange(1 << 30)])
    plan = {"threads": n, "ops": ops, "grain": r.choice(["line", "line", "opcode"]), "sched": []}
    if threads:
        plan["sched"] = sched.gen_plan(r, n, r.choice([3, 10, 40, 150]))
    return plan


class Own:
    """A codec of the caller: its data is recognised by it alone."""
    def __init__(self, k):
        self.k = k
        self.fail = None            # exception of the next call

    def _t(self, x):
        if self.k % 4 == 0:
            return x
        if self.k % 4 == 1:
            return x[::-1]
        if self.k % 4 == 2:
            return bz2.compress(x)
        return bytes(b ^ 0x5a for b in x)

    def _u(self, x):
        return bz2.decompress(x) if self.k % 4 == 2 else self._t(x)

    def _failing(self):
        if self.fail is not None:
            e, self.fail = self.fail, None
            raise e

    def compress(self, x):
        self._failing()
        return b"U%02d" % self.k + zlib.crc32(x).to_bytes(4, "big") + self._t(x)

    def decompress(self, x):
        self._failing()
        if x[:3] != b"U%02d" % self.k:
            raise ValueError("not mine")
        y = self._u(x[7:])
        if zlib.crc32(y).to_bytes(4, "big") != x[3:7]:
            raise ValueError("damaged")
        return y


def family(impl):
    return "zstd" if isinstance(impl, str) and impl.startswith("zstd") else impl


class File:
    def __init__(self, written, impl):
        self.written, self.impl = written, impl
        self.blocks = []            # lists of encoded documents
        self.data = b""
        self.epoch = None

    def all(self):
        return [d for b in self.blocks for d in b]


class Writer:
    def __init__(self, w, out, f, own, block):
        self.w, self.out, self.f, self.own, self.block = w, out, f, own, block
        self.pending = []
        self.closed = False


class Reader:
    def __init__(self, r, f, left, impl, own):
        self.r, self.f, self.left, self.impl, self.own = r, f, left, impl, own
        self.dead = False


class Machine:
    """One caller: its operations and what it must see."""
    def __init__(self, ctx, t, n, builtin):
        self.ctx, self.t = ctx, t
        self.builtin = builtin      # name -> (compress, decompress, name) at the start
        self.model = {k: (v[2], k, None) for k, v in builtin.items()}     # name -> (written name, implementation, own codec)
        self.names = [x if n == 1 else "%s#%d" % (x, t) for x in OWN]
        self.shared = n > 1
        self.files, self.writers, self.readers = [], [], []
        self.getters = []
        self.held = []              # (codec object, model entry)
        self.epoch = 0
        self.log = []
        self.nontrivial = False
        self.kinds = 0
        self.docs = {}

    def pick(self, xs, i):
        return xs[i % len(xs)] if xs else None

    def doc(self, x):
        tok = ["tiny" if x % 3 else "nil", x % 7]
        if x not in self.docs:
            from docria.codec import MsgpackCodec
            d = docs.build(docs.spec(tok))
            d.props["n"] = x
            self.docs[x] = (d, bytes(MsgpackCodec.encode(d)))
        return self.docs[x]

    def fail(self, kind, detail):
        self.ctx.fail(kind, "thread %d: %s" % (self.t, detail) if self.shared else detail)

    def all_names(self):
        return self.names if self.shared else self.names + [b for b in BUILTIN if b in self.builtin]

    # -- registry ----------------------------------------------------------------------------------------
    def registry_as_modelled(self):
        from docria.collection import get_codec
        for name in self.names + list(self.builtin):
            want = self.model.get(name)
            got = get_codec(name, no_except=True)
            if want is None:
                if got is not None:
                    self.fail("registry-wrong", "%r is not registered, but get_codec returns a codec for it" % name)
            else:
                self.same_codec(name, got, want)

    def same_codec(self, name, got, want):
        if got is None:
            self.fail("registry-wrong", "%r is registered, but there is no codec for it" % name)
        wname, impl, own = want
        if got.name != wname:
            self.fail("registry-wrong", "codec %r writes its data as %r, not %r" % (name, got.name, wname))
        c, d = (own.compress, own.decompress) if own is not None else self.functions(impl)
        if got.compress == c and got.decompress == d:
            return
        if own is None and impl not in ("none", "zip", "quick zip"):
            return                  # costly to try
        if got.compress(PROBE) != c(PROBE) or got.decompress(c(PROBE)) != PROBE:
            self.fail("registry-wrong", "codec %r has other functions than the registered ones" % name)

    def functions(self, impl):
        if impl == "quick zip":
            return quick_zip, zlib.decompress
        return self.builtin[impl][:2]

    def op_register(self, a, b, x):
        from docria.collection import register_codec
        name = self.pick(self.all_names(), a)
        kind = b % 6
        alias = None
        if kind == 0:               # faster variant of a built-in one
            impl, own, alias = "quick zip", None, "zip"
            fns = quick_zip, zlib.decompress
        elif kind == 1 and name in self.builtin and not self.shared:
            impl, own = name, None
            fns, alias = self.builtin[name][:2], self.builtin[name][2]
        else:
            own = Own((self.kinds + self.t * 20) % 90)
            self.kinds += 1
            impl = own.k
            fns = own.compress, own.decompress
            if kind == 2:
                alias = self.pick([y for y in self.all_names() if y != "none"], x)
            elif kind == 3:         # same functions under a second name, which reads as the first
                prev = [(y, v) for y, v in sorted(self.model.items()) if v[2] is not None]
                if prev:
                    alias, (_, impl, own) = self.pick(prev, x)
                    fns = own.compress, own.decompress
        try:
            if alias is None:
                register_codec(name, *fns)
            elif x & 1:
                register_codec(name, fns[0], fns[1], alias)
            else:
                register_codec(name, compress=fns[0], decompress=fns[1], codec_name=alias)
        except ValueError:
            if name not in self.model:
                self.fail("registration-refused", "%r is not in use" % name)
            return "refused"
        if name in self.model:
            self.fail("registration-not-refused", "%r is in use" % name)
        self.model[name] = (alias if alias is not None else name, impl, own)
        self.epoch += 1
        return "ok"

    def op_unregister(self, a, b, x):
        from docria.collection import unregister_codec
        name = self.pick(self.all_names(), a)
        try:
            unregister_codec(name)
        except Exception as e:
            if name in self.model:
                self.fail("unregister-failed", "%r: %s" % (name, xname(e)))
            return "unknown"
        if name not in self.model:
            return "ok"             # nothing says that it raises
        del self.model[name]
        self.epoch += 1
        return "ok"

    def op_swap(self, a, b, x):
        """The name which data was written under gets another codec."""
        from docria.collection import register_codec, unregister_codec
        f = self.pick(self.files, a)
        if f is None or (self.shared and f.written not in self.names):
            return "-"
        if f.written in self.model:
            unregister_codec(f.written)
        own = Own((self.kinds + self.t * 20) % 90)
        self.kinds += 1
        register_codec(f.written, own.compress, own.decompress)
        self.model[f.written] = (f.written, own.k, own)
        self.epoch += 1
        rd = self.open(f, io.BytesIO(f.data))
        return self.read(rd, [1, 100000][b % 2])

    def op_restore(self, a, b, x):
        """A built-in codec which was removed or replaced is registered again."""
        from docria.collection import register_codec, unregister_codec
        gone = [y for y in BUILTIN if y in self.builtin and self.model.get(y) != (self.builtin[y][2], y, None)]
        if not gone or self.shared:
            return "-"
        name = self.pick(gone, a)
        if name in self.model:
            unregister_codec(name)
        c, d, w = self.builtin[name]
        register_codec(name, c, d, codec_name=w)
        self.model[name] = (w, name, None)
        self.epoch += 1
        return "ok"

    def op_get(self, a, b, x):
        from docria.collection import get_codec
        name = self.pick(self.names + BUILTIN + ["zip ", "ZIP", "nope"], a)
        want = self.model.get(name)
        try:
            c = get_codec(name)
        except NotImplementedError:
            if want is not None:
                self.fail("registry-wrong", "get_codec(%r) raises, it is registered" % name)
            if get_codec(name, no_except=True) is not None:
                self.fail("registry-wrong", "get_codec(%r, no_except=True) returns a codec, it is not registered" % name)
            return "none"
        if want is None:
            self.fail("registry-wrong", "get_codec(%r) returns a codec, it is not registered" % name)
        self.same_codec(name, c, want)
        self.held.append((c, want))
        return "ok"

    # -- writers -----------------------------------------------------------------------------------------
    def op_writer(self, a, b, x):
        from docria.collection import CompressionCodec, MsgpackDocumentWriter, get_codec
        how = b % 4
        out = io.BytesIO()
        block = [1, 2, 3, 128][x % 4]
        if how == 0 and self.held:  # obtained earlier, maybe not registered any more
            c, m = self.pick(self.held, a)
        elif how == 1:              # never registered
            own = Own((self.kinds + self.t * 20) % 90)
            self.kinds += 1
            name = self.pick(self.names, a)
            c, m = CompressionCodec(name, own.compress, own.decompress), (name, own.k, own)
        elif how == 2 and self.model.get("zip") == self.default:
            c, m = None, self.default
        else:
            name = self.pick(sorted(self.model), a)
            c, m = get_codec(name), self.model[name]
        w = MsgpackDocumentWriter(out, num_docs_per_block=block) if c is None else MsgpackDocumentWriter(out, block, c)
        f = File(m[0], m[1])
        self.writers.append(Writer(w, out, f, m[2], block))
        return "ok"

    def op_write(self, a, b, x):
        w = self.pick([w for w in self.writers if not w.closed], a)
        if w is None:
            return "-"
        for i in range(1 + b % 3):
            d, data = self.doc(x % 40 + i)
            w.pending.append(data)
            w.w.write(d)
            if len(w.pending) == w.block:
                self.flushed(w)
        return "ok"

    def flushed(self, w):
        if w.pending:
            w.f.blocks.append(w.pending)
            w.pending = []
        f = File(w.f.written, w.f.impl)
        f.blocks = list(w.f.blocks)
        f.data = bytes(w.out.getvalue())
        f.epoch = self.epoch
        self.files.append(f)

    def op_flush(self, a, b, x):
        w = self.pick([w for w in self.writers if not w.closed], a)
        if w is None:
            return "-"
        w.w.flush()
        self.flushed(w)
        return "ok"

    def op_flush_fail(self, a, b, x):
        w = self.pick([w for w in self.writers if not w.closed and w.own is not None and w.pending], a)
        if w is None:
            return "-"
        e = self.pick(ERRORS, x)("codec failed")
        w.own.fail = e
        try:
            w.w.flush()
        except Exception as got:
            if got is not e and got.__cause__ is not e and got.__context__ is not e:
                self.fail("wrong-error", "compressing raised %s, flush %s" % (xname(e), xname(got)))
        else:
            self.fail("codec-failure-hidden", "compressing raised %s, flush nothing" % xname(e))
        finally:
            w.own.fail = None
        self.ctx.faults["codec function raises"] += 1
        try:
            w.w.flush()
        except Exception as got:
            self.fail("flush-not-repeatable", "after compressing had failed once: %s" % xname(got))
        self.flushed(w)
        return xname(e)

    def op_close(self, a, b, x):
        w = self.pick([w for w in self.writers if not w.closed], a)
        if w is None:
            return "-"
        w.w.flush()
        self.flushed(w)
        w.w.close()
        w.closed = True
        return "ok"

    # -- readers -----------------------------------------------------------------------------------------
    def open(self, f, source):
        """A reader, or None where there must be none."""
        from docria.collection import MsgpackDocumentReader
        entry = self.model.get(f.written)
        if f.epoch != self.epoch or self.shared:
            self.nontrivial = True
        try:
            r = MsgpackDocumentReader(source)
        except NotImplementedError:
            if entry is not None:
                self.fail("registered-codec-not-found", "data written as %r" % f.written)
            return None
        if entry is None:
            self.fail("unknown-codec-accepted", "data written as %r, no such codec is registered" % f.written)
        return Reader(r, f, f.all(), entry[1], entry[2])

    def readable(self, rd):
        a, b = family(rd.f.impl), family(rd.impl)
        return a == b or {a, b} == {"zip", "quick zip"}

    def op_reader(self, a, b, x):
        f = self.pick(self.files, a)
        if f is None:
            return "-"
        rd = self.open(f, io.BytesIO(f.data))
        if rd is None:
            return "unknown codec"
        self.readers.append(rd)
        return "ok"

    def op_read(self, a, b, x):
        rd = self.pick([r for r in self.readers if not r.dead], a)
        if rd is None:
            return "-"
        return self.read(rd, [1, 2, 5, 1000][b % 4])

    def read(self, rd, n):
        for _ in range(n):
            try:
                d = next(rd.r)
                got = bytes(d.binary())
            except StopIteration:
                if rd.left:
                    self.fail("documents-missing", "%d documents left of a collection written as %r" % (len(rd.left), rd.f.written))
                rd.dead = True
                return "end"
            except Exception as e:
                if self.readable(rd):
                    self.fail("read-failed", "%s: %s" % (xname(e), e))
                rd.dead = True
                return xname(e)
            if not self.readable(rd):
                self.fail("read-with-another-codec", "data of codec %r given out by codec %r, both named %r" % (rd.f.impl, rd.impl, rd.f.written))
            if not rd.left:
                self.fail("documents-invented", "more documents than were written")
            if got != rd.left[0]:
                self.fail("document-changed", "%d bytes, not the %d written" % (len(got), len(rd.left[0])))
            rd.left = rd.left[1:]
        return "ok"

    def op_whole(self, a, b, x):
        f = self.pick(self.files, a)
        if f is None:
            return "-"
        rd = self.open(f, io.BytesIO(f.data))
        return "unknown codec" if rd is None else self.read(rd, 100000)

    def op_getter(self, a, b, x):
        """A reader which is asked for documents by reference, whatever happens to the registry meanwhile."""
        f = self.pick(self.files, a)
        if f is None:
            return "-"
        rd = self.open(f, io.BytesIO(f.data))
        if rd is None:
            return "unknown codec"
        if not self.readable(rd):
            return "other codec"
        refs = [(d.ref, bytes(d.binary())) for d in rd.r]
        if [d for _, d in refs] != f.all():
            self.fail("document-changed", "%d documents read, %d written" % (len(refs), len(f.all())))
        if refs:
            self.getters.append((rd.r, refs))
        return "ok"

    def op_ref(self, a, b, x):
        g = self.pick(self.getters, a)
        if g is None:
            return "-"
        ref, want = g[1][b % len(g[1])]
        try:
            got = bytes(g[0].get(ref).binary())
        except Exception as e:
            self.fail("read-failed", "by reference: %s: %s" % (xname(e), e))
        if got != want:
            self.fail("document-changed", "by reference")
        return "ok"

    def op_read_fail(self, a, b, x):
        from docria.collection import MsgpackDocumentReader
        mine = [f for f in self.files if f.blocks and self.model.get(f.written, (0, 0, None))[2] is not None and self.model[f.written][1] == f.impl]
        f = self.pick(mine, a)
        if f is None:
            return "-"
        own = self.model[f.written][2]
        rd = MsgpackDocumentReader(io.BytesIO(f.data))
        e = self.pick(ERRORS, x)("codec failed")
        own.fail = e
        try:
            d = next(rd)
        except StopIteration:
            self.fail("codec-failure-hidden", "decompressing raised %s, the reader came to its end" % xname(e))
        except Exception as got:
            if got is not e and got.__cause__ is not e and got.__context__ is not e:
                self.fail("wrong-error", "decompressing raised %s, reading %s" % (xname(e), xname(got)))
        else:
            self.fail("codec-failure-hidden", "decompressing raised %s, a document was given out" % xname(e))
        finally:
            own.fail = None
        self.ctx.faults["codec function raises"] += 1
        return self.op_whole(self.files.index(f), 0, 0)

    def op_index(self, a, b, x):
        """Index and search open the file by its path, each by the registry of its time."""
        from docria.collection import DocumentFileIndex
        f = self.pick(self.files, a)
        if f is None or self.shared:
            return "-"
        path = os.path.join(self.ctx.tmp, "f%d.docria" % (x % 3))
        with open(path, "wb") as o:
            o.write(f.data)
        entry = self.model.get(f.written)
        ok = entry is not None and self.readable(Reader(None, f, [], entry[1], entry[2]))
        try:
            ix = DocumentFileIndex.build(path, "n")
        except Exception as e:
            if ok:
                self.fail("read-failed", "building an index: %s: %s" % (xname(e), e))
            if entry is None and not isinstance(e, NotImplementedError):
                self.fail("wrong-error", "data written as %r, no such codec is registered: %s" % (f.written, xname(e)))
            return xname(e)
        if not ok and (entry is None or f.blocks):
            self.fail("unknown-codec-accepted" if entry is None else "read-with-another-codec", "index of data written as %r" % f.written)
        if len(ix.docrefs) != len(f.all()):
            self.fail("documents-missing", "index of %d documents, %d were written" % (len(ix.docrefs), len(f.all())))
        keys = sorted(ix.properties["n"])
        if not keys:
            return "empty"
        key = self.pick(keys, b)
        # between index and search the codec is removed
        removed = x & 8 and not self.shared and f.written in self.model
        if removed:
            from docria.collection import unregister_codec
            unregister_codec(f.written)
            del self.model[f.written]
            self.epoch += 1
        try:
            got = [bytes(d.binary()) for d in ix.search({"n": key}, lazy=True)]
        except Exception as e:
            if not removed:
                self.fail("read-failed", "search: %s: %s" % (xname(e), e))
            return "removed"
        if removed:
            self.fail("unknown-codec-accepted", "search in data written as %r, no such codec is registered any more" % f.written)
        want = [d for d in f.all() if d == self.docs[key][1]]
        if got != want:
            self.fail("document-changed", "search for %r: %d documents, not %d" % (key, len(got), len(want)))
        return "ok"

    def step(self, op):
        _, k, a, b, x = op
        out = getattr(self, "op_" + k)(a, b, x)
        self.log.append((k, out))

    def finish(self):
        self.registry_as_modelled()
        for w in self.writers:
            if not w.closed:
                w.w.flush()
                self.flushed(w)
        for f in self.files[-6:]:
            rd = self.open(f, io.BytesIO(f.data))
            if rd is not None:
                self.read(rd, 100000)
        for rd in self.readers:     # opened under whatever was registered then
            if not rd.dead:
                self.read(rd, 100000)


def quick_zip(x):
    return zlib.compress(x, 1)


def execute(plan, ctx):
    from docria.collection import get_codec, register_codec, unregister_codec
    builtin = {}
    for b in BUILTIN:
        c = get_codec(b, no_except=True)
        if c is not None:
            builtin[b] = (c.compress, c.decompress, c.name)
        elif b in coll.codec_pool():
            ctx.fail("codec-missing", "get_codec(%r) although nobody removed it" % b)
    default = ("zip", "zip", None)
    n = plan["threads"]
    machines = [Machine(ctx, t, n, builtin) for t in range(n)]

    def restore():
        for name in [y for m in machines for y in m.names] + BUILTIN:
            if get_codec(name, no_except=True) is not None:
                unregister_codec(name)
        for name, (c, d, w) in builtin.items():
            register_codec(name, c, d, codec_name=w)
    ctx.cleanups.append(restore)
    for m in machines:
        m.default = default
    if n == 1:
        m = machines[0]
        for op in plan["ops"]:
            m.step(op)
            if op[1] in ("register", "unregister", "restore", "get"):
                m.registry_as_modelled()
        m.finish()
    else:
        def body(m):
            def run():
                for op in plan["ops"]:
                    if op[0] % n == m.t:
                        m.step(op)
                m.finish()
            return run
        for m in machines:          # encoded documents are not what is interleaved here
            for i in range(45):
                m.doc(i)
        s = sched.Sched(ctx, [body(m) for m in machines], plan["sched"], grain=plan["grain"])
        tasks = s.run()
        ctx.steps += s.total
        ctx.now += s.total * 1e-6
        ctx.faults["thread switch"] += s.switches
        ctx.state(tuple(s.trace))
        ctx.ev("trace", hashlib.sha256(repr(s.trace).encode()).hexdigest()[:12], len(s.trace))
        for t in tasks:
            if t.error is not None:
                raise t.error
        for m in machines:
            m.registry_as_modelled()
    for m in machines:
        ctx.ev(*m.log)
        for i in range(len(m.log)):
            ctx.state(tuple(m.log[max(0, i - 3):i + 1]))
        if m.nontrivial:
            ctx.nontrivial = True
        for k, out in m.log:
            if out not in ("ok", "-"):
                ctx.probes["%s: %s" % (k, out)] += 1
