"""C05: boundary framing is transparent and always locates the last split."""
import io
import struct

from .. import coll, docs
from ..core import READ_KINDS, WRITE_KINDS, xname
from ..rng import derive
from ..simio import SimRaw, Store, open_stream

ID = "C05"
RUNS = {"quick": 32000, "thorough": 700000}
LISTS = ["ops", "reads"]
RULE = ("A run draws writes and split marks with sizes around the boundary (directly, or through a document writer), output "
        "failures which store nothing, then reads, seeks and tells over whole and truncated images, on streams with short "
        "reads and read errors.")
NONTRIVIAL = "at least one boundary marker was written and read over."
STATES = "distinct (position class relative to the boundary, operation, fault, markers so far capped) combinations"
STUB = ["underlying streams (SimRaw: short writes, failing writes, short reads, read and seek errors, truncation)"]


def gen_size(r, b):
    size = 1 << b
    k = r.random()
    if k < 0.3:
        return r.choice([0, 1, 2, 3, 4, 5, 7])
    if k < 0.55:
        return size * r.choice([1, 1, 1, 2, 3]) + r.randrange(-10, 11)
    if k < 0.7:
        return size - 4 + r.randrange(-6, 7)
    if k < 0.85:
        return -(1 + r.randrange(12))      # up to n bytes before (or behind) the next boundary
    return r.randrange(size * 2)


def gen_giant(r):
    """More than 2 GiB since the last split: markers cannot hold the distance."""
    ops = []
    left = r.choice([13, 13, 14, 17]) << 28
    while left > 0:
        n = r.choice([1 << 26, 1 << 26, 1 << 26, (1 << 26) - 5])
        left -= n
        ops.append(["zeros", n, None])
        k = r.random()
        if k < 0.15:
            ops.append(["write", r.randrange(1, 9), None])
        elif k < 0.18:
            ops.append(["split", 0, None])
    at = [r.choice([1, 2, 3, 2, 3]) for _ in range(8)]
    return {"b": 30, "giant": True, "ops": ops, "reads": [["seek", [a, r.randrange(-9, 10)], r.randrange(1, 30)] for a in at],
            "seed": r.randrange(1 << 30)}


def gen(r, tier):
    if r.chance(0.0004):
        return gen_giant(r)
    b = r.choice([12, 12, 12, 12, 13, 13, 14, 15, 16]) if not r.chance(0.01) else r.choice([18, 20])
    docmode = r.chance(0.2)
    ops = []
    for _ in range(r.choice([1, 2, 4, 8, 16])):
        if docmode:
            ops.append(["doc", docs.doc_token(r, [(3, "small"), (3, "medium"), (1, "many"), (1, "big"), (2, "nil")]), None])
            if r.chance(0.4):
                ops.append(["flush", 0, None])
            continue
        k = r.random()
        if k < 0.62:
            f = None
            if r.chance(0.2):
                f = {"on": "write", "n": r.choice([0, 0, 1, 1, 2, 3]), "kind": r.choice(WRITE_KINDS)}
            ops.append(["write", gen_size(r, b), f])
        elif k < 0.9:
            ops.append(["split", 0, None])
        else:
            ops.append(["flush", 0, None])
    if docmode:
        ops.append(["flush", 0, None])
    reads = []
    for _ in range(r.choice([2, 5, 10, 20])):
        k = r.random()
        f = {"on": r.choice(["read", "read", "seek"]), "n": r.choice([0, 1, 2, 4]), "kind": r.choice(READ_KINDS)} if r.chance(0.08) else None
        if k < 0.6:
            reads.append(["read", gen_size(r, b), f])
        elif k < 0.68:
            reads.append(["readall", r.choice([-1, -1, 0]), f])
        else:
            reads.append(["seek", [r.choice(["near", "near", "any", "end", "start"]), r.randrange(1 << 30), r.randrange(-9, 10)], f])
    return {"b": b, "ops": ops, "doc": docmode, "nper": r.choice([1, 2, 3]), "reads": reads,
            "wshort": r.choice([None, None, None, [5], [4096], [1, 0]]),
            "stream": r.choice(["bytesio", "raw", "raw", "pipe"]), "short": r.choice(coll.SHORTS),
            "cut": r.choice([None, None, None, ["near", r.randrange(64), r.randrange(-3, 9)], ["any", r.randrange(1 << 30), 0]]),
            "seed": r.randrange(1 << 30)}


def bytes_for(seed, n):
    r = derive("bytes", seed)
    base = bytes(r.getrandbits(8) for _ in range(251))
    return (base * (n // 251 + 1))[:n]


def image_of(b, data, splits):
    """The framed stream, from the definition: data with a marker at each multiple of 2^b which is followed by data.

    splits: how many bytes were stored when each split mark was made."""
    size = 1 << b
    out = bytearray([b])
    pos, i, last = 0, 0, 1
    while pos < len(data):
        if len(out) % size == 0:
            while i < len(splits) and splits[i] <= len(out):
                last = splits[i]
                i += 1
            out += struct.pack(">i", max(last - len(out), -0x80000000))
        n = min(size - len(out) % size, len(data) - pos)
        out += data[pos:pos + n]
        pos += n
    return bytes(out)


def raw_end(b, n):
    """Raw length once n logical bytes are stored (a marker is only stored together with what follows it)."""
    size = 1 << b
    if n <= size - 1:
        return 1 + n
    rest = n - (size - 1)
    return size + 4 * -(-rest // (size - 4)) + rest


def logical(b, raw):
    """Logical bytes of a framed image or a prefix of one."""
    size = 1 << b
    out = bytearray(raw[1:size])
    for k in range(size, len(raw), size):
        out += raw[k + 4:k + size]
    return bytes(out)


class SparseRaw(io.RawIOBase):
    """A stream of mostly zeros: only the other bytes are kept."""
    def __init__(self):
        super().__init__()
        self.bytes = {}
        self.pos = self.size = 0

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if len(b) < 64 or b.count(0) != len(b):
            for i, x in enumerate(b):
                if x:
                    self.bytes[self.pos + i] = x
        self.pos += len(b)
        self.size = max(self.size, self.pos)
        return len(b)

    def seek(self, offset, whence=0):
        self.pos = offset + {0: 0, 1: self.pos, 2: self.size}[whence]
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        n = self.size - self.pos if n is None or n < 0 else max(0, min(n, self.size - self.pos))
        out = bytearray(n)
        for p, x in self.bytes.items():
            if self.pos <= p < self.pos + n:
                out[p - self.pos] = x
        self.pos += n
        return bytes(out)


def giant(plan, ctx):
    from docria.collection import _BoundaryReader, _BoundaryWriter
    b, size = plan["b"], 1 << plan["b"]
    zeros = bytes(1 << 26)
    raw = SparseRaw()
    w = _BoundaryWriter(raw, boundary=b)
    n, want = 0, {}             # logical bytes, those which are not zero
    marks, last = {}, 1         # marker position -> value
    for i, (op, k, _) in enumerate(plan["ops"]):
        ctx.steps += 1
        if op == "split":
            w.split()
            last = raw_end(b, n)
            continue
        if op == "zeros":
            data = zeros[:k] if k < len(zeros) else zeros
        else:
            data = bytes_for(plan["seed"] + i, k)
            want.update({n + j: x for j, x in enumerate(data) if x})
        first = -(-raw_end(b, n) // size) * size
        n += len(data)
        for m in range(first, raw_end(b, n), size):
            if m:
                marks[m] = max(last - m, -0x80000000)
        ctx.check(w.write(data) == len(data), "wrong-count", "write")
    ctx.check(raw.size == raw_end(b, n), "framing-data", "%d bytes stored, expected %d" % (raw.size, raw_end(b, n)))
    for m, v in marks.items():
        got = bytes(raw.bytes.get(m + j, 0) for j in range(4))
        ctx.check(got == struct.pack(">i", v), "framing-marker", "marker at %d is %r, expected %d" % (m, got, v))
    rd = _BoundaryReader((raw.seek(0), raw)[1])
    for op, (k, d), m in plan["reads"]:
        to = min(n, max(0, size - 1 + (k - 1) * (size - 4) + d))
        ctx.check(rd.seek(to) == to, "wrong-position", "seek")
        got = rd.read(m)
        exp = bytes(want.get(j, 0) for j in range(to, min(n, to + m)))
        ctx.check(exp.startswith(got) and (got or not exp), "wrong-bytes", "read(%d) at %d" % (m, to))
        ctx.check(rd.tell() == to + len(got), "wrong-position", "tell")
    ctx.ev("giant", n, sorted(marks.items()))
    ctx.state("giant", tuple(sorted(marks.items())))
    ctx.probes["more than 2 GiB since the last split"] += any(v == -0x80000000 for v in marks.values())
    ctx.nontrivial = True


def execute(plan, ctx):
    if plan.get("giant"):
        return giant(plan, ctx)
    from docria.collection import MsgpackDocumentWriter, _BoundaryReader, _BoundaryWriter
    b = plan["b"]
    size = 1 << b
    keep = coll.Closing(ctx)
    store = Store()
    raw = SimRaw(ctx, store, short=plan["wshort"])
    w = _BoundaryWriter(raw, boundary=b)
    keep.keep(raw, w)
    content = bytearray()
    splits = []
    dangling = False

    def verify(what):
        exp = image_of(b, bytes(content), splits)
        got = bytes(store.data)
        if got != exp:
            if dangling and got[:len(exp)] == exp and len(got) == len(exp) + 4 and len(exp) % size == 0:
                return
            k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            where = "marker" if k >= size and k % size < 4 else "data"
            ctx.fail("framing-" + where, "%s: byte %d of %d (expected %d), boundary 2^%d" % (what, k, len(got), len(exp), b))

    if plan["doc"]:
        # through the document writer: the split marks are the ends of the header and of each block
        dw = MsgpackDocumentWriter(w, num_docs_per_block=plan["nper"], codec=coll.codec("none"))
        keep.keep(dw)
        ends = [len(store.data)]
        n = 0
        for op in plan["ops"]:
            if op[0] == "doc":
                dw.write(docs.build(docs.spec(op[1])))
                n += 1
                if n == plan["nper"]:
                    n = 0
                    ends.append(len(store.data))
            else:
                dw.flush()
                n = 0
                ends.append(len(store.data))
            ctx.ev(op[0], len(store.data))
        dw.close()
        img = bytes(store.data)
        content = bytearray(logical(b, img))
        for k in range(size, len(img), size):
            v = struct.unpack(">i", img[k:k + 4])[0]
            # header end included: the mark in force is the end of the last block stored before the marker
            exp = max(e for e in ends if e <= k)
            ctx.check(k + v == exp, "framing-marker", "marker at %d points to %d, last block ended at %d" % (k, k + v, exp))
        from docria.collection import MsgpackDocumentReader
        got = [coll.full(d) for d in MsgpackDocumentReader(_BoundaryReader(io.BytesIO(img)))]
        coll.same(ctx, got, [docs.canon_token(op[1]) for op in plan["ops"] if op[0] == "doc"], "wrong-documents", "")
    else:
        for i, (op, n, fault) in enumerate(plan["ops"]):
            ctx.steps += 1
            if op == "write":
                if n < 0:
                    # measured from the next boundary
                    at = raw_end(b, len(content))
                    n = max(0, size - at % size + n + 6)
                data = bytes_for(plan["seed"] + i, n)
                if fault is not None:
                    raw.short = None
                ctx.arm(fault)
                try:
                    res = w.write(data if i % 3 else memoryview(data).tobytes())
                    ctx.check(not ctx.fired, "silent-failure", "write returned although the output failed")
                    ctx.check(res == n, "wrong-count", "write returned %r for %d bytes" % (res, n))
                    content += data
                    dangling = dangling and n == 0
                except OSError as e:
                    if not ctx.fired:
                        raise
                    # a prefix of the data is stored: which one is visible in the output, and nothing else may be
                    got = logical(b, bytes(store.data))
                    ctx.check(len(content) <= len(got) <= len(content) + n, "framing-data", "after a failed write")
                    new = len(got) - len(content)
                    ctx.check(new > 0 or bytes(store.data[raw_end(b, len(content)):]) == b"" or dangling
                              or raw_end(b, len(content)) % size == 0, "framing-data", "after a failed write")
                    content += data[:new]
                    dangling = True
                    ctx.probes["failed write"] += 1
                finally:
                    ctx.disarm()
                    raw.short = plan["wshort"]
            elif op == "split":
                w.split()
                splits.append(len(store.data))
            else:
                w.flush()
            verify(op)
            ctx.state(op, min(3, len(store.data) >> b), fault is not None, rel(len(store.data), size))
            ctx.ev(op, n, len(store.data))
    img = bytes(store.data)
    if plan["cut"] is not None:
        kind, x, d = plan["cut"]
        if kind == "near":
            cut = (x % ((len(img) >> b) + 1)) * size + d
        else:
            cut = x % len(img)
        img = img[:max(1, min(len(img), cut))]
        ctx.faults["truncated"] += 1
    want = logical(b, img)
    s = open_stream(ctx, Store(img), plan["stream"], plan["short"])
    rd = _BoundaryReader(s)
    keep.keep(s, rd)
    pos = 0
    crossed = False
    for op, n, fault in plan["reads"]:
        ctx.steps += 1
        ctx.arm(fault)
        try:
            if op == "seek":
                if plan["stream"] == "pipe":
                    continue
                kind, x, d = n
                if kind == "near":
                    to = size - 1 + (x % 4) * (size - 4) + d
                elif kind == "end":
                    to = len(want) - abs(d)
                elif kind == "start":
                    to = abs(d)
                else:
                    to = x % (len(want) + 1)
                to = max(0, min(len(want), to))
                res = rd.seek(to)
                ctx.check(res == to, "wrong-position", "seek(%d) returned %r" % (to, res))
                pos = to
            else:
                if op == "readall":
                    n = None if n == 0 else -1
                    req = len(want)
                else:
                    if n < 0:
                        n = -n
                    req = n
                if pos is None:
                    continue
                got = rd.read(n)
                exp = want[pos:pos + req]
                if got != exp:
                    # a raw stream may return fewer bytes, but not none before the end
                    if not (op == "read" and got and exp.startswith(got)):
                        k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
                        ctx.fail("wrong-bytes", "read(%r) at %d: %d bytes, expected %d, first difference at logical offset %d" % (
                            n, pos, len(got), len(exp), pos + k))
                if (pos + 1) >> b != (pos + len(got)) >> b:
                    crossed = True
                pos += len(got)
            if pos is not None:
                ctx.check(rd.tell() == pos, "wrong-position", "%s: tell() is %r, expected %d" % (op, rd.tell(), pos))
        except OSError:
            if not ctx.fired:
                raise
            pos = None              # unknown until the next seek
            ctx.probes["read error, continued by seeking"] += 1
        finally:
            ctx.disarm()
        ctx.ev(op, pos)
        ctx.state(op, plan["stream"], pos is not None and rel(pos + 1, size), fault is not None, plan["cut"] is not None)
    if crossed:
        ctx.nontrivial = True


def rel(pos, size):
    m = pos % size
    return m if m < 6 else (m - size if m > size - 6 else 9)
