"""Simulated streams, files, clock and process pool."""
import errno
import io
import os
import pickle

from . import seams
from .core import io_error

def raise_fault(f):
    kind = f["kind"]
    raise io_error("EIO" if kind in ("torn", "error") else kind)


class Store:
    """The bytes a simulated device holds; survives crashes of whoever wrote them."""
    def __init__(self, data=b""):
        self.data = bytearray(data)


class SimRaw(io.RawIOBase):
    """A raw stream over a Store: short reads/writes, faults, optionally not seekable.

    short: cyclic list of maximal bytes per call, 0 = no limit.
    """
    def __init__(self, ctx, store=None, short=None, can_seek=True, writable=True, owner=""):
        super().__init__()
        self.ctx = ctx
        self.store = store if store is not None else Store()
        self.short = short or None
        self.nshort = 0
        self.pos = 0
        self.can_seek = can_seek
        self.can_write = writable
        self.dead = False           # crashed: nothing is stored any more

    def _limit(self, n):
        if self.short is None or n <= 0:
            return n
        k = self.short[self.nshort % len(self.short)]
        self.nshort += 1
        if k:
            k = max(k, n // 50)     # bounds the number of calls for one large request
        if k and k < n:
            self.ctx.faults["short"] += 1
            return k
        return n

    def readable(self):
        return True

    def writable(self):
        return self.can_write

    def seekable(self):
        return self.can_seek

    def _check_open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._check_open()
        f = self.ctx.io("read")
        if f is not None:
            raise_fault(f)
        left = max(0, len(self.store.data) - self.pos)
        if n is None or n < 0:
            n = left
        else:
            n = self._limit(min(n, left))
        out = bytes(self.store.data[self.pos:self.pos + n])
        self.pos += len(out)
        return out

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)

    def write(self, b):
        self._check_open()
        b = bytes(b)
        f = self.ctx.io("write")
        if f is not None and f["kind"] != "torn":
            raise_fault(f)
        if f is not None:
            b = b[:f.get("keep", 0) % (len(b) + 1)]
        elif len(b):
            b = b[:self._limit(len(b))]
        if not self.dead:
            gap = self.pos - len(self.store.data)
            if gap > 0:
                self.store.data += b"\0" * gap
            self.store.data[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        if f is not None:
            raise_fault(f)
        return len(b)

    def seek(self, offset, whence=0):
        self._check_open()
        if not self.can_seek:
            raise io.UnsupportedOperation("underlying stream is not seekable")
        f = self.ctx.io("seek")
        if f is not None:
            raise_fault(f)
        if whence == 0:
            pos = offset
        elif whence == 1:
            pos = self.pos + offset
        else:
            pos = len(self.store.data) + offset
        if pos < 0:
            raise OSError(errno.EINVAL, "negative seek")
        self.pos = pos
        return pos

    def tell(self):
        self._check_open()
        if not self.can_seek:
            raise io.UnsupportedOperation("underlying stream is not seekable")
        return self.pos

    def flush(self):
        self._check_open()
        f = self.ctx.io("flush")
        if f is not None:
            raise_fault(f)

    def close(self):
        if not self.closed:
            f = self.ctx.io("close")
            super().close()         # IOBase.close calls flush
            if f is not None:
                raise_fault(f)      # as close(2): the descriptor is gone even if closing reports an error

    def __del__(self):
        pass


def open_stream(ctx, store, kind, short=None):
    """A reading stream of the given kind over store."""
    if kind == "bytesio":
        return io.BytesIO(bytes(store.data))
    if kind == "raw":
        return SimRaw(ctx, store, short=short, writable=False)
    if kind == "pipe":
        return SimRaw(ctx, store, short=short, can_seek=False, writable=False)
    if kind == "buffered":
        return io.BufferedReader(SimRaw(ctx, store, short=short, writable=False), 512)
    raise ValueError(kind)


# -- path based worlds ----------------------------------------------------------------------------------

class PathFile:
    """Wraps a real file below the scratch root; consults the fault schedule on every call."""
    def __init__(self, ctx, real):
        self._ctx = ctx
        self._real = real

    def _f(self, call):
        f = self._ctx.io(call)
        if f is not None:
            raise_fault(f)

    def read(self, *a):
        self._f("read")
        return self._real.read(*a)

    def readinto(self, b):
        self._f("read")
        return self._real.readinto(b)

    def write(self, b):
        self._f("write")
        return self._real.write(b)

    def seek(self, *a):
        self._f("seek")
        return self._real.seek(*a)

    def flush(self):
        if not self._real.closed:
            self._f("flush")
        return self._real.flush()

    def close(self):
        return self._real.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._real)

    def __getattr__(self, name):
        return getattr(self._real, name)


def use_scratch(ctx, shuffle=None, on_open=None):
    """Route open()/listdir() below the run's scratch directory through the simulator."""
    seams.hook_root = os.path.abspath(ctx.tmp)

    def hook(real, path, mode, args, kwargs):
        if on_open is not None:
            on_open(path, mode)
        f = ctx.io("open")
        if f is None and ctx.armed is not None and ctx.armed["on"] == "open:" + os.path.basename(path):
            f = ctx.io("open:" + os.path.basename(path))
        if f is not None:
            raise_fault(f)
        h = real(path, mode, *args, **kwargs)
        return PathFile(ctx, h) if "b" in mode else h
    seams.open_hook = hook
    if shuffle is not None:
        seams.listdir_hook = shuffle
    ctx.cleanups.append(seams.reset)


# -- process pool ---------------------------------------------------------------------------------------

class _Result:
    def __init__(self, ok, value):
        self._ok, self._value = ok, value

    def get(self, timeout=None):
        if self._ok:
            return self._value
        raise self._value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._ok


class SimPool:
    """multiprocessing.Pool without processes: arguments and results are pickled as real workers do;
    the seeded generator decides the order in which tasks start and finish."""
    def __init__(self, ctx, rng, processes):
        self.ctx, self.rng = ctx, rng
        self.n = processes or 4
        if not isinstance(self.n, int) or self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.closed = False

    def _call(self, fn, args, kwargs=None):
        fn, args, kwargs = pickle.loads(pickle.dumps((fn, args, kwargs or {})))
        try:
            res = fn(*args, **kwargs)
            return True, pickle.loads(pickle.dumps(res))
        except Exception as e:
            try:
                data = pickle.dumps(e)
            except Exception as pe:
                # as multiprocessing.pool.MaybeEncodingError
                return False, RuntimeError("unpicklable %s" % type(pe).__name__)
            try:
                return False, pickle.loads(data)
            except Exception:
                # a real pool loses its result thread here, and its caller waits forever
                self.ctx.fail("hang", "worker error %s cannot be loaded by the parent" % type(e).__name__)

    def _completion_order(self, k):
        """Tasks start in submission order on n workers; any running one may finish next."""
        running, order, nxt = [], [], 0
        while len(order) < k:
            while len(running) < self.n and nxt < k:
                running.append(nxt)
                nxt += 1
            order.append(running.pop(self.rng.randrange(len(running))))
        return order

    def _run(self, fn, argtuples):
        if self.closed:
            raise ValueError("Pool not running")
        order = self._completion_order(len(argtuples))
        self.ctx.ev("pool", tuple(order))
        self.ctx.state("pool", tuple(order))
        res = {}
        for i in order:
            self.ctx.now += self.rng.random()
            res[i] = self._call(fn, argtuples[i])
            yield i, res[i]

    @staticmethod
    def _value(r):
        if r[0]:
            return r[1]
        raise r[1]

    def imap_unordered(self, fn, it, chunksize=1):
        return self._iter(self._run(fn, [(x,) for x in it]))

    def _iter(self, gen):
        class It:
            def __iter__(s):
                return s

            def __next__(s):
                return SimPool._value(next(gen)[1])

            def next(s, timeout=None):
                return s.__next__()
        return It()

    def _all(self, fn, argtuples):
        out = dict(self._run(fn, argtuples))
        return [out[i] for i in range(len(argtuples))]

    def imap(self, fn, it, chunksize=1):
        return self._iter(enumerate(self._all(fn, [(x,) for x in it])))

    def map(self, fn, it, chunksize=None):
        return [self._value(r) for r in self._all(fn, [(x,) for x in it])]

    def starmap(self, fn, it, chunksize=None):
        return [self._value(r) for r in self._all(fn, [tuple(x) for x in it])]

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(fn, it), callback, error_callback)

    def _async(self, run, callback, error_callback):
        try:
            v = run()
        except Exception as e:
            if error_callback:
                error_callback(e)
            return _Result(False, e)
        if callback:
            callback(v)
        return _Result(True, v)

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.starmap(fn, it), callback, error_callback)

    def apply(self, fn, args=(), kwds=None):
        return self._value(self._call(fn, tuple(args), kwds))

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        ok, v = self._call(fn, tuple(args), kwds)
        if ok and callback:
            callback(v)
        if not ok and error_callback:
            error_callback(v)
        return _Result(ok, v)

    def close(self):
        self.closed = True

    terminate = close

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimExecutor:
    """concurrent.futures.ProcessPoolExecutor over a SimPool: a task runs when it is submitted."""
    def __init__(self, pool):
        self.pool = pool

    def submit(self, fn, *args, **kwargs):
        from concurrent.futures import Future
        if self.pool.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Future()
        f.set_running_or_notify_cancel()
        ok, v = self.pool._call(fn, args, kwargs)
        if ok:
            f.set_result(v)
        else:
            f.set_exception(v)
        f.sim_pool = self.pool
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        return map(self.pool._value, self.pool._all(fn, list(zip(*iterables))))

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def sim_as_completed(real):
    def as_completed(fs, timeout=None):
        fs = list(fs)
        pools = [f.sim_pool for f in fs if hasattr(f, "sim_pool")]
        if not pools:
            yield from real(fs, timeout)
            return
        for i in pools[0]._completion_order(len(fs)):
            yield fs[i]
    return as_completed
