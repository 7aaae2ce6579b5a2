"""Seeded interleaving of real threads, one running at a time.

Every thread hands over at yield points: each executed source line (or bytecode instruction) of docria, and,
if asked for, of the pure Python part of msgpack; simulated file opens; simulated locks. The plan is a list of
[thread choice, number of yield points] or [thread choice, most yield points, salt, modulus]: the latter runs the thread
until it comes to a source line whose hash with the salt is divisible by the modulus, so that a line executed once is as
likely a place to switch at as one in a hot loop. When the plan is used up, the threads finish one after the other.
"""
import os
import sys
import threading
import zlib

from . import boot
from .core import HangTimeout

_current = None         # the scheduler of the run, if any
_real_lock = threading.Lock
_real_rlock = threading.RLock
_allocate = threading._allocate_lock


class SimLock:
    """Lock of library code: waiting is a yield point, so a parked owner cannot block the simulator."""
    def __init__(self, reentrant=False):
        self._owner, self._count, self._reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            s = _current
            if s is None or not s.blocked():
                raise HangTimeout("deadlock")
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0

    def _is_owned(self):
        return self._owner == threading.get_ident()


def _from_library():
    f = sys._getframe(2)
    return f.f_globals.get("__name__", "").split(".")[0] == "docria"


def _lock():
    return SimLock() if _from_library() else _real_lock()


def _rlock():
    return SimLock(True) if _from_library() else _real_rlock()


def install():
    """Called before docria is imported: locks it creates are simulated ones."""
    threading.Lock = _lock
    threading.RLock = _rlock


class _Stop(BaseException):
    """Unwinds the threads of a run which is over."""


class Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.go = _allocate()
        self.go.acquire()
        self.done = False
        self.waiting = False        # stands before a held lock
        self.result = None
        self.error = None
        self.yields = 0
        self.visits = {}
        self.quiet = 0              # > 0: no switches, the work is preparation


class Sched:
    def __init__(self, ctx, fns, plan, grain="line", deep=False, limit=4000000):
        self.ctx = ctx
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.plan = [list(p) for p in plan]
        self.step = 0
        self.left = 0
        self.at = None              # (salt, modulus) of the lines to switch at
        self.hashes = {}
        self.cur = None
        self.main = _allocate()
        self.main.acquire()
        self.stopping = False
        self.total = 0
        self.limit = limit
        self.trace = []             # (from, to) at each actual switch
        self.switches = 0
        self.fatal = None
        self.grain = grain
        prefixes = [boot.DOCRIA_DIR]
        if deep:
            import msgpack
            prefixes.append(os.path.dirname(msgpack.__file__) + os.sep)
        self.prefixes = tuple(prefixes)
        self.known = {}
        if grain == "opcode":
            # CPython delivers instruction events to threads traced after the first such request only
            sys._getframe().f_trace_opcodes = True
            sys._getframe().f_trace_opcodes = False

    # -- scheduling --------------------------------------------------------------------------------------
    def _next(self):
        """The task which runs now, by the plan."""
        alive = [t for t in self.tasks if not t.done]
        if not alive:
            return None
        ready = [t for t in alive if not t.waiting]
        if not ready:
            for t in alive:         # everybody looks at his lock again
                t.waiting = False
            ready = alive
        while self.step < len(self.plan):
            who, n = self.plan[self.step][:2]
            self.at = tuple(self.plan[self.step][2:4]) or None
            self.step += 1
            self.left = max(1, n)
            return ready[who % len(ready)]
        self.left = 1 << 60
        self.at = None
        if self.cur is not None and self.cur in ready:
            return self.cur
        return ready[0]

    def _switch(self, me):
        """me gives up the processor (None: the main thread starts the run)."""
        nxt = self._next()
        if nxt is me:
            return
        self.trace.append((me.i if me else -1, nxt.i if nxt else -1, me.yields if me else 0))
        self.switches += 1
        self.cur = nxt
        if nxt is None:
            self.main.release()
        else:
            nxt.go.release()
        if me is not None and not me.done:
            me.go.acquire()
            if self.stopping:
                raise _Stop()

    def chosen(self, t, frame):
        """Is this line one to switch at? At the first, second, fourth, ... time the thread comes to it."""
        code = frame.f_code
        key = (code, frame.f_lasti if self.grain == "opcode" else frame.f_lineno)
        h = self.hashes.get(key)
        if h is None:
            h = self.hashes[key] = zlib.crc32(("%s %s %d" % (os.path.basename(code.co_filename), code.co_qualname, key[1] - (
                0 if self.grain == "opcode" else code.co_firstlineno))).encode("utf-8", "replace"))
        salt, mod = self.at
        if ((h ^ salt) * 2654435761 >> 8) % max(1, mod):
            return False
        n = t.visits[key] = t.visits.get(key, 0) + 1
        return n & (n - 1) == 0

    def point(self, frame=None):
        t = self.cur
        if self.stopping:
            raise _Stop()
        if t is None or threading.get_ident() != t.ident or t.quiet:
            return
        self.total += 1
        t.yields += 1
        if self.total > self.limit:
            raise HangTimeout("yield points")
        self.left -= 1
        if self.left <= 0 or self.at is not None and frame is not None and self.chosen(t, frame):
            self._switch(t)

    def blocked(self):
        """The running task found a held lock; False if nobody else can release it."""
        t = self.cur
        if t is None or threading.get_ident() != t.ident:
            return False
        t.spins = getattr(t, "spins", 0) + 1
        if all(x.done or x is t for x in self.tasks) or t.spins > 100000:
            return False
        t.waiting = True
        self.total += 1
        self._switch(t)
        t.waiting = False
        return True

    # -- tracing -----------------------------------------------------------------------------------------
    def _global(self, frame, event, arg):
        code = frame.f_code
        hit = self.known.get(code)
        if hit is None:
            hit = self.known[code] = os.path.abspath(code.co_filename).startswith(self.prefixes) or \
                code.co_filename.startswith(self.prefixes)
        if not hit:
            return None
        if self.grain == "opcode":
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.point(frame)
        return self._local

    # -- running -----------------------------------------------------------------------------------------
    def _body(self, t):
        t.ident = threading.get_ident()
        t.go.acquire()
        try:
            if not self.stopping:
                sys.settrace(self._global)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except _Stop:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        if not self.stopping:
            try:
                self._switch(t)
            except BaseException as e:
                self.fatal = e
                self.main.release()

    def run(self):
        global _current
        _current = self
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        try:
            for t in threads:
                t.start()
            self._switch(None)
            while not self.main.acquire(True, 0.5):     # interruptible by the CPU budget signal
                pass
        finally:
            _current = None
            self.stopping = True
            for t in self.tasks:
                if not t.done:
                    try:
                        t.go.release()
                    except RuntimeError:
                        pass
            for t in threads:
                t.join(2.0)
        if self.fatal is not None:
            raise self.fatal
        for t in self.tasks:
            if isinstance(t.error, HangTimeout):
                raise t.error
        return self.tasks


class quiet:
    """No switches in here: preparations of a thread which are not what a run is about."""
    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        s = _current
        self.task = s.cur if self.on and s is not None and s.cur is not None and threading.get_ident() == s.cur.ident else None
        if self.task is not None:
            self.task.quiet += 1

    def __exit__(self, *a):
        if self.task is not None:
            self.task.quiet -= 1


def gen_plan(r, n, length):
    """A switch plan: long and short quanta, sometimes all of them short."""
    style = r.choice(["short", "mixed", "mixed", "long", "vlong", "pct", "at", "at", "at", "at"])
    out = []
    if style == "at":
        salt, mod = r.randrange(1 << 30), r.choice([2, 3, 3, 10, 10, 30, 30, 100, 300])
        if mod <= 10:
            length = max(length, r.choice([100, 300, 1000]))
        return [[r.randrange(n * 4), 100000, salt, mod] for _ in range(length)]
    for _ in range(length):
        if style == "short":
            k = r.choice([1, 1, 2, 3, 5])
        elif style == "long":
            k = r.choice([20, 50, 100, 400, 2000])
        elif style == "vlong":
            k = r.choice([500, 2000, 5000, 12000])
        elif style == "pct":
            k = r.choice([1, 7, 7, 60, 61, 600])
        else:
            k = r.choice([1, 2, 3, 10, 30, 100, 300, 1000])
        out.append([r.randrange(n * 4), k + (r.randrange(k) if k > 5 else 0)])
    return out
