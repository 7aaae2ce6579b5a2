"""Run context: event log, violations, fault arming, accounting."""
import errno
import hashlib
from collections import Counter


class Violation(Exception):
    """The property is broken. `kind` is the violation class kept while minimising."""
    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class HangTimeout(BaseException):
    """CPU budget of one run exceeded (BaseException: library code must not swallow it)."""


class IOBudget(BaseException):
    """A run made more simulated I/O calls than any terminating run can make."""


class EnvError(Exception):
    """The harness or its environment failed, nothing is known about the property."""


class SimError(Exception):
    """Raised by simulated callers' own code (callbacks, iterables); must reach the caller as is."""


class SimIOError(OSError):
    """Raised by simulated files."""


def _io_class(base):
    # Python raises a subclass for many codes, code under test may catch just that
    cls = type("Sim" + base.__name__, (SimIOError, base), {"__module__": __name__})
    globals()[cls.__name__] = cls
    return cls


IO_CLASSES = {c: _io_class(b) for c, b in [
    (errno.EAGAIN, BlockingIOError), (errno.EPIPE, BrokenPipeError), (errno.ECONNRESET, ConnectionResetError),
    (errno.ETIMEDOUT, TimeoutError), (errno.EACCES, PermissionError), (errno.ENOENT, FileNotFoundError)]}

READ_KINDS = ["EIO", "EIO", "EAGAIN", "ETIMEDOUT", "ESTALE", "ECONNRESET", "unknown"]
WRITE_KINDS = ["EIO", "ENOSPC", "EDQUOT", "EAGAIN", "EPIPE", "ETIMEDOUT", "ESTALE", "EFBIG", "unknown"]
OPEN_KINDS = ["EIO", "ENOENT", "EACCES", "EMFILE", "ETIMEDOUT", "ESTALE", "unknown"]


def io_error(kind):
    if kind == "unknown":
        return SimIOError("simulated failure")      # no error code, as raised by Python layers
    code = getattr(errno, kind)
    return IO_CLASSES.get(code, SimIOError)(code, "simulated " + kind)


MAX_IO = 3000000


class Ctx:
    def __init__(self):
        self.events = []
        self.faults = Counter()     # fault kinds which actually fired
        self.probes = Counter()     # rare conditions reached
        self.states = set()         # digests of reached states / interleavings
        self.io_calls = 0
        self.now = 0.0              # simulated seconds
        self.armed = None
        self.armed_count = 0
        self.fired = False
        self.steps = 0
        self.nontrivial = False
        self.cleanups = []
        self._tmp = None

    # -- log -------------------------------------------------------------------------------------------
    def ev(self, *args):
        self.events.append(args)

    def digest(self):
        h = hashlib.sha256()
        for e in self.events:
            h.update(repr(e).encode("utf-8", "backslashreplace"))
            h.update(b"\n")
        return h.hexdigest()[:16]

    def state(self, *key):
        self.states.add(int.from_bytes(hashlib.blake2b(
            repr(key).encode("utf-8", "backslashreplace"), digest_size=6).digest(), "big"))

    # -- violations ------------------------------------------------------------------------------------
    def fail(self, kind, detail=""):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=""):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    # -- faults ----------------------------------------------------------------------------------------
    def arm(self, fault):
        """Arm the fault of the current operation: {"on": call kind, "n": nth such call, "kind": ...}."""
        self.armed = fault
        self.armed_count = 0
        self.fired = False

    def disarm(self):
        self.armed = None

    def io(self, call):
        """Account one simulated call; returns the fault to apply to it, or None."""
        self.io_calls += 1
        self.now += 0.0005
        if self.io_calls > MAX_IO:
            raise IOBudget()
        f = self.armed
        if f is not None and f["on"] == call:
            k = self.armed_count
            self.armed_count += 1
            if k == f["n"] or (k > f["n"] and f.get("sticky")):
                self.fired = True
                self.faults[call + ":" + f["kind"]] += 1
                return f
        return None

    # -- scratch directory -------------------------------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            import tempfile
            self._tmp = tempfile.mkdtemp(prefix="dst-")
        return self._tmp

    def cleanup(self):
        for fn in reversed(self.cleanups):
            try:
                fn()
            except Exception:
                pass
        self.cleanups = []
        if self._tmp is not None:
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def xname(e):
    """Exception identity for the log: its type only, messages may contain addresses."""
    return type(e).__name__


def first_diff(a, b, path=""):
    """Human readable first difference of two canonical values."""
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return "%s: %s != %s" % (path, repr(a)[:80], repr(b)[:80])
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if k not in a:
                return "%s/%s only on the right: %s" % (path, k, repr(b[k])[:80])
            if k not in b:
                return "%s/%s only on the left: %s" % (path, k, repr(a[k])[:80])
            if a[k] != b[k]:
                return first_diff(a[k], b[k], "%s/%s" % (path, k))
    elif isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, "%s[%d]" % (path, i))
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
    if a != b:
        return "%s: %s != %s" % (path, repr(a)[:80], repr(b)[:80])
    return "equal"
