"""Run a function in a forked child of this (pristine) process and return what it returned."""
import os
import pickle
import select
import signal
import sys
import time
import traceback

from .core import EnvError, HangTimeout, Violation

CPU = 20.0
WALL = 150.0


def _alarm(signum, frame):
    raise HangTimeout()


def call(fn, cpu=CPU):
    """(value) of fn(), which must be picklable; HangTimeout if it used up its CPU budget."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.signal(signal.SIGVTALRM, _alarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
            try:
                out = ("ok", fn())
            except HangTimeout:
                out = ("hang", None)
            except Violation as e:
                out = ("violation", (e.kind, e.detail))
            except BaseException as e:
                out = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            data = pickle.dumps(out, pickle.HIGHEST_PROTOCOL)
            view = memoryview(data)
            while view:
                view = view[os.write(wfd, view):]
        finally:
            os._exit(0)
    os.close(wfd)
    chunks, end = [], time.monotonic() + WALL
    try:
        while True:
            ready, _, _ = select.select([rfd], [], [], max(0.0, end - time.monotonic()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                raise HangTimeout("wall")
            b = os.read(rfd, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(rfd)
        os.waitpid(pid, 0)
    if not chunks:
        raise HangTimeout("child died")
    kind, val = pickle.loads(b"".join(chunks))
    if kind == "ok":
        return val
    if kind == "hang":
        raise HangTimeout()
    if kind == "violation":
        raise Violation(*val)
    raise EnvError("child: " + val)
