"""Execute one plan under guard; minimise; replay."""
import copy
import gc
import json
import signal
import sys
import threading
import traceback

from . import boot
from .core import Ctx, EnvError, HangTimeout, IOBudget, Violation

CPU_BUDGET = 25.0       # CPU seconds for one run; a normal run takes milliseconds


class Outcome:
    def __init__(self, ctx, kind=None, detail="", trace=""):
        self.ctx, self.kind, self.detail, self.trace = ctx, kind, detail, trace
        self.digest = ctx.digest()


def _frames(e):
    return [f.filename for f in traceback.extract_tb(e.__traceback__)]


def world_of(pid):
    import importlib
    return importlib.import_module("dst.worlds." + pid.lower())


def _alarm(signum, frame):
    raise HangTimeout()


ENV_ERRNO = {28, 23, 24, 122, 30, 13, 12}    # ENOSPC, ENFILE, EMFILE, EDQUOT, EROFS, EACCES, ENOMEM


def execute(world, plan, cpu=CPU_BUDGET):
    from . import seams
    ctx = Ctx()
    kind, detail, trace = None, "", ""
    seams.reset()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        try:
            world.execute(copy.deepcopy(plan), ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        kind, detail = e.kind, e.detail
        trace = traceback.format_exc()
    except EnvError:
        raise
    except (HangTimeout, IOBudget) as e:
        kind, detail = "hang", type(e).__name__
        trace = traceback.format_exc()
    except MemoryError:
        kind, detail = "hang", "MemoryError"
    except Exception as e:
        from .core import SimIOError
        if isinstance(e, OSError) and not isinstance(e, SimIOError) and e.errno in ENV_ERRNO:
            raise EnvError("environment: %r" % e)
        frames = _frames(e)
        where = "library" if any(f.startswith(boot.DOCRIA_DIR) for f in frames) else "observation"
        kind = "unexpected-exception"
        detail = "%s in %s: %s" % (type(e).__name__, where, str(e)[:300])
        trace = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        ctx.disarm()
        ctx.cleanup()
        seams.reset()
    return Outcome(ctx, kind, detail, trace)


def _lists(world):
    return getattr(world, "LISTS", ["ops"])


def _ddmin(items, test, budget):
    n = 2
    while len(items) >= 2 and budget[0] > 0:
        size = max(1, len(items) // n)
        reduced = False
        for start in range(0, len(items), size):
            cand = items[:start] + items[start + size:]
            budget[0] -= 1
            if budget[0] <= 0:
                break
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    if len(items) == 1 and budget[0] > 0 and test([]):
        items = []
    return items


def minimise(world, plan, kind, log=None, budget=600, deadline=None):
    """Smallest plan found which still breaks the property with the same violation class."""
    import time
    left = [budget]

    def bad(p):
        if deadline is not None and time.monotonic() > deadline:
            left[0] = 0
            return False
        try:
            return execute(world, p, cpu=10.0).kind == kind
        except Exception:
            return False

    cur = copy.deepcopy(plan)
    for _ in range(3):
        before = json.dumps(cur, sort_keys=True)
        for key in _lists(world):
            if isinstance(cur.get(key), list) and cur[key]:
                def test(items, key=key):
                    p = dict(cur)
                    p[key] = items
                    return bad(p)
                cur[key] = _ddmin(list(cur[key]), test, left)
        # simpler parameters
        for cand in simplifications(world, cur):
            if left[0] <= 0:
                break
            left[0] -= 1
            if bad(cand):
                cur = cand
        if json.dumps(cur, sort_keys=True) == before or left[0] <= 0:
            break
    return cur


DEFAULTS = {"codec": "none", "short": None, "wshort": None, "framing": None, "out": "raw", "stream": "bytesio"}


def simplifications(world, plan):
    """Single-step simplifications of the *current* plan (re-read lazily through a mutable holder)."""
    for key, val in dict(getattr(world, "DEFAULTS", DEFAULTS)).items():
        if key in plan and plan[key] != val:
            p = copy.deepcopy(plan)
            p[key] = val
            yield p
    # simpler documents: any ["class", seed] token
    def tokens(o, path=()):
        if isinstance(o, list) and len(o) == 2 and isinstance(o[0], str) and isinstance(o[1], int) \
                and o[0] in ("small", "medium", "many", "wide", "big", "huge", "array32", "tiny"):
            yield path, o
        elif isinstance(o, list):
            for i, x in enumerate(o):
                yield from tokens(x, path + (i,))
        elif isinstance(o, dict):
            for k, x in o.items():
                yield from tokens(x, path + (k,))
    toks = list(tokens(plan))[:40]
    for cls in ("nil", "tiny", "small"):
        if toks and any(t[0] != cls for _, t in toks):
            p = copy.deepcopy(plan)
            for path, t in toks:
                o = p
                for k in path[:-1]:
                    o = o[k]
                o[path[-1]] = [cls, t[1] % 1000]
            yield p
