"""Process-wide seams. All of them are transparent unless a run has activated them."""
import builtins
import io
import os
import time as _time

_real_open = builtins.open
_real_io_open = io.open
_real_listdir = os.listdir
_real_scandir = os.scandir
_real_time = _time.time
_real_time_ns = _time.time_ns

# hooks set by a run; each gets the real function as first argument
open_hook = None        # (real, file, mode, args, kwargs) for paths below hook_root
hook_root = None
listdir_hook = None     # (list) -> list
clock_hook = None       # () -> float
pool_hook = None        # (processes) -> pool object


def _path_of(file):
    if isinstance(file, bytes):
        try:
            return os.path.abspath(os.fsdecode(file))
        except Exception:
            return None
    if isinstance(file, (str, os.PathLike)):
        return os.path.abspath(os.fspath(file))
    return None


def _under(path):
    return hook_root is not None and path is not None and (path == hook_root or path.startswith(hook_root + os.sep))


def sim_open(file, mode="r", *args, **kwargs):
    if open_hook is not None and hook_root is not None:
        p = _path_of(file)
        if _under(p):
            return open_hook(_real_open, p, mode, args, kwargs)
    return _real_open(file, mode, *args, **kwargs)


def sim_listdir(path="."):
    res = _real_listdir(path)
    if listdir_hook is not None and _under(_path_of(path)):
        res = listdir_hook(sorted(res))
    return res


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path="."):
    if listdir_hook is not None and not isinstance(path, int) and _under(_path_of(path)):
        with _real_scandir(path) as it:
            ents = sorted(it, key=lambda e: e.name)
        order = listdir_hook([e.name for e in ents])
        byname = {e.name: e for e in ents}
        return _Scan([byname[n] for n in order])
    return _real_scandir(path)


def sim_time():
    if clock_hook is not None:
        return clock_hook()
    return _real_time()


def real_time():
    return _real_time()


def install():
    import multiprocessing
    import multiprocessing.pool
    import multiprocessing.context
    builtins.open = sim_open
    io.open = sim_open
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    _time.time = sim_time
    _time.time_ns = lambda: int(sim_time() * 1e9) if clock_hook is not None else _real_time_ns()

    real_pool = multiprocessing.pool.Pool

    def pool(processes=None, *args, **kwargs):
        if pool_hook is not None:
            return pool_hook(processes)
        return real_pool(processes, *args, **kwargs)

    real_count = os.cpu_count

    def cpu_count():
        return 5 if pool_hook is not None else real_count()

    multiprocessing.cpu_count = cpu_count
    multiprocessing.Pool = pool
    multiprocessing.pool.Pool = pool
    multiprocessing.context.BaseContext.Pool = lambda self, processes=None, *a, **k: pool(processes, *a, **k)

    import concurrent.futures
    import concurrent.futures.process
    from .simio import SimExecutor, sim_as_completed
    real_executor = concurrent.futures.ProcessPoolExecutor

    def executor(max_workers=None, *args, **kwargs):
        if pool_hook is not None:
            return SimExecutor(pool_hook(max_workers))
        return real_executor(max_workers, *args, **kwargs)

    concurrent.futures.ProcessPoolExecutor = executor
    concurrent.futures.process.ProcessPoolExecutor = executor
    concurrent.futures.as_completed = sim_as_completed(concurrent.futures.as_completed)


def reset():
    global open_hook, hook_root, listdir_hook, clock_hook, pool_hook
    open_hook = hook_root = listdir_hook = clock_hook = pool_hook = None
