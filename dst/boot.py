"""Import docria from the tree under test, behind the process-wide seams.

The order matters: the seams are installed before docria is imported, so that names bound at import
time are bound to them too.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "py")
DOCRIA_DIR = os.path.join(PKG, "docria") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    """Import every docria module from source (a stale .pyc is never read) and return the package."""
    os.environ["TQDM_DISABLE"] = "1"
    import io, json, struct, zlib, bz2, lzma, tarfile, pickle, copy, tempfile, threading, time  # noqa
    import msgpack, xml.etree.ElementTree, logging  # noqa
    import multiprocessing, multiprocessing.pool  # noqa
    try:
        import lz4.frame, zstd, tqdm  # noqa
    except ImportError:
        pass
    from . import seams, sched
    seams.install()
    sched.install()
    sys.dont_write_bytecode = True
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-%d" % os.getpid()
    sys.path.insert(0, PKG)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import docria
        import docria.model, docria.codec, docria.collection, docria.query  # noqa
        import docria.algorithm, docria.printout, docria.index, docria.storage  # noqa
    sys.pycache_prefix = old
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    got = os.path.realpath(docria.__file__)
    want = os.path.realpath(os.path.join(PKG, "docria", "__init__.py"))
    if got != want:
        raise RuntimeError("docria imported from %s, not from %s" % (got, want))
    return docria
