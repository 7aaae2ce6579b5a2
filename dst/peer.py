"""Another Python process (own hash seed, own address layout) which computes the same products for a plan.

Parent side: ask(world id, hash seed, plan) -> products. Child side: python peer.py WORLD.
"""
import json
import os
import select
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_peers = {}
WALL = 120.0


def ask(wid, hashseed, plan):
    from .core import EnvError, HangTimeout
    key = (wid, hashseed)
    p = _peers.get(key)
    if p is None or p.poll() is not None:
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
        p = _peers[key] = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "peer.py"), wid], env=e, stdin=subprocess.PIPE,
                                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=os.path.dirname(HERE))
    try:
        p.stdin.write(json.dumps(plan).encode() + b"\n")
        p.stdin.flush()
    except OSError as ex:
        raise EnvError("peer: %s" % ex)
    ready, _, _ = select.select([p.stdout], [], [], WALL)
    if not ready:
        p.kill()
        del _peers[key]
        raise HangTimeout("peer")
    line = p.stdout.readline()
    if not line:
        raise EnvError("peer died")
    kind, value = json.loads(line)
    if kind != "ok":
        raise EnvError("peer: " + value)
    return value


def stop():
    for p in _peers.values():
        try:
            p.stdin.close()
        except OSError:
            pass
        p.kill()
        p.wait()
    _peers.clear()


def main():
    sys.path.insert(0, os.path.dirname(HERE))
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from dst import boot, engine
    from dst.core import Ctx
    boot.load()
    world = engine.world_of(sys.argv[1])
    for line in sys.stdin:
        ctx = Ctx()
        try:
            res = ["ok", world.produce(json.loads(line), ctx)]
        except BaseException as e:
            import traceback
            res = ["error", traceback.format_exc()[-1500:]]
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
        finally:
            ctx.cleanup()
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
