"""Command line: check, worker, replay, selftest."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable

WALL = {"quick": 600.0, "thorough": 3000.0}


def env(extra=None):
    e = dict(os.environ)
    e.update({"PYTHONHASHSEED": e.get("VERIF_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1", "TQDM_DISABLE": "1",
              "LANG": "C.UTF-8", "PYTHONIOENCODING": "utf-8"})
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def nruns(world, tier):
    n = world.RUNS[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    return max(1, int(n * scale))


def limit_memory():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


def make_plan(world, seed, idx, tier):
    from dst.rng import derive
    r = derive(seed, world.ID, idx)
    plan = world.gen(r, tier)
    plan["world"] = world.ID
    plan["seed"] = seed
    plan["index"] = idx
    return json.loads(json.dumps(plan))     # what a replay file holds is what runs


# -- worker ---------------------------------------------------------------------------------------------

def cmd_worker(a):
    limit_memory()
    from dst import boot
    boot.load()
    from dst import engine
    world = engine.world_of(a.pid)
    n = nruns(world, a.tier)
    out = {"runs": 0, "faults": {}, "probes": {}, "io_calls": 0, "sim_s": 0.0, "nontrivial": 0, "digests": [],
           "states": [], "samples": [], "violation": None, "cut": False, "log": {}}
    states, digests = set(), set()
    start = time.monotonic()
    idx = a.first
    status = a.out + ".idx"
    while idx < n:
        if time.monotonic() - start > a.wall:
            out["cut"] = True
            break
        with open(status, "w") as f:
            f.write(str(idx))
        plan = make_plan(world, a.seed, idx, a.tier)
        res = engine.execute(world, plan)
        c = res.ctx
        out["runs"] += 1
        out["io_calls"] += c.io_calls
        out["sim_s"] += c.now
        if c.nontrivial:
            out["nontrivial"] += 1
            digests.add(res.digest)
        for k, v in c.faults.items():
            out["faults"][k] = out["faults"].get(k, 0) + v
        for k, v in c.probes.items():
            out["probes"][k] = out["probes"].get(k, 0) + v
        if len(states) < 400000:
            states |= c.states
        if len(out["samples"]) < 1 and c.nontrivial and len(json.dumps(plan)) < 4000:
            out["samples"].append({"plan": plan, "log_digest": res.digest, "events": len(c.events)})
        if a.log:
            out["log"][str(idx)] = res.digest + ":" + str(res.kind)
        if res.kind is not None:
            out["violation"] = {"index": idx, "plan": plan, "kind": res.kind, "detail": res.detail,
                                "trace": res.trace, "digest": res.digest,
                                "before": list(range(a.first, idx, a.stride))}
            if not known_match(a.pid, res.kind, res.detail, plan):
                break
            out.setdefault("known", []).append([res.kind, res.detail])
            out["violation"] = None
        idx += a.stride
    out["digests"] = sorted(digests)
    out["states"] = sorted(states)
    out["wall"] = time.monotonic() - start
    with open(a.out + ".tmp", "w") as f:
        json.dump(out, f)
    os.rename(a.out + ".tmp", a.out)
    sys.stdout.flush()
    os._exit(0)


# -- known findings ---------------------------------------------------------------------------------------

def known_findings():
    """Entries of known_findings.jsonl which are still open: {"property", "status": "open", "kind", "match", "what"}."""
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get("status") == "open":
                        out.append(d)
    return out


def known_match(pid, kind, detail, plan):
    for d in known_findings():
        if d["property"] == pid and d["kind"] == kind and d.get("match", "") in detail:
            return d
    return None


# -- one plan in a fresh process ---------------------------------------------------------------------------

def run_fresh(path, timeout=400):
    """Replay a file in a fresh process: (kind or None, digest, detail) or ('process-crash', ...)."""
    p = subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "exec", path], env=env(), cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode < 0:
        return "process-crash", "", "signal %d" % -p.returncode
    if p.returncode != 0:
        raise RuntimeError("replay failed: %s" % p.stderr.decode("utf-8", "replace")[-2000:])
    d = json.loads(p.stdout.decode().strip().splitlines()[-1])
    return d["kind"], d["digest"], d["detail"]


def cmd_exec(a):
    limit_memory()
    from dst import boot
    boot.load()
    from dst import engine
    with open(a.path) as f:
        rep = json.load(f)
    plan = rep["plan"]
    world = engine.world_of(plan["world"])
    for idx in rep.get("history", []):      # runs which went before in the same process
        engine.execute(world, make_plan(world, rep["history_seed"], idx, rep["history_tier"]))
    res = engine.execute(world, plan)
    print(json.dumps({"kind": res.kind, "digest": res.digest, "detail": res.detail, "trace": res.trace,
                      "events": [repr(e) for e in res.ctx.events] if a.events else None}))
    sys.stdout.flush()
    os._exit(0)


def cmd_minimise(a):
    limit_memory()
    from dst import boot
    boot.load()
    from dst import engine
    with open(a.path) as f:
        rep = json.load(f)
    plan = rep["plan"]
    small = engine.minimise(engine.world_of(plan["world"]), plan, rep["kind"],
                            deadline=time.monotonic() + a.wall)
    rep["plan"] = small
    with open(a.path, "w") as f:
        json.dump(rep, f, indent=1)
    os._exit(0)


def cmd_replay(a):
    with open(a.path) as f:
        rep = json.load(f)
    kind, digest, detail = run_fresh(a.path)
    print("kind=%s digest=%s detail=%s" % (kind, digest, detail))
    if kind is not None and a.events:
        p = subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "exec", a.path, "--events"], env=env(), cwd=VERIF,
                           stdout=subprocess.PIPE)
        d = json.loads(p.stdout.decode().strip().splitlines()[-1])
        for e in d["events"]:
            print("  ", e)
        print(d["trace"])
    if kind is not None:
        print("VIOLATION property=%s replay=%s" % (rep["plan"]["world"], a.path))
        return 1
    return 0


# -- check --------------------------------------------------------------------------------------------------

def cmd_check(a):
    t0 = time.monotonic()
    seed = a.seed
    tier = a.tier
    sys.path.insert(0, VERIF)
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    tmp = tempfile.mkdtemp(prefix="dstrun-")
    procs = []
    try:
        wall = WALL[tier]
        for w in range(workers):
            out = os.path.join(tmp, "w%d.json" % w)
            cmd = [PY, "-B", os.path.join(HERE, "run.py"), "worker", a.pid, "--tier", tier, "--seed", str(seed),
                   "--first", str(w), "--stride", str(workers), "--out", out, "--wall", str(wall)]
            if a.log:
                cmd.append("--log")
            procs.append((w, out, subprocess.Popen(cmd, env=env(), cwd=VERIF, stdout=subprocess.DEVNULL,
                                                   stderr=open(out + ".err", "w"))))
        results, crashed, errors = [], [], []
        for w, out, p in procs:
            try:
                p.wait(timeout=max(1.0, wall + 120 - (time.monotonic() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                crashed.append((w, out, "timeout"))
                continue
            if p.returncode < 0:
                crashed.append((w, out, "signal %d" % -p.returncode))
            elif p.returncode != 0 or not os.path.exists(out):
                errors.append(open(out + ".err").read()[-3000:])
            else:
                with open(out) as f:
                    results.append(json.load(f))
        viols = [r["violation"] for r in results if r["violation"]]
        if errors and not viols and not crashed:
            print("ERROR: harness failure\n" + errors[0])
            return 2
        sys.path.insert(0, VERIF)
        for w, out, why in crashed:
            idx = int(open(out + ".idx").read())
            plan = subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "plan", a.pid, "--tier", tier, "--seed",
                                   str(seed), "--first", str(idx)], env=env(), cwd=VERIF, stdout=subprocess.PIPE)
            viols.append({"index": idx, "plan": json.loads(plan.stdout), "kind": "process-crash", "detail": why,
                          "digest": "", "trace": ""})
        rc = 0
        if viols:
            v = min(viols, key=lambda v: v["index"])
            rc = report(a, v, tmp)
            if rc == 2:
                return 2
        for k in known_findings():
            if k["property"] == a.pid:
                print("KNOWN-FINDING: property=%s %s" % (a.pid, k["what"]))
        evidence(a, results, viols, time.monotonic() - t0, workers)
        if a.log:
            merged = {}
            for r in results:
                merged.update(r["log"])
            with open(a.log, "w") as f:
                json.dump(merged, f, sort_keys=True, indent=0)
        if rc == 0:
            n = sum(r["runs"] for r in results)
            print("OK property=%s runs=%d wall=%.1fs" % (a.pid, n, time.monotonic() - t0))
        return rc
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def report(a, v, tmp):
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d.json" % (a.pid, a.seed, v["index"]))
    rep = {"property": a.pid, "kind": v["kind"], "detail": v["detail"], "plan": v["plan"], "trace": v["trace"]}

    def save():
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
    save()
    kind, digest, detail = run_fresh(path)
    if kind is None and v.get("before"):
        # The original execution had predecessors in its process: the library keeps state between runs.
        before, k = v["before"], 1
        while kind is None:
            rep.update(history=before[-k:], history_seed=a.seed, history_tier=a.tier)
            save()
            kind, digest, detail = run_fresh(path, timeout=900)
            if k >= len(before):
                break
            k *= 4
        if kind is not None:
            for idx in list(rep["history"]):
                if len(rep["history"]) > 64:
                    break
                old = rep["history"]
                rep["history"] = [i for i in old if i != idx]
                save()
                if run_fresh(path)[0] != kind:
                    rep["history"] = old
            rep["kind"], rep["detail"] = kind, detail
            save()
            print("violation (needs the runs before it in the same process): %s: %s" % (kind, detail[:400]))
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
            return 1
    tries = 1
    while kind is None and tries < 6:
        kind, digest, detail = run_fresh(path)      # library behaviour which depends on memory addresses
        tries += 1
    if kind is not None and (kind != v["kind"] or tries > 1):
        rep.update(kind=kind, detail=detail, note="first seen as %s: %s; replay attempts until reproduced: %d" % (
            v["kind"], v["detail"], tries))
        save()
        if tries > 1:
            print("violation (in one of %d replays): %s: %s" % (tries, kind, detail[:400]))
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
            return 1
        v["kind"] = kind
    if kind is None and v["kind"] not in ("hang", "process-crash"):
        # seen, with everything the simulator controls recorded: what differs is the library's own
        rep["note"] = "not reproduced in fresh processes"
        save()
        print("violation (not reproduced in %d replays): %s: %s" % (tries, v["kind"], v["detail"][:400]))
        print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    if kind is None:
        rep["note"] = "not reproduced in a fresh process"
        save()
        print("ERROR: violation %s (%s) of run %d was not reproduced in a fresh process (got %s)" % (
            v["kind"], v["detail"], v["index"], kind))
        return 2
    if v["kind"] not in ("hang", "process-crash"):
        full = json.loads(json.dumps(rep))
        try:
            subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "minimise", path, "--wall", "60"], env=env(),
                           cwd=VERIF, timeout=200, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            k1 = run_fresh(path)
            k2 = run_fresh(path)
            ok = k1 == k2 and k1[0] == v["kind"]
        except Exception:
            ok = False
        if ok:
            with open(path) as f:
                rep = json.load(f)
            rep["detail"], rep["log_digest"] = k1[2], k1[1]
        else:
            rep = full
        save()
    print("violation: %s: %s" % (rep["kind"], rep["detail"][:400]))
    print("VIOLATION property=%s replay=%s" % (a.pid, path))
    return 1


def evidence(a, results, viols, wall, workers):
    p = subprocess.run([PY, "-B", os.path.join(HERE, "run.py"), "about", a.pid], env=env(), cwd=VERIF,
                       stdout=subprocess.PIPE)
    about = json.loads(p.stdout)
    runs = sum(r["runs"] for r in results)
    faults, probes = {}, {}
    digests, states = set(), set()
    for r in results:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        digests.update(r["digests"])
        states.update(r["states"])
    samples = [s for r in results for s in r["samples"]][:3]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(digests),
        "rule": about["rule"] + " Non-trivial: " + about["nontrivial"] + " Distinct: by digest of the run's event log.",
        "samples": samples,
        "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
        "seeds": runs, "seeds_per_hour": int(runs / max(wall, 0.001) * 3600),
        "simulated_io_calls": sum(r["io_calls"] for r in results),
        "simulated_seconds": round(sum(r["sim_s"] for r in results), 3),
        "faults_injected": dict(sorted(faults.items())),
        "rare_conditions_reached": dict(sorted(probes.items())),
        "distinct_states": len(states), "state_measure": about["state_measure"],
        "components_real": about["real"], "components_simulated": about["stub"],
        "workers": workers, "cut_by_wall_budget": any(r["cut"] for r in results),
        "exhaustive": False,
    }
    ev = {"property": a.pid, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": about["assumptions"], "wall_s": round(wall, 2), "violations": len(viols)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % a.pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(d, a.pid + ".json"))


def cmd_about(a):
    from dst import boot
    boot.load()
    from dst import engine
    w = engine.world_of(a.pid)
    real = ["docria.collection, docria.codec, docria.model, docria.query, docria.algorithm (from /repo's working tree)",
            "msgpack, zlib, bz2, lzma, lz4, zstd, tarfile, pickle, json (installed)"]
    print(json.dumps({"rule": w.RULE, "nontrivial": w.NONTRIVIAL, "state_measure": w.STATES,
                      "real": getattr(w, "REAL", real), "stub": w.STUB,
                      "assumptions": getattr(w, "ASSUMPTIONS", [])}))


def cmd_plan(a):
    from dst import boot
    boot.load()
    from dst import engine
    print(json.dumps(make_plan(engine.world_of(a.pid), a.seed, a.first, a.tier)))


def cmd_setup(a):
    from dst import boot
    boot.load()
    from dst import engine
    for i in range(1, 20):
        if os.path.exists(os.path.join(HERE, "worlds", "c%02d.py" % i)):
            engine.world_of("C%02d" % i)
    print("setup ok")


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    dseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    dtier = os.environ.get("VERIF_TIER", "quick") or "quick"
    for name in ("check", "worker", "plan", "about", "setup"):
        s = sub.add_parser(name)
        if name != "setup":
            s.add_argument("pid")
        s.add_argument("--tier", default=dtier, choices=["quick", "thorough"])
        s.add_argument("--seed", type=int, default=dseed)
        s.add_argument("--first", type=int, default=0)
        s.add_argument("--stride", type=int, default=1)
        s.add_argument("--out")
        s.add_argument("--wall", type=float, default=600)
        s.add_argument("--log", nargs="?", const="1", default=None)
    for name in ("exec", "minimise", "replay"):
        s = sub.add_parser(name)
        s.add_argument("path")
        s.add_argument("--wall", type=float, default=60)
        s.add_argument("--events", action="store_true")
    a = ap.parse_args()
    try:
        rc = globals()["cmd_" + a.cmd](a)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc or 0)


if __name__ == "__main__":
    main()
