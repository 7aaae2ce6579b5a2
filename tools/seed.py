#!/opt/venv/bin/python
"""Generate and measure planted bugs (/verif/seeded).

Specifications (for make only): /tmp/seeds/*.py with SPECS = [{id, property, edits, needs, breaks, demo}].

  tools/seed.py make [ID..]     write patch.diff, demo.sh, demo.py, meta.json; confirm in a scratch copy that the
                                patch changes original lines, builds, passes the tests, and that the demo tells
                                the two trees apart
  tools/seed.py measure [ID..]  run the property's quick check against a scratch copy with the patch
  tools/seed.py all [ID..]      both

No check imports this; results go to /tmp/seed_results.json.
"""
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "^99d48bd"
PY = "/opt/venv/bin/python"
RESULTS = "/tmp/seed_results.json"
LOOSE = os.environ.get("LOOSE")      # patches which may not be kept as planted bugs: to /tmp/loose, measured only

PRELUDE = '''import sys, os, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "py"))
import io, copy, json, pickle, shutil, struct, tempfile, threading, time
from io import BytesIO
import docria
from docria.model import *
from docria.model import Document, Node, NodeSpan, NodeList, DataTypes as T
from docria.codec import *
from docria.collection import *
import docria.collection as C
import docria.codec as K

def fail(msg):
    print("DEMO: property broken:", msg)
    sys.exit(1)

def check(cond, msg):
    if not cond:
        fail(msg)

'''


def specs():
    out = []
    for p in sorted(glob.glob("/tmp/seeds/*.py")):
        s = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out += m.SPECS
    ids = [s["id"] for s in out]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def blame(path):
    out = sh(["git", "-C", REPO, "blame", "-s", path]).stdout.splitlines()
    return [l.split()[0] for l in out]


def scratch(name):
    d = "/tmp/seedwork/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.check_call(["cp", "-a", REPO, d])
    return d


def make(spec):
    sid = spec["id"]
    d = scratch(sid)
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, "edit of %s matches %d times: %r" % (f, t.count(old), old[:70])
            open(p, "w").write(t.replace(old, new))

        diff = sh(["git", "-C", d, "diff"]).stdout
        if not diff.strip():
            return sid, "empty diff"

        # original lines only
        cur = None
        n_orig = n_added = 0
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                bl = blame(cur)
            elif line.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("+++") or line.startswith("diff") or line.startswith("index"):
                continue
            elif line.startswith("-"):
                if bl[ln - 1] == BASE:
                    n_orig += 1
                else:
                    n_added += 1
                ln += 1
            elif line.startswith(" "):
                ln += 1

        if (n_orig == 0 or n_added) and LOOSE:
            os.makedirs("/tmp/loose/" + sid, exist_ok=True)
            open("/tmp/loose/%s/patch.diff" % sid, "w").write(diff)
            json.dump({"property": spec["property"]}, open("/tmp/loose/%s/meta.json" % sid, "w"))
            return sid, "ok (measure only)"

        if n_orig == 0 or n_added:
            return sid, "patch removes %d original and %d own lines" % (n_orig, n_added)

        dst = os.path.join(VERIF, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        open(os.path.join(dst, "demo.py"), "w").write(PRELUDE + spec["demo"].strip("\n") + "\n")
        open(os.path.join(dst, "demo.sh"), "w").write(
            '#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)

        r = sh(["git", "-C", REPO, "apply", "--check", os.path.join(dst, "patch.diff")])
        if r.returncode:
            return sid, "patch does not apply: " + r.stdout

        try:
            a = sh(["bash", os.path.join(dst, "demo.sh")], cwd=REPO, timeout=200)
            b = sh(["bash", os.path.join(dst, "demo.sh")], cwd=d, timeout=200)
        except subprocess.TimeoutExpired:
            return sid, "demo timeout"
        if a.returncode != 0:
            return sid, "demo fails on the unchanged tree:\n" + a.stdout[-1500:]
        if b.returncode == 0:
            return sid, "demo passes with the patch"
        if "DEMO: property broken" not in b.stdout and not spec.get("raises"):
            return sid, "demo fails otherwise:\n" + b.stdout[-1500:]

        t = sh([PY, "-B", "-m", "unittest", "discover", "-s", "tests", "-q"], cwd=os.path.join(d, "py"))
        m = re.search(r"Ran (\d+) tests", t.stdout)
        pt = sh([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=os.path.join(d, "py"))
        tail = pt.stdout.strip().splitlines()[-1] if pt.stdout.strip() else ""
        if "failed" in tail or "error" in tail:
            base = sh([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                      cwd=os.path.join(REPO, "py")).stdout
            fails = set(re.findall(r"FAILED (\S+)", pt.stdout)) | set(re.findall(r"ERROR (\S+)", pt.stdout))
            bfails = set(re.findall(r"FAILED (\S+)", base)) | set(re.findall(r"ERROR (\S+)", base))
            if fails - bfails:
                return sid, "tests fail: %s" % sorted(fails - bfails)
        return sid, "ok (%s)" % tail
    finally:
        shutil.rmtree("/tmp/seedwork/" + sid, ignore_errors=True)


def measure(spec, checks=None):
    sid = spec["id"]
    d = scratch(sid)
    try:
        p = os.path.join(VERIF, "seeded", sid, "patch.diff")
        if not os.path.exists(p):
            p = "/tmp/loose/%s/patch.diff" % sid
        r = sh(["git", "-C", d, "apply", p])
        if r.returncode:
            return sid, "patch does not apply: " + r.stdout
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_NO_EVIDENCE="1")
        out = {}
        for c in checks or [spec["property"]]:
            r = sh([os.path.join(VERIF, "check"), c, "quick"], env=env, cwd=VERIF)
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out[c] = (r.returncode, [l[:160] for l in viol])
            for l in viol:
                m = re.search(r"replay=(\S+)", l)
                if m and os.path.exists(m.group(1)):
                    os.unlink(m.group(1))
        return sid, out
    finally:
        shutil.rmtree("/tmp/seedwork/" + sid, ignore_errors=True)


if __name__ == "__main__":
    what = sys.argv[1]
    ids = sys.argv[2:]
    if what == "measure":
        all_specs = []
        for p in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json")) +
                        glob.glob("/tmp/loose/*/meta.json")):
            all_specs.append({"id": os.path.basename(os.path.dirname(p)), "property": json.load(open(p))["property"]})
    else:
        all_specs = specs()
    sel = [s for s in all_specs if not ids or s["id"] in ids or s["property"] in ids]
    res = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    if what in ("make", "all"):
        with cf.ThreadPoolExecutor(6) as ex:
            for sid, msg in ex.map(make, sel):
                print("%-28s %s" % (sid, msg), flush=True)
                if not msg.startswith("ok"):
                    shutil.rmtree(os.path.join(VERIF, "seeded", sid), ignore_errors=True)
    if what in ("measure", "all"):
        for s in sel:
            if not os.path.isdir(os.path.join(VERIF, "seeded", s["id"])) and \
                    not os.path.isdir("/tmp/loose/" + s["id"]):
                continue
            sid, out = measure(s)
            res[sid] = out
            print("%-28s %s" % (sid, out), flush=True)
            json.dump(res, open(RESULTS, "w"), indent=1)
