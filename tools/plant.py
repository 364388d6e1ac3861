"""Planted bugs: create them from a specification file, and confirm them in scratch copies of the repository.

  python3 tools/plant.py new FILE       create seeded/<id>/ from bug(...) calls in FILE
  python3 tools/plant.py test [ID...]   for each: demo passes clean, fails patched, stable tests pass, check catches
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
REPO = "/repo"
DEMO = """#!/bin/sh
# run with cwd /repo: exit 0 when the behaviour is right, nonzero when it is broken
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""
HEAD = """import os, sys, io, json, shutil, tempfile, hashlib, logging
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
SCRATCH = tempfile.mkdtemp(prefix="demo")
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)


def check(ok, what):
    if not ok:
        print("BROKEN: " + what)
        sys.exit(1)


"""


def run(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def bug(bid, prop, edits, demo, needs, breaks):
    d = os.path.join(SEED, bid)
    w = tempfile.mkdtemp(prefix="plant")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["git", "clone", "-q", REPO, r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                print(bid, "edit matches", s.count(old), "times:", old[:70])
                return
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = run(["git", "diff"], r).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
        open(os.path.join(d, "demo.sh"), "w", encoding="utf-8").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(HEAD + demo.strip() + "\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(d, "meta.json"), "w", encoding="utf-8"), indent=1)
        print("wrote", bid)
    finally:
        shutil.rmtree(w)


def test1(bid, notests=False):
    d = os.path.join(SEED, bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="plant")
    out = []
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", REPO, r], check=True)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PATH="/opt/venv/bin:" + os.environ["PATH"], LC_ALL="C.UTF-8", TZ="UTC", VERIF_REPO=r, TMPDIR=w)
        sd = os.path.join(w, "demo")
        shutil.copytree(d, sd)
        a = run(["sh", os.path.join(sd, "demo.sh")], r, env)
        if a.returncode:
            out.append("demo fails on clean tree: " + a.stdout[-300:])
        g = run(["git", "apply", os.path.join(d, "patch.diff")], r)
        if g.returncode:
            out.append("patch does not apply: " + g.stdout[-300:])
        b = run(["sh", os.path.join(sd, "demo.sh")], r, env)
        if not b.returncode:
            out.append("demo passes on the patched tree")
        elif "BROKEN" not in b.stdout:
            out.append("demo fails without BROKEN: " + b.stdout[-200:])
        if not notests:
            t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x" if False else "-q", "--timeout=300",
                     "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml", os.path.join(w, "j.xml"), "tests"], r, env, 900)
            res = os.path.join(w, "res.json")
            run(["/usr/bin/python3", "/opt/vp/results.py", res, "junit:" + os.path.join(w, "j.xml")], r)
            ok = set(json.load(open(res))["passed"])
            lost = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok]
            if lost:
                out.append("tests fail: %s" % lost[:3])
        vd = os.path.join(w, "verif")
        shutil.copytree(HERE, vd, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        caught = []
        for prop in PROPS or [meta["property"]]:
            try:
                c = run(["./check", prop], vd, env, 900)
            except subprocess.TimeoutExpired:
                caught.append("%s: no answer in time" % prop)
                continue
            caught.append("%s:%d" % (prop, c.returncode))
            if c.returncode == 1:
                caught.append(next((ln.strip()[:150] for ln in c.stdout.split("\n") if ln.startswith("  ")), ""))
            elif c.returncode:
                caught.append(c.stdout[-300:])
        return bid, out, caught
    finally:
        shutil.rmtree(w)


PROPS = []

if __name__ == "__main__":
    if sys.argv[1] == "new":
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"))
    else:
        args = sys.argv[2:]
        nt = "--notests" in args
        PROPS = [a[7:] for a in args if a.startswith("--prop=")]
        ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(3) as ex:
            for bid, out, caught in ex.map(lambda b: test1(b, nt), ids):
                print("%-22s %s | %s" % (bid, "BAD: " + "; ".join(out) if out else "ok", " ".join(caught)), flush=True)
