"""Driver: runs the obligations of one property against the current source and reports."""
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

from .engine.project import Project, Missing
from .engine.interp import Budget
from .engine import fsmodel, chars, cli, interp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULES = ["ocfl", "ocfl.command_line_utils", "script:ocfl-validate", "script:ocfl-object", "script:ocfl-root",
           "script:ocfl-sidecar"]


class Ob:
    """One obligation: a name, the rule it instantiates and a function(project, ob) deciding it."""

    def __init__(self, name, rule, fn, thorough=False, budget=None):
        self.name, self.rule, self.fn, self.thorough, self.budget = name, rule, fn, thorough, budget


class Result:
    """Outcome of an obligation."""

    def __init__(self):
        self.findings = []      # dicts: key, where, what
        self.undecided = []     # reasons
        self.stats = {}
        self.funcs = set()

    def add(self, construct, what, **more):
        d = {"construct": construct, "what": what}
        d.update(more)
        if not any(x["construct"] == construct and x["what"] == what for x in self.findings):
            self.findings.append(d)

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n


LIMIT = [240]   # seconds for one obligation


def _run(i):
    ob = _OBS[i]
    t = time.time()
    r = Result()
    if t > interp.HARD[0]:
        return {"i": i, "findings": [], "undecided": ["budget: time of the whole check"], "stats": {}, "funcs": [], "t": 0}
    def late(*_):
        signal.setitimer(signal.ITIMER_REAL, 5)
        raise Budget("time limit")

    try:
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, max(1, min(LIMIT[0], interp.HARD[0] - t)))
        x = ob.fn(_PROJ, ob)
        if x is not None:
            r = x
    except Missing as e:
        return {"i": i, "missing": str(e)}
    except Budget as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        r.undecided.append("budget: %s" % e)
    except RecursionError:
        r.undecided.append("recursion limit")
    except Exception:
        r = Result()
        r.undecided.append("analysis error: " + " / ".join(x.strip() for x in traceback.format_exc().strip().split("\n")[-5:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"i": i, "findings": r.findings, "undecided": r.undecided, "stats": r.stats,
            "funcs": sorted(r.funcs), "t": time.time() - t}


def known(prop):
    """Keys of recorded findings for a property: {key: text}."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for ln in fh:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def keyof(ob, f):
    k = "%s|%s|%s" % (ob.name, f["construct"], f.get("key", f["what"]))
    return re.sub(r"\s+", "_", k)


def main(prop, argv=()):
    global _OBS, _PROJ
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = [a for a in argv if not a.startswith("--")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    LIMIT[0] = 200 if tier == "quick" else 1800
    interp.HARD[0] = t0 + (780 if tier == "quick" else 3600)
    mod = importlib.import_module("sa.props.%s" % prop.lower())
    evp = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        _PROJ = Project(REPO)
        fsmodel.install(_PROJ)
        chars.install(_PROJ)
        cli.install(_PROJ)
        _PROJ.load_all(getattr(mod, "MODULES", MODULES))
        obs = mod.obligations(_PROJ)
    except Missing as e:
        print("ANALYSIS-BROKEN property=%s anchor vanished: %s" % (prop, e))
        return 2
    _OBS = [o for o in obs if (tier == "thorough" or not o.thorough) and (not only or any(x in o.name for x in only))]
    nproc = min(8, os.cpu_count() or 2, len(_OBS)) or 1
    if "--serial" in argv:
        res = [_run(i) for i in range(len(_OBS))]
    else:
        with mp.get_context("fork").Pool(nproc, maxtasksperchild=8) as pool:
            res = []
            for x in pool.imap_unordered(_run, range(len(_OBS)), chunksize=1):
                res.append(x)
                if "--progress" in argv:
                    print("%d %s %.1fs %s" % (len(res), _OBS[x["i"]].name, x.get("t", 0), [f["what"] for f in x.get("findings", ())] + x.get("undecided", [])), flush=True)
    res.sort(key=lambda r: r["i"])
    broken = [(r, r["missing"]) for r in res if "missing" in r]
    kn = known(prop)
    seen, viol, undec = set(), [], []
    funcs = set()
    stats = {}
    okc = 0
    samples = []
    for r in res:
        if "findings" not in r:
            continue
        ob = _OBS[r["i"]]
        funcs.update(r["funcs"])
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        bad = False
        for f in r["findings"]:
            k = keyof(ob, f)
            if k in kn:
                seen.add(k)
            else:
                viol.append((ob, f, k))
                bad = True
        if r["undecided"] and not bad:
            undec.append((ob.name, r["undecided"]))
        elif not r["findings"]:
            okc += 1
        if len(samples) < 40:
            samples.append({"obligation": ob.name, "rule": ob.rule, "s": round(r["t"], 2),
                            "stats": r["stats"], "findings": len(r["findings"])})
        if "--verbose" in argv:
            print("%-60s %6.2fs %s%s" % (ob.name, r["t"], r["stats"], " UNDECIDED %s" % r["undecided"] if r["undecided"] else ""))
    floor = getattr(mod, "FLOOR", 1)
    rc = 0
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[k], k))
    rdir = os.path.join(HERE, "evidence", "replay")
    for n, (ob, f, k) in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w", encoding="utf-8") as fh:
            json.dump({"property": prop, "obligation": ob.name, "rule": ob.rule, "key": k, **f}, fh, indent=1, default=str)
        print("  %s: %s: %s [%s] key=%s" % (ob.name, f.get("where", f["construct"]), f["what"], ob.rule, k))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    cov = {
        "explanation": mod.EXPLAIN,
        "obligations": len(_OBS), "discharged": okc,
        "undecided": [{"obligation": a, "why": b[:4]} for a, b in undec],
        "known_findings_seen": sorted(seen), "functions_analysed": sorted(funcs), "analysis_counts": stats,
        "samples": samples,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(evp, "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("property=%s obligations=%d discharged=%d known=%d undecided=%d violations=%d functions=%d wall=%.1fs"
          % (prop, len(_OBS), okc, len(seen), len(undec), len(viol), len(funcs), time.time() - t0))
    for a, b in undec:
        print("  undecided %s: %s" % (a, "; ".join(map(str, b[:3]))[-300:]))
    for r, why in broken:
        print("ANALYSIS-BROKEN property=%s obligation=%s: %s" % (prop, _OBS[r["i"]].name, why))
    if rc == 0:
        if broken:
            return 2
        if not only and len(_OBS) < floor:
            print("ANALYSIS-BROKEN property=%s only %d obligations, floor is %d" % (prop, len(_OBS), floor))
            return 2
        if not only and len(undec) * 2 > len(_OBS):
            print("ANALYSIS-BROKEN property=%s more than half of the obligations are undecided" % prop)
            return 2
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2:]))
