"""V16: adding a version leaves what is stored as it was."""
from ..scen import *

EXPLAIN = ("Abstract interpretation of adding versions to abstract stored objects in all settings (source directory or assembled "
           "by single operations, digest algorithm kept or changed, deduplication and forward delta on and off, padded versions, "
           "own content directory, fixity blocks, older specification version), of requests that are refused, and of "
           "runs in which any one writing operation of the storage fails. Every effect on the storage is observed: none of them "
           "concerns the directory of an earlier version, and the files of earlier versions are the same afterwards.")
ASSUME = ["file systems behave like a local directory tree", "digest functions are treated as collision free"]
FLOOR = 60


def judge(p, w, scen, v, s):
    want = scen.want()
    n = want.n - 1 if want else scen.n
    keep = ["v" + str(k).zfill(scen.obj.get("width", 0)) for k in range(1, n + 1)]
    bad = untouched(s, scen.path, keep, w.before)
    fs, _ = files(s, *scen.path)
    for f, c in w.before.items():
        if len(f) == 1 and f not in fs and not (f[0].startswith("inventory.json.") and any(
                len(g) == 1 and str(g[0]).startswith("inventory.json.") and g not in w.before for g in fs)):
            bad.append("stored file %s was removed" % name(f))
        elif len(f) == 1 and f[0].startswith("0=") and fs.get(f) != c:
            bad.append("declaration changed")
    every, _ = files(s, "w")
    for f, c in w.all_before.items():
        if f[0] != scen.path[-1] and every.get(f) != c:
            bad.append("source or other file %s was changed" % name(f))
    if s.mon.get("$esc"):
        bad.append("path outside the object")
    return bad


def stopped(p, w, scen, v, s):
    """After a storage fault: nothing lost, and no success reported."""
    bad = judge(p, w, scen, v, s)
    if not isinstance(v, Raise) and v != NONE:
        bad.append("success is reported in spite of a storage fault")
    return bad


def obligations(p):
    obs = [after("%s: earlier versions untouched" % n, "no effect on the directories of earlier versions", sc, judge)
           for n, sc in UPDATES.items()]
    for n in ("same files and new ones", "sha256 to sha512", "no deduplication", "assembled, carried forward"):
        for k in range(0, 44 if n == "no deduplication" else 34):
            obs.append(faulty("%s: storage fault %d" % (n, k), "a failed update loses nothing", UPDATES[n], k, stopped,
                              thorough=n in ("no deduplication",)))
    return obs
