"""V18: the root inventory is replaced only when everything else is in place."""
from ..scen import *

EXPLAIN = ("Abstract interpretation of creating, building and updating objects in all settings with the order of effects on the storage "
           "observed on every path: before the first write to the root inventory all content files, the inventory and digest file of the "
           "new version, and for new objects the declaration, are completely written; earlier effects are confined to the new version's "
           "directory; later effects concern only the root inventory and its digest files, and an old digest file is removed only "
           "after the new one is written. Stopping after any effect before that point leaves the old object in place.")
ASSUME = ["file systems behave like a local directory tree", "an effect is durable before the next one starts"]
FLOOR = 40


def judge(p, w, scen, v, s):
    want = scen.want()
    ev = events(s, *scen.path)
    bad = []
    root = [i for i, (op, q) in enumerate(ev) if q == ("inventory.json",)]
    if not root:
        return ["the root inventory is never written"]
    first = root[0]
    fs, _ = files(s, *scen.path)
    head = want.v(want.n)
    done = {q for op, q in ev[:first] if op == "written"}
    isnew = scen.obj is None
    for op, q in ev[:first]:
        if q == ():
            continue
        ok = q[0] == head or isnew and (q[0] in [want.v(k) for k in range(1, want.n)] or q[0].startswith("0="))
        if not ok:
            bad.append("%s of %s before the root inventory is written" % (op, name(q)))
    for f in fs:
        if f in w.before:
            continue
        if f in (("inventory.json",),) or len(f) == 1 and f[0].startswith("inventory.json."):
            continue
        if f not in done:
            bad.append("%s is not complete when the root inventory is replaced" % name(f))
    side = "inventory.json." + want.alg
    for op, q in ev[first:]:
        if len(q) != 1 or not str(q[0]).startswith("inventory.json"):
            bad.append("%s of %s after the root inventory was touched" % (op, name(q)))
    last = {q: i for i, (op, q) in enumerate(ev) if op == "written"}
    if last.get((side,), -1) < last.get(("inventory.json",), -1):
        bad.append("digest file written before the root inventory")
    for i, (op, q) in enumerate(ev):
        if op == "rm":
            if i < last.get((side,), len(ev)):
                bad.append("%s removed before the new digest file is written" % name(q))
    return list(dict.fromkeys(bad))


def stopped(p, w, scen, v, s):
    """Stopped by a storage fault before the root inventory was touched: the old object stays; nothing makes an object half written."""
    bad = []
    ev = events(s, *scen.path)
    touched = any(q == ("inventory.json",) or len(q) == 1 and str(q[0]).startswith("inventory.json.") for op, q in ev)
    fs, _ = files(s, *scen.path)
    if not touched:
        for f, c in w.before.items():
            if fs.get(f) != c:
                bad.append("%s lost by a stopped update" % name(f))
        if scen.obj is None and ("inventory.json",) in fs:
            bad.append("root inventory of an incomplete object")
    else:
        want = scen.want()
        for k in range(1, want.n + 1):
            pass
        inv = inventory_at(s, *scen.path, want.v(want.n), "inventory.json")
        for cp in flip(inv["manifest"]):
            if tuple(cp.split("/")) not in fs:
                bad.append("root inventory touched before %s is stored" % cp)
    if not isinstance(v, Raise):
        bad.append("success is reported in spite of a storage fault")
    return bad


def obligations(p):
    obs = [after("%s: order of writing" % n, "the root inventory comes last", sc, judge)
           for n, sc in list(UPDATES.items()) + list(CREATES.items())]
    for n in ("same files and new ones", "sha256 to sha512"):
        for k in range(0, 34):
            obs.append(faulty("%s: stopped at %d" % (n, k), "a stopped update leaves the old object", UPDATES[n], k, stopped))
    for n in ("create", "build, two versions"):
        for k in range(0, 44):
            obs.append(faulty("%s: stopped at %d" % (n, k), "a stopped creation leaves no root inventory of missing content", CREATES[n], k, stopped))
    return obs
