"""V17: objects written are valid and hold what was asked for."""
from ..scen import *

EXPLAIN = ("Abstract interpretation of creating, building and updating objects from abstract sources in all settings, from the "
           "call of the public method to the files in the storage model. The stored tree is then compared with the request: every version "
           "has exactly the logical files of its source with their content (read back through state, manifest and content files), the "
           "metadata given, the manifest agrees with the files and digests, digest files and declaration are right, head inventory and "
           "root inventory are the same, and interpreting the validator on the result gives the verdict valid.")
ASSUME = ["file systems behave like a local directory tree", "digest functions are treated as collision free"]
FLOOR = 40


def judge(p, w, scen, v, s):
    want = scen.want()
    bad = check_stored(p, s, want, scen.path)
    if not bad:
        inv = inventory_at(s, *scen.path, "inventory.json")
        got = plain(s, attr(s, v, "data")) if isinstance(v, R) else None
        if got != inv:
            bad.append("the inventory returned is not the one stored")
    return bad


def attr(s, v, a):
    v = deref(s, v)
    return s.heap[v.a].attrs.get(a) if isinstance(s.heap.get(v.a), HInst) else NONE


def obligations(p):
    return [after("%s: stored as asked" % n, "the stored object is valid and holds what was asked for", sc, judge)
            for n, sc in list(UPDATES.items()) + list(CREATES.items())]
