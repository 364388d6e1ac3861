"""Version sequence: contiguous from 1, consistent padding, nothing else, head is the last."""
from ..inv import *

EXPLAIN = ("Abstract interpretation of InventoryValidator.validate on inventories whose `versions` object has an abstract "
           "set of keys (strings as regular languages) that is not v1..vN with one consistent zero padding, or whose head "
           "is not the last version; paths that report an error are cut and no remaining path may return True.")
ASSUME = ["Python builtins, re and the other modelled library functions behave as their models in sa/engine/lib.py"]
FLOOR = 12
RULE = "no accepting path for a wrong version sequence"


def vs(*keys, **kw):
    st = Pairs((Ref("d1"), ["f"]))
    return Pairs(*[(k, vblock(st)) for k in keys])


def obligations(p):
    def inv(*keys, head, cp="v1/content/f"):
        return lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), [cp])), head=head, versions=vs(*keys))
    NUM = Rx("v[1-9][0-9]*")
    out = [
        must_reject("no first version: any single key", inv(D.minus(D.ALL, Rx("v0*1")), head=J()), RULE, "versions"),
        must_reject("first version padded to more than ten digits is tolerated or rejected, never crashes into acceptance of v0",
                    inv(Rx("v0+"), head=J()), RULE, "versions"),
        must_reject("v1 and one other key that is not v2", inv("v1", D.minus(D.ALL, D.words(["v1", "v2"])), head=J()), RULE, "versions"),
        must_reject("v1, v2 and one other key that is not v3", inv("v1", "v2", D.minus(D.ALL, D.words(["v1", "v2", "v3"])), head=J()), RULE, "versions"),
        must_reject("v001 and one other key that is not v002", inv("v001", D.minus(D.ALL, D.words(["v001", "v002"])), head=J(), cp="v001/content/f"), RULE, "versions"),
        must_reject("v01 and one other key that is not v02", inv("v01", D.minus(D.ALL, D.words(["v01", "v02"])), head=J(), cp="v01/content/f"), RULE, "versions"),
        must_reject("gap v1 v3", inv("v1", "v3", head=J()), RULE, "versions"),
        must_reject("mixed padding v1 v002", inv("v1", "v002", head=J()), RULE, "versions"),
        must_reject("mixed padding v1 v01", inv("v1", "v01", head=J()), RULE, "versions"),
        must_reject("mixed padding v01 v001", inv("v01", "v001", head=J(), cp="v01/content/f"), RULE, "versions"),
        must_reject("padding overflow v01..v09 then v10", inv(*["v%02d" % i for i in range(1, 10)], "v10", head=J(), cp="v01/content/f"), RULE, "versions"),
        must_reject("padding overflow v01..v09 then any other key",
                    inv(*["v%02d" % i for i in range(1, 10)], D.minus(D.ALL, D.words(["v%02d" % i for i in range(1, 10)])), head=J(), cp="v01/content/f"), RULE, "versions"),
        must_reject("head not last of two", lambda: inv2(head=NotRx("v2")), RULE, "head"),
        must_reject("head not last of padded two", inv("v001", "v002", head=NotRx("v002"), cp="v001/content/f"), RULE, "head"),
        must_reject("head not a string, two versions", lambda: inv2(head=NotJ("str")), RULE, "head"),
    ]
    ok = [
        ("v1 v2", inv("v1", "v2", head="v2")), ("v1..v3", inv("v1", "v2", "v3", head="v3")),
        ("v01 v02", inv("v01", "v02", head="v02", cp="v01/content/f")),
        ("v001 v002", inv("v001", "v002", head="v002", cp="v001/content/f")),
        ("v0001", inv("v0001", head="v0001", cp="v0001/content/f")),
        ("v1..v10", inv(*["v%d" % i for i in range(1, 11)], head="v10")),
        ("v01..v09", inv(*["v%02d" % i for i in range(1, 10)], head="v09", cp="v01/content/f")),
        ("v001..v010", inv(*["v%03d" % i for i in range(1, 11)], head="v010", cp="v001/content/f")),
    ]
    for n, f in ok:
        out.append(must_accept("accepted: " + n, f, "a conforming sequence is accepted", "versions"))
    return out
