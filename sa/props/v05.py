"""Unsafe or conflicting logical and content paths are rejected."""
from ..inv import *

EXPLAIN = ("Abstract interpretation of InventoryValidator.validate on inventories with one path drawn from the language of "
           "all unsafe paths (complement of the permitted form, as a regular language over all characters including line "
           "breaks) in each position, or with two conflicting paths (equal, or one a directory of the other); paths that "
           "report an error are cut and no remaining path may return True.")
ASSUME = ["Python builtins, re and the other modelled library functions behave as their models in sa/engine/lib.py"]
FLOOR = 30
R1 = "no accepting path for an unsafe path"
R2 = "no accepting path for conflicting paths"
BAD = bad_elements()
CLEAN = D.minus(D.ALL, BAD)
EL = D.minus(D.repeat(D.minus(D.charset(D.FULL), D.const("/")), 1, None), D.words([".", ".."]))
HEX64 = "[0-9a-f]{64}"


def good(prefix):
    return D.concat(D.const(prefix), CLEAN)


def obligations(p):
    out = []
    # ---- logical paths
    for nm, mk in [
        ("only path", lambda: inv1(versions={"v1": vblock(Pairs((Ref("d1"), [BAD])))})),
        ("second path", lambda: inv1(versions={"v1": vblock(Pairs((Ref("d1"), ["f", BAD])))})),
        ("path before a good one", lambda: inv1(versions={"v1": vblock(Pairs((Ref("d1"), [BAD, "f"])))})),
        ("after any number of good paths", lambda: inv1(versions={"v1": vblock(Pairs((Ref("d1"), [Many(CLEAN), BAD])))})),
        ("first version of two", lambda: dict(inv2(), versions={"v1": vblock(Pairs((Ref("d1"), [BAD]))), "v2": vblock(Pairs((Ref("d1"), ["f"]), (Ref("d2"), ["g"])))})),
        ("second version of two", lambda: dict(inv2(), versions={"v1": vblock(Pairs((Ref("d1"), ["f"]))), "v2": vblock(Pairs((Ref("d1"), ["f"]), (Ref("d2"), [BAD])))})),
        ("spec 1.0", lambda: inv1(type="https://ocfl.io/1.0/spec/#inventory", versions={"v1": vblock(Pairs((Ref("d1"), [BAD])))})),
        ("sha256", lambda: inv1(digestAlgorithm="sha256", manifest=Pairs((Let("d1", Rx(HEX64)), ["v1/content/f"])), versions={"v1": vblock(Pairs((Ref("d1"), [BAD])))})),
    ]:
        out.append(must_reject("unsafe logical path: " + nm, mk, R1, "state"))
    st = lambda *pairs: lambda: inv2(versions={"v1": vblock(Pairs((Ref("d1"), ["f"]), (Ref("d2"), ["g"]))), "v2": vblock(Pairs(*pairs))})
    x = Let("x", EL)
    for nm, mk in [
        ("same path twice under one digest", st((Ref("d1"), [Let("x", CLEAN), Ref("x")]), (Ref("d2"), ["zz"]))),
        ("same path under two digests", st((Ref("d1"), [Let("x", CLEAN)]), (Ref("d2"), [Ref("x")]))),
        ("same path under two digests, others between", st((Ref("d1"), [Let("x", CLEAN), "zz"]), (Ref("d2"), ["zy", Ref("x")]))),
        ("file and its subdirectory entry", st((Ref("d1"), [x]), (Ref("d2"), [Cat(Ref("x"), "/", EL)]))),
        ("file and its subdirectory entry, other order", st((Ref("d1"), [Cat(Let("x", EL), "/", EL)]), (Ref("d2"), [Ref("x")]))),
        ("file and its subdirectory entry, one digest", st((Ref("d1"), [x, Cat(Ref("x"), "/", EL)]), (Ref("d2"), ["zz"]))),
        ("nested file and its subdirectory entry", st((Ref("d1"), [Cat("p/", Let("x", EL))]), (Ref("d2"), [Cat("p/", Ref("x"), "/", EL)]))),
        ("file and an entry two levels below", st((Ref("d1"), [x]), (Ref("d2"), [Cat(Ref("x"), "/", EL, "/", EL)]))),
        ("file and an entry three levels below", st((Ref("d1"), [x]), (Ref("d2"), [Cat(Ref("x"), "/", EL, "/", EL, "/", EL)]))),
    ]:
        out.append(must_reject("conflicting logical paths: " + nm, mk, R2, "state"))
    # ---- content paths
    for nm, mk in [
        ("only path", lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), [D.minus(D.ALL, good("v1/content/"))])))),
        ("second path", lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), ["v1/content/f", D.minus(D.ALL, good("v1/content/"))])))),
        ("path before a good one", lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), [D.minus(D.ALL, good("v1/content/")), "v1/content/f"])))),
        ("second digest", lambda: inv2(manifest=Pairs((Let("d1", Rx("0[0-9a-f]{127}")), ["v1/content/f"]), (Let("d2", Rx("1[0-9a-f]{127}")),
                                                      [D.minus(D.ALL, D.union(good("v1/content/"), good("v2/content/")))])))),
        ("own content directory", lambda: inv1(contentDirectory="stuff", manifest=Pairs((Let("d1", Rx(SHA512)), [D.minus(D.ALL, good("v1/stuff/"))])))),
        ("zero padded versions", lambda: inv1(head="v001", versions={"v001": vblock(Pairs((Ref("d1"), ["f"])))},
                                              manifest=Pairs((Let("d1", Rx(SHA512)), [D.minus(D.ALL, good("v001/content/"))])))),
        ("spec 1.0", lambda: inv1(type="https://ocfl.io/1.0/spec/#inventory", manifest=Pairs((Let("d1", Rx(SHA512)), [D.minus(D.ALL, good("v1/content/"))])))),
        ("sha256", lambda: inv1(digestAlgorithm="sha256", manifest=Pairs((Let("d1", Rx(HEX64)), [D.minus(D.ALL, good("v1/content/"))])))),
    ]:
        out.append(must_reject("content path not of the form version/content directory/clean path: " + nm, mk, R1, "manifest"))
    mf = lambda a, b: lambda: inv2(manifest=Pairs((Let("d1", Rx("0[0-9a-f]{127}")), a), (Let("d2", Rx("1[0-9a-f]{127}")), b)))
    pre = "v1/content/"
    for nm, mk in [
        ("same path twice under one digest", mf([Let("x", good(pre)), Ref("x")], ["v2/content/g"])),
        ("same path under two digests", mf([Let("x", good(pre))], [Ref("x")])),
        ("same path under two digests, others around", mf([Let("x", good(pre)), "v2/content/h"], ["v2/content/g", Ref("x")])),
        ("file and its subdirectory entry", mf([Cat(pre, Let("x", EL))], [Cat(pre, Ref("x"), "/", EL)])),
        ("file and its subdirectory entry, other order", mf([Cat(pre, Let("x", EL), "/", EL)], [Cat(pre, Ref("x"))])),
        ("nested file and its subdirectory entry", mf([Cat(pre, "p/", Let("x", EL))], [Cat(pre, "p/", Ref("x"), "/", EL)])),
        ("file and an entry two levels below", mf([Cat(pre, Let("x", EL))], [Cat(pre, Ref("x"), "/", EL, "/", EL)])),
        ("file and an entry three levels below", mf([Cat(pre, Let("x", EL))], [Cat(pre, Ref("x"), "/", EL, "/", EL, "/", EL)])),
    ]:
        out.append(must_reject("conflicting content paths: " + nm, mk, R2, "manifest"))
    return out
