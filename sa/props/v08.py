"""Conforming inventories are accepted."""
from ..inv import *

EXPLAIN = ("Abstract interpretation of InventoryValidator.validate on families of conforming inventories (paths, digests, "
           "identifiers and dates range over regular languages of permitted strings). Every path must return True without "
           "reporting an error; a report on a path that presumes a particular relation between arbitrary elements is not "
           "counted. An obligation is discharged when no such path exists.")
ASSUME = ["dateutil.parser.parse accepts plain ISO dates with in-range fields",
          "Python builtins, re and the other modelled library functions behave as their models in sa/engine/lib.py"]
FLOOR = 25
RULE = "a conforming inventory is accepted"
EL = D.minus(D.repeat(D.minus(D.charset(D.FULL), D.const("/")), 1, None), D.words([".", ".."]))
CLEAN = D.minus(D.ALL, bad_elements())
DATE = r"20[0-9][0-9]-0[1-9]-(0[1-9]|1[0-9]|2[0-8])T[01][0-9]:[0-5][0-9]:[0-5][0-9]"


def obligations(p):
    out = []

    def add(name, f, **kw):
        out.append(must_accept(name, f, RULE, **kw))
    for typ in ("1.0", "1.1"):
        t = {"type": "https://ocfl.io/%s/spec/#inventory" % typ}
        for alg, n in (("sha512", 128), ("sha256", 64)):
            ta = dict(t, digestAlgorithm=alg)
            d = lambda nm, c="", n=n: Let(nm, D.inter(Rx("[0-9a-f]{%d}" % n), D.prefix_lang(c)))
            du = lambda nm, c="", n=n: Let(nm, D.inter(Rx("[0-9a-fA-F]{%d}" % n), D.prefix_lang(c)))
            tag = "%s, %s: " % (typ, alg)
            one = lambda man, st, ta=ta, **kw: lambda: inv1(manifest=man, versions={"v1": vblock(st)}, **dict(ta, **kw))
            add(tag + "one file, any safe paths", one(Pairs((d("d1"), [D.concat(D.const("v1/content/"), CLEAN)])), Pairs((Ref("d1"), [CLEAN]))))
            add(tag + "mixed case digest", one(Pairs((du("d1"), ["v1/content/f"])), Pairs((Ref("d1"), ["f"]))))
            add(tag + "two digests", one(Pairs((d("d1", "0"), ["v1/content/a"]), (d("d2", "1"), ["v1/content/b"])), Pairs((Ref("d1"), ["x"]), (Ref("d2"), ["y"]))))
            add(tag + "one digest, many logical paths", one(Pairs((d("d1"), ["v1/content/f"])), Pairs((Ref("d1"), ["a", "b/c", "b/d", "e/f/g"]))))
            add(tag + "many content paths for a digest", one(Pairs((d("d1"), ["v1/content/f", "v1/content/g/h", "v1/content/g/i"])), Pairs((Ref("d1"), ["a"]))))
            add(tag + "empty version", one({}, {}))
            add(tag + "names that only start alike", one(Pairs((d("d1", "0"), ["v1/content/a", "v1/content/ab", "v1/content/a.b/c", "v1/content/a b"]), (d("d2", "1"), ["v1/content/b"])),
                                                         Pairs((Ref("d1"), ["a", "ab", "a.b/c"]), (Ref("d2"), ["...", ".a", "a..", "b/...", "b/.x"]))))
        add(typ + ": any identifier", lambda t=t: inv1(id=D.minus(D.ALL, D.EPS), **t))
        add(typ + ": content directory", lambda t=t: dict({"contentDirectory": Let("cd", EL)}, **dict(inv1(**t), manifest=Pairs((Let("d1", Rx(SHA512)), [Cat("v1/", Ref("cd"), "/f")])))))
        add(typ + ": no content directory value but default", lambda t=t: inv1(contentDirectory="content", **t))
        add(typ + ": file removed in the second version", lambda t=t: inv2(versions={"v1": vblock(Pairs((Ref("d1"), ["f"]), (Ref("d2"), ["g"]))), "v2": vblock({})}, **t))
        add(typ + ": file renamed in the second version", lambda t=t: inv2(versions={"v1": vblock(Pairs((Ref("d1"), ["f"]))), "v2": vblock(Pairs((Ref("d2"), ["f"]), (Ref("d1"), ["g"])))}, **t))
        add(typ + ": two versions", lambda t=t: inv2(**t))
        add(typ + ": zero padded", lambda t=t: inv1(head="v0001", manifest=Pairs((Let("d1", Rx(SHA512)), ["v0001/content/f"])), versions={"v0001": vblock(Pairs((Ref("d1"), ["f"])))}, **t))
        for nm, c in (("date with Z", DATE + "Z"), ("date with offset", DATE + r"[+-](0[0-9]|1[0-4]):[0-5][0-9]"), ("date with fraction", DATE + r"\.[0-9]{1,6}Z")):
            add("%s: %s" % (typ, nm), lambda t=t, c=c: inv1(versions={"v1": vblock(Pairs((Ref("d1"), ["f"])), created=Rx(c))}, **t))
        add(typ + ": no message", lambda t=t: inv1(versions={"v1": vblock(Pairs((Ref("d1"), ["f"])), message=...)}, **t))
        add(typ + ": no user", lambda t=t: inv1(versions={"v1": vblock(Pairs((Ref("d1"), ["f"])), user=...)}, **t))
        add(typ + ": user without address", lambda t=t: inv1(versions={"v1": vblock(Pairs((Ref("d1"), ["f"])), user={"name": D.ALL})}, **t))
        add(typ + ": any message, name and address", lambda t=t: inv1(versions={"v1": vblock(Pairs((Ref("d1"), ["f"])), message=D.ALL, user={"name": D.ALL, "address": D.ALL})}, **t))
        add(typ + ": extra keys", lambda t=t: inv1(other=J(), **t))
        fx = lambda f, t=t: lambda: inv1(fixity=f, **t)
        add(typ + ": empty fixity", fx({}))
        add(typ + ": empty fixity block", fx({"md5": {}}))
        for alg, n in (("md5", 32), ("sha1", 40), ("sha256", 64), ("sha512", 128), ("blake2b-512", 128), ("blake2b-160", 40), ("blake2b-256", 64), ("blake2b-384", 96)):
            add("%s: fixity %s" % (typ, alg), fx({alg: Pairs((Rx("[0-9a-f]{%d}" % n), ["v1/content/f"]))}))
            add("%s: fixity %s upper case" % (typ, alg), fx({alg: Pairs((Rx("[0-9A-F]{%d}" % n), ["v1/content/f"]))}))
        add(typ + ": fixity with two digests for one file", fx({"md5": Pairs((D.inter(Rx("[0-9a-f]{32}"), D.prefix_lang("0")), ["v1/content/f"]), (D.inter(Rx("[0-9a-f]{32}"), D.prefix_lang("1")), ["v1/content/f"]))}))
    for v in ("1.0", "1.1"):
        add("forced version %s" % v, lambda v=v: inv1(type="https://ocfl.io/%s/spec/#inventory" % v), callkw={"force_spec_version": v})
    return out
