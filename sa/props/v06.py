"""Manifest and state digests refer to each other exactly."""
from ..inv import *

EXPLAIN = ("Abstract interpretation of InventoryValidator.validate on inventories in which a digest key has the wrong form or "
           "value, a state digest is absent from the manifest (or present only in another letter case), a manifest digest is "
           "used by no version, or two manifest digests differ only by letter case; digests are string variables ranging over "
           "regular languages. Paths that report an error are cut and no remaining path may return True.")
ASSUME = ["Python builtins, re and the other modelled library functions behave as their models in sa/engine/lib.py"]
FLOOR = 20
RULE = "no accepting path for inconsistent digests"
HEX = {"sha512": "[0-9a-f]{128}", "sha256": "[0-9a-f]{64}"}
ANYHEX = {"sha512": "[0-9a-fA-F]{128}", "sha256": "[0-9a-fA-F]{64}"}


def fn(name, ref):
    return Spec(lambda b: b.st.norm(S(((name, b.names[ref]),))))


def letters(alg):
    """Lower-case digests with at least one letter."""
    return D.inter(Rx(HEX[alg]), D.concat_all([D.ALL, Rx("[a-f]"), D.ALL]))


def obligations(p):
    out = []
    for alg in ("sha512", "sha256"):
        for typ in ("1.1", "1.0"):
            t = {"digestAlgorithm": alg, "type": "https://ocfl.io/%s/spec/#inventory" % typ}
            d = lambda n, a=alg, c="": Let(n, D.inter(Rx(HEX[a]), D.prefix_lang(c)))
            one = lambda man, st, t=t: lambda: inv1(manifest=man, versions={"v1": vblock(st)}, **t)
            two = lambda man, s1, s2, t=t: lambda: inv2(manifest=man, versions={"v1": vblock(s1), "v2": vblock(s2)}, **t)
            sc = [
                ("manifest digest of wrong form", one(Pairs((Let("d1", D.minus(D.ALL, Rx(ANYHEX[alg]))), ["v1/content/f"])), Pairs((Ref("d1"), ["f"])))),
                ("second manifest digest of wrong form", one(Pairs((d("d1"), ["v1/content/f"]), (Let("d2", D.minus(D.ALL, Rx(ANYHEX[alg]))), ["v1/content/g"])),
                                                             Pairs((Ref("d1"), ["f"]), (Ref("d2"), ["g"])))),
                ("manifest paths not an array", one(Pairs((d("d1"), NotJ("list"))), Pairs((Ref("d1"), ["f"])))),
                ("manifest digest used in no state", one(Pairs((d("d1", c="0"), ["v1/content/f"]), (d("d2", c="1"), ["v1/content/g"])), Pairs((Ref("d1"), ["f"])))),
                ("manifest digest used in neither of two states", two(Pairs((d("d1", c="0"), ["v1/content/f"]), (d("d2", c="1"), ["v1/content/g"])),
                                                                      Pairs((Ref("d1"), ["f"])), Pairs((Ref("d1"), ["f", "h"])))),
                ("manifest not empty, state empty", one(Pairs((d("d1"), ["v1/content/f"])), {})),
                ("state digest not in manifest", one(Pairs((d("d1", c="0"), ["v1/content/f"])), Pairs((Ref("d1"), ["f"]), (d("d2", c="1"), ["g"])))),
                ("state digest not in manifest, old version", two(Pairs((d("d1", c="0"), ["v1/content/f"])), Pairs((Ref("d1"), ["f"]), (d("d2", c="1"), ["g"])), Pairs((Ref("d1"), ["f"])))),
                ("state digest not in manifest, new version", two(Pairs((d("d1", c="0"), ["v1/content/f"])), Pairs((Ref("d1"), ["f"])), Pairs((Ref("d1"), ["f"]), (d("d2", c="1"), ["g"])))),
                ("state not empty, manifest empty", one({}, Pairs((d("d1"), ["f"])))),
                ("manifest digest without content path used in state", one(Pairs((d("d1"), [])), Pairs((Ref("d1"), ["f"])))),
                ("state digest in upper case, manifest in lower case", one(Pairs((Let("d1", letters(alg)), ["v1/content/f"])), Pairs((fn("upper", "d1"), ["f"])))),
                ("manifest digest in two letter cases", one(Pairs((Let("d1", letters(alg)), ["v1/content/f"]), (fn("upper", "d1"), ["v1/content/g"])),
                                                            Pairs((Ref("d1"), ["f"]), (fn("upper", "d1"), ["g"])))),
                ("state digest of wrong form in old version", two(Pairs((d("d1"), ["v1/content/f"])), Pairs((D.minus(D.ALL, Rx(ANYHEX[alg])), ["f"])), Pairs((Ref("d1"), ["f"])))),
                ("content path of a version directory not in versions", one(Pairs((d("d1"), [D.concat(Rx("v[2-9]|v0+[1-9]|v[1-9][0-9]+|v0"), D.const("/content/f"))])), Pairs((Ref("d1"), ["f"])))),
            ]
            for n, f in sc:
                out.append(must_reject("%s (%s, %s)" % (n, alg, typ), f, RULE, "digests"))
    return out
