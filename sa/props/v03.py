"""Version block fields are enforced for every JSON value."""
from ..inv import *

EXPLAIN = ("Abstract interpretation of InventoryValidator.validate on inventories in which one field of one version "
           "block (first or last of one, two or zero-padded versions) is missing or any JSON value outside the permitted "
           "set, all other parts conforming. Paths that report an error are cut; an obligation is discharged when no "
           "remaining path returns True.")
ASSUME = ["dateutil.parser.parse either returns a datetime or raises ValueError for a string argument",
          "Python builtins, re and the other modelled library functions behave as their models in sa/engine/lib.py"]
FLOOR = 30
RULE = "no accepting path for a non-conforming version block"

# not ending in a time zone, or without a full hh:mm:ss time
NOTZ = D.minus(D.ALL, D.concat(D.ALL, Rx(r"(Z|[+-][0-9]{2}:[0-9]{2})")))
NOTIME = D.minus(D.ALL, D.concat_all([D.ALL, Rx(r"T[0-9]{2}:[0-9]{2}:[0-9]{2}"), D.ALL]))
DATE = r"[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})"
ASCII = D.star(D.charset(D.mask_range(0, 127)))


def obligations(p):
    out = []
    bad = [
        ("created missing", "created", ...), ("created not a string", "created", NotJ("str")),
        ("created without time zone", "created", D.inter(NOTZ, ASCII)),
        ("created without seconds", "created", D.inter(NOTIME, ASCII)),
        ("created not of the RFC3339 form", "created", NotRx(DATE)),
        ("created with a month out of range", "created", Cat(Rx("[0-9]{4}-"), Rx("00|1[3-9]|[2-9][0-9]"), Rx(r"-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}(Z|[+-][0-9]{2}:[0-9]{2})"))),
        ("created with a day out of range", "created", Cat(Rx("[0-9]{4}-[0-9]{2}-"), Rx("00|3[2-9]|[4-9][0-9]"), Rx(r"T[0-9]{2}:[0-9]{2}:[0-9]{2}(Z|[+-][0-9]{2}:[0-9]{2})"))),
        ("created with an hour out of range", "created", Cat(Rx("[0-9]{4}-[0-9]{2}-[0-9]{2}T"), Rx("2[4-9]|[3-9][0-9]"), Rx(r":[0-9]{2}:[0-9]{2}(Z|[+-][0-9]{2}:[0-9]{2})"))),
        ("created with a minute out of range", "created", Cat(Rx("[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:"), Rx("[6-9][0-9]"), Rx(r":[0-9]{2}(Z|[+-][0-9]{2}:[0-9]{2})"))),
        ("created with an offset hour out of range", "created", Cat("2020-01-01T00:00:00", Rx("[+-]"), Rx("2[4-9]|[3-9][0-9]"), Rx(":[0-9]{2}"))),
        ("created with an offset minute out of range", "created", Cat("2020-01-01T00:00:00", Rx("[+-][0-9]{2}:"), Rx("[6-9][0-9]"))),
        ("created empty", "created", ""),
        ("state missing", "state", ...), ("state not an object", "state", NotJ("dict")),
        ("state digest of wrong form", "state", Pairs((D.minus(D.ALL, Rx("[0-9a-fA-F]{128}")), ["f"]))),
        ("state paths not an array", "state", Pairs((Ref("d1"), NotJ("list")))),
        ("message not a string", "message", NotJ("str")),
        ("user not an object", "user", NotJ("dict")),
        ("user name missing", "user", {"address": "mailto:x"}),
        ("user without any name", "user", {}),
        ("user name not a string", "user", {"name": NotJ("str"), "address": "mailto:x"}),
        ("user name not a string, address arbitrary", "user", {"name": NotJ("str"), "address": J()}),
        ("user address not a string", "user", {"name": "n", "address": NotJ("str")}),
    ]
    for name, field, spec in bad:
        def one(field=field, spec=spec):
            return inv1(versions={"v1": vblock(Pairs((Ref("d1"), ["f"])), **{field: spec})})

        def padded(field=field, spec=spec):
            return inv1(manifest=Pairs((Let("d1", Rx(SHA512)), ["v001/content/f"])), head="v001",
                        versions={"v001": vblock(Pairs((Ref("d1"), ["f"])), **{field: spec})})

        def first(field=field, spec=spec):
            x = inv2()
            x["versions"]["v1"] = vblock(Pairs((Ref("d1"), ["f"])), **{field: spec})
            return x

        def last(field=field, spec=spec):
            x = inv2()
            x["versions"]["v2"] = vblock(Pairs((Ref("d1"), ["f"]), (Ref("d2"), ["g"])), **{field: spec})
            return x

        def v10(field=field, spec=spec):
            return dict(one(field, spec), type="https://ocfl.io/1.0/spec/#inventory")
        out.append(must_reject("%s (only version)" % name, one, RULE, field))
        out.append(must_reject("%s (first of two)" % name, first, RULE, field))
        out.append(must_reject("%s (last of two)" % name, last, RULE, field))
        out.append(must_reject("%s (zero padded)" % name, padded, RULE, field))
        out.append(must_reject("%s (spec 1.0)" % name, v10, RULE, field))
    out.append(must_reject("version block not an object",
                           lambda: inv1(versions={"v1": NotJ("dict")}), RULE, "versions"))
    out.append(must_reject("second version block not an object",
                           lambda: inv2(versions={"v1": vblock(Pairs((Ref("d1"), ["f"]), (Ref("d2"), ["g"]))), "v2": NotJ("dict")}), RULE, "versions"))
    return out
