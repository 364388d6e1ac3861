"""Top-level inventory requirements are enforced for every JSON value."""
from ..inv import *

EXPLAIN = ("Abstract interpretation of InventoryValidator.validate on inventories whose named field is missing or any "
           "JSON value outside the permitted set (strings as regular languages, other JSON kinds as unknown values of "
           "that kind) while the other fields are either conforming or arbitrary. Paths that report an error are cut; "
           "an obligation is discharged when no remaining path returns True.")
ASSUME = ["json.load yields None, bool, int, float, str, list or dict values",
          "Python builtins, re and the other modelled library functions behave as their models in sa/engine/lib.py"]
FLOOR = 20
RULE = "no accepting path for a non-conforming field"


def others(field):
    d = {"id": J(), "type": J(), "digestAlgorithm": J(), "head": J(), "contentDirectory": J()}
    d.pop(field, None)
    return d


def obligations(p):
    out = []

    def add(name, field, spec, **kw):
        out.append(must_reject("%s (others conforming)" % name, lambda: inv1(**{field: spec}), RULE, field, **kw))
        out.append(must_reject("%s (others arbitrary)" % name, lambda: inv1(**dict(others(field), **{field: spec})), RULE, field, **kw))
    add("id missing", "id", ...)
    add("id not a string", "id", NotJ("str"))
    add("id empty", "id", "")
    add("type missing", "type", ...)
    add("type not a string", "type", NotJ("str"))
    add("type not a known inventory type", "type", D.minus(D.ALL, D.words(["https://ocfl.io/%s/spec/#inventory" % v for v in ("1.0", "1.1")])))
    add("digestAlgorithm missing", "digestAlgorithm", ...)
    add("digestAlgorithm not a string", "digestAlgorithm", NotJ("str"))
    add("digestAlgorithm not sha512 or sha256", "digestAlgorithm", D.minus(D.ALL, D.words(["sha512", "sha256"])))
    add("head missing", "head", ...)
    add("head not a string", "head", NotJ("str"))
    add("head not the last version", "head", NotRx("v1"))
    add("contentDirectory not a string", "contentDirectory", NotJ("str"))
    add("contentDirectory with slash", "contentDirectory", D.contains("/"))
    add("contentDirectory dot", "contentDirectory", D.words([".", ".."]))
    add("manifest missing", "manifest", ...)
    add("manifest not an object", "manifest", NotJ("dict"))
    add("versions missing", "versions", ...)
    add("versions not an object", "versions", NotJ("dict"))
    add("versions empty", "versions", {})
    for v in ("1.0", "1.1"):
        out.append(must_reject("type differs from the forced version %s" % v,
                               lambda v=v: inv1(type=NotRx(r"https://ocfl\.io/%s/spec/#inventory" % v.replace(".", r"\."))),
                               RULE, "type", callkw={"force_spec_version": v}))
    return out
