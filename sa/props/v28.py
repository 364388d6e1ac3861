"""V28: the exit status of the command line tools is that of what was done."""
from ..roots import *
from ..engine import cli
from . import v01, v25

EXPLAIN = ("Abstract interpretation of the command line tools, run as the main program (options as declared, read by the rules of argparse) on abstract stored "
           "objects, storage roots and inventories, valid and faulty, one or several, and on paths with nothing or something else. The exit status is followed "
           "through sys.exit, exceptions and the normal end. It is 0 exactly if all that was named is valid, or what was asked for is done.")
ASSUME = ["file systems behave like a local directory tree", "argparse reads a command line as documented"]
FLOOR = 150
STAT, DONE = "the exit status of validation is that of what was validated", "success is reported only for what was done"


def tool(nm, rule, script, argv, make, good, done=None):
    """Run a tool on the tree make(st); status 0 exactly if good, and then done(s) has no faults."""
    def fn(p, ob):
        r = Result()
        w = World(p)
        w.install(make(w.st))
        n = 0
        for status, s in cli.run_main(w.I, p, script, argv, w.st):
            n += 1
            r.count("paths")
            if s.taint or status == "?":
                r.undecided.append(s.taint[0] if s.taint else "exit status not known")
                continue
            if good and status != 0:
                r.add(script, "ends with %s for what is right" % (status if isinstance(status, str) else "exit status %s" % status))
            elif not good and status == 0:
                r.add(script, "ends with exit status 0 for what is wrong")
            elif good and done:
                for x in done(s):
                    r.add(script, x)
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(nm, rule, fn)


def inventory(st, case):
    return v01.CASES[case][0](st)["inventory.json"]


GOOD = {"object": lambda st: simple(st, 2).tree(), "object, sha256": lambda st: simple(st, 1, alg="sha256").tree(),
        "object of 1.0": lambda st: simple(st, 1, spec="1.0").tree(), "root": lambda st: root(st, {"a": simple(st, 1).tree(), "b": {"c": simple(st, 2, oid="info:z").tree()}}),
        "empty root": lambda st: root(st, {}), "inventory": lambda st: inventory(st, "valid"), "inventory of 1.0": lambda st: inventory(st, "valid, spec 1.0")}
BAD = {"no such": None, "empty directory": lambda st: {}, "directory without declaration": lambda st: {"a": F(chunk("a"))},
       "other declaration": lambda st: {"0=bagit_1.0": F("bagit_1.0\n")}, "text": lambda st: F(chunk("t")), "no JSON": lambda st: F(Q("badjson")),
       "object with declaration only": lambda st: {"0=ocfl_object_1.1": F("ocfl_object_1.1\n")},
       "object of unknown version": lambda st: dict({k: v for k, v in simple(st, 1).tree().items() if k[:2] != "0="}, **{"0=ocfl_object_7.0": F("ocfl_object_7.0\n")}),
       "root of unknown version": lambda st: {"0=ocfl_7.0": F("ocfl_7.0\n")},
       "root with stray directory": lambda st: root(st, {"a": simple(st, 1).tree(), "b": {"f": F(chunk("f"))}}),
       "root with empty directory": lambda st: root(st, {"a": {}}),
       "root with bad layout": lambda st: root(st, {"a": simple(st, 1).tree()}, layout="zzz"),
       "root with bad object": lambda st: root(st, {"a": v01.CASES["extra file"][0](st), "b": simple(st, 1).tree()}),
       "root with changed content": lambda st: root(st, {"b": simple(st, 1).tree(), "c": v01.CASES["content changed"][0](st)}),
       "inventory without identifier": lambda st: inventory(st, "empty identifier")}
BAD.update(("object: " + c, mk) for c, (mk, good) in v01.CASES.items() if not good and c != "empty directory")
DIGESTS = ("root with changed content", "object: content changed")
FLAGS = ([], ["-q"], ["-Q"], ["-v"], ["--debug"], ["--very-quiet", "--quiet"])


def obligations(p):
    obs = []

    def validating(nm, mks, argv, good, script="ocfl-validate"):
        def make(st):
            t = {}
            for k, mk in enumerate(mks):
                if mk is not None:
                    t["p%d" % k] = mk(st)
            return {"w": t}
        obs.append(tool(nm, STAT, script, argv, make, good))

    every = [(n, mk, True) for n, mk in GOOD.items()] + [(n, mk, False) for n, mk in BAD.items()]
    for n, mk, good in every:
        for fl in FLAGS:
            validating("validate %s%s" % (n, "".join(" " + x for x in fl)), [mk], fl + ["/w/p0"], good)
        if n not in DIGESTS + ("object: wrong digest file",):
            validating("validate %s, digests unchecked" % n, [mk], ["--no-check-digests", "/w/p0"], good)
        if n not in ("object: content changed", "root with changed content"):
            validating("validate %s, lax digests" % n, [mk], ["/w/p0", "--lax-digests"], good)
    some = [(n, mk, g) for n, mk, g in every if n in ("object", "root", "inventory", "no such", "text", "empty directory", "root with bad object", "root with stray directory",
                                                      "object: extra file", "inventory without identifier")]
    for a in some:
        for b in some:
            validating("validate %s, %s" % (a[0], b[0]), [a[1], b[1]], ["/w/p0", "/w/p1"], a[2] and b[2])
    for bad in (BAD["object: extra file"], BAD["text"], None):
        for k in range(3):
            mks = [GOOD["object"], GOOD["root"], GOOD["object, sha256"]]
            mks[k] = bad
            validating("validate three, %s at %d" % ("none" if bad is None else "text" if bad is BAD["text"] else "extra file", k), mks, ["-Q", "/w/p0", "/w/p1", "/w/p2"], False)
    validating("validate the same twice", [GOOD["object"]], ["/w/p0", "/w/p0"], True)
    validating("validate the same bad twice", [BAD["object: extra file"]], ["/w/p0", "/w/p0"], False)
    for n, mk, good in every:
        if n.startswith("object") or n in ("no such", "empty directory", "other declaration"):
            validating("ocfl-object validate %s" % n, [mk], ["validate", "--objdir", "/w/p0"], good, "ocfl-object")
        if "root" in n or n in ("no such", "empty directory", "other declaration"):
            obj = n in ("root with bad object", "root with changed content")
            validating("ocfl-root validate %s" % n, [mk], ["validate", "--root", "/w/p0"], good or obj, "ocfl-root")
            validating("ocfl-root validate %s with objects" % n, [mk], ["validate", "--validate-objects", "--check-digests", "-q", "--root", "/w/p0"], good, "ocfl-root")
            validating("ocfl-root validate %s with objects, digests unchecked" % n, [mk], ["validate", "--validate-objects", "--root", "/w/p0"], good or n == "root with changed content", "ocfl-root")
            validating("ocfl-root validate %s, few errors" % n, [mk], ["validate", "--validate-objects", "--check-digests", "--max_errors", "1", "--root", "/w/p0"], good, "ocfl-root")
    return obs
