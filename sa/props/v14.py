"""V14: looking at objects and storage roots never changes them."""
from ..world import *
from . import v01, v09

EXPLAIN = ("Abstract interpretation of validation, inventory validation, listing, tree display and identifier extraction on "
           "abstract stored objects and storage roots, valid and damaged. Every file system effect on every path "
           "is observed in the file storage model: none creates, changes, removes or renames anything, including on "
           "paths that end in an exception.")
ASSUME = ["file systems behave like a local directory tree"]
FLOOR = 100

WRITES = {"create", "truncate", "write", "written", "mkdir", "rm"}


def watch(w):
    """Record the changes made, in the state."""
    def on(I, st, op, elems, extra):
        if op in WRITES:
            st.mon["changed"] = st.mon.get("changed", ()) + ("%s %s" % (op, "/".join(str(e.v) if isinstance(e, K) else "?" for e in elems)),)
    w.I.on_fs = on


def report(r, w, v, s, what):
    r.count("paths")
    ch = s.mon.get("changed")
    if ch:
        r.add(what, "changes the storage: %s" % ", ".join(dict.fromkeys(ch)))
    elif s.taint:
        r.undecided.append(s.taint[0])


def looks(name, tree, how, rule="looking changes nothing", stubs=True):
    def fn(p, ob):
        r = Result()
        w = World(p, Log().stubs() if stubs else {})
        w.install(tree(w.st) if callable(tree) else tree)
        watch(w)
        n = 0
        for v, s in how(w):
            n += 1
            report(r, w, v, s, name.split(":")[0])
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(name, rule, fn)


def method(cls, init, name, *args, **kw):
    def how(w):
        for o, s in w.new(cls, **init):
            if isinstance(o, Raise):
                yield o, s
                continue
            for v, s2 in w.meth(o, name, *args, st=s, **kw):
                if name in ("list_objects", "object_paths"):
                    if isinstance(v, Raise):
                        yield v, s2
                        continue
                    yield from w.I.call(w.p.builtin("list"), [v], {}, s2, None)
                else:
                    yield v, s2
    return how


def root(st, objs, version="1.1", layout="0002-flat-direct-storage-layout", **more):
    """Tree of a storage root with the given entries."""
    t = {"0=ocfl_" + version: "ocfl_%s\n" % version}
    if layout:
        t["ocfl_layout.json"] = F(Q("json", val(st, {"extension": layout, "description": "d"}), K("indent=2,sort_keys=True")))
    t.update(objs)
    t.update(more)
    return t


ROOTS = {
    "empty": lambda st: root(st, {}),
    "one object": lambda st: root(st, {"a": v01.CASES["valid"][0](st)}),
    "nested objects": lambda st: root(st, {"a": {"b": v01.CASES["valid"][0](st), "c": v01.CASES["valid, sha256"][0](st)}, "d": v01.CASES["valid, spec 1.0"][0](st)}),
    "no layout": lambda st: root(st, {"a": v01.CASES["valid"][0](st)}, layout=None),
    "unknown layout": lambda st: root(st, {"a": v01.CASES["valid"][0](st)}, layout="zzz"),
    "layout not JSON": lambda st: root(st, {"a": v01.CASES["valid"][0](st)}, layout=None, **{"ocfl_layout.json": F(Q("badjson"))}),
    "no declaration": lambda st: {"a": v01.CASES["valid"][0](st)},
    "extensions": lambda st: root(st, {"a": v01.CASES["valid"][0](st)}, extensions={"0002-flat-direct-storage-layout": {"config.json": F("{}")}, "x": {"y": F("z")}, "f": F("z")}),
    "invalid objects": lambda st: root(st, {"a": v01.CASES["content missing"][0](st), "b": v01.CASES["malformed inventory"][0](st), "c": v01.CASES["no inventory"][0](st)}),
    "odd directories": lambda st: root(st, {"a": {}, "b": {"f": F("x")}, "c": {"0=ocfl_object_1.1": F("x"), "0=ocfl_object_1.0": F("x")}, "d": {"0=ocfl_object_9.9": F("x")}, "e": {"0=zz": F("x")}}),
}


def obligations(p):
    obs = []
    O, SR = "ocfl.object.Object", "ocfl.storage_root.StorageRoot"
    for case, (make, good) in v01.CASES.items():
        tr = lambda st, make=make: {"w": {"o": make(st)}}
        for cd in (True, False):
            obs.append(looks("validate object: %s, digests %s" % (case, cd), tr, method(O, {}, "validate", K("/w/o"), check_digests=cd)))
        obs.append(looks("validate inventory: %s" % case, tr, method(O, {}, "validate_inventory", K("/w/o/inventory.json"))))
        obs.append(looks("validate inventory with version: %s" % case, tr, method(O, {}, "validate_inventory", K("/w/o/inventory.json"), force_spec_version="1.0")))
        obs.append(looks("show tree: %s" % case, tr, method(O, {}, "tree", K("/w/o"))))
        obs.append(looks("identifier: %s" % case, tr, method(O, {"path": K("/w/o")}, "id_from_inventory")))
        obs.append(looks("parse inventory: %s" % case, tr, method(O, {"path": K("/w/o")}, "parse_inventory")))
        obs.append(looks("path type: %s" % case, tr, lambda w: w.func("ocfl.object_utils.find_path_type", K("/w/o"))))
    obs.append(looks("validate object: absent", {"w": {}}, method(O, {}, "validate", K("/w/o"))))
    obs.append(looks("validate inventory: absent", {"w": {}}, method(O, {}, "validate_inventory", K("/w/o/inventory.json"))))
    obs.append(looks("path type: absent", {"w": {}}, lambda w: w.func("ocfl.object_utils.find_path_type", K("/w/o"))))
    obs.append(looks("show tree: absent", {"w": {}}, method(O, {}, "tree", K("/w/o"))))
    for nm, mk in ROOTS.items():
        tr = lambda st, mk=mk: {"w": {"r": mk(st)}}
        for vo in (True, False):
            obs.append(looks("validate root: %s, objects %s" % (nm, vo), tr, method(SR, {"root": K("/w/r")}, "validate", validate_objects=vo)))
        obs.append(looks("list root: %s" % nm, tr, method(SR, {"root": K("/w/r")}, "list_objects")))
        obs.append(looks("path of identifier: %s" % nm, tr, method(SR, {"root": K("/w/r")}, "object_path", K("info:abc"))))
        obs.append(looks("path type: root %s" % nm, tr, lambda w: w.func("ocfl.object_utils.find_path_type", K("/w/r"))))
    obs.append(looks("validate root: absent", {"w": {}}, method(SR, {"root": K("/w/r")}, "validate")))
    obs.append(looks("list root: absent", {"w": {}}, method(SR, {"root": K("/w/r")}, "list_objects")))
    return obs
