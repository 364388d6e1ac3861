"""V25: every object of a storage root is found, everything else there is reported."""
import itertools
from ..roots import *
from . import v01
from .v24 import BADPARAMS

EXPLAIN = ("Abstract interpretation of listing and validating abstract storage roots, composed of objects (valid and invalid), and of every kind of "
           "directory that must not be there, at several depths, side by side and inside each other, with fixed and arbitrary names, and of roots with every "
           "kind of fault in declaration, layout and extensions. Every object directory is listed exactly once with its identifier, every misplaced directory is reported "
           "with its path and nothing else is, the counts are right, the verdict is True exactly if nothing is reported and all objects are valid, and no path raises.")
ASSUME = ["file systems behave like a local directory tree"]
FLOOR = 150
LIST, VAL = "listing finds every object, once, and reports what is misplaced", "the verdict on a storage root is that of its structure and all objects"


class Reports(Log):
    """The log: reports are kept with the path they are about."""

    def keep(self, kind, I, args, kw, st):
        code = args[1] if len(args) > 1 else kw.get("code")
        at = kw.get("path") or kw.get("entry")
        at = I.deref(at, st) if at is not None else None
        st.mon["$rep"] = st.mon.get("$rep", ()) + ((kind, code.v if isinstance(code, K) else "?", st.norm(at) if isinstance(at, (S, K)) else None),)

    def error(self, I, f, args, kw, st, node):
        if I.deref(args[0], st).a == st.mon.get("$rootlog", I.deref(args[0], st).a):
            self.keep("E", I, args, kw, st)
        return Log.error(self, I, f, args, kw, st, node)

    def warning(self, I, f, args, kw, st, node):
        self.keep("W", I, args, kw, st)
        return Log.warning(self, I, f, args, kw, st, node)


class Here:
    """What stands at a place in the root: its tree, objects below [(path below, identifier, valid)], errors [(code, path below)]."""

    def __init__(self, tree, objs=(), errs=()):
        self.tree, self.objs, self.errs = tree, list(objs), list(errs)


def case(name, oid="info:abc", **more):
    def make(st):
        t = v01.CASES[name][0](st)
        t.update({k: v(st) if callable(v) else v for k, v in more.items()})
        return Here(t, [((), oid, v01.CASES[name][1] and not more)])
    return make


def objid(oid, **kw):
    return lambda st: Here(simple(st, 1, oid=oid(st) if callable(oid) else oid, **kw).tree(), [((), oid, True)])


def bad(tree, code):
    return lambda st: Here(tree(st) if callable(tree) else dict(tree), [], [(code, ())])


def inner(**subs):
    """A directory that only has directories."""
    def make(st):
        h = Here({})
        for n, mk in subs.items():
            x = mk(st)
            h.tree[n] = x.tree
            h.objs += [((n,) + p, i, g) for p, i, g in x.objs]
            h.errs += [(c, (n,) + p) for c, p in x.errs]
        return h
    return make


def f(x="own"):
    return F(chunk(x))


def nested(st):
    """An object with another object inside."""
    h = objid("info:outer")(st)
    h.tree["v1"]["content"]["sub"] = simple(st, 1, oid="info:inner").tree()
    h.objs = [((), "info:outer", False)]
    return h


KINDS = {
    "object": objid("info:x"),
    "object of version 1.0": objid("info:y", spec="1.0"),
    "object of three versions": lambda st: Here(simple(st, 3, oid="info:z").tree(), [((), "info:z", True)]),
    "changed object": case("content changed"),
    "object without inventory": case("no inventory", None),
    "object with bad inventory": case("malformed inventory", None),
    "object with unknown file": case("extra file"),
    "object around an object": nested,
    "empty directory": bad({}, "E073"),
    "file": bad({"f": F(chunk("own"))}, "E072"),
    "hidden file": bad({".f": F(chunk("own"))}, "E072"),
    "file beside an object": bad(lambda st: {"f": f(), "o": simple(st, 1).tree()}, "E072"),
    "file beside an empty directory": bad(lambda st: {"f": f(), "o": {}}, "E072"),
    "two declarations": bad(lambda st: dict(simple(st, 1).tree(), **{"0=ocfl_object_1.0": F("ocfl_object_1.0\n")}), "E003d"),
    "declarations of two kinds": bad(lambda st: dict(simple(st, 1).tree(), **{"0=zz": F("zz\n")}), "E003d"),
    "unknown version": bad(lambda st: {"0=ocfl_object_2.7": F("ocfl_object_2.7\n"), "v1": {}}, "E004a"),
    "version 1.10": bad(lambda st: {"0=ocfl_object_1.10": F("ocfl_object_1.10\n"), "v1": {}}, "E004a"),
    "other declaration": bad(lambda st: {"0=bagit_1.0": F("bagit\n"), "o": simple(st, 1).tree()}, "E004b"),
    "declaration with more text": bad(lambda st: dict({k: v for k, v in simple(st, 1).tree().items() if k[:2] != "0="}, **{"0=ocfl_object_1.1x": F("ocfl_object_1.1\n")}), "E004b"),
    "declaration of a root": bad(lambda st: {"0=ocfl_1.1": F("ocfl_1.1\n"), "o": simple(st, 1).tree()}, "E004b"),
    "declaration one digit off": bad(lambda st: dict({k: v for k, v in simple(st, 1).tree().items() if k[:2] != "0="}, **{"0=ocfl_object_1x1": F("ocfl_object_1.1\n")}), "E004b"),
    "deep object": inner(b=inner(c=objid("info:deep"))),
    "objects below": inner(b=objid("info:b"), c=objid("info:c"), d=inner(e=objid("info:e"))),
    "object and empty directory below": inner(b=objid("info:b"), c=bad({}, "E073")),
    "empty directory and object below": inner(b=bad({}, "E073"), c=objid("info:c")),
    "files and object below": inner(a=bad({"f": F(chunk("own"))}, "E072"), b=objid("info:b"), c=bad({"f": F(chunk("own"))}, "E072")),
    "deep empty directory": inner(b=inner(c=bad({}, "E073"))),
    "own extensions": inner(extensions=bad({"f": F(chunk("own"))}, "E072")),
}


def build_root(places, **kw):
    """Maker of (root tree, objects, errors) from {name: kind}."""
    def make(st, holder):
        h = Here({})
        for n, mk in places.items():
            n = n(st) if callable(n) else n
            x = mk(st)
            h.tree[n] = x.tree
            h.objs += [((n,) + p, i, g) for p, i, g in x.objs]
            h.errs += [(c, (n,) + p) for c, p in x.errs]
        holder["h"] = h
        return root(st, h.tree, **{k: v(st) if callable(v) else v for k, v in kw.items()})
    return make


def where(s, p):
    return joined(s, p)


def expected(s, h, extra=()):
    return sorted([(c, str(where(s, p))) for c, p in h.errs] + [(c, p) for c, p in extra])


def got(s):
    out = []
    for kind, c, at in s.mon.get("$rep", ()):
        if kind == "E":
            x = at.v if isinstance(at, K) else at
            x = x.lstrip("/") if isinstance(x, str) else x
            if isinstance(x, S) and isinstance(x.parts[0], str):
                x = s.norm(FM.mkstr((x.parts[0].lstrip("/"),) + x.parts[1:])) if x.parts[0].lstrip("/") else s.norm(FM.mkstr(x.parts[1:]))
                x = x.v if isinstance(x, K) else x
            out.append((c, str(x)))
    return sorted(out)


def world(p, make, real=False):
    w = World(p, {} if real else Reports().stubs())
    holder = {}
    w.install({"w": {"r": make(w.st, holder)}})
    return w, holder.get("h")


def listing(nm, make, extra=(), before=(), **kw):
    """list_objects yields every object once; nothing raises."""
    def fn(p, ob):
        r = Result()
        w, h = world(p, make)
        kw.setdefault("root", "/w/r")
        n = 0
        for o, s in w.new(SR, **{k: K(v) for k, v in kw.items()}):
            states = [s]
            for b in before:
                nxt = []
                for s0 in states:
                    s0.stack = s0.stack + (o,)
                    for v, s1 in w.meth(o, b, st=s0):
                        for v, s1 in (listed(w, v, s1) if b == "list_objects" else [(v, s1)]):
                            nxt.append(s1)
                states = nxt
            for s in states:
                s.stack = s.stack + (o,)
                for g, s1 in w.meth(o, "list_objects", st=s):
                    for v, s2 in listed(w, g, s1):
                        n += 1
                        r.count("paths")
                        if s2.taint:
                            r.undecided.append(s2.taint[0])
                            continue
                        if isinstance(v, Raise):
                            r.add("StorageRoot.list_objects", "raises %s" % describe(v.v, s2))
                            continue
                        found = {}
                        for e in s2.heap[deref(s2, v).a].segs:
                            if e[0] != "1" or not isinstance(e[1], T):
                                r.undecided.append("list of unknown length")
                                continue
                            path, oid = s2.norm(e[1].items[0]), s2.norm(e[1].items[1])
                            path = path.v if isinstance(path, K) else path
                            if path in found:
                                r.add("StorageRoot.list_objects", "%s listed twice" % (path,))
                            found[path] = oid
                        for q, i, _ in h.objs:
                            x = where(s2, q)
                            if x not in found:
                                r.add("StorageRoot.list_objects", "object at %s is not listed" % (x,))
                            elif i is not None and found[x] != (K(i) if isinstance(i, str) else s2.norm(i)):
                                r.add("StorageRoot.list_objects", "object at %s is listed with another identifier" % (x,))
                        for x in found:
                            if x not in [where(s2, q) for q, _, _ in h.objs]:
                                r.add("StorageRoot.list_objects", "%s is listed, which is no object" % (x,))
                        num = v01.attr(s2, o, "num_objects")
                        if num != K(len(h.objs)):
                            r.add("StorageRoot.list_objects", "%r objects counted, not %d" % (getattr(num, "v", num), len(h.objs)))
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob("list: " + nm, LIST, fn)


def validating(nm, make, extra=(), before=(), objects=True, structure=None, good=None, vkw=None, real=False, **kw):
    """validate: verdict, counts and what is reported (real: with the real log, the objects with errors)."""
    def fn(p, ob):
        r = Result()
        w, h = world(p, make, real)
        kw.setdefault("root", "/w/r")
        n = 0
        for o, s in w.new(SR, **{k: K(v) for k, v in kw.items()}):
            states = [s]
            for b, bk in before:
                nxt = []
                for s0 in states:
                    s0.stack = s0.stack + (o,)
                    for v, s1 in w.meth(o, b, st=s0, **bk):
                        for v, s1 in (listed(w, v, s1) if b == "list_objects" else [(v, s1)]):
                            nxt.append(s1)
                states = nxt
            for s in states:
                s.mon["$rep"] = ()
                s.stack = s.stack + (o,)
                for v, s1 in w.meth(o, "validate", st=s, validate_objects=K(objects), **{a: K(x) for a, x in (vkw or {}).items()}):
                    n += 1
                    r.count("paths")
                    if s1.taint:
                        r.undecided.append(s1.taint[0])
                        continue
                    if isinstance(v, Raise):
                        r.add("StorageRoot.validate", "raises %s" % describe(v.v, s1))
                        continue
                    if structure is not None:
                        codes = [c for kd, c, at in s1.mon.get("$rep", ()) if kd == "E"]
                        if v != FALSE:
                            r.add("StorageRoot.validate", "verdict %r in spite of the fault in the storage root" % (getattr(v, "v", v),))
                        if codes != [structure]:
                            r.add("StorageRoot.validate", "reports %s, not %s" % (",".join(codes) or "nothing", structure))
                        continue
                    objs = [(q, i, g if good is None else good) for q, i, g in h.objs]
                    want = not h.errs and not extra and (not objects or all(g for _, _, g in objs))
                    if v != (TRUE if want else FALSE):
                        r.add("StorageRoot.validate", "verdict %r for %s storage root" % (getattr(v, "v", v), "a valid" if want else "an invalid"))
                    roots = [] if real else [x for x in got(s1) if x[0][:3] in ("E07", "E00", "E08") and x[1] != "None"]
                    exp = [] if real else expected(s1, h, extra)
                    for x in exp:
                        if x not in roots:
                            r.add("StorageRoot.validate", "%s at %s is not reported" % x)
                    for x in roots:
                        if x not in exp:
                            r.add("StorageRoot.validate", "%s at %s is reported wrongly" % x)
                        elif roots.count(x) > exp.count(x):
                            r.add("StorageRoot.validate", "%s at %s is reported more than once" % x)
                    if objects:
                        for a, x in (("num_objects", len(objs)), ("good_objects", sum(1 for _, _, g in objs if g))):
                            y = v01.attr(s1, o, a)
                            if y != K(x):
                                r.add("StorageRoot.validate", "%s is %r, not %d" % (a, getattr(y, "v", y), x))
                        if real and (vkw or {}).get("max_errors", 100) >= len(objs):
                            es = v01.items(s1, v01.attr(s1, o, "errors"))
                            if es is None:
                                r.undecided.append("errors not known individually")
                                continue
                            at = []
                            for e in es:
                                y = s1.norm(v01.items(s1, e)[0]) if v01.items(s1, e) else None
                                at.append(y.v if isinstance(y, K) else y)
                            for q, _, g in objs:
                                if g == (where(s1, q) in at):
                                    r.add("StorageRoot.validate", "%s object at %s %s among those with errors" % (("a valid", where(s1, q), "is") if g else ("an invalid", where(s1, q), "is not")))
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob("validate: " + nm + ("" if objects else ", structure only") + (", errors listed" if real else ""), VAL, fn)


def obligations(p):
    obs = []

    def both_(nm, make, extra=(), **kw):
        obs.append(listing(nm, make))
        for ob in (True, False):
            obs.append(validating(nm, make, extra=extra, objects=ob, **kw))
    X, Y = objid("info:first"), objid("info:last")
    both_("empty root", build_root({}))
    both_("files in the root", build_root({}, readme=F(chunk("own")), **{"extensions": F(chunk("own"))}))
    for nm, k in KINDS.items():
        both_(nm, build_root({"m": k}))
        obs.append(validating(nm, build_root({"a": X, "m": k, "z": Y}), real=True))
        both_("%s between objects" % nm, build_root({"a": X, "m": k, "z": Y}))
        both_("%s between objects, below" % nm, build_root({"t": inner(a=X, m=k, z=Y)}))
        both_("%s, any name" % nm, build_root({(lambda st: st.atom(D.minus(v23.ELEM, D.words(["extensions", "ocfl_layout.json", "0=ocfl_1.1", "a"])))): k, "a": X}))
    both_("many objects", build_root({"d%02d" % i: objid("info:%d" % i) for i in range(14)}))
    both_("many objects below", build_root({"t": inner(**{"d%02d" % i: objid("info:%d" % i) for i in range(14)})}))
    both_("object far below", build_root({"t": inner(t=inner(t=inner(t=inner(t=inner(t=inner(t=inner(t=X, u=bad({}, "E073"))))))))}))
    names = list(KINDS)
    for a, b in itertools.permutations(names, 2):
        obs.append(validating("%s, %s" % (a, b), build_root({"m": KINDS[a], "n": KINDS[b]}), vkw={"check_digests": True}))
    for nm in ("object", "changed object", "empty directory", "objects below", "file beside an object"):
        mk = build_root({"m": KINDS[nm], "z": Y})
        for bn, be in (("validated", [("validate", {})]), ("listed", [("list_objects", {})]), ("listed and validated", [("list_objects", {}), ("validate", {})])):
            obs.append(validating("%s, %s before" % (nm, bn), mk, before=be))
            obs.append(listing("%s, %s before" % (nm, bn), mk, before=[b for b, _ in be]))
        for kw in ({"max_errors": 0}, {"max_errors": 1}, {"log_warnings": True}, {"log_errors": False}, {"lang": "xx"}):
            obs.append(validating("%s, %s" % (nm, kw), mk, vkw=kw))
            obs.append(validating("%s twice, %s" % (nm, kw), build_root({"m": KINDS[nm], "n": KINDS[nm]}), vkw=kw))
    obs.append(validating("changed object, digests not checked", build_root({"m": KINDS["changed object"]}), vkw={"check_digests": False}, good=True))
    lax = build_root({"m": lambda st: Here(simple(st, 1, alg="md5").tree(), [((), "info:abc", False)])})
    obs.append(validating("digest algorithm not allowed", lax))
    obs.append(validating("digest algorithm not allowed, lax", lax, good=True, lax_digests=True))
    for spec in ("1.0", "1.1"):
        mk = build_root({"m": objid("info:x", spec="1.0")}, version=spec)
        both_("root of version %s" % spec, mk)
        obs.append(validating("root of version %s, expected" % spec, mk, spec_version=spec))
    for name in v23.REFUSE:
        both_("layout %s" % name, build_root({"m": objid("info:x")}, layout=name))
        obs.append(validating("layout %s, another set" % name, build_root({"m": objid("info:x")}, layout=name), layout_name=FLAT))
    both_("no layout", build_root({"m": objid("info:x")}, layout=None))
    both_("hash layout with parameters", build_root({"m": objid("info:x")}, layout=HASH, params={"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 2}))
    # extensions
    ext = lambda **t: build_root({"m": objid("info:x")}, extensions=lambda st, t=t: {k.replace("_", "-"): (x(st) if callable(x) else x) for k, x in t.items()})
    both_("registered extension", ext(**{FLAT: lambda st: {"config.json": jf(st, {"extensionName": FLAT})}}))
    both_("unregistered extension", ext(zzz={"f": F(chunk("own"))}))
    both_("empty extensions", build_root({"m": objid("info:x")}, extensions={}))
    both_("object in an extension", ext(zzz=lambda st: simple(st, 1).tree()))
    both_("file in extensions", ext(f=f()), extra=[("E086", "extensions/f")])
    both_("files and directories in extensions", ext(a={}, f=f(), z={}), extra=[("E086", "extensions/f")])
    # the structure of the root
    st_ = lambda nm, rt, code, **kw: [obs.append(validating(nm, lambda st, h, rt=rt: (h.update(h=Here({})), rt(st))[1], structure=code, objects=ob, **kw)) for ob in (True, False)]
    ob1 = lambda st: {"m": simple(st, 1).tree()}
    st_("no declaration", lambda st: {k: v for k, v in root(st, ob1(st)).items() if k[:2] != "0="}, "E069a")
    st_("declaration is a directory", lambda st: dict({k: v for k, v in root(st, ob1(st)).items() if k[:2] != "0="}, **{"0=ocfl_1.1": {"f": f()}}), "E069a")
    st_("two declarations", lambda st: root(st, ob1(st), **{"0=ocfl_1.0": F("ocfl_1.0\n")}), "E069b")
    st_("another declaration", lambda st: root(st, ob1(st), **{"0=zzz": F("zzz\n")}), "E069b")
    st_("unknown version", lambda st: root(st, ob1(st), version="2.7"), "E069c")
    st_("unknown version 1.11", lambda st: root(st, ob1(st), version="1.11"), "E069c")
    st_("object declaration", lambda st: dict({k: v for k, v in root(st, ob1(st)).items() if k[:2] != "0="}, **{"0=ocfl_object_1.1": F("ocfl_object_1.1\n")}), "E069c")
    st_("another version than expected", lambda st: root(st, ob1(st), version="1.0"), "E069d", spec_version="1.1")
    st_("later version than expected", lambda st: root(st, ob1(st), version="1.1"), "E069d", spec_version="1.0")
    for nm, c in (("another version", "ocfl_1.0\n"), ("empty", ""), ("more text", "ocfl_1.1\nx"), ("other case", "OCFL_1.1\n"), ("no prefix", "1.1\n")):
        st_("declaration content: %s" % nm, lambda st, c=c: dict(root(st, ob1(st)), **{"0=ocfl_1.1": F(c) if c else F()}), "E069e")
    lay = lambda x: (lambda st: root(st, ob1(st), layout=None, **{"ocfl_layout.json": x(st) if callable(x) else x}))
    st_("layout not JSON", lay(F(Q("badjson"))), "E070a")
    st_("layout a directory", lay({"f": F(chunk("own"))}), "E070a")
    for nm, x in (("list", [FLAT]), ("text", FLAT), ("number", 5), ("null", None), ("true", True)):
        st_("layout a %s" % nm, lay(lambda st, x=x: jf(st, x)), "E070b")
    for nm, x in (("no extension", {"description": "d"}), ("no description", {"extension": FLAT}), ("extension null", {"extension": None, "description": "d"}),
                  ("extension a number", {"extension": 2, "description": "d"}), ("extension a list", {"extension": [FLAT], "description": "d"}),
                  ("description null", {"extension": FLAT, "description": None}), ("description an object", {"extension": FLAT, "description": {}}), ("nothing", {})):
        st_("layout has %s" % nm, lay(lambda st, x=x: jf(st, x)), "E070c")
    st_("layout unknown", lay(lambda st: jf(st, {"extension": "zzz", "description": "d"})), "E071")
    st_("layout any unknown", lay(lambda st: jf(st, {"extension": D.minus(D.ALL, D.words(list(v23.registry(p)))), "description": "d"})), "E071")
    st_("layout empty", lay(lambda st: jf(st, {"extension": "", "description": "d"})), "E071")
    for nm, pr in BADPARAMS:
        st_("bad parameters: %s" % nm, lambda st, pr=pr: root(st, ob1(st), layout=HASH, params=pr), "E070a")
    for nm, x in (("not JSON", lambda st: F(Q("badjson"))), ("a list", lambda st: jf(st, [1])), ("null", lambda st: jf(st, None)), ("for another layout", lambda st: jf(st, {"extensionName": FLAT})),
                  ("without name", lambda st: jf(st, {"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 2}))):
        st_("parameters %s" % nm, lambda st, x=x: root(st, ob1(st), layout=HASH, extensions={HASH: {"config.json": x(st)}}), "E070a")
    return obs
