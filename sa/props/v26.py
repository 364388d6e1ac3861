"""V26: a storage root that is initialized is valid, and is what was asked for when it is opened again."""
import json
from ..roots import *
from .v24 import BADPARAMS, label, layout_path, nothing, engine_name

EXPLAIN = ("Abstract interpretation of initializing a storage root with every layout, parameters and specification version, and of opening, validating and using it again with a new "
           "instance: it is valid and empty, has the version and layout asked for, and gives identifiers (fixed and arbitrary) the paths of that layout with those parameters. Nothing outside the new "
           "directory is touched. Requests that cannot be carried out have no effect on the storage, and with a failing storage operation at each step success is never reported.")
ASSUME = ["file systems behave like a local directory tree"]
FLOOR = 60
OK, NO = "the new storage root is valid and has the settings asked for", "a request that cannot be carried out has no effect"


def init(**kw):
    def act(w, o, s):
        s.stack = s.stack + (o,)
        yield from w.meth(o, "initialize", st=s, **{k: K(v) for k, v in kw.items()})
    return act


def scen(tree=None, act=None, **okw):
    okw.setdefault("root", "/w/r")
    return Scen(tree=tree or {}, act=act or init(), path=("w", "r"), cls=SR, okw=okw)


def created(version, layout, params, idents, args=("r",)):
    def judge(p, w, scen, v, s):
        bad = []
        for op, q in s.mon.get("$ev", ()):
            if q[:2] != ("w", "r"):
                bad.append("%s of %s, outside the storage root" % (op, engine_name(q)))
        if s.mon.get("$esc"):
            bad.append("path outside the file system used")
        fs, empty = files(s, "w")
        for f, c in w.all_before.items():
            if fs.get(f) != c:
                bad.append("%s changed" % engine_name(f))
        new, _ = files(s, "w", "r")
        decl = [f for f in new if len(f) == 1 and str(f[0]).startswith("0=")]
        if decl != [("0=ocfl_" + version,)] or norm(s, new[decl[0]]) != norm(s, T([K("ocfl_%s\n" % version)])):
            bad.append("declaration is not that of version %s" % version)
        if layout is None and any(f[0] in ("ocfl_layout.json", "extensions") for f in new):
            bad.append("layout written though none is asked for")
        if layout is not None and ("ocfl_layout.json",) not in new:
            bad.append("no layout written")
        allowed = {"0=ocfl_" + version, "ocfl_layout.json", "extensions"}
        for f in new:
            if f[0] not in allowed:
                bad.append("%s written" % engine_name(f))
        # open again
        w2 = World(p, Log().stubs())
        st = s.fork()
        st.mon["err"] = ()
        st.mon["$ev"] = ()
        record(w2)
        n = 0
        for o, s1 in w2.new(SR, root=K("/w/r"), st=st):
            s1.stack = s1.stack + (o,)
            for x, s2 in w2.meth(o, "validate", st=s1):
                n += 1
                if s2.taint:
                    raise Unclear(s2.taint[0])
                if x != TRUE or s2.mon.get("err"):
                    bad.append("opened again it is not valid: %s" % ",".join(s2.mon.get("err", ())))
                    continue
                if s2.heap[o.a].attrs.get("spec_version") != K(version):
                    bad.append("opened again it has another specification version")
                s2.stack = s2.stack + (o,)
                for g, s3 in w2.meth(o, "list_objects", st=s2):
                    for y, s4 in listed(w2, g, s3):
                        if isinstance(y, Raise) or s4.heap[deref(s4, y).a].segs:
                            bad.append("objects are listed in the new storage root")
                for mk in idents:
                    s3 = s2.fork()
                    oid = mk(s3) if callable(mk) else K(mk)
                    for y, s4 in w2.meth(o, "object_path", oid, st=s3):
                        if s4.taint:
                            raise Unclear(s4.taint[0])
                        if layout is None:
                            if not isinstance(y, Raise):
                                bad.append("a path is given without a layout")
                        elif isinstance(y, Raise):
                            bad.append("opened again it gives no path: %s" % describe(y.v, s4))
                        else:
                            ps = layout_path(p, s4, layout, params, oid)
                            if set(ps) != {split(s4, y)}:
                                bad.append("opened again it gives another path than the layout asked for")
        if not n:
            bad.append("it cannot be opened again")
        return list(dict.fromkeys(bad))
    return judge


def obligations(p):
    obs = []
    ids = ["info:abc/d e", "é", "x" * 30]
    flat_id = lambda st: st.atom(v23.ELEM)
    sets = [(None, None, ["a"]), (FLAT, None, ["a", flat_id]), (HASH, None, ids), (QUOTED, None, ids + [flat_id]), (TREE, None, ids), (UUIDQ, None, [URN])]
    for n in (2, 3, 4, 5, 6):
        sets.append((TREE, {"tupleSize": n}, ids))
    for alg, a, b in v23.PARAMS:
        sets.append((HASH, {"digestAlgorithm": alg, "tupleSize": a, "numberOfTuples": b}, ids))
    for layout, params, idents in sets:
        lb = label(layout, params) if layout else "no layout"
        kw = {"layout_params": json.dumps(params)} if params else {}
        lk = {"layout_name": layout} if layout else {}
        for ver in (None, "1.0", "1.1"):
            v = {"spec_version": ver} if ver else {}
            obs.append(after("%s, version %s" % (lb, ver), OK, scen(act=init(**kw, **v), **lk), created(ver or "1.1", layout, params, idents)))
            if ver:
                obs.append(after("%s, version %s set before" % (lb, ver), OK, scen(act=init(**kw), spec_version=ver, **lk), created(ver, layout, params, idents)))
                for ver2 in ("1.0", "1.1"):
                    obs.append(after("%s, version %s set before, %s asked for" % (lb, ver, ver2), OK, scen(act=init(spec_version=ver2, **kw), spec_version=ver, **lk), created(ver2, layout, params, idents)))
        beside = {"q": F(chunk("own")), "s": {"f": F(chunk("own"))}, "rr": {"0=ocfl_1.0": F("ocfl_1.0\n")}}
        obs.append(after("%s, others beside" % lb, OK, scen(tree=beside, act=init(**kw), **lk), created("1.1", layout, params, idents)))
        if layout in (HASH, TREE):
            x = json.dumps(dict({"extensionName": layout}, **(params or {"digestAlgorithm": "sha256", "tupleSize": 3 if layout == HASH else 2, "numberOfTuples": 3})))
            obs.append(after("%s, parameters with name" % lb, OK, scen(act=init(layout_params=x), **lk), created("1.1", layout, params, idents)))
    rf = lambda nm, sc: obs.append(after(nm, NO, sc, nothing, ok=False))
    lks = [("no layout", {}), ("flat", {"layout_name": FLAT}), ("hash", {"layout_name": HASH})]
    for ln, lk in lks:
        for nm, t in (("an empty directory", {}), ("a directory", {"f": F(chunk("own"))}), ("a storage root", {"0=ocfl_1.1": F("ocfl_1.1\n")}), ("directories", {"d": {}})):
            rf("%s: %s there" % (ln, nm), scen(tree={"r": t}, **lk))
        rf("%s: a file there" % ln, scen(tree={"r": F(chunk("own"))}, **lk))
        rf("%s: no parent" % ln, scen(root="/w/no/r", **lk))
        rf("%s: parent is a file" % ln, scen(tree={"no": F(chunk("own"))}, root="/w/no/r", **lk))
        for bv in ("2.0", "1.11", "", "1", "1.0 ", "v1.0", "1.1\n"):
            rf("%s: version %r" % (ln, bv), scen(act=init(spec_version=bv), **lk))
        for bv in ("2.0", "1.1\n"):
            rf("%s: version %r set before" % (ln, bv), scen(spec_version=bv, **lk))
        rf("%s: any other version" % ln, scen(act=lambda w, o, s: w.meth(o, "initialize", st=s, spec_version=s.atom(D.minus(D.ALL, D.words(["1.0", "1.1"])))), **lk))
    rf("unknown layout", scen(layout_name="zzz"))
    rf("empty layout name", scen(layout_name=""))
    for nm, pr in BADPARAMS:
        rf("bad parameters: %s" % nm, scen(act=init(layout_params=json.dumps(pr)), layout_name=HASH))
    for nm, tx in (("not JSON", "{"), ("empty", ""), ("a list", "[1]"), ("null", "null"), ("a text", '"x"'), ("a number", "5"), ("of another layout", json.dumps({"extensionName": FLAT, "digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 2})),
                   ("true for a number", '{"digestAlgorithm": "md5", "tupleSize": true, "numberOfTuples": true}'), ("nothing in them", "{}")):
        rf("parameters: %s" % nm, scen(act=init(layout_params=tx), layout_name=HASH))
    for nm, tx in (("1", '{"tupleSize": 1}'), ("7", '{"tupleSize": 7}'), ("0", '{"tupleSize": 0}'), ("text", '{"tupleSize": "2"}'), ("true", '{"tupleSize": true}'), ("null", '{"tupleSize": null}'), ("none", "{}"), ("fraction", '{"tupleSize": 2.5}'), ("not JSON", "x"), ("a list", "[2]")):
        rf("tuple size %s" % nm, scen(act=init(layout_params=tx), layout_name=TREE))
    bad = lambda p, w, sc, v, s: ([] if isinstance(v, Raise) else ["success is reported in spite of a storage fault"]) + \
        ["%s of %s, outside the storage root" % (op, engine_name(q)) for op, q in s.mon.get("$ev", ()) if q[:2] != ("w", "r")]
    for ln, lk in lks:
        for k in range(12):
            obs.append(faulty("%s: storage fault %d" % (ln, k), "a failed initialization is reported", scen(tree={"q": F(chunk("own"))}, **lk), k, bad))
    return obs
