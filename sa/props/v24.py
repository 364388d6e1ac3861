"""V24: objects are added to storage roots at the place their layout gives."""
from ..roots import *
from . import v01

EXPLAIN = ("Abstract interpretation of adding an object to an abstract storage root, for all layouts and parameters stored in the root, with fixed and arbitrary identifiers, "
           "in empty and populated roots, one object after another, and with the layout of the root differing from the one set before. Afterwards the object is "
           "at the path that the stored layout gives, as an exact copy of its files, and nothing else has changed. Requests that cannot be carried out have no effect on the storage. "
           "With a failing storage operation at each step, success is never reported and nothing outside the new path is touched.")
ASSUME = ["file systems behave like a local directory tree", "cryptographic digests of different identifiers differ"]
FLOOR = 60
OK, NO = "the object is stored where the layout says, and only there", "a request that cannot be carried out has no effect"


def source(kind="simple", oid="info:abc", n=2, **kw):
    """Maker of the object to add."""
    def make(st):
        o = simple(st, n, oid=oid(st) if callable(oid) else oid, **kw)
        t = o.tree()
        if kind == "more":
            t["v1"]["content"]["deep"] = {"er": {"f": F(chunk("x1"), chunk("x2")), ".h": F(chunk("x3"))}, "empty": F()}
            t["logs"] = {"l.txt": F(chunk("log"))}
            t["extensions"] = {"0001-digest-algorithms": {"x": F(chunk("ext"))}}
        if kind == "any name":
            t["v1"]["content"][st.atom(D.minus(NAME, D.words(["a.txt", "d"])))] = F(chunk("x1"), chunk("x2"))
            t["v1"]["content"]["d"][st.atom(D.minus(NAME, D.words(["b.txt"])))] = {st.atom(NAME): F(chunk("x3"))}
        o.made = t
        return t
    return make


def other(st, oid="info:other"):
    return simple(st, 1, oid=oid).tree()


def add(*srcs, **kw):
    """Act: add objects one after another with one StorageRoot; the identifiers and paths returned are kept."""
    def act(w, o, s):
        outs = [(None, s)]
        for x in srcs:
            nxt = []
            for v, s1 in outs:
                if isinstance(v, Raise):
                    nxt.append((v, s1))
                    continue
                s1.stack = s1.stack + (o,)
                nxt.extend(w.meth(o, "add", K("/w/" + x), st=s1))
            outs = nxt
        yield from outs
    return act


def first(fn, then):
    """Act: call a method before, whatever its outcome."""
    def act(w, o, s):
        s.stack = s.stack + (o,)
        for v, s1 in w.meth(o, fn[0], *fn[1:], st=s):
            s1.stack = s1.stack + (o,)
            yield from then(w, o, s1)
    return act


def scen(rt, srcs, act=None, **okw):
    def tree(st):
        t = {"r": rt(st)} if rt else {}
        for n, mk in srcs.items():
            t[n] = mk(st)
        return t
    okw.setdefault("root", "/w/r")
    return Scen(tree=tree, act=act or add(*sorted(srcs)), path=("w", "r"), cls=SR, okw=okw)


def layout_path(p, s, name, params, oid):
    """Path of an identifier by a layout, computed apart from the storage root."""
    w = World(p)
    st = s.fork()
    st.taint = ()
    out = []
    for o, s0 in w.func("ocfl.layout_registry.get_layout", K(name), st=st):
        sets = [(None, s0)] if params is None else w.meth(o, "check_and_set_layout_params", val(s0, params), st=s0, require_extension_name=K(False))
        for x, s1 in sets:
            for v, s2 in w.meth(o, "identifier_to_path", oid, st=s1):
                if isinstance(v, Raise) or s2.taint:
                    raise Unclear("path by layout")
                out.append(split(s2, v))
    return out


def where(w, s, src):
    v = inventory_at(s, "w", src, "inventory.json")["id"]
    return v if isinstance(v, V) else K(v)


def stored(name, params, srcs):
    """Judge: all sources are stored where the layout says."""
    def judge(p, w, scen, v, s):
        bad = []
        fs, empty = files(s, "w", "r")
        allf, _ = files(s, "w")
        want = dict(w.before)
        places = []
        for x in srcs:
            oid = where(w, s, x)
            ps = layout_path(p, s, name, params, oid)
            if len(set(ps)) != 1:
                raise Unclear("%d paths by layout" % len(set(ps)))
            places.append(ps[0])
            for f, c in w.all_before.items():
                if f[0] == x:
                    want[ps[0] + f[1:]] = c
        key = lambda f: joined(s, f)
        got = {key(f): norm(s, c) for f, c in fs.items()}
        wants = {key(f): norm(s, c) for f, c in want.items()}
        for f in wants:
            if f not in got:
                bad.append("%s is not stored" % (f,))
            elif got[f] != wants[f]:
                bad.append("content of %s differs" % (f,))
        for f in got:
            if f not in wants:
                bad.append("%s stored that is not of the object" % (f,))
        if empty:
            bad.append("empty directory left")
        for f, c in w.all_before.items():
            if f[0] != "r" and allf.get(f) != c:
                bad.append("%s of the source changed" % engine_name(f))
        bad += outside(s, places)
        if not isinstance(v, T) or len(v.items) != 2:
            bad.append("identifier and path are not returned")
        else:
            oid = where(w, s, srcs[-1])
            if s.norm(v.items[0]) != s.norm(oid):
                bad.append("the identifier returned is not that of the object")
            if split(s, v.items[1]) != places[-1]:
                bad.append("the path returned is not that of the object")
        return bad
    return judge


def engine_name(f):
    return "/".join(x if isinstance(x, str) else "<name>" for x in f)


def outside(s, places):
    """Effects outside the places of new objects (making directories above them is allowed)."""
    bad = []
    for op, q in s.mon.get("$ev", ()):
        if q[:2] != ("w", "r"):
            bad.append("%s of %s, outside the storage root" % (op, engine_name(q)))
            continue
        x = q[2:]
        if not any(x[:len(pl)] == pl or op == "mkdir" and pl[:len(x)] == x for pl in places):
            bad.append("%s of %s, not part of the object" % (op, engine_name(x)))
        if op == "rm":
            bad.append("%s removed" % engine_name(x))
    if s.mon.get("$esc"):
        bad.append("path outside the file system used")
    return list(dict.fromkeys(bad))


def nothing(p, w, scen, v, s):
    bad = ["%s of %s" % (op, engine_name(q)) for op, q in s.mon.get("$ev", ())]
    if not isinstance(v, Raise):
        bad.append("the request is not refused")
    return list(dict.fromkeys(bad))


def last_refused(name, params, done):
    """Judge: the last request is refused, and the state is that after the ones before."""
    st = stored(name, params, done)

    def judge(p, w, scen, v, s):
        bad = [] if isinstance(v, Raise) else ["the request is not refused"]
        return bad + [b for b in st(p, w, scen, v, s) if "returned" not in b]
    return judge


def stopped(name, params, src):
    def judge(p, w, scen, v, s):
        bad = [] if isinstance(v, Raise) else ["success is reported in spite of a storage fault"]
        bad += outside(s, layout_path(p, s, name, params, where(w, s, src)))
        for f, c in w.before.items():
            if files(s, "w", "r")[0].get(f) != c:
                bad.append("%s lost" % engine_name(f))
        return bad
    return judge


LAYOUTS = [(FLAT, None), (HASH, None), (HASH, {"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 15}), (HASH, {"digestAlgorithm": "sha512", "tupleSize": 0, "numberOfTuples": 0}),
           (HASH, {"digestAlgorithm": "sha256", "tupleSize": 5, "numberOfTuples": 2}), (QUOTED, None), (TREE, None), (TREE, {"tupleSize": 3}), (TREE, {"tupleSize": 6}), (UUIDQ, None)]


def label(name, params):
    return name.replace("-storage-layout", "").replace("-layout", "") + "".join(" %s" % x for x in (params or {}).values())


def obligations(p):
    obs = []
    ident = lambda name: URN if name == UUIDQ else "info_abc" if name == FLAT else "info:abc/d e"
    for name, params in LAYOUTS:
        lb = label(name, params)
        rt = lambda st, name=name, params=params, **kw: root(st, layout=name, params=params, **kw)
        so = {"s": source(oid=ident(name))}
        obs.append(after("%s: empty root" % lb, OK, scen(rt, so), stored(name, params, ["s"])))
        obs.append(after("%s: other objects there" % lb, OK, scen(lambda st, rt=rt: rt(st, objs={"zz": other(st), "y": {"z": other(st, "info:z")}, "readme": F(chunk("own"))}), so),
                         stored(name, params, ["s"])))
        for before in ([FLAT, HASH] if name not in (FLAT, HASH) else [HASH if name == FLAT else FLAT, TREE]):
            obs.append(after("%s: %s set before" % (lb, before), OK, scen(rt, so, layout_name=before), stored(name, params, ["s"])))
            obs.append(after("%s: %s used before" % (lb, before), OK, scen(rt, so, layout_name=before, act=first(("object_path", K("a" if before != UUIDQ else URN)), add("s"))), stored(name, params, ["s"])))
        obs.append(after("%s: path asked for before" % lb, OK, scen(rt, so, act=first(("object_path", K(ident(name))), add("s"))), stored(name, params, ["s"])))
        obs.append(after("%s: validated before" % lb, OK, scen(rt, so, act=first(("validate",), add("s"))), stored(name, params, ["s"])))
        two = {"s": source(oid=ident(name)), "t": source(oid="other" if name != UUIDQ else URN[:-1] + "9", n=1)}
        obs.append(after("%s: two objects" % lb, OK, scen(rt, two), stored(name, params, ["s", "t"])))
        obs.append(after("%s: same object twice" % lb, NO, scen(rt, so, act=add("s", "s")), last_refused(name, params, ["s"]), ok=False))
        same = {"s": source(oid=ident(name)), "t": source(oid=ident(name), n=1)}
        obs.append(after("%s: identifier in use" % lb, NO, scen(rt, same), last_refused(name, params, ["s"]), ok=False))
    for kind in ("more", "any name"):
        for name in (FLAT, HASH, TREE):
            obs.append(after("%s: %s" % (label(name, None), kind), OK, scen(lambda st, name=name: root(st, layout=name), {"s": source(kind, oid=ident(name))}), stored(name, None, ["s"])))
    for spec in ("1.0", "1.1"):
        obs.append(after("root of version %s" % spec, OK, scen(lambda st, spec=spec: root(st, version=spec), {"s": source(oid="x", spec="1.0")}), stored(FLAT, None, ["s"])))
        obs.append(after("root of version %s, expected" % spec, OK, scen(lambda st, spec=spec: root(st, version=spec), {"s": source(oid="x", spec="1.0")}, spec_version=spec), stored(FLAT, None, ["s"])))
    # arbitrary identifiers
    safe_flat = D.minus(v23.ELEM, D.words(["extensions", "ocfl_layout.json", "0=ocfl_1.1", "zz", "readme"]))
    anyid = lambda L: (lambda st: st.atom(L))
    obs.append(after("arbitrary identifier, flat", OK, scen(lambda st: root(st, objs={"zz": other(st)}), {"s": source(oid=anyid(safe_flat))}), stored(FLAT, None, ["s"])))
    obs.append(after("arbitrary identifier, quoted", OK, scen(lambda st: root(st, objs={"zz": other(st)}, layout=QUOTED), {"s": source(oid=anyid(safe_flat))}), stored(QUOTED, None, ["s"])))
    for i, x in enumerate(v23.IDS):
        for name in (HASH, QUOTED, TREE):
            if not (name == QUOTED and x in (".", "..")) and not (name == TREE and len(x.encode()) > 16):
                obs.append(after("%s: identifier %d" % (label(name, None), i), OK, scen(lambda st, name=name: root(st, objs={"zz": other(st)}, layout=name), {"s": source(oid=x, n=1)}), stored(name, None, ["s"])))
    # the root refuses
    rf = lambda nm, rt, so, **kw: obs.append(after(nm, NO, scen(rt, so, **kw), nothing, ok=False))
    s0 = {"s": source(oid="x")}
    for nm, there in (("an object", lambda st: {"x": other(st)}), ("a file", lambda st: {"x": F(chunk("own"))}), ("an empty directory", lambda st: {"x": {}}),
                      ("a directory", lambda st: {"x": {"y": {}}}), ("a directory with a file", lambda st: {"x": {"y": F(chunk("own"))}})):
        rf("flat: %s at its path" % nm, lambda st, there=there: root(st, there(st)), s0)
    for nm, at in (("an object", lambda st: other(st)), ("a directory with a file", lambda st: {"y": F(chunk("own"))}), ("a file", lambda st: F(chunk("own"))),
                   ("an object and a directory", lambda st: dict(other(st), cd={}))):
        for up, oid in (("ab", "abcd"), ("ab/cd", "abcdef"), ("ab", "abcdef"), ("ab/ab", "abab"), ("ab/c", "abc"), ("ab", "ab")):
            rf("tuple tree: %s at %s, for %s" % (nm, up, oid), lambda st, up=up, at=at: (lambda t: (spread(t, up, at(st)), t)[1])(root(st, layout=TREE)), {"s": source(oid=oid)})
    obs.append(after("tuple tree: directories on the way", OK, scen(lambda st: root(st, {"ab": {"cd": {"xx": other(st)}, "yy": {"z": {"yyz": other(st, "info:z")}}}}, layout=TREE), {"s": source(oid="abcd")}), stored(TREE, None, ["s"])))
    obs.append(after("tuple tree: inside the object before", NO, scen(lambda st: root(st, layout=TREE), {"s": source(oid="ab"), "t": source(oid="abab")}), last_refused(TREE, None, ["s"]), ok=False))
    obs.append(after("tuple tree: above the object before", NO, scen(lambda st: root(st, layout=TREE), {"s": source(oid="abab"), "t": source(oid="ab")}), last_refused(TREE, None, ["s"]), ok=False))
    rf("flat: identifier extensions", lambda st: root(st), {"s": source(oid="extensions")})
    rf("flat: identifier extensions, directory there", lambda st: root(st, extensions={"x": {"f": F(chunk("own"))}}), {"s": source(oid="extensions")})
    rf("quoted: identifier extensions", lambda st: root(st, layout=QUOTED), {"s": source(oid="extensions")})
    for bad in ("0=ocfl_1.1", "ocfl_layout.json"):
        rf("flat: identifier %s" % bad, lambda st: root(st), {"s": source(oid=bad)})
    rf("flat: unsafe identifier", lambda st: root(st), {"s": source(oid=anyid(D.compl(v23.ELEM)))})
    for name, L in v23.REFUSE.items():
        if name not in (FLAT, UUIDQ):
            rf("%s: identifier without path" % label(name, None), lambda st, name=name: root(st, layout=name), {"s": source(oid=anyid(L))})
    rf("uuid: not a UUID", lambda st: root(st, layout=UUIDQ), {"s": source(oid="info:abc")})
    rf("no root", None, s0)
    rf("root is a file", lambda st: F(chunk("own")), s0)
    rf("no declaration", lambda st: {"ocfl_layout.json": jf(st, {"extension": FLAT, "description": "d"})}, s0)
    rf("declaration of another kind", lambda st: dict(root(st, version="1.1"), **{"0=ocfl_1.1": F("ocfl_1.0\n")}), s0)
    rf("two declarations", lambda st: root(st, **{"0=ocfl_1.0": "ocfl_1.0\n"}), s0)
    rf("unknown version", lambda st: root(st, version="1.7"), s0)
    rf("another version than expected", lambda st: root(st, version="1.0"), s0, spec_version="1.1")
    rf("no layout", lambda st: root(st, layout=None), s0)
    rf("unknown layout", lambda st: root(st, layout="zzz"), s0)
    rf("unknown layout, another set before", lambda st: root(st, layout="zzz"), s0, layout_name=FLAT)
    rf("unknown layout, another used before", lambda st: root(st, layout="zzz"), s0, layout_name=FLAT, act=first(("object_path", K("a")), add("s")))
    rf("layout not JSON", lambda st: root(st, layout=None, **{"ocfl_layout.json": F(Q("badjson"))}), s0)
    rf("layout not JSON, another set before", lambda st: root(st, layout=None, **{"ocfl_layout.json": F(Q("badjson"))}), s0, layout_name=FLAT)
    rf("layout not an object", lambda st: root(st, layout=None, **{"ocfl_layout.json": jf(st, [FLAT])}), s0)
    rf("layout without extension", lambda st: root(st, layout=None, **{"ocfl_layout.json": jf(st, {"description": "d"})}), s0)
    for nm, pr in BADPARAMS:
        rf("bad parameters: %s" % nm, lambda st, pr=pr: root(st, layout=HASH, params=pr), s0)
    rf("parameters of another layout", lambda st: root(st, layout=HASH, extensions={HASH: {"config.json": jf(st, {"extensionName": FLAT})}}), s0)
    rf("no object", lambda st: root(st), {}, act=add("s"))
    for case in ("no inventory", "malformed inventory", "empty directory", "empty identifier"):
        rf("source: %s" % case, lambda st: root(st), {"s": v01.CASES[case][0]})
    # storage faults
    for name in (FLAT, HASH, TREE):
        for k in range(20):
            obs.append(faulty("%s: storage fault %d" % (label(name, None), k), "a failed addition loses nothing and is reported",
                              scen(lambda st, name=name: root(st, {"zz": other(st)}, layout=name), {"s": source(oid="abc", n=1)}), k, stopped(name, None, "s")))
    return obs


BADPARAMS = [("no algorithm", {"digestAlgorithm": None, "tupleSize": 3, "numberOfTuples": 3}), ("unknown algorithm", {"digestAlgorithm": "zzz", "tupleSize": 3, "numberOfTuples": 3}),
             ("tuples too long", {"digestAlgorithm": "sha256", "tupleSize": 33, "numberOfTuples": 1}), ("too many tuples", {"digestAlgorithm": "sha256", "tupleSize": 1, "numberOfTuples": 33}),
             ("negative", {"digestAlgorithm": "sha256", "tupleSize": -1, "numberOfTuples": 3}), ("negative number", {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": -1}),
             ("text", {"digestAlgorithm": "sha256", "tupleSize": "3", "numberOfTuples": 3}), ("text number", {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": "3"}),
             ("fraction", {"digestAlgorithm": "sha256", "tupleSize": 2.5, "numberOfTuples": 3}), ("only size zero", {"digestAlgorithm": "sha256", "tupleSize": 0, "numberOfTuples": 3}),
             ("only number zero", {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 0}), ("more than the digest", {"digestAlgorithm": "md5", "tupleSize": 11, "numberOfTuples": 3})]
