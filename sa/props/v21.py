"""V21: where content is stored, for every name of a source file and every path asked for."""
from ..scen import *

EXPLAIN = ("Abstract interpretation of creating and updating objects from sources whose files and directories have arbitrary names (string variables over "
           "regular languages), and of adding and renaming with arbitrary content paths and logical paths. Each outcome is judged: the effects on the storage "
           "and the language of every content path in the inventory lie in the content directory of the new version, paths have no empty, '.' or '..' element, "
           "no two files share a path, every logical path keeps its name and has the content of its source, and unsafe paths are refused.")
ASSUME = ["file systems behave like a local directory tree", "percent-encoding is injective"]
FLOOR = 60
PART = D.minus(lang(r"[^/]+\Z"), D.words([".", ".."]))
SAFE = D.concat(D.star(D.concat(PART, D.const("/"))), PART)
UNSAFE = D.compl(SAFE)


def below(vd, cd):
    return D.concat(D.const(vd + "/" + cd + "/"), SAFE)


def other(*names):
    return D.minus(PART, D.words(names))


def lang_of(s, x):
    return D.const(x) if isinstance(x, str) else s.lang_of(x)


def places(s, inv, vd, cd, old):
    """Problems of the paths in an inventory."""
    bad, seen = [], set()
    L = below(vd, cd)
    for ps in inv.get("manifest", {}).values():
        for x in ps:
            if x in seen:
                bad.append("content path %s is used twice" % (x,))
            seen.add(x)
            if x not in old and not D.subset(lang_of(s, x), L):
                bad.append("content path may be outside %s/%s, or have an empty, '.' or '..' element" % (vd, cd))
    st = set()
    for ps in inv["versions"][vd]["state"].values():
        for x in ps:
            if x in st:
                bad.append("logical path %s is used twice" % (x,))
            st.add(x)
            if not D.subset(lang_of(s, x), SAFE):
                bad.append("logical path may be absolute, empty or have an empty, '.' or '..' element")
    return bad


def stored(nm, sc, names, n, want, refuse=False, vd=None, cd="content"):
    """Writing a version from a source with arbitrary names."""
    vd = vd or "v%d" % (n + 1)

    def judge(p, w, scen, v, s):
        ev = s.mon.get("$ev", ())
        if isinstance(v, Raise):
            bad = ["%s of %s before it is refused" % (op, name(q)) for op, q in ev] if refuse else []
            return bad or ([] if refuse else ["raises %s" % describe(v.v, s)])
        bad = []
        inv = inventory_at(s, "w", "o", "inventory.json")
        if inv is None:
            return ["no root inventory"]
        old = set()
        if n:
            for q in before_paths(w):
                old.add(q)
        bad += places(s, inv, vd, cd, old)
        fs, _ = files(s, "w", "o")
        L = below(vd, cd)
        for f in fs:
            j = joined(s, f)
            if j not in old and len(f) > 1 and f[1] not in ("inventory.json", "inventory.json.sha512") and not D.subset(lang_of(s, j), L):
                bad.append("a file is stored outside %s/%s" % (vd, cd))
        got, pr = contents(s, inv, vd, "w", "o")
        bad += pr
        exp = {(plain(s, lp) if isinstance(lp, V) else lp): norm(s, c) for lp, c in want(w).items()}
        if not pr and got != exp:
            bad += ["%s %s" % (lp, "has other content than its source" if lp in got else "is missing") for lp in exp if got.get(lp) != exp[lp]]
            bad += ["%s was not asked for" % (lp,) for lp in got if lp not in exp]
        return bad + outside_object(s)
    return after(nm, "content stays inside, logical names are kept", sc, judge, ok=not refuse)


def writes_all(nm, sc):
    return after(nm, "content stays inside, logical names are kept", sc,
                 lambda p, w, scen, v, s: check_stored(p, s, scen.want(), scen.path) + outside_object(s))


def before_paths(w):
    return {"/".join(f) for f in w.before if len(f) > 2 and all(isinstance(x, str) for x in f)}


def outside_object(s):
    bad = []
    for op, q in s.mon.get("$ev", ()):
        if q[:2] != ("w", "o"):
            bad.append("%s of %s, outside the object" % (op, name(q)))
    if s.mon.get("$esc"):
        bad.append("path outside the file system used")
    return list(dict.fromkeys(bad))


def names_of(kind):
    """A source with arbitrary names, and the logical files it has."""
    def make(st):
        if kind == "one":
            a = st.atom(PART)
            return {a: ff(CN)}, {a: CN}
        if kind == "beside":
            a = st.atom(other("a.txt", "n.txt"))
            return {a: ff(CN), "a.txt": ff(A), "n.txt": ff(CM)}, {a: CN, "a.txt": A, "n.txt": CM}
        if kind == "deep":
            a, b = st.atom(other("q")), st.atom(PART)
            return {a: {b: ff(CN)}, "q": ff(CM)}, {path_of(a, b): CN, "q": CM}
        if kind == "in fixed":
            a = st.atom(PART)
            return {"d": {a: ff(CN)}, "q": ff(CM)}, {path_of("d", a): CN, "q": CM}
        if kind == "around fixed":
            a = st.atom(other("q"))
            return {a: {"d": ff(CN), "e": ff(CM)}, "q": ff(CH)}, {path_of(a, "d"): CN, path_of(a, "e"): CM, "q": CH}
        if kind == "two":
            a, b = st.atom(PART), st.atom(PART)
            st.add_ne(a.parts[0], b.parts[0])
            return {a: ff(CN), b: ff(CM)}, {a: CN, b: CM}
        if kind == "same content":
            a, b = st.atom(PART), st.atom(PART)
            st.add_ne(a.parts[0], b.parts[0])
            return {a: ff(CN), b: ff(CN)}, {a: CN, b: CN}
        if kind == "old content":
            a = st.atom(PART)
            return {a: ff(A)}, {a: A}
        if kind == "three deep":
            a, b, c = st.atom(PART), st.atom(PART), st.atom(PART)
            return {a: {b: {c: ff(CN)}}}, {path_of(a, b, c): CN}
    return make


def path_of(*xs):
    parts = []
    for i, x in enumerate(xs):
        parts += (["/"] if i else []) + ([x] if isinstance(x, str) else list(FM.parts_of(x)))
    return FM.mkstr(parts)


def source(kind, holder):
    def src(st):
        t, want = names_of(kind)(st)
        holder["want"] = want
        return t
    return src


def assembled(nm, sc, judge):
    """Judged on the version being assembled (nothing is written yet)."""
    return after(nm, "unsafe paths are refused, others kept", sc, judge, ok=False)


def adding(lp=None, cp=None, op="add", src="n.txt", md=META):
    """Act: start a version and do one operation with an arbitrary path."""
    def act(w, o, s):
        for m, s1 in meta(w, s, **md):
            for nv, s2 in w.meth(o, "start_new_version", st=s1, objdir=K("/w/o"), srcdir=K("/w/src"), metadata=m, carry_content_forward=K(True)):
                if isinstance(nv, Raise):
                    yield nv, s2
                    continue
                s2.stack = s2.stack + (o, nv)
                a = lp(s2) if callable(lp) else lp
                c = cp(s2) if callable(cp) else cp
                s2.mon["$lp"], s2.mon["$cp"] = a, c
                args = [K(src), a if isinstance(a, V) else K(a)]
                if c is not None:
                    args.append(c if isinstance(c, V) else K(c))
                for v, s3 in w.meth(nv, op, *args, st=s2):
                    yield (v if isinstance(v, Raise) else nv), s3
    return act


def inventory_of(s, nv):
    return plain(s, s.heap[deref(s, s.heap[deref(s, nv).a].attrs["inventory"]).a].attrs["data"])


def kept(vd, cd, taken_lp, lp=None, refuse=False):
    """The operation is refused, or the path it was given is safe, free and now present."""
    def judge(p, w, scen, v, s):
        bad = outside_object(s) + ["%s of %s while assembling" % (op, name(q)) for op, q in s.mon.get("$ev", ())]
        if isinstance(v, Raise):
            return bad
        if refuse:
            return bad + ["it is not refused"]
        inv = inventory_of(s, v)
        bad += places(s, inv, vd, cd, before_paths(w))
        a, c = s.mon["$lp"], s.mon["$cp"]
        state = [x for ps in inv["versions"][vd]["state"].values() for x in ps]
        for q in taken_lp:
            for L, what in ((D.const(q), "equal to"), (D.concat(D.const(q + "/"), D.ALL), "below")):
                if isinstance(a, V) and not D.disjoint(s.lang_of(s.norm(a)), L):
                    bad.append("logical path may be %s the existing %s" % (what, q))
            for i, ch in enumerate(q):
                if ch == "/" and isinstance(a, V) and not D.disjoint(s.lang_of(s.norm(a)), D.const(q[:i])):
                    bad.append("logical path may be a directory of the existing %s" % q)
        want = plain(s, a) if isinstance(a, V) else a
        if want not in state:
            bad.append("logical path is not that asked for")
        if c is not None:
            want = plain(s, c) if isinstance(c, V) else c
            if want not in [x for ps in inv["manifest"].values() for x in ps]:
                bad.append("content path is not that asked for")
        return bad
    return judge


def obligations(p):
    obs = []

    def arb(nm, kind, n=2, refuse=False, vd=None, obj=None, thorough=False, cd="content", **okw):
        h = {}
        kw = dict(obj={} if obj is None else obj, n=n, act=update()) if n else dict(act=create())
        if not n:
            okw["identifier"] = "info:abc"
        sc = Scen(src=source(kind, h), okw=okw, **kw)
        ob = stored(nm, sc, None, n, lambda w: h["want"], refuse=refuse, vd=vd, cd=cd)
        obs.append(ob)
    for norm_ in ("uri", None, "md5"):
        t = {"uri": "names encoded", None: "names kept", "md5": "names hashed"}[norm_]
        k = {} if norm_ == "uri" else {"content_path_normalization": norm_}
        for kind in ("one", "beside", "in fixed", "around fixed", "two", "same content", "old content", "three deep", "deep"):
            if norm_ == "md5" and kind not in ("one", "old content", "three deep"):
                continue      # two hashes of arbitrary names: outside the bounds
            arb("%s, %s" % (kind, t), kind, **k)
        for kind in ("one", "two", "three deep", "around fixed"):
            if norm_ == "md5" and kind in ("two", "around fixed"):
                continue
            arb("create: %s, %s" % (kind, t), kind, n=0, **k)
    arb("one, own content directory", "one", obj={"cdir": "stuff"}, cd="stuff")
    arb("three deep, own content directory", "three deep", n=0, content_directory="stuff", cd="stuff")
    arb("two, padded versions", "two", obj={"width": 3}, vd="v003")
    arb("two, no deduplication", "two", dedupe=False)
    arb("same content, no deduplication", "same content", dedupe=False)
    arb("old content, no forward delta", "old content", forward_delta=False)
    arb("one, eleventh version", "one", n=10)
    taken = ["a.txt", "d/b.txt", "c.txt"]
    vc = "v3/content/"
    for nm, ops, want in (
            ("n taken by another file", [("add", "b", "b", vc + "n.txt"), ("add", "n.txt", "n")], {"b": A, "n": CN}),
            ("n and the next taken", [("add", "b", "b", vc + "n.txt"), ("add", "m", "m", vc + "n.txt__2"), ("add", "n.txt", "n")], {"b": A, "m": CM, "n": CN}),
            ("n and the next two taken", [("add", "b", "b", vc + "n.txt"), ("add", "m", "m", vc + "n.txt__2"), ("add", "h", "h", vc + "n.txt__3"), ("add", "n.txt", "n")], {"b": A, "m": CM, "h": CH, "n": CN}),
            ("n taken twice over", [("add", "b", "b", vc + "n.txt"), ("add", "n.txt", "n"), ("add", "n.txt", "n2")], {"b": A, "n": CN, "n2": CN}),
            ("encoded name taken", [("add", "b", "b", vc + "%2Eh"), ("add", ".h", "h")], {"b": A, "h": CH})):
        for kw in ({"dedupe": False, "forward_delta": False},):
            src = {"b": A, "m": CM, "n.txt": CN, "h": CH, ".h": CH}
            obs.append(writes_all("%s, content paths chosen" % nm, Scen(obj={}, src=src, okw=kw, act=steps(*ops, start={"carry_content_forward": False}), new=want)))

    def upd(act, obj=None, **okw):
        return Scen(obj=obj or {}, src=SRC, act=act, okw=okw)
    for vd, cd, obj in (("v3", "content", {}), ("v3", "stuff", {"cdir": "stuff"}), ("v0003", "content", {"width": 4})):
        t = "" if not obj else ", %s" % next(iter(obj))
        x = lambda L: (lambda s: s.atom(L))
        obs.append(assembled("add, any logical path" + t, upd(adding(lp=x(D.ALL)), obj), kept(vd, cd, taken)))
        obs.append(assembled("add, any content path" + t, upd(adding(lp="new", cp=x(D.ALL)), obj), kept(vd, cd, [])))
        obs.append(assembled("rename, any logical path" + t, upd(adding(lp=x(D.ALL), op="rename", src="a.txt"), obj), kept(vd, cd, [q for q in taken if q != "a.txt"])))
        for op, src in (("add", "n.txt"), ("rename", "a.txt")):
            obs.append(assembled("%s, unsafe logical path%s" % (op, t), upd(adding(lp=x(UNSAFE), op=op, src=src), obj), kept(vd, cd, [], refuse=True)))
        obs.append(assembled("add, unsafe content path" + t, upd(adding(lp="new", cp=x(D.compl(below(vd, cd)))), obj), kept(vd, cd, [], refuse=True)))
        obs.append(assembled("add, safe logical path" + t, upd(adding(lp=x(D.minus(PART, D.words(taken + ["d"])))), obj), must(vd, cd)))
        obs.append(assembled("add, safe deep logical path" + t, upd(adding(lp=lambda s: path_of(s.atom(D.minus(PART, D.words(taken + ["d"]))), s.atom(PART))), obj), must(vd, cd)))
        obs.append(assembled("add, safe content path" + t, upd(adding(lp="new", cp=lambda s, vd=vd, cd=cd: path_of(vd, cd, s.atom(PART))), obj), must(vd, cd)))
        obs.append(assembled("add, safe deep content path" + t, upd(adding(lp="new", cp=lambda s, vd=vd, cd=cd: path_of(vd, cd, s.atom(PART), s.atom(PART))), obj), must(vd, cd)))
        obs.append(assembled("rename, safe logical path" + t, upd(adding(lp=x(D.minus(PART, D.words(taken + ["d"]))), op="rename", src="a.txt"), obj), must(vd, cd)))
    return obs


def must(vd, cd):
    k = kept(vd, cd, [])

    def judge(p, w, scen, v, s):
        if isinstance(v, Raise):
            return ["it is refused: %s" % describe(v.v, s)]
        return k(p, w, scen, v, s)
    return judge
