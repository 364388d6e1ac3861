"""V22: extraction gives exactly the version asked for, and touches nothing else."""
from ..scen import *
from . import v01

EXPLAIN = ("Abstract interpretation of extracting every version (and the latest) of abstract stored objects in several shapes to absent and "
           "empty destinations, and of extracting every single file. The destination then holds exactly the logical files of the version with the content that "
           "was stored, found through an independent reading of the object; the metadata returned is that of the version; no effect on the storage lies "
           "outside the destination. Requests that must be refused (destination in use, parent missing, unknown version or path, invalid inventory) have no effect, and "
           "inventories with arbitrary logical and content paths never lead to an effect outside the destination.")
ASSUME = ["file systems behave like a local directory tree"]
FLOOR = 150
MSG = {"created": TIME, "message": "m%d", "name": "N", "address": "mailto:n@example.org"}


def tree_of(o, more):
    def f(st):
        t = {"o": o(st)}
        t.update(more(st) if callable(more) else more)
        return t
    return f


def duplicates(**kw):
    """One content under several names and stored several times."""
    def make(st):
        x, y = (chunk("a1"), chunk("a2")), (chunk("b1"), chunk("b2"))
        one = {"a": P(1, "a", kw), "d/e/b": P(1, "a", kw), "d/e/c": P(1, "b", kw), "d/f": P(1, "c", kw), "zero": P(1, "z", kw)}
        two = {"a": P(1, "c", kw), "b": P(1, "a", kw), "q": P(2, "copy", kw)}
        o = Obj(st, [{"a": x, "b": x, "c": y, "z": ()}, {"copy": x}], [one, two], **kw)
        o.want = [{"a": A, "d/e/b": A, "d/e/c": A, "d/f": B, "zero": CE}, {"a": B, "b": A, "q": A}]
        return o
    return make


def shape(n=2, **kw):
    def make(st):
        o = simple(st, n, **kw)
        o.want = before_states(n)
        return o
    return make


def cases(*how):
    """Digests in upper case or not (constant digests: extraction does not compare them with the content)."""
    def make(st):
        o = simple(st, 2)
        o.want = before_states(2)
        d = o.docs[-1]
        known = {k: getattr("".join("0123456789abcdef"[(i * 7 + j) % 16] for j in range(128)), how[i % len(how)])() for i, k in enumerate(d["manifest"])}
        d["manifest"] = {known[k]: x for k, x in d["manifest"].items()}
        for v in d["versions"].values():
            v["state"] = {known[k]: x for k, x in v["state"].items()}
        return o
    return make


def named(st):
    """Arbitrary names."""
    a, b = st.atom(NAME), st.atom(NAME)
    st.add_ne(a.parts[0], b.parts[0])
    x = (chunk("a1"), chunk("a2"))
    y = (chunk("b1"), chunk("b2"))
    ab = FM.mkstr(FM.parts_of(a) + ("/",) + FM.parts_of(b))
    o = Obj(st, [{"f": x, "g": y}], [{ab: P(1, "f", {}), b: P(1, "g", {})}])
    o.want = [{ab: A, b: B}]
    return o


SHAPES = {
    "one version": (shape(1), ["v1"]),
    "two versions": (shape(2), ["v1", "v2"]),
    "three versions": (shape(3), ["v1", "v2", "v3"]),
    "eleven versions": (shape(11), ["v1", "v2", "v9", "v10", "v11"]),
    "padded versions": (shape(3, width=4), ["v0001", "v0002", "v0003"]),
    "own content directory": (shape(2, cdir="stuff"), ["v1", "v2"]),
    "sha256": (shape(2, alg="sha256"), ["v1", "v2"]),
    "older sha256": (shape(3, prior_alg="sha256"), ["v1", "v2", "v3"]),
    "1.0": (shape(2, spec="1.0"), ["v1", "v2"]),
    "duplicates": (duplicates(), ["v1", "v2"]),
    "duplicates, own content directory": (duplicates(cdir="stuff", alg="sha256"), ["v1", "v2"]),
    "digests in upper case": (cases("upper"), ["v1", "v2"]),
    "digests in upper and lower case": (cases("upper", "lower"), ["v1", "v2"]),
    "digests in any case": (cases("lower", "title", "upper"), ["v1", "v2"]),
    "arbitrary names": (named, ["v1"]),
}
DEST = {"absent": lambda st: {}, "empty": lambda st: {"x": {}}}


def outside(s, dst, objs=()):
    bad = []
    for op, q in s.mon.get("$ev", ()):
        if q[:len(dst)] != dst:
            bad.append("%s of %s, outside the destination" % (op, name(q)))
    if s.mon.get("$esc"):
        bad.append("path outside the file system used")
    return list(dict.fromkeys(bad))


def extracting(nm, make, ver, dest, single=None, known=True):
    def act(w, o, s):
        k = {"objdir": K("/w/o"), "version": K(ver), "dstdir": K("/w/x")}
        if single is None:
            yield from w.meth(o, "extract", st=s, **k)
        else:
            lp = single(w.obj) if callable(single) else K(single)
            yield from w.meth(o, "extract_file", st=s, logical_path=lp, **k)
    holder = {}

    def tree(st):
        o = make(st)
        holder["o"] = o
        t = {"o": o.tree()}
        t.update(DEST[dest](st))
        return t
    sc = Scen(tree=tree, act=act, path=("w", "x"))

    def judge(p, w, scen, v, s):
        o = holder["o"]
        k = o.n if ver == "head" else int(ver[1:])
        want = {joined_key(s, lp): norm(s, c) for lp, c in o.want[k - 1].items()}
        if single is not None:
            c = want[single]
            want = {single.split("/")[-1]: c}
        fs, empty = files(s, "w", "x")
        got = {joined(s, f): norm(s, c) for f, c in fs.items()}
        bad = outside(s, ("w", "x"))
        for f in want:
            if f not in got:
                bad.append("%s is not extracted" % f)
            elif got[f] != want[f]:
                bad.append("content of %s is not what was stored" % f)
        for f in got:
            if f not in want:
                bad.append("%s extracted though not in the version" % f)
        if empty and want:
            bad.append("empty directory left")
        for f, c in w.all_before.items():
            if f[0] == "o" and files(s, "w")[0].get(f) != c:
                bad.append("%s of the object changed" % name(f))
        if not bad and isinstance(v, R):
            m = s.heap[deref(s, v).a].attrs
            for a, x in MSG.items():
                x = x % k if "%" in x else x
                if a in m and deref(s, m[a]) != K(x):
                    bad.append("%s returned is not that of the version" % a)
        elif not bad:
            bad.append("no metadata returned")
        return bad
    return after(nm, "exactly the version asked for", sc, judge)


def joined_key(s, lp):
    if isinstance(lp, str):
        return lp
    v = s.norm(lp)
    return v.v if isinstance(v, K) else v


def nothing(p, w, scen, v, s):
    bad = ["%s of %s" % (op, name(q)) for op, q in s.mon.get("$ev", ())]
    if not isinstance(v, Raise):
        bad.append("the request is not refused")
    return list(dict.fromkeys(bad))


def inside(p, w, scen, v, s):
    return outside(s, ("w", "x"))


def req(make, dest, how, rule, nm, judge=nothing, **kw):
    def act(w, o, s):
        k = {a: (x(s) if callable(x) else K(x)) for a, x in dict({"objdir": "/w/o", "version": "head", "dstdir": "/w/x"}, **kw).items()}
        yield from w.meth(o, how, st=s, **k)
    return after(nm, rule, Scen(tree=tree_of(make, dest), act=act, path=("w", "x")), judge, ok=False)


def own(st):
    return simple(st, 2).tree()


UNSAFE = lang(r"((.*/)?(\.\.|\.)?(/.*)?)")


def any_logical(where, ln=UNSAFE):
    """An object whose inventory has an unsafe logical path or content path."""
    def make(st):
        o = simple(st, 1)
        x = st.atom(ln)
        d = o.docs[-1]
        dg = o.dg("v1/content/a.txt")
        if where == "logical":
            d["versions"]["v1"]["state"][dg] = d["versions"]["v1"]["state"][dg] + [x]
        elif where == "only logical":
            d["versions"]["v1"]["state"][dg] = [x]
        elif where == "content":
            d["manifest"][dg] = [x]
        elif where == "head":
            d["head"] = x
        return o.tree()
    return make


def obligations(p):
    obs = []
    for nm, (make, vers) in SHAPES.items():
        for ver in vers + ["head"]:
            for dest in DEST:
                obs.append(extracting("%s: %s to %s directory" % (nm, ver, dest), make, ver, dest))
    for nm, ver, lps in (("three versions", "v1", ["a.txt", "d/b.txt"]), ("three versions", "v2", ["a.txt", "d/b.txt", "c.txt"]),
                         ("three versions", "v3", ["a.txt", "c.txt", "e.txt"]), ("three versions", "head", ["c.txt", "e.txt"]),
                         ("eleven versions", "v10", ["c.txt"]), ("eleven versions", "v2", ["c.txt"]), ("padded versions", "v0002", ["c.txt", "d/b.txt"]),
                         ("duplicates", "v1", ["a", "d/e/b", "d/e/c", "d/f", "zero"]), ("duplicates", "v2", ["a", "b", "q"]),
                         ("sha256", "v1", ["d/b.txt"]), ("digests in upper and lower case", "v1", ["a.txt"]), ("digests in any case", "v2", ["a.txt", "c.txt"]), ("own content directory", "v2", ["d/b.txt"])):
        for lp in lps:
            for dest in DEST:
                obs.append(extracting("%s: %s of %s to %s directory" % (nm, lp, ver, dest), SHAPES[nm][0], ver, dest, single=lp))
    no = "a request that cannot be carried out has no effect"
    used = {"file in it": {"x": {"f": F(chunk("own"))}}, "hidden file in it": {"x": {".f": F(chunk("own"))}}, "directory in it": {"x": {"d": {}}},
            "same file in it": {"x": {"a.txt": F(chunk("own"))}}, "a file": {"x": F(chunk("own"))},
            "any name in it": lambda st: {"x": {st.atom(NAME): F(chunk("own"))}}}
    for n, t in used.items():
        obs.append(req(own, t, "extract", no, "destination %s" % n))
        if n in ("same file in it", "a file"):
            obs.append(req(own, t, "extract_file", no, "one file, destination %s" % n, logical_path="a.txt"))
    obs.append(req(own, {"x": {"b.txt": {}}}, "extract_file", no, "one file, destination has a directory of its name", logical_path="d/b.txt"))
    bad_ver = lambda s: s.atom(D.minus(D.ALL, D.words(["v1", "v2", "head"])))
    bad_lp = lambda s: s.atom(D.minus(D.ALL, D.words(["a.txt", "d/b.txt", "c.txt"])))
    for dn, d in (("absent", {}), ("empty", {"x": {}})):
        obs.append(req(own, d, "extract", no, "version not there, destination %s" % dn, version=bad_ver))
        obs.append(req(own, d, "extract_file", no, "one file, version not there, destination %s" % dn, version=bad_ver, logical_path="a.txt"))
        obs.append(req(own, d, "extract_file", no, "one file not there, destination %s" % dn, logical_path=bad_lp))
        obs.append(req(own, d, "extract_file", no, "one file not there yet, destination %s" % dn, logical_path="c.txt", version="v1"))
        obs.append(req(lambda st: simple(st, 3).tree(), d, "extract_file", no, "one file not there any more, destination %s" % dn, logical_path="d/b.txt", version="v3"))
        for case in ("no inventory", "malformed inventory", "empty identifier", "empty directory"):
            obs.append(req(v01.CASES[case][0], d, "extract", no, "invalid object (%s), destination %s" % (case, dn)))
            obs.append(req(v01.CASES[case][0], d, "extract_file", no, "one file of invalid object (%s), destination %s" % (case, dn), logical_path="a.txt"))
    for how, kw in (("extract", {}), ("extract_file", {"logical_path": "a.txt"})):
        obs.append(req(own, {}, how, no, "%s: no parent of the destination" % how, dstdir="/w/no/x", **kw))
        obs.append(req(lambda st: {}, {}, how, no, "%s: no object" % how, objdir="/w/none", **kw))
    ins = "no effect outside the destination, whatever the inventory says"
    for where in ("logical", "only logical", "content"):
        obs.append(req(any_logical(where), {}, "extract", ins, "unsafe %s path" % where, judge=inside))
        obs.append(req(any_logical(where), {}, "extract_file", ins, "one file, unsafe %s path" % where, judge=inside, logical_path="a.txt"))
    obs.append(req(any_logical("head", D.ALL), {}, "extract", ins, "arbitrary head", judge=inside))
    obs.append(req(any_logical("only logical", D.words(["../a.txt", "d/../../a.txt", "/a.txt"])), {}, "extract_file", ins, "one file of unsafe name", judge=inside, logical_path="../a.txt"))
    return obs
