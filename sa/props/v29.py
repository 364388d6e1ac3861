"""V29: the command line tools do what their options ask for, or fail and change nothing."""
from ..roots import *
from ..engine import cli
from . import v01, v22, v24

EXPLAIN = ("Abstract interpretation of ocfl-object and ocfl-root, run as the main program (options as declared, read by the rules of argparse), for every command "
           "and option that says what is to be stored: the object or storage root found afterwards has the identifier, digest algorithm, specification version, "
           "metadata, fixity, layout and files asked for, what is extracted is the version or file asked for, printed paths and lists are right, and requests that "
           "cannot be carried out end with a failure status and without any effect on the storage.")
ASSUME = ["file systems behave like a local directory tree", "argparse reads a command line as documented"]
FLOOR = 60
DO, NOT = "the command does what the options ask for", "what cannot be done fails and changes nothing"
MDO = ["--created", "2024-05-06T07:08:09Z", "--message", "msg", "--name", "Someone", "--address", "mailto:s@example.org"]
HASHP = '{"digestAlgorithm": "md5", "tupleSize": 2, "numberOfTuples": 4}'


def within(path, what):
    t = {}
    spread(t, path, what)
    return t


def cmd(nm, script, argv, make, judge=None, env=()):
    """judge(p, w, s) -> faults after success; None: the command must fail without effect."""
    def fn(p, ob):
        r = Result()
        w = World(p)
        t = make(w.st) if callable(make) else make
        w.install({"w": t})
        w.st.mon["$out"] = ()
        w.st.mon["$env"] = env
        record(w)
        w.all_before, _ = files(w.st, "w")
        n = 0
        for status, s in cli.run_main(w.I, p, script, argv, w.st):
            n += 1
            r.count("paths")
            if s.taint or status == "?":
                r.undecided.append(s.taint[0] if s.taint else "exit status not known")
                continue
            if judge is None:
                if status == 0:
                    r.add(script, "ends with exit status 0 though it cannot do what was asked for")
                for op, q in events(s):
                    r.add(script, "%s of %s" % (op, name(q)))
                continue
            if status != 0:
                r.add(script, "ends with %s" % (status if isinstance(status, str) else "exit status %s" % status))
                continue
            try:
                for x in judge(p, w, s):
                    r.add(script, x)
            except Unclear as e:
                r.undecided.append(str(e))
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(nm, NOT if judge is None else DO, fn)


def stored(want, path=("w", "o"), **kw):
    def judge(p, w, s):
        bad = check_stored(p, s, want, path, **kw)
        now, _ = files(s, "w")
        for f, c in w.all_before.items():
            if f[:len(path) - 1] != path[1:] and now.get(f) != c:
                bad.append("%s was changed" % name(f))
        for f in now:
            if f[:len(path) - 1] != path[1:] and f not in w.all_before:
                bad.append("%s was made" % name(f))
        return bad
    return judge


def fixed(want, algs, **kw):
    """Stored, with fixity blocks of these algorithms for all content files."""
    base = stored(want, **kw)

    def judge(p, w, s):
        bad = base(p, w, s)
        inv = inventory_at(s, "w", "o", "inventory.json")
        fx = inv.get("fixity", {})
        if sorted(fx) != sorted(algs):
            bad.append("fixity blocks %s" % ",".join(sorted(fx)))
        man = sorted(x for ps in inv["manifest"].values() for x in ps)
        for a, b in fx.items():
            if sorted(x for ps in b.values() for x in ps) != man:
                bad.append("fixity block %s does not list all content files" % a)
        return bad
    return judge


def tree_is(path, want, others=True):
    """Exactly these files below path, nothing else changed."""
    def judge(p, w, s):
        bad = []
        now, empties = files(s, *path)
        now = {"/".join(f): norm(s, c) for f, c in now.items()}
        exp = {f: norm(s, c) for f, c in want.items()}
        bad += ["%s is missing" % f for f in exp if f not in now] + ["%s has other content" % f for f in exp if f in now and now[f] != exp[f]]
        bad += ["%s was not asked for" % f for f in now if f not in exp]
        al, _ = files(s, "w")
        for f, c in al.items():
            if f[:len(path) - 1] != path[1:] and w.all_before.get(f) != c:
                bad.append("%s was changed or made" % name(f))
        return bad
    return judge


def printed(*texts, exact=None):
    def judge(p, w, s):
        out = [x.v if isinstance(x, K) else "?" for x in s.mon["$out"]]
        if "?" in out:
            raise Unclear("printed text")
        if exact is not None:
            return [] if "\n".join(out).strip() == exact else ["prints %r" % "\n".join(out)]
        return ["does not print %s" % t for t in texts if not any(t in x for x in out)]
    return judge


def both_(*js):
    return lambda p, w, s: [x for j in js for x in j(p, w, s)]


def unchanged(p, w, s):
    return ["%s of %s" % (op, name(q)) for op, q in events(s)]


def root_at(version, layout, params, paths):
    """A root of this version at /w/r whose objects have these paths, and nothing else in it."""
    def judge(p, w, s):
        bad = []
        fs, _ = files(s, "w", "r")
        if ("0=ocfl_" + version,) not in fs:
            bad.append("not declared as version %s" % version)
        exp = {("0=ocfl_" + version,)}
        if layout:
            exp.add(("ocfl_layout.json",))
            d = inventory_at(s, "w", "r", "ocfl_layout.json")
            if not d or d.get("extension") != layout:
                bad.append("layout is %s" % (d and d.get("extension")))
            if params:
                exp.add(("extensions", layout, "config.json"))
                d = inventory_at(s, "w", "r", "extensions", layout, "config.json")
                if not d or {k: v for k, v in d.items() if k != "extensionName"} != params:
                    bad.append("parameters are %s" % d)
        more = [name(f) for f in fs if f not in exp and not (layout and f == ("extensions", layout, "config.json"))]
        if more:
            bad.append("also made: %s" % more[0])
        al, _ = files(s, "w")
        bad += ["%s was changed or made" % name(f) for f, c in al.items() if f[0] != "r" and w.all_before.get(f) != c]
        return bad
    return judge


def obligations(p):
    obs = []

    def ob(nm, argv, make, judge=None, script="ocfl-object", env=()):
        obs.append(cmd("%s %s" % (script, nm), script, argv, make, judge, env))

    src = lambda st: {"src": nest(SRC)}
    C = ["create", "--srcdir", "/w/src", "--objdir", "/w/o", "--id", "info:x"]
    S1 = [SRC]
    for alg in ("sha512", "sha256"):
        for spec in ("1.0", "1.1"):
            ob("create %s %s" % (alg, spec), C + MDO + ["--digest", alg, "--spec-version", spec], src, stored(Want(S1, alg=alg, spec=spec, oid="info:x", meta={1: MD})))
    ob("create", C + ["-q"], src, stored(Want(S1, oid="info:x", meta={1: {"created": True}})))
    ob("create --src --obj", ["create", "--src", "/w/src", "--obj", "/w/o", "--id", "info:x", "--debug"], src, stored(Want(S1, oid="info:x", meta={1: {"created": True}})))
    for k, a in (("message", "--message"), ("name", "--name")):
        ob("create with %s only" % k, C + [a, "text"], src, stored(Want(S1, oid="info:x", meta={1: {"message": "text"} if k == "message" else {"user": {"name": "text"}}})))
    ob("create with created only", C + ["--created", "2024-05-06T07:08:09Z"], src, stored(Want(S1, oid="info:x", meta={1: {"created": "2024-05-06T07:08:09Z"}})))
    ob("create without dedupe", C + MDO + ["--no-dedupe"], src, stored(Want(S1, oid="info:x", meta={1: MD}), fd=True, dd=False))
    ob("create with fixity", C + MDO + ["--fixity", "md5"], src, fixed(Want(S1, oid="info:x", meta={1: MD}), ["md5"]))
    for nrm in ("uri", "md5"):
        ob("create with normalization %s" % nrm, C + MDO + ["--normalization", nrm], src, stored(Want(S1, oid="info:x", meta={1: MD})))
    ob("create without object directory", ["create", "--srcdir", "/w/src", "--id", "info:x"], src, unchanged)
    ob("create without source", ["create", "--objdir", "/w/o", "--id", "info:x"], src)
    ob("create without identifier", ["create", "--srcdir", "/w/src", "--objdir", "/w/o"], src)
    ob("create from nowhere", ["create", "--srcdir", "/w/none", "--objdir", "/w/o", "--id", "info:x"], src)
    ob("create in use", C, lambda st: dict(src(st), o={"f": F(chunk("own"))}))
    ob("create with unknown digest", C + ["--digest", "sha9"], src)
    ob("create with unknown version", C + ["--spec-version", "3.0"], src)
    ob("create with bad time", C + ["--created", "yesterday"], src)
    ob("create with unknown fixity", C + ["--fixity", "zzz"], src)
    ob("create with unknown normalization", C + ["--normalization", "zzz"], src)
    ob("create with unknown option", C + ["--nonsense"], src)
    ob("no command", [], src)
    ob("unknown command", ["zzz"], src)
    U = ["update", "--srcdir", "/w/src", "--objdir", "/w/o"]
    up = lambda st: {"src": nest(SRC), "o": simple(st, 2).tree()}
    after2 = before_states(2) + [SRC]
    ob("update", U + MDO, up, stored(Want(after2, meta={3: MD})))
    ob("update with the identifier", U + MDO + ["--id", "info:abc"], up, stored(Want(after2, meta={3: MD})))
    ob("update without forward delta", U + MDO + ["--no-forward-delta"], up, stored(Want(after2, meta={3: MD}), fd=False, dd=True))
    ob("update without dedupe", U + MDO + ["--no-dedupe"], up, stored(Want(after2, meta={3: MD}), fd=True, dd=False))
    ob("update with fixity", U + MDO + ["--fixity", "md5"], up, fixed(Want(after2, meta={3: MD}), ["md5"]))
    ob("update to sha256", U + MDO + ["--digest", "sha256"], up, stored(Want(after2, alg="sha256", meta={3: MD})))
    ob("update of sha256", U + MDO + ["--digest", "sha256"], lambda st: {"src": nest(SRC), "o": simple(st, 2, alg="sha256").tree()}, stored(Want(after2, alg="sha256", meta={3: MD})))
    ob("update of 1.0", U + MDO + ["--spec-version", "1.0"], lambda st: {"src": nest(SRC), "o": simple(st, 2, spec="1.0").tree()}, stored(Want(after2, spec="1.0", meta={3: MD})))
    ob("update of nothing", U + MDO, src)
    ob("update without source", ["update", "--objdir", "/w/o"], up)
    ob("update from nowhere", ["update", "--objdir", "/w/o", "--srcdir", "/w/none"], up)
    ob("update without object directory", ["update", "--srcdir", "/w/src"], up)
    ob("update of a broken object", U, lambda st: {"src": nest(SRC), "o": v01.CASES["malformed inventory"][0](st)})
    vs = lambda st: {"src": {"v1": nest(SRC), "v2": nest(SRC2)}}
    Bl = ["build", "--srcdir", "/w/src", "--objdir", "/w/o", "--id", "info:x"]
    ob("build", Bl, vs, stored(Want([SRC, SRC2], oid="info:x", meta={1: {"created": True}, 2: {"created": True}})))
    ob("build sha256 1.0", Bl + ["--digest", "sha256", "--spec-version", "1.0"], vs, stored(Want([SRC, SRC2], oid="info:x", alg="sha256", spec="1.0")))
    ob("build with fixity", Bl + ["--fixity", "md5"], vs, fixed(Want([SRC, SRC2], oid="info:x"), ["md5"]))
    ob("build without forward delta", Bl + ["--no-forward-delta"], vs, stored(Want([SRC, SRC2], oid="info:x"), fd=False, dd=True, first=1))
    vm = lambda st: dict(vs(st), m=jf(st, {"versions": {"v2": {"created": TIME % 2, "message": "second", "user": {"name": "B"}}, "v1": {"created": TIME % 1, "message": "first", "user": {"name": "A", "address": "mailto:a@b"}}}}))
    ob("build with metadata", Bl + ["--metadata", "/w/m"], vm, stored(Want([SRC, SRC2], oid="info:x", meta={
        1: {"created": TIME % 1, "message": "first", "user": {"name": "A", "address": "mailto:a@b"}}, 2: {"created": TIME % 2, "message": "second", "user": {"name": "B"}}})))
    vi = lambda st: dict(vs(st), m=jf(st, simple(st, 3).docs[-1]))
    ob("build with metadata of an object", Bl + ["--metadata", "/w/m"], vi, stored(Want([SRC, SRC2], oid="info:x", meta={
        k: {"created": TIME % k, "message": "m%d" % k, "user": {"name": "N", "address": "mailto:n@example.org"}} for k in (1, 2)})))
    ob("build without source", ["build", "--objdir", "/w/o", "--id", "info:x"], vs)
    ob("build without identifier", ["build", "--objdir", "/w/o", "--srcdir", "/w/src"], vs)
    ob("build in use", Bl, lambda st: dict(vs(st), o={"f": F(chunk("own"))}))
    ob("build with a gap", Bl, lambda st: {"src": {"v1": nest(SRC), "v3": nest(SRC2)}})
    ob("build without object directory", ["build", "--srcdir", "/w/src", "--id", "info:x"], vs, unchanged)
    for fd, dd in ((True, True), (True, False), (False, True), (False, False)):
        opts = ([] if dd else ["--no-dedupe"]) + ([] if fd else ["--no-forward-delta"])
        how = " ".join(opts) or "copies"
        ob("create %s" % how, C + opts, src, stored(Want(S1, oid="info:x"), fd=fd, dd=dd))
        ob("update %s" % how, U + opts, up, stored(Want(after2), fd=fd, dd=dd))
        ob("build %s" % how, Bl + opts, vs, stored(Want([SRC, SRC2], oid="info:x"), fd=fd, dd=dd, first=1))
    many = lambda st: {"o": simple(st, 11).tree()}
    for v in (1, 2, 9, 10, 11):
        ob("extract v%d of eleven" % v, ["extract", "--objdir", "/w/o", "--dstdir", "/w/x", "--objver", "v%d" % v], many, tree_is(("w", "x"), before_states(11)[v - 1]))
        ob("extract c.txt of v%d of eleven" % v, ["extract", "--objdir", "/w/o", "--dstdir", "/w/x", "--objver", "v%d" % v, "--path", "c.txt"], many,
           tree_is(("w", "x"), {"c.txt": before_states(11)[v - 1]["c.txt"]}) if v > 1 else None)
    padded = lambda st: {"o": simple(st, 2, width=3).tree()}
    ob("extract v001", ["extract", "--objdir", "/w/o", "--dstdir", "/w/x", "--objver", "v001"], padded, tree_is(("w", "x"), before_states(2)[0]))
    three = lambda st: {"o": simple(st, 3).tree()}
    bs = before_states(3)
    for v, k in (("v1", 0), ("v2", 1), ("v3", 2), ("head", 2), (None, 2)):
        ob("extract %s" % v, ["extract", "--objdir", "/w/o", "--dstdir", "/w/x"] + (["--objver", v] if v else []), three, tree_is(("w", "x"), bs[k]))
        ob("extract c.txt of %s" % v, ["extract", "--objdir", "/w/o", "--dst", "/w/x", "--path", "a.txt"] + (["--objver", v] if v else []), three, tree_is(("w", "x"), {"a.txt": A}))
    ob("extract d/b.txt of v1", ["extract", "--objdir", "/w/o", "--dstdir", "/w/x", "--objver", "v1", "--logical-path", "d/b.txt"], three, tree_is(("w", "x"), {"b.txt": B}))
    ob("extract d/b.txt of v3", ["extract", "--objdir", "/w/o", "--dstdir", "/w/x", "--objver", "v3", "--logical-path", "d/b.txt"], three)
    ob("extract v4", ["extract", "--objdir", "/w/o", "--dstdir", "/w/x", "--objver", "v4"], three)
    ob("extract from nothing", ["extract", "--objdir", "/w/none", "--dstdir", "/w/x"], three)
    ob("extract in use", ["extract", "--objdir", "/w/o", "--dstdir", "/w/x"], lambda st: dict(three(st), x={"f": F(chunk("own"))}))
    ob("extract file to bag", ["extract", "--objdir", "/w/o", "--dstbag", "/w/x", "--logical-path", "a.txt"], three)
    ob("show", ["show", "--objdir", "/w/o"], three, unchanged)
    ob("show nothing", ["show", "--objdir", "/w/none"], three)
    # storage roots
    R = "ocfl-root"
    LAYS = ((FLAT, None, "info:x", "info:x"), (HASH, None, "info:x", None), (HASH, HASHP, "info:x", None), (QUOTED, None, "info:x", "info%3Ax"))
    import hashlib
    import json
    for lay, prm, oid, path in LAYS:
        pj = json.loads(prm) if prm else None
        if lay == HASH:
            h = hashlib.new("md5" if prm else "sha256", oid.encode()).hexdigest()
            n, k = (2, 4) if prm else (3, 3)
            path = "/".join([h[i * n:i * n + n] for i in range(k)] + ["info%3ax"])
        for spec in ("1.0", "1.1"):
            ob("create %s %s %s" % (lay, "with parameters" if prm else "plain", spec), ["create", "--root", "/w/r", "--layout", lay, "--spec-version", spec] + (["--layout-params", prm] if prm else []),
               {}, root_at(spec, lay, pj, path), R)
        make = lambda st, lay=lay, pj=pj, path=path: {"r": root(st, within(path, simple(st, 2, oid="info:x").tree()), layout=lay, params=pj)}
        ob("path in %s%s" % (lay, " with parameters" if prm else ""), ["path", "--root", "/w/r", "--id", oid], make, both_(unchanged, printed(path)), R)
        ob("quiet path in %s%s" % (lay, " with parameters" if prm else ""), ["path", "-q", "--root", "/w/r", "--id", oid], make, both_(unchanged, printed(exact="/w/r/" + path)), R)
        ob("show in %s%s" % (lay, " with parameters" if prm else ""), ["show", "--root", "/w/r", "--id", oid], make, unchanged, R)
        ob("list %s%s" % (lay, " with parameters" if prm else ""), ["list", "--root", "/w/r"], make, both_(unchanged, printed(path + " -- id=" + oid, "1 OCFL Objects")), R)
        am = lambda st, lay=lay, pj=pj: {"r": root(st, {}, layout=lay, params=pj), "o": simple(st, 2, oid="info:x").tree()}

        def added(p, w, s, path=path):
            bad = []
            at, _ = files(s, "w", "r", *path.split("/"))
            fr, _ = files(s, "w", "o")
            if at != fr:
                bad.append("the object added is not at %s" % path)
            al, _ = files(s, "w")
            pre = ("r",) + tuple(path.split("/"))
            return bad + ["%s was changed or made" % name(f) for f, c in al.items() if f[:len(pre)] != pre and w.all_before.get(f) != c]
        ob("add to %s%s" % (lay, " with parameters" if prm else ""), ["add", "--root", "/w/r", "--src", "/w/o"], am, added, R)
    env = (("OCFL_ROOT", "/w/r"),)
    two = lambda st: {"r": root(st, within("info:x", simple(st, 2, oid="info:x").tree())), "q": root(st, within("info:y", simple(st, 2, oid="info:y").tree())), "o": simple(st, 2).tree()}

    def add_to(d):
        def judge(p, w, s):
            at, _ = files(s, "w", d, "info:abc")
            fr, _ = files(s, "w", "o")
            al, _ = files(s, "w")
            return ([] if at == fr else ["the object is not added to the root asked for"]) + [
                "%s was changed or made" % name(f) for f, c in al.items() if f[:2] != (d, "info:abc") and w.all_before.get(f) != c]
        return judge
    ob("list of OCFL_ROOT", ["list"], two, both_(unchanged, printed("info:x -- id=info:x", "1 OCFL Objects")), R, env)
    ob("list, not of OCFL_ROOT", ["list", "--root", "/w/q"], two, both_(unchanged, printed("info:y -- id=info:y", "1 OCFL Objects")), R, env)
    ob("path in OCFL_ROOT", ["path", "-q", "--id", "info:x"], two, both_(unchanged, printed(exact="/w/r/info:x")), R, env)
    ob("path, not in OCFL_ROOT", ["path", "-q", "--root", "/w/q", "--id", "info:x"], two, both_(unchanged, printed(exact="/w/q/info:x")), R, env)
    ob("show, not in OCFL_ROOT", ["show", "--root", "/w/q", "--id", "info:x"], two, None, R, env)
    ob("show in OCFL_ROOT", ["show", "--id", "info:x"], two, unchanged, R, env)
    ob("add to OCFL_ROOT", ["add", "--src", "/w/o"], two, add_to("r"), R, env)
    ob("add, not to OCFL_ROOT", ["add", "--root", "/w/q", "--src", "/w/o"], two, add_to("q"), R, env)
    ob("create OCFL_ROOT", ["create", "--layout", FLAT], {}, root_at("1.1", FLAT, None, None), R, env)
    ob("create, OCFL_ROOT in use", ["create", "--root", "/w/r", "--layout", FLAT], lambda st: {"q": root(st)}, root_at("1.1", FLAT, None, None), R, (("OCFL_ROOT", "/w/q"),))
    ob("create without layout", ["create", "--root", "/w/r"], {}, root_at("1.1", None, None, None), R)
    ob("create in use", ["create", "--root", "/w/r", "--layout", FLAT], {"r": {}}, None, R)
    ob("create below nothing", ["create", "--root", "/w/n/r", "--layout", FLAT], {}, None, R)
    ob("create with unknown layout", ["create", "--root", "/w/r", "--layout", "zzz"], {}, None, R)
    ob("create with unknown version", ["create", "--root", "/w/r", "--spec-version", "3.0"], {}, None, R)
    ob("create with bad parameters", ["create", "--root", "/w/r", "--layout", HASH, "--layout-params", "{]"], {}, None, R)
    ob("create with too few parameters", ["create", "--root", "/w/r", "--layout", HASH, "--layout-params", '{"tupleSize": 3}'], {}, None, R)
    rm = lambda st: {"r": root(st, {"info:abc": simple(st, 1).tree()}), "o": simple(st, 2).tree(), "bad": v01.CASES["malformed inventory"][0](st)}
    for nm, argv in (("add what is there", ["add", "--root", "/w/r", "--src", "/w/o"]), ("add nothing", ["add", "--root", "/w/r"]), ("add from nowhere", ["add", "--root", "/w/r", "--src", "/w/none"]),
                     ("add a broken object", ["add", "--root", "/w/r", "--src", "/w/bad"]), ("add to nothing", ["add", "--root", "/w/none", "--src", "/w/o"]),
                     ("list nothing", ["list", "--root", "/w/none"]), ("list an object", ["list", "--root", "/w/o"]), ("path without identifier", ["path", "--root", "/w/r"]),
                     ("show without identifier", ["show", "--root", "/w/r"]), ("show of no object", ["show", "--root", "/w/r", "--id", "info:zzz"]), ("without root", ["list"]),
                     ("purge", ["purge", "--root", "/w/r", "--id", "info:abc"]), ("validate-object", ["validate-object", "--id", "info:abc"]), ("no command", []), ("unknown command", ["zzz"])):
        ob(nm, argv, rm, None, R)
    return obs
