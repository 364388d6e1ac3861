"""V27: files are digested, compared and copied completely, whatever their size."""
from ..scen import *
from ..engine.fsmodel import run
from ..engine.ops import hash_slice

EXPLAIN = ("Abstract interpretation of digesting, comparing, copying and walking files whose content is a run of unknown bytes of a given size: sizes at and around every power of two up to 4 MiB, "
           "between them, and 100 MB (1 GB in the thorough run). Each read of n bytes takes exactly n bytes of the run, or what is left. The digest obtained must be that of the whole run by the algorithm named, the copy "
           "must have the whole run, and two files compare as identical exactly if every byte is the same: difference at the first, the last and every power-of-two offset, or in length only. "
           "Trees are copied and walked with files at several depths and arbitrary names. The patterns for digests are compared with the hexadecimal strings of each algorithm's length as languages. "
           "Objects with files of these sizes are validated, built, updated and extracted.")
ASSUME = ["file systems behave like a local directory tree", "a read of n bytes yields n bytes unless the file ends", "different contents have different digests", "sizes other than those tried behave alike"]
FLOOR = 60

HASH = {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128, "blake2b-512": 128, "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}
TRUNC = {"sha512-spec-ex": ("sha512", 15), "sha256-spec-ex": ("sha256", 6)}
POW = sorted({0, 1, 2, 3} | {2 ** k + d for k in range(9, 23) for d in (-1, 0, 1)})
FEW = [0, 1, 4095, 65535, 65536, 65537, 131072, 200000, 262143, 262144, 262145, 524288, 524289, 1000003, 1048576, 1048577, 4194304]
SOME = [0, 1, 65536, 65537, 262144, 300001, 1048577]
BIG, HUGE = 100000007, 1000000007
LOOPS = 40000


def run_(nm, n):
    return T([run(nm, 0, n)] if n else [])


def body(n, nm="x"):
    return F(*run_(nm, n).items)


def altered(n, d, nm="x"):
    """Content differing in byte d only."""
    return T([c for c in (run(nm, 0, d), run("other", d, d + 1), run(nm, d + 1, n)) if c.args[1] != c.args[2]])


def fill(t):
    return F(*t.items)


def world(p, tree):
    w = World(p)
    w.I.UNROLL = LOOPS
    w.install(tree)
    record(w)
    return w


def job(nm, rule, mk, thorough=False):
    """Obligation: mk(p) -> (world, outcomes, judge, construct); judge(v, s) -> list of problems (raising is one unless judge handles it)."""
    def f(p, ob):
        r = Result()
        w, outs, judge, construct = mk(p)
        for v, s in outs:
            r.count("outcomes")
            try:
                bad = judge(v, s)
            except Unclear as e:
                r.undecided.append(str(e))
                continue
            if s.taint:
                r.undecided.append(s.taint[0])
                continue
            for b in bad:
                r.add(construct, b)
        if not outs:
            r.undecided.append("no outcome")
        return finish(r, w.I)
    return Ob(nm, rule, f, thorough=thorough)


def raised(v, s):
    return ["raises %s" % describe(v.v, s)] if isinstance(v, Raise) else []


def digesting(alg, n, how, thorough=False):
    def mk(p):
        w = world(p, {"w": {"d": {"f": body(n)}}})
        kw = {} if how == "local" else {"fs": w.fs("w")}
        if alg is not None:
            kw["digest_type"] = K(alg)

        def judge(v, s):
            base, k = TRUNC.get(alg, (alg or "sha512", None))
            want = digest(base, run_("x", n))
            if k is not None:
                want = FM.mkstr(FM.parts_of(cut(want, 0, k)) + ("...",) + FM.parts_of(cut(want, -3, None)))
            if isinstance(v, Raise):
                return raised(v, s)
            return [] if same(s, v, want) else ["the result is not the %s digest of the whole content" % (alg or "sha512")]
        return w, w.func("ocfl.digest.file_digest", K("/w/d/f" if how == "local" else "d/f"), **kw), judge, "file_digest"
    return job("digest of %d bytes by %s%s" % (n, alg or "default", ", local" if how == "local" else ""), "the digest is that of the whole content", mk, thorough)


def cut(h, i, j):
    w = hash_slice(h.parts[0], i, j)
    return w


def same(s, v, want):
    v = deref(s, v)
    return isinstance(v, (S, K)) and v == s.norm(want)


def repeated(alg, b, n):
    """Digest of content in which the same block comes n times."""
    def mk(p):
        c = T([run("x", 0, b)] * n + [run("y", 0, 5)])
        w = world(p, {"w": {"f": fill(c), "g": fill(T([run("x", 0, b)] * (n - 1) + [run("y", 0, 5)]))}})

        def judge(v, s):
            return raised(v, s) or ([] if same(s, v, digest(alg, c)) else ["the result is not the %s digest of the whole content" % alg])
        return w, w.func("ocfl.digest.file_digest", K("f"), digest_type=K(alg), fs=w.fs("w")), judge, "file_digest"
    return job("digest by %s of %d times the same %d bytes" % (alg, n, b), "the digest is that of the whole content", mk)


def repeated_copy(b, n):
    def mk(p):
        c = T([run("x", 0, b)] * n + [run("y", 0, 5)])
        w = world(p, {"w": {"a": {"f": fill(c)}}})
        before, _ = files(w.st, "w")
        fs = w.fs("w", "a")

        def judge(v, s):
            return raised(v, s) or diff(s, before, {("a", "to"): c})
        return w, w.func("ocfl.fsw.fsw_copyfile", fs, K("f"), fs, K("to")), judge, "fsw_copyfile"
    return job("copy of %d times the same %d bytes" % (n, b), "the copy has all bytes and nothing else", mk)


def unknown_digest(fn, alg):
    def mk(p):
        w = world(p, {"w": {"f": body(5)}})
        a = {"file_digest": ("/w/f", alg), "string_digest": ("abc", alg), "digest_regex": (alg,)}[fn]

        def judge(v, s):
            return [] if isinstance(v, Raise) and exc_name(v, s) == "ValueError" else ["an unknown algorithm is not refused with ValueError"]
        return w, w.func("ocfl.digest." + fn, *[K(x) for x in a]), judge, fn
    return job("%s by %r" % (fn, alg), "unknown algorithms are refused", mk)


def of_text(alg, txt):
    def mk(p):
        w = world(p, {"w": {}})
        t = w.st.atom(D.ALL) if txt is None else K(txt)

        def judge(v, s):
            if isinstance(v, Raise):
                return [] if exc_name(v, s) == "UnicodeEncodeError" and txt is None else raised(v, s)
            return [] if same(s, v, digest(alg, T([s.norm(t)]) if t != K("") else T([]))) or isinstance(v, K) and v.v == known_hash(alg, txt) else ["the result is not the %s digest of the text" % alg]
        return w, w.func("ocfl.digest.string_digest", t, K(alg)), judge, "string_digest"
    return job("%s of text %s" % (alg, "any" if txt is None else repr(txt)), "the digest is that of the text", mk)


def known_hash(alg, txt):
    import hashlib
    return hashlib.new(alg, (txt or "").encode("utf-8")).hexdigest()


def pattern(alg):
    """The pattern accepts exactly the digests of the algorithm's form, in either case."""
    def mk(p):
        w = world(p, {"w": {}})
        if alg in TRUNC:
            low = up = lang(r"[0-9a-f]{%d}\.\.\.[0-9a-f]{3}\Z" % TRUNC[alg][1])
        else:
            low, up = lang(r"[0-9a-f]{%d}\Z" % HASH[alg]), lang(r"[0-9a-fA-F]{%d}\Z" % HASH[alg])

        def judge(v, s):
            v = deref(s, v)
            if not isinstance(v, K) or not isinstance(v.v, str):
                raise Unclear("pattern is not constant")
            t = v.v
            if t.endswith("$"):
                t = t[:-1]
            elif t.endswith(r"\Z"):
                t = t[:-2]
            else:
                return ["the pattern is open at its end"]
            L = lang(t + r"\Z")
            bad = []
            if not D.subset(low, L):
                bad.append("the pattern refuses digests that %s has, such as %s" % (alg, D.minus(low, L).example()))
            elif not D.subset(up, L):
                bad.append("the pattern refuses digests in upper case")
            if not D.subset(L, up) and alg not in TRUNC:
                bad.append("the pattern accepts strings that are not %s digests, such as %s" % (alg, D.minus(L, up).example()))
            return bad
        return w, w.func("ocfl.digest.digest_regex", K(alg)), judge, "digest_regex"
    return job("form of %s digests" % alg, "the form accepted is that of the algorithm", mk)


def normal(alg):
    """Normalized digests are equal exactly if they differ in letter case only."""
    def mk(p):
        w = world(p, {"w": {}})
        x = "0aB9fE" * 5

        def judge(v, s):
            want = x if alg in TRUNC else x.lower()
            return raised(v, s) or ([] if deref(s, v) == K(want) else ["the normalized digest is not %s" % want])
        return w, w.func("ocfl.digest.normalized_digest", K(x), K(alg)), judge, "normalized_digest"
    return job("normal form of %s digests" % alg, "the normal form is in lower case", mk)


def copying(n, over, other, thorough=False):
    def mk(p):
        t = {"w": {"a": {"f": body(n), "g": body(9, "g")}, "b": {"h": body(7, "h")}}}
        if over is not None:
            t["w"]["a" if not other else "b"]["to"] = body(over, "old")
        w = world(p, t)
        before, _ = files(w.st, "w")
        src = w.fs("w", "a")
        dst = w.fs("w", "b") if other else src
        at = ("b" if other else "a", "to")

        def judge(v, s):
            return raised(v, s) or diff(s, dict(before, **{}), {at: run_("x", n)})
        return w, w.func("ocfl.fsw.fsw_copyfile", src, K("f"), dst, K("to")), judge, "fsw_copyfile"
    return job("copy of %d bytes%s%s" % (n, ", to other file system" if other else "", "" if over is None else ", over %d bytes" % over),
               "the copy has all bytes and nothing else", mk, thorough)


def diff(s, want, more):
    want = dict(want, **{})
    want.update(more)
    got, empty = files(s, "w")
    key = lambda f: joined(s, f)
    got = {key(f): norm(s, c) for f, c in got.items()}
    want = {key(f): norm(s, c) for f, c in want.items()}
    bad = ["%s is missing" % (f,) for f in want if f not in got]
    bad += ["%s is not asked for" % (f,) for f in got if f not in want]
    bad += ["%s does not have the bytes of the source" % (f,) for f in want if f in got and got[f] != want[f]]
    return bad


def comparing(nm, c1, c2, want, thorough=False):
    def mk(p):
        w = world(p, {"w": {"d": {"f": fill(c1)}, "g": fill(c2)}})
        before, _ = files(w.st, "w")

        def judge(v, s):
            bad = raised(v, s) or diff(s, before, {})
            if not bad and v != (TRUE if want else FALSE):
                bad = ["files that differ count as identical" if not want else "identical files count as different"]
            return bad
        return w, w.func("ocfl.fsw.fsw_files_identical", w.fs("w"), K("d/f"), K("g")), judge, "fsw_files_identical"
    return job("comparison: " + nm, "identical exactly if all bytes agree", mk, thorough)


def comparisons():
    for n in POW:
        yield comparing("%d equal bytes" % n, run_("x", n), run_("x", n), True)
        if n:
            yield comparing("%d and %d bytes" % (n, n - 1), run_("x", n), run_("x", n - 1), False)
            yield comparing("%d and %d bytes" % (n - 1, n), run_("x", n - 1), run_("x", n), False)
    for n in [1, 2, 65536, 65537, 262143, 262144, 262145, 524288, 1000003, 4194304]:
        for d in sorted({0, 1, n // 2, n - 1} | {x + e for k in range(12, 22) for x in (2 ** k, n - 2 ** k) for e in (-1, 0)}):
            if 0 <= d < n:
                yield comparing("%d bytes, byte %d differs" % (n, d), run_("x", n), altered(n, d), False)
    for b in (4096, 65536, 262144, 1048576):
        x, y = run("x", 0, b), run("y", 0, b)
        yield comparing("blocks of %d bytes, repeated" % b, T([x, x, x]), T([x, x, x]), True)
        yield comparing("blocks of %d bytes, repeated, last differs" % b, T([x, x, y]), T([x, x, x]), False)
        yield comparing("blocks of %d bytes, in other order" % b, T([x, y]), T([y, x]), False)
    yield comparing("%d equal bytes" % BIG, run_("x", BIG), run_("x", BIG), True)
    for d in (0, BIG // 2, 2 ** 26, BIG - 1):
        yield comparing("%d bytes, byte %d differs" % (BIG, d), run_("x", BIG), altered(BIG, d), False)


def missing(first):
    def mk(p):
        w = world(p, {"w": {"f": body(10)}})
        a = ["f", "none"] if first else ["none", "f"]

        def judge(v, s):
            return [] if isinstance(v, Raise) and exc_name(v, s) == "FileNotFoundError" else ["a missing file is not reported with FileNotFoundError"]
        return w, w.func("ocfl.fsw.fsw_files_identical", w.fs("w"), *[K(x) for x in a]), judge, "fsw_files_identical"
    return job("comparison with a missing file, %s" % ("second" if first else "first"), "missing files are reported", mk)


# -- trees -----------------------------------------------------------------------

def nested(st):
    return {"...": body(5, "dots"), "....": {"x": body(6, "dx")}, "f": body(70000), ".h": body(3, "h"), "a b%": body(5, "sp"), "e": F(), "d": {"f": body(300000, "df"), "d": {"d": {"f": body(1, "dddf"), "z": body(2, "z")}}},
            "dd": {"x": body(8, "ddx")}, "d.": {"y": body(8, "dy")}, "é": {"ñ": body(4, "n")}}


def wide(st):
    return {"n%d" % i: {"f%d" % j: body(1 + i, "c%d.%d" % (i, j)) for j in range(4)} for i in range(6)}


def deep(st):
    d = {"f": body(9, "bottom")}
    for i in range(14):
        d = {"d%d" % i: d, "f%d" % i: body(i, "l%d" % i)}
    return d


def named(st):
    a, b, c = st.atom(D.minus(NAME, D.words(["k", "l"]))), st.atom(NAME), st.atom(NAME)
    return {a: body(70000, "a"), "k": {b: body(5, "b"), }, "l": {"l": {c: body(6, "c")}}}


TREES = {"nested": nested, "wide": wide, "deep": deep, "arbitrary names": named, "single file": lambda st: {"only": body(65537)}}


def tree_copy(nm, at, to, other):
    def mk(p):
        w = World(p)
        w.I.UNROLL = LOOPS
        src = TREES[nm](w.st)
        a = src
        for x in reversed(at.split("/")):
            a = {x: a}
        w.install({"w": {"a": dict(a, extra={"q": body(3, "q")}, **{"sr": {"f": body(2, "sib")}}), "b": {"h": body(7, "h")}}})
        record(w)
        before, _ = files(w.st, "w")
        sfs = w.fs("w", "a")
        dfs = w.fs("w", "b") if other else sfs
        base = ("a",) + tuple(at.split("/"))
        dest = ("b" if other else "a",) + tuple(to.split("/"))
        more = {dest + f[len(base):]: c for f, c in before.items() if f[:len(base)] == base}

        def judge(v, s):
            return raised(v, s) or diff(s, before, more)
        return w, w.func("ocfl.fsw.fsw_copydir", sfs, K(at), dfs, K(to)), judge, "fsw_copydir"
    return job("copy of tree: %s, %s to %s%s" % (nm, at, to, ", other file system" if other else ""), "the copy has all files and nothing else", mk)


def tree_refused(nm, at, to):
    def mk(p):
        w = world(p, {"w": {"a": {"src": {"f": body(4)}, "file": body(5, "y"), "there": {"x": body(6, "z")}, "void": {}}}})
        before, _ = files(w.st, "w")

        def judge(v, s):
            bad = [] if isinstance(v, Raise) else ["is not refused"]
            return bad + ["%s of %s" % (op, name(q)) for op, q in s.mon.get("$ev", ())]
        fs = w.fs("w", "a")
        return w, w.func("ocfl.fsw.fsw_copydir", fs, K(at), fs, K(to)), judge, "fsw_copydir"
    return job("copy of tree: " + nm, "refused without effect", mk)


def walking(nm, at):
    def mk(p):
        w = World(p)
        a = TREES[nm](w.st)
        for x in reversed([x for x in at.split("/") if x]):
            a = {x: a}
        w.install({"w": {"r": dict(a, **{"other": {"q": body(3, "q")}}) if at.strip("/") else a}})
        record(w)
        base = tuple(x for x in at.split("/") if x)
        fs, _ = files(w.st, "w", "r")
        want = [joined(w.st, f[len(base):]) for f in fs if f[:len(base)] == base]

        def judge(v, s):
            if isinstance(v, Raise):
                return raised(v, s)
            got = [x if isinstance(x, str) else x for x in plain(s, v)]
            wants = [x if isinstance(x, str) else plain(s, x) for x in want]
            bad = ["%s is not found" % (x,) for x in wants if x not in got] + ["%s is found but not there" % (x,) for x in got if x not in wants]
            if not bad and len(got) != len(wants):
                bad = ["a file is found twice"]
            return bad
        return w, w.func("ocfl.fsw.fsw_walk_files", w.fs("w", "r"), *([K(at)] if at else [])), judge, "fsw_walk_files"
    return job("files of tree: %s, %s" % (nm, at or "default"), "every file is found once", mk)


# -- objects ---------------------------------------------------------------------

def obj_of(st, n, **kw):
    x, y = (run("x", 0, n),) if n else (), (run("y", 0, 17),)
    return Obj(st, [{"f": x, "g": y}, {"h": (run("h", 0, 2 * n + 1),)}], [{"f": P(1, "f", kw), "d/g": P(1, "g", kw)}, {"f": P(1, "f", kw), "d/h": P(2, "h", kw)}], **kw)


def checking(nm, n, change, want, **kw):
    def mk(p):
        w = World(p, Log().stubs())
        w.I.UNROLL = LOOPS
        t = obj_of(w.st, n, **kw).tree()
        change(t)
        w.install({"w": {"o": t}})
        w.st.mon["err"] = ()
        outs = []
        for v, s in w.new("ocfl.validator.Validator"):
            outs.extend([(v, s)] if isinstance(v, Raise) else w.meth(v, "validate_object", K("/w/o"), st=s))

        def judge(v, s):
            if isinstance(v, Raise):
                return raised(v, s)
            if want:
                return [] if v == TRUE and not s.mon.get("err") else ["a valid object is not valid: %s" % ",".join(s.mon.get("err", ()))]
            return [] if v == FALSE else ["an object with changed content is valid"]
        return w, outs, judge, "Validator.validate_object"
    return job("object: " + nm, "valid exactly if all content is as recorded", mk)


def put(path, c):
    def f(t):
        *pre, last = path.split("/")
        for x in pre:
            t = t[x]
        t[last] = c
    return f


def checks():
    for n in SOME:
        yield checking("%d bytes" % n, n, lambda t: None, True)
        yield checking("%d bytes, one more" % n, n, put("v1/content/f", F(*run_("x", n).items, run("more", 0, 1))), False)
        if n:
            for d in sorted({0, n // 2, n - 1} | ({65536, 262144} & set(range(n)))):
                yield checking("%d bytes, byte %d changed" % (n, d), n, put("v1/content/f", fill(altered(n, d))), False)
            yield checking("%d bytes, last one missing" % n, n, put("v1/content/f", body(n - 1)), False)
        yield checking("%d bytes, last byte of another file changed" % n, n, put("v2/content/h", fill(altered(2 * n + 1, 2 * n, "h"))), False)
    for alg in ("sha256",):
        yield checking("%s, 300001 bytes" % alg, 300001, lambda t: None, True, alg=alg)
        yield checking("%s, 300001 bytes, last byte changed" % alg, 300001, put("v1/content/f", fill(altered(300001, 300000))), False, alg=alg)
        yield checking("%s then sha512, 300001 bytes, last byte changed" % alg, 300001, put("v1/content/f", fill(altered(300001, 300000))), False, prior_alg=alg)
    for alg in HASH:
        yield checking("fixity by %s" % alg, 300001, lambda t: None, True, fixity={alg: ["v1/content/f", "v2/content/h"]})


def sizes(n):
    return {"f": run_("x", n), "sub/twin": altered(n, n - 1) if n else run_("q", 1), "sub/short": run_("x", n - 1) if n > 1 else run_("r", 2), "same": run_("x", n)}


def stored(nm, sc, n, path=("w", "o")):
    def judge(p, w, scen, v, s):
        return check_stored(p, s, scen.want(), path)
    return after(nm, "stored content is that of the sources", sc, judge)


def extracted(n, single):
    def act(w, o, s):
        k = {"objdir": K("/w/o"), "version": K("v2"), "dstdir": K("/w/x")}
        if single:
            k["logical_path"] = K("d/h")
        yield from w.meth(o, "extract_file" if single else "extract", st=s, **k)

    def judge(p, w, scen, v, s):
        want = {("h",): run_("h", 2 * n + 1)} if single else {("f",): run_("x", n), ("d", "h"): run_("h", 2 * n + 1)}
        fs, _ = files(s, "w", "x")
        got = {f: norm(s, c) for f, c in fs.items()}
        want = {f: norm(s, c) for f, c in want.items()}
        return ["%s differs from the stored content" % name(f) for f in set(got) | set(want) if got.get(f) != want.get(f)]
    sc = Scen(tree=lambda st: {"o": obj_of(st, n).tree()}, act=act, path=("w", "x"), loops=LOOPS)
    return after("extraction of %s, %d bytes" % ("a file" if single else "a version", n), "extracted content is the stored content", sc, judge)


def obligations(p):
    obs = []
    for alg in [None] + list(HASH) + list(TRUNC):
        for n in (POW if alg in ("sha512", "sha256") else FEW):
            obs.append(digesting(alg, n, "fs"))
        obs += [digesting(alg, n, "local") for n in (0, 65537, 1000003)]
    obs += [digesting(a, BIG, "fs") for a in ("sha512", "sha256", "md5")]
    obs += [digesting("sha512", HUGE, "fs", True)]
    obs += [repeated(a, b, n) for a in ("sha512", "sha256", "md5") for b in (4096, 65536, 131072, 262144, 1048576) for n in (2, 3, 9)]
    obs += [repeated_copy(b, n) for b in (4096, 65536, 262144, 1048576) for n in (2, 3, 9)]
    obs += [unknown_digest(f, a) for f in ("file_digest", "digest_regex") for a in ("sha3", "", "SHA512 ", "blake2b")] + [unknown_digest("string_digest", "sha3")]
    obs += [of_text(a, t) for a in ("md5", "sha1", "sha256", "sha512") for t in (None, "abc", "", "é", " a b\n", "{\"A\": 1}\r\n")]
    obs += [pattern(a) for a in list(HASH) + list(TRUNC)] + [normal(a) for a in list(HASH) + list(TRUNC)]
    for n in POW:
        obs.append(copying(n, None, n % 2 == 0))
    for n in FEW:
        obs += [copying(n, None, n % 2 == 1), copying(n, n + 1, False), copying(n, max(0, n - 1), True), copying(n, 600000, False)]
    obs += [copying(BIG, None, True), copying(HUGE, None, True, True)]
    obs += list(comparisons()) + [missing(True), missing(False)]
    for t in TREES:
        obs += [tree_copy(t, a, b, o) for a, b, o in (("src", "new", False), ("src", "new", True), ("s/r/c", "n/e/w", False), ("s/r/c", "n/e/w", True), ("src", "srcnew", False))]
        obs += [walking(t, a) for a in ("", "/", "d", "/d", "p/q", "/p/q")]
    obs += [tree_refused("source missing", "none", "new"), tree_refused("source is a file", "file", "new"), tree_refused("destination there", "src", "there"),
            tree_refused("destination is a file", "src", "file"), tree_refused("destination empty", "src", "void")]
    obs += list(checks())
    for n in SOME:
        src = sizes(n)
        obs.append(stored("create, %d bytes" % n, Scen(src=src, act=create(), states=[src], okw={"identifier": "info:abc"}, loops=LOOPS), n))
        old = {"f": "x", "g": "g"}
        obs.append(stored("update, %d bytes" % n, Scen(obj={}, src=src, act=update(), new=src, loops=LOOPS), n))
        obs += [extracted(n, True), extracted(n, False)]
    return obs
