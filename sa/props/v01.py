"""V01: the verdict follows from the errors reported."""
from ..world import *

EXPLAIN = ("Abstract interpretation of the object validator with its real message log on abstract stored objects, for all "
           "combinations of the logging settings, and of one validator used for two objects in sequence. On every path the "
           "verdict is True exactly if no error was counted for the object, every error is recorded, and the second "
           "object's verdict and reports are those of a fresh validator.")
ASSUME = ["file systems behave like a local directory tree", "digest functions are treated as collision free"]
FLOOR = 60


def bad_id(o):
    for d in o.docs:
        d["id"] = ""


CASES = {
    "valid": (obj(n=2), True),
    "valid, sha256": (obj(n=2, alg="sha256"), True),
    "valid, spec 1.0": (obj(n=2, spec="1.0"), True),
    "valid, own content directory": (obj(n=2, cdir="stuff"), True),
    "valid, no older inventory": (obj(n=2, tree=remove("v1/inventory.json", "v1/inventory.json.sha512")), True),
    "valid, other directory in version": (obj(n=2, tree=put("v1/x", {"f": F(chunk("x"))})), True),
    "valid, padded, sha256": (obj(n=3, width=4, alg="sha256"), True),
    "no declaration": (obj(n=2, tree=remove("0=ocfl_object_1.1")), False),
    "no inventory": (obj(n=2, tree=remove("inventory.json")), False),
    "malformed inventory": (obj(n=2, tree=put("inventory.json", F(Q("badjson")))), False),
    "wrong digest file": (obj(n=2, tree=put("inventory.json.sha512", F(digest("sha512", T([chunk("wrong")])), K(" inventory.json\n")))), False),
    "empty identifier": (obj(n=2, docs=bad_id), False),
    "content changed": (obj(n=2, tree=put("v1/content/a.txt", F(chunk("x")))), False),
    "content missing": (obj(n=2, tree=remove("v1/content/a.txt")), False),
    "content missing, sha256, warnings": (obj(n=2, alg="sha256", tree=both(remove("v1/content/a.txt"), remove("v1/inventory.json", "v1/inventory.json.sha256"))), False),
    "extra content": (obj(n=2, tree=put("v1/content/zz", F(chunk("x")))), False),
    "extra file": (obj(n=2, tree=put("zz", F(chunk("x")))), False),
    "older inventory malformed": (obj(n=2, tree=put("v1/inventory.json", F(Q("badjson")))), False),
    "older inventory of another object": (obj(n=2, docs=lambda o: o.docs[0].update(id="info:other")), False),
    "empty directory": (lambda st: {}, False),
}


def attr(s, v, *path):
    for a in path:
        while isinstance(s.heap[v.a], HFwd):
            v = s.heap[v.a].v
        v = s.heap[v.a].attrs.get(a)
    return v


def settings(name, case, kw):
    make, good = CASES[case]

    def fn(p, ob):
        r = Result()
        w, outs = run_validator(p, make, use_log_stub=False, vkw=kw)
        for v, s, val_ in outs:
            r.count("paths")
            if s.taint:
                r.undecided.append(s.taint[0])
                continue
            if isinstance(v, Raise):
                r.add("Validator.validate_object", "raises %s" % describe(v.v, s))
                continue
            n = attr(s, val_, "log", "num_errors")
            if v != (TRUE if good else FALSE):
                r.add("Validator.validate_object", "verdict %r for %s object" % (getattr(v, "v", v), "a valid" if good else "an invalid"))
            if not isinstance(n, K) or (n.v > 0) == good:
                r.add("ValidationLogger", "error count %r for %s object" % (getattr(n, "v", n), "a valid" if good else "an invalid"))
            ms = items(s, attr(s, val_, "log", "messages"))
            cs = items(s, attr(s, val_, "log", "codes"))
            if ms is None or cs is None:
                r.undecided.append("messages not known individually")
                continue
            le, lw = kw.get("log_errors", True), kw.get("log_warnings", False)
            ne = sum(text(m).startswith("[E") or text(m).startswith("Unknown error") for m in ms)
            nw = sum(text(m).startswith("[W") or text(m).startswith("Unknown warning") for m in ms)
            if isinstance(n, K) and ne != (n.v if le else 0):
                r.add("ValidationLogger", "%d error messages for %s errors with log_errors=%s" % (ne, n.v, le))
            wn = attr(s, val_, "log", "num_warnings")
            if isinstance(wn, K) and nw != (wn.v if lw else 0):
                r.add("ValidationLogger", "%d warning messages for %s warnings with log_warnings=%s" % (nw, wn.v, lw))
            if (not good) != any(text(c).startswith("E") for c in cs):
                r.add("ValidationLogger", "error codes do not follow the verdict")
        if not outs:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(name, "verdict and records follow the errors, whatever is shown", fn)


def items(s, v):
    while isinstance(v, R) and isinstance(s.heap[v.a], HFwd):
        v = s.heap[v.a].v
    if not isinstance(v, R):
        return None
    o = s.heap[v.a]
    segs = o.ents if isinstance(o, HDict) else o.segs
    if any(x[0] != "1" for x in segs):
        return None
    return [x[1] for x in segs]


def text(v):
    if isinstance(v, K):
        return str(v.v)
    if isinstance(v, S) and isinstance(v.parts[0], str):
        return v.parts[0]
    return "?"


def sequence(a, b, kw):
    def fn(p, ob):
        r = Result()
        alone = run_validator(p, CASES[b][0], vkw=kw)[1]
        want = {(v, s.mon.get("err", ()), s.mon.get("warn", ())) for v, s, _ in alone if not isinstance(v, Raise)}
        log = Log()
        w = World(p, log.stubs())
        w.install({"w": {"o": CASES[a][0](w.st), "q": CASES[b][0](w.st)}})
        n = 0
        for v, s in w.new("ocfl.validator.Validator", **kw):
            for r1, s1 in w.meth(v, "validate_object", K("/w/o"), st=s):
                if isinstance(r1, Raise):
                    continue
                s1.mon["err"], s1.mon["warn"] = (), ()
                for r2, s2 in w.meth(v, "validate_object", K("/w/q"), st=s1):
                    n += 1
                    if s2.taint:
                        r.undecided.append(s2.taint[0])
                    elif isinstance(r2, Raise):
                        r.add("Validator.validate_object", "raises %s for the second object" % describe(r2.v, s2))
                    elif (r2, s2.mon.get("err", ()), s2.mon.get("warn", ())) not in want:
                        r.add("Validator.validate_object", "second object: verdict %r, reports %s; with a new validator %s" % (
                            getattr(r2, "v", r2), ",".join(s2.mon.get("err", ()) + s2.mon.get("warn", ())),
                            sorted((getattr(x[0], "v", x[0]), ",".join(x[1] + x[2])) for x in want)))
        r.count("paths", n)
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob("%s, then %s%s" % (a, b, " " + str(sorted(kw)) if kw else ""), "the verdict does not depend on objects validated before", fn)


def sequence_shown(a, b, kw):
    """As sequence, with the real log: verdict, errors counted and messages added by the second object."""
    def fn(p, ob):
        r = Result()

        def seen(v, s, val_, n0=0, m0=0):
            n, ms = attr(s, val_, "log", "num_errors"), items(s, attr(s, val_, "log", "messages"))
            if ms is None or not isinstance(n, K):
                return None
            return v, n.v - n0, len(ms) - m0
        want = set()
        for v, s, val_ in run_validator(p, CASES[b][0], use_log_stub=False, vkw=kw, where="q")[1]:
            x = None if isinstance(v, Raise) or s.taint else seen(v, s, val_)
            if x is None:
                r.undecided.append("outcome of the second object alone is not known")
            want.add(x)
        w = World(p)
        w.install({"w": {"o": CASES[a][0](w.st), "q": CASES[b][0](w.st)}})
        n = 0
        for v, s in w.new("ocfl.validator.Validator", **kw):
            for r1, s1 in w.meth(v, "validate_object", K("/w/o"), st=s):
                one = None if isinstance(r1, Raise) else seen(r1, s1, v)
                if one is None:
                    r.undecided.append("outcome of the first object is not known")
                    continue
                s1.stack = s1.stack + (v,)
                for r2, s2 in w.meth(v, "validate_object", K("/w/q"), st=s1):
                    n += 1
                    if s2.taint:
                        r.undecided.append(s2.taint[0])
                        continue
                    two = None if isinstance(r2, Raise) else seen(r2, s2, v, one[1], one[2])
                    if two is None:
                        r.undecided.append("outcome of the second object is not known")
                    elif two not in want:
                        r.add("Validator.validate_object", "second object: verdict %r, %d errors, %d messages; alone %s" % (
                            two[0].v, two[1], two[2], sorted((x[0].v, x[1], x[2]) for x in want if x)))
        r.count("paths", n)
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob("%s, then %s, log of both%s" % (a, b, " " + str(sorted(kw)) if kw else ""), "verdict and records do not depend on objects validated before", fn)


def obligations(p):
    obs = []
    for a in CASES:
        for b in CASES:
            if a == b or b in ("extra file", "content changed", "valid", "no declaration"):
                obs.append(sequence_shown(a, b, {"log_warnings": True}))
    for case in CASES:
        for lw in (False, True):
            for le in (False, True):
                for lang_ in ("en", "xx") if lw and le else ("en",):
                    kw = {"log_warnings": lw, "log_errors": le, "lang": lang_}
                    obs.append(settings("%s: warnings %s, errors %s, language %s" % (case, lw, le, lang_), case, kw))
    for a in CASES:
        for b in CASES:
            obs.append(sequence(a, b, {}))
    return obs
