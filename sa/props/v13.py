"""V13: validation always ends with a verdict."""
from ..inv import *
from .. import world as W
from ..world import obj, put, remove, both, F, chunk, run_validator, val

EXPLAIN = ("Abstract interpretation of the inventory validator on inventories in which any part is an arbitrary JSON "
           "value, and of the object validator on abstract stored objects in which any file of the object's own "
           "structure is replaced by arbitrary text, undecodable bytes, malformed JSON, a directory or nothing. "
           "No execution path may leave the validator with an exception.")
ASSUME = ["reading and listing an existing file or directory does not fail (no permission or I/O errors)",
          "file systems behave like a local directory tree without symbolic link loops"]
FLOOR = 60
RULE = "no value makes validation raise"


class Quiet(W.Log):
    """Log of which nothing but a vague count of errors is kept."""

    def error(self, I, f, args, kw, st, node):
        log = I.deref(args[0], st)
        o = st.heap[log.a]
        n = o.attrs.get("num_errors")
        n = K(n.v + 1) if isinstance(n, K) and n.v < 60 else N(1, None)
        I.wr(st, log.a, HInst(o.cls, dict(o.attrs, num_errors=n)))
        return [(NONE, st)]

    def warning(self, I, f, args, kw, st, node):
        return [(NONE, st)]


def no_crash(name, make, rule=RULE, vkw=None):
    def fn(p, ob):
        r = Result()
        w, outs = run_validator(p, make, vkw=vkw, log=Quiet())
        for v, s, _ in outs:
            r.count("paths")
            if isinstance(v, Raise):
                if s.taint:
                    r.undecided.append(s.taint[0])
                    continue
                r.add("Validator.validate_object", "raises %s" % describe(v.v, s))
        if not outs:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(name, rule, fn)


def obligations(p):
    out = []

    def add(name, f, **kw):
        for lax in (False, True):
            out.append(must_return("%s%s" % (name, ", lax digests" if lax else ""), f, RULE, ivkw={"lax_digests": lax}, **kw))
    any_dict = lambda *ones: MapOf(D.ALL, J(), *ones)
    add("inventory: anything but an object", lambda: NotJ("dict"))
    add("inventory: nothing but any one entry", lambda: Pairs((D.minus(D.ALL, D.words(["versions", "manifest", "fixity"])), J())))
    add("inventory: nothing but any manifest", lambda: {"manifest": J()})
    add("inventory: nothing but any fixity", lambda: {"fixity": J()})
    add("inventory: nothing but one version", lambda: {"versions": {"v1": vblock({})}})
    add("inventory: nothing but versions of another type", lambda: {"versions": NotJ("dict")})
    add("inventory: empty", lambda: {})
    for k in ("id", "type", "digestAlgorithm", "head", "manifest", "versions", "contentDirectory", "fixity"):
        spec = NotJ("dict") if k == "versions" else J()
        add("%s: anything" % k, lambda k=k, spec=spec: inv1(**{k: spec}))
        add("%s: anything, no manifest" % k, lambda k=k, spec=spec: inv1(**dict({"manifest": ...}, **{k: spec})))
        if k != "fixity":
            add("%s: absent" % k, lambda k=k: inv1(**{k: ...}))
    d1 = lambda: Pairs((Ref("d1", Rx(SHA512)), ["f"]))
    add("manifest values: anything", lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), J()))))
    add("manifest: any digest, anything", lambda: inv1(manifest=Pairs((D.ALL, J()))))
    add("manifest: any digests, any lists", lambda: inv1(manifest=MapOf(D.ALL, J("list"))))
    add("manifest paths: anything", lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), [J()]))))
    add("manifest paths: any strings", lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), ListOf(D.ALL)))))
    add("manifest paths: several of anything", lambda: inv1(manifest=Pairs((Let("d1", Rx(SHA512)), ListOf(J())))))
    add("versions: v1 anything but an object", lambda: inv1(versions={"v1": NotJ("dict")}))
    add("versions: v2 anything but an object", lambda: inv1(versions={"v1": vblock(d1()), "v2": NotJ("dict")}))
    add("versions: v1 empty", lambda: inv1(versions={"v1": {}}))
    add("versions: any one name", lambda: inv1(versions=Pairs((D.ALL, vblock({})))))
    add("versions: any other value", lambda: inv1(versions=Pairs((D.minus(D.ALL, Rx("v0*1")), J()))))
    add("versions: v1 and any other name", lambda: inv1(versions=Pairs(("v1", vblock(d1())), (D.minus(D.ALL, D.const("v1")), {}))))
    add("versions: v01 and any other name", lambda: inv1(versions=Pairs(("v01", vblock(d1())), (D.minus(D.ALL, D.const("v01")), {}))))
    out.append(must_return("versions: v1 any object", lambda: inv1(versions={"v1": J("dict")}), RULE, thorough=True))
    out.append(must_return("versions: v2 any object", lambda: inv1(versions={"v1": vblock(d1()), "v2": J("dict")}), RULE, thorough=True))
    out.append(must_return("versions: any v1, lax digests", lambda: inv1(versions={"v1": J()}), RULE, thorough=True, ivkw={"lax_digests": True}))
    for k in ("created", "state", "message", "user"):
        add("version %s: anything" % k, lambda k=k: inv1(versions={"v1": dict(vblock(d1()), **{k: J()})}))
        add("version %s: absent" % k, lambda k=k: inv1(versions={"v1": vblock(d1(), **{k: ...})} if k != "state" else {"v1": {"created": "2020-01-01T00:00:00Z"}}))
    add("created: any string", lambda: inv1(versions={"v1": vblock(d1(), created=D.ALL)}))
    add("state values: anything", lambda: inv1(versions={"v1": vblock(Pairs((Ref("d1", Rx(SHA512)), J())))}))
    add("state: any digest, anything", lambda: inv1(versions={"v1": vblock(Pairs((D.ALL, J())))}))
    add("state paths: anything", lambda: inv1(versions={"v1": vblock(Pairs((Ref("d1", Rx(SHA512)), [J()])))}))
    add("state paths: several of anything", lambda: inv1(versions={"v1": vblock(Pairs((Ref("d1", Rx(SHA512)), ListOf(J()))))}))
    for k in ("name", "address"):
        add("user %s: anything" % k, lambda k=k: inv1(versions={"v1": vblock(d1(), user={"name": "n", "address": "a", k: J()})}))
    add("user: any strings", lambda: inv1(versions={"v1": vblock(d1(), user={"name": D.ALL, "address": D.ALL})}))
    for alg in ("md5", "sha512", "unknown"):
        add("fixity %s: anything" % alg, lambda alg=alg: inv1(fixity={alg: J()}))
        add("fixity %s values: anything" % alg, lambda alg=alg: inv1(fixity={alg: Pairs((D.ALL, J()))}))
        add("fixity %s paths: anything" % alg, lambda alg=alg: inv1(fixity={alg: Pairs((D.ALL, [J()]))}))
    add("fixity: any algorithms, anything", lambda: inv1(fixity=any_dict()))
    return out + object_obligations()


def anyj(*kinds):
    return W.Dyn(lambda st: Builder(st)(J(*kinds)))


def spec(x):
    return W.Dyn(lambda st: Builder(st)(x))


def object_obligations():
    out = []
    files = {"empty": F(), "any text": F(chunk("t")), "undecodable": F(FM_badutf8()), "not JSON": F(Q("badjson")), "JSON of another type": F(Q("json", K(1), K("x"))), "directory": {}, "directory with a file": {"x": F(chunk("x"))}, "special": "other"}
    for n in (1, 2):
        structural = ["0=ocfl_object_1.1", "inventory.json", "inventory.json.sha512", "v%d/inventory.json" % n, "v%d/inventory.json.sha512" % n]
        if n == 2:
            structural += ["v1/inventory.json", "v1/inventory.json.sha512"]
        for f in structural:
            for nm, c in files.items():
                if f.startswith("0=") and "JSON" in nm:
                    continue
                out.append(no_crash("%s: %s, %d versions" % (f, nm, n), obj(n=n, tree=put(f, c))))
            out.append(no_crash("%s: absent, %d versions" % (f, n), obj(n=n, tree=remove(f))))
        for d in ["v1", "v1/content", "v%d" % n, "v%d/content" % n]:
            for nm, c in (("file", F(chunk("x"))), ("special", "other"), ("empty", {})):
                out.append(no_crash("%s: %s, %d versions" % (d, nm, n), obj(n=n, tree=put(d, c))))
        for d in ["extensions", "logs"]:
            for nm, c in (("file", F(chunk("x"))), ("special", "other"), ("empty", {}), ("special inside", {"x": "other"})):
                out.append(no_crash("%s: %s, %d versions" % (d, nm, n), obj(n=n, tree=put(d, c))))
        out.append(no_crash("content: special file, %d versions" % n, obj(n=n, tree=put("v1/content/a.txt", "other"))))
        out.append(no_crash("content: special file beside, %d versions" % n, obj(n=n, tree=put("v1/content/zz", "other"))))
        out.append(no_crash("two declarations, %d versions" % n, obj(n=n, tree=put("0=ocfl_object_1.0", F(FM_badutf8())))))
        out.append(no_crash("many declarations, %d versions" % n, obj(n=n, tree=both(*[put("0=x%02d" % i, F()) for i in range(12)]))))
    for nm, tree in (("empty directory", {}), ("only an inventory", {"inventory.json": F(Q("badjson"))})):
        out.append(no_crash("object: %s" % nm, lambda st, tree=tree: tree))

    def docs(name, which, change, **kw):
        n = kw.pop("n", 3)

        def f(o):
            for k in which:
                change(o.docs[k - 1])
        for lax in (False, True):
            out.append(no_crash("%s%s" % (name, ", lax digests" if lax else ""), obj(n=n, docs=f, **kw), vkw={"lax_digests": lax}))

    def setp(path, x):
        def f(d):
            for e in path[:-1]:
                d = d[e]
            if x is ...:
                d.pop(path[-1], None)
            else:
                d[path[-1]] = x
        return f
    for where, which in (("root", (3,)), ("v1", (1,)), ("v2", (2,)), ("all", (1, 2, 3))):
        ds = lambda name, change, which=which, where=where: docs("%s inventory%s" % (where, name), which, change)
        for k in ("id", "type", "digestAlgorithm", "head", "manifest", "versions", "contentDirectory", "fixity"):
            x = {"manifest": NotJ("dict"), "versions": NotJ("dict"), "fixity": NotJ("dict")}.get(k)
            if where == "all" and k == "digestAlgorithm":
                x = NotJ("str")
            ds(" %s: %s" % (k, "anything but an object" if x else "anything"), setp((k,), spec(x) if x else anyj()))
            ds(" %s: absent" % k, setp((k,), ...))
        for k in ("manifest", "versions", "fixity"):
            ds(" %s: empty" % k, setp((k,), {}))
        ds(": first version anything but an object", setp(("versions", "v1"), spec(NotJ("dict"))))
        ds(": first version empty", setp(("versions", "v1"), {}))
        ds(": first version absent", setp(("versions", "v1"), ...))
        ds(": later version", setp(("versions", "v4"), {}))
        ds(": later version of no type", setp(("versions", "v4"), spec(NotJ("dict"))))
        for k, x in (("state", NotJ("dict")), ("created", NotJ("str")), ("message", NotJ("str")), ("user", NotJ("dict"))):
            ds(", first version %s: another type" % k, setp(("versions", "v1", k), spec(x)))
            ds(", first version %s: absent" % k, setp(("versions", "v1", k), ...))
        ds(", first version created: no date", setp(("versions", "v1", "created"), "x"))
        for nm, x in (("not a list", spec(NotJ("list"))), ("an element of another type", [spec(NotJ("str"))]), ("no element", []), ("elements of another type and a path", ["q", spec(NotJ("str")), "v1/content/a.txt"])):
            ds(", manifest paths: " + nm, lambda d, x=x: d["manifest"].update({next(iter(d["manifest"])): x}))
            ds(", state paths: " + nm, lambda d, x=x: d["versions"]["v1"]["state"].update({next(iter(d["manifest"])): x}))
            for alg in ("md5", "sha512", "unknown"):
                ds(", fixity %s paths: %s" % (alg, nm), lambda d, x=x, alg=alg: d.update({"fixity": {alg: {digest_text(alg): x}}}))
        ds(", manifest digest: no digest", lambda d: d["manifest"].update({spec(D.compl(lang_hex())): ["v1/content/x"]}))
        ds(", state digest: no digest", lambda d: d["versions"]["v1"]["state"].update({spec(D.compl(lang_hex())): ["x"]}))
        for alg in ("md5", "sha512", "sha256", "blake2b-512", "unknown", "../x"):
            ds(", fixity %s: another type" % alg, setp(("fixity",), {alg: spec(NotJ("dict"))}))
            ds(", fixity %s: unlisted" % alg, setp(("fixity",), {alg: {digest_text(alg): ["v1/content/none"]}}))
            ds(", fixity %s: wrong" % alg, setp(("fixity",), {alg: {digest_text(alg): ["v1/content/a.txt"]}}))
            if where != "all":
                ds(", fixity %s: no digest" % alg, setp(("fixity",), {alg: {spec(D.compl(lang_hex())): ["v1/content/a.txt"]}}))
        docs("%s inventory: digest algorithm md5" % where, which, setp(("digestAlgorithm",), "md5"))
        docs("%s inventory: digest algorithm unknown" % where, which, setp(("digestAlgorithm",), "unknown"))
    return out


def FM_badutf8():
    return Q("badutf8")


def digest_text(alg):
    return "0" * {"md5": 32, "sha512": 128, "sha256": 64, "blake2b-512": 128}.get(alg, 8)


def lang_hex():
    return W.lang(r"[0-9a-fA-F]*\Z")
