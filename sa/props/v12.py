"""V12: inventories of older versions against the root inventory."""
import copy
from ..world import *

EXPLAIN = ("Abstract interpretation of the object validator on abstract stored objects of two to four versions in which "
           "one inventory of an older version is damaged or disagrees with the root inventory (identifier, content "
           "directory, specification version, version states, manifest), with symbolic identifiers, paths and contents. "
           "Every path must report an error and return False; permitted differences must leave the object valid.")
ASSUME = ["file systems behave like a local directory tree", "digest functions are treated as collision free"]
FLOOR = 60


def on(k, f):
    """Change the document of version k."""
    def g(o):
        f(o, o.docs[k - 1])
    return g


def setk(key, what):
    def f(o, d):
        d[key] = what(o) if callable(what) else what
    return f


def delk(*path):
    def f(o, d):
        for x in path[:-1]:
            d = d[x]
        del d[path[-1]]
    return f


def setp(path, what):
    def f(o, d):
        for x in path[:-1]:
            d = d[x]
        d[path[-1]] = what(o) if callable(what) else what
    return f


def state(v, f):
    """Change the state of version v: f(o, state, digest function)."""
    def g(o, d):
        k = int(d["head"][1:])
        f(o, d["versions"][v]["state"], lambda p: o.dg(p, k))
    return g


def drop_path(path):
    def f(o, s, dg):
        for k in list(s):
            if path in s[k]:
                s[k].remove(path)
                if not s[k]:
                    del s[k]
    return f


def add_path(path, content):
    def f(o, s, dg):
        s.setdefault(dg(content), []).append(path(o) if callable(path) else path)
    return f


def swap(o, s, dg):
    a, b = dg("v1/content/a.txt"), dg("v1/content/d/b.txt")
    s[a], s[b] = s[b], s[a]


def any_path(o):
    return o.st.atom(D.inter(NAME, D.compl(D.words(["a.txt", "c.txt", "e.txt", "d"]))))


def other_id(o):
    return o.st.atom(D.inter(D.compl(D.const(o.oid)), lang(r"\w+:.*\Z")))


def obligations(p):
    obs = []
    X_ = "an inventory of an older version must agree with the root inventory"
    Y_ = "an inventory of an older version must be valid itself"
    Z_ = "permitted difference of an older inventory"
    for algs, kw in (("same digests", {}), ("other digests", dict(prior_alg="sha256")), ("older spec", dict(prior_spec="1.0")), ("spec 1.0", dict(spec="1.0"))):
        for n, k in ((2, 1), (3, 1), (3, 2)):
            t = "%s/v%d of %d" % (algs, k, n)
            def bad(nm, f, rule=X_, n=n, kw=kw, t=t, k=k, algs=algs):
                obs.append(invalid("%s/%s" % (nm, t), obj(n=n, docs=on(k, f), **kw), rule))
                if nm != "digest of content wrong" and algs in ("same digests", "other digests"):
                    obs.append(invalid("%s, digests not checked/%s" % (nm, t), obj(n=n, docs=on(k, f), **kw), rule, vkw={"check_digests": False}))
            good = lambda nm, f, rule=Z_, n=n, kw=kw, t=t, k=k: obs.append(valid("%s/%s" % (nm, t), obj(n=n, docs=on(k, f), **kw), rule))
            good("intact", lambda o, d: None)
            bad("other identifier", setk("id", other_id))
            bad("content directory set", setk("contentDirectory", "stuff"))
            v1 = "v1"
            hv = "v%d" % k
            for v in sorted({v1, hv}):
                bad("logical path left out of %s" % v, state(v, drop_path("a.txt")))
                bad("logical path added to %s" % v, state(v, add_path("zz/top.txt", "v1/content/a.txt")))
                bad("any logical path added to %s" % v, state(v, add_path(any_path, "v1/content/a.txt")))
                bad("any logical path added to %s for other content" % v, state(v, add_path(any_path, "v1/content/d/b.txt")))
                bad("logical path renamed in %s" % v, both_d(state(v, drop_path("a.txt")), state(v, add_path(any_path, "v1/content/a.txt"))))
                if k < 3:
                    bad("contents exchanged in %s" % v, state(v, swap))
                good("other message in %s" % v, setp(["versions", v, "message"], "other"))
                good("other time in %s" % v, setp(["versions", v, "created"], "2023-02-03T04:05:06Z"))
                good("other user in %s" % v, setp(["versions", v, "user"], {"name": "Z", "address": "mailto:z@example.org"}))
                bad("bad time in %s" % v, setp(["versions", v, "created"], "yesterday"), Y_)
                bad("no state in %s" % v, delk("versions", v, "state"), Y_)
                bad("bad state digest in %s" % v, lambda o, d, v=v: d["versions"][v]["state"].update({"00": ["q"]}), Y_)
                bad("unsafe path in %s" % v, state(v, add_path("../q", "v1/content/a.txt")), Y_)
            for key in ("id", "type", "digestAlgorithm", "manifest", "versions", "head"):
                bad("no %s" % key, delk(key), Y_)
            bad("wrong head", setk("head", "v%d" % (k + 1)), Y_)
            bad("no versions", setk("versions", lambda o: {}), Y_)
            bad("bad type", setk("type", "https://ocfl.io/9.9/spec/#inventory"), Y_)
            bad("unknown algorithm", setk("digestAlgorithm", "md5"), Y_)
            bad("manifest entry lost", lambda o, d: d["manifest"].pop(next(iter(d["manifest"]))), Y_)
            bad("manifest path lost", lambda o, d: d["manifest"].update({next(iter(d["manifest"])): []}), Y_)
            bad("manifest digest malformed", lambda o, d: d["manifest"].update({"abc": ["v1/content/q"]}), Y_)
            bad("manifest path unsafe", lambda o, d: d["manifest"][next(iter(d["manifest"]))].append("v1/content/../q"), Y_)
            bad("manifest path in a later version", lambda o, d, k=k: d["manifest"][next(iter(d["manifest"]))].append("v%d/content/q" % (k + 1)), Y_)
            bad("version beyond", lambda o, d, n=n: beyond(o, d, n), X_)
            bad("version name padded", lambda o, d: pad(o, d), X_)
            if k == 2:
                bad("first version left out", delk("versions", "v1"), Y_)
            bad("same as the root inventory", lambda o, d: None if o.alg_at(1) == "?" else d.update(copy.copy(o.docs[-1])), X_)
            if k > 1:
                bad("digest of content wrong", lambda o, d: redigest(o, d), X_)
                bad("content file not listed", lambda o, d: lose(o, d), X_)
            bad("fixity for an unlisted file", setk("fixity", lambda o: {"md5": {digest("md5", T([chunk("q")])): ["v1/content/q"]}}), Y_)
            obs.append(invalid("not JSON/" + t, obj(n=n, tree=put("v%d/inventory.json" % k, F(Q("badjson"))), **kw), Y_))
            obs.append(invalid("empty/" + t, obj(n=n, tree=put("v%d/inventory.json" % k, F()), **kw), Y_))
            obs.append(invalid("cut off/" + t, obj(n=n, tree=put("v%d/inventory.json" % k, F('{"id": "x"')), **kw), Y_))
        for n in (1, 2, 3):
            t = "%s/%d" % (algs, n)
            inv = "v%d/inventory.json" % n
            obs.append(invalid("head inventory differs/any text/" + t, obj(n=n, tree=put(inv, F(chunk("x"))), **kw), "the inventory of the latest version is a copy of the root inventory"))
            obs.append(invalid("head inventory differs/empty/" + t, obj(n=n, tree=put(inv, F()), **kw), "the inventory of the latest version is a copy of the root inventory"))
            obs.append(invalid("head inventory differs/longer/" + t, obj(n=n, tree=longer(inv), **kw), "the inventory of the latest version is a copy of the root inventory"))
            obs.append(invalid("head inventory differs/message/" + t, obj(n=n, tree=other_doc(inv, setp(["versions", "v1", "message"], "other")), **kw), "the inventory of the latest version is a copy of the root inventory"))
            if n > 1:
                obs.append(invalid("head inventory is the one before/" + t, obj(n=n, tree=other_doc(inv, None, n - 1), **kw), "the inventory of the latest version is a copy of the root inventory"))
    for n, gone in ((2, (1,)), (3, (1,)), (3, (2,)), (3, (1, 2)), (4, (2, 3))):
        paths = [q % g for g in gone for q in ("v%d/inventory.json", "v%d/inventory.json.sha512")]
        obs.append(valid("inventories absent %s of %d" % (gone, n), obj(n=n, tree=remove(*paths)), "inventories of older versions are optional"))
        rest = [k for k in range(1, n) if k not in gone]
        for k in rest:
            obs.append(invalid("inventories absent %s of %d, v%d wrong" % (gone, n, k), obj(n=n, docs=on(k, setk("id", other_id)), tree=remove(*paths)), X_))

    # more than nine versions
    for kw in ({}, {"width": 3}, {"prior_alg": "sha256"}):
        t = ",".join(map(str, kw.items())) or "plain"
        obs.append(valid("eleven versions/" + t, obj(n=11, **kw), "objects of many versions are accepted"))
        for k, v in ((2, 1), (9, 2), (10, 10), (10, 9)):
            def lost(o, d, v=v):
                st = d["versions"][o.v(v)]["state"]
                st.pop(next(iter(st)))
            obs.append(invalid("eleven versions, v%d in inventory %d/%s" % (v, k, t), obj(n=11, docs=on(k, lost), **kw), X_))
        for k in (1, 9, 10):
            obs.append(invalid("eleven versions, no v%d/%s" % (k, t), obj(n=11, tree=remove("v" + str(k).zfill(kw.get("width", 0))), **kw), "version directories must exist"))

    # content stored several times
    for nm, f, ok in COPIES:
        for algs, kw in (("same digests", {}), ("other digests", dict(prior_alg="sha256"))):
            for ch in (True, False):
                mk = valid if ok else invalid
                obs.append(mk("copies: %s/%s%s" % (nm, algs, "" if ch else ", digests not checked"), copies(f, **kw), Z_ if ok else X_, vkw={"check_digests": ch}))

    # specification versions never go down
    def specs(*vs):
        def g(o):
            for d, v in zip(o.docs, vs):
                d["type"] = "https://ocfl.io/%s/spec/#inventory" % v
        return g
    for vs in (("1.0", "1.0"), ("1.0", "1.1"), ("1.1", "1.1"), ("1.1", "1.0"), ("1.0", "1.0", "1.1"), ("1.0", "1.1", "1.1"), ("1.1", "1.0", "1.1"), ("1.1", "1.1", "1.0"),
               ("1.0", "1.1", "1.0"), ("1.1", "1.0", "1.0"), ("1.0", "1.1", "1.0", "1.1"), ("1.1", "1.0", "1.0", "1.1"), ("1.1", "1.1", "1.0", "1.1")):
        mk = valid if list(vs) == sorted(vs) else invalid
        obs.append(mk("specification versions " + " ".join(vs), obj(n=len(vs), spec=vs[-1], docs=specs(*vs)), "the specification version never goes down"))
    obs.append(invalid("specification versions 1.1 absent 1.0", obj(n=3, spec="1.0", docs=specs("1.1", "1.0", "1.0"), tree=remove("v2/inventory.json", "v2/inventory.json.sha512")),
                       "the specification version never goes down"))

    # content directory set in some versions only
    def cds(*vs):
        def g(o):
            for d, v in zip(o.docs, vs):
                if v:
                    d["contentDirectory"] = v
        return g
    for vs in (("content", "content", "content"), ("stuff", "stuff", "stuff")):
        obs.append(valid("content directory %s" % (vs,), obj(n=3, cdir=vs[0], docs=cds(*vs)), "the content directory is the same in all versions"))
    for vs in ((None, None, "content"), (None, "content", None), (None, "content", "content"), (None, None, "stuff"), ("stuff", None, None), (None, "stuff", "stuff")):
        obs.append(invalid("content directory %s" % (vs,), obj(n=3, docs=cds(*vs)), "the content directory is the same in all versions"))
    return obs


def copies(f, **kw):
    """Object of two versions that stores one content three times, with the first inventory changed."""
    def make(st):
        x, y = (chunk("x1"), chunk("x2")), (chunk("y"),)
        one = {"a": P(1, "a", kw), "b": P(1, "b", kw), "c": P(1, "c", kw)}
        o = Obj(st, [{"a": x, "b": x, "c": y}, {"d": x}], [one, dict(one, d=P(2, "d", kw))], **kw)
        f(o, o.docs[0])
        return o.tree()
    return make


def merged(o, d):
    """All under the digest of the copies."""
    dx, dy = o.dg("v1/content/a", 1), o.dg("v1/content/c", 1)
    d["manifest"][dx] = d["manifest"][dx] + d["manifest"].pop(dy)
    s = d["versions"]["v1"]["state"]
    s[dx] = s[dx] + s.pop(dy)


def merged_other(o, d):
    """All under the digest of the other file."""
    dx, dy = o.dg("v1/content/a", 1), o.dg("v1/content/c", 1)
    d["manifest"][dy] = d["manifest"][dy] + d["manifest"].pop(dx)
    s = d["versions"]["v1"]["state"]
    s[dy] = s[dy] + s.pop(dx)


def merged_new(o, d):
    """All under a digest not known."""
    dg = digest(o.alg_at(1), T([chunk("wrong")]))
    d["manifest"] = {dg: [x for v in d["manifest"].values() for x in v]}
    s = d["versions"]["v1"]
    s["state"] = {dg: [x for v in s["state"].values() for x in v]}


def exchanged(o, d):
    dx, dy = o.dg("v1/content/a", 1), o.dg("v1/content/c", 1)
    m = d["manifest"]
    m[dx], m[dy] = m[dy], m[dx]


def copy_moved(o, d):
    """One of the copies under the other digest."""
    dx, dy = o.dg("v1/content/a", 1), o.dg("v1/content/c", 1)
    d["manifest"][dy] = d["manifest"][dy] + [d["manifest"][dx].pop()]


COPIES = [("as they are", lambda o, d: None, True), ("merged", merged, False), ("merged under the other", merged_other, False),
          ("merged under a new digest", merged_new, False), ("exchanged", exchanged, False), ("one moved", copy_moved, False)]


def both_d(*fs):
    def f(o, d):
        for g in fs:
            g(o, d)
    return f


def beyond(o, d, n):
    """The older inventory has a version the root inventory does not know."""
    d["versions"] = {"v%d" % i: dict(next(iter(d["versions"].values()))) for i in range(1, n + 2)}
    d["head"] = "v%d" % (n + 1)


def pad(o, d):
    d["versions"] = {"v0" + v[1:]: x for v, x in d["versions"].items()}
    d["head"] = "v0" + d["head"][1:]


def redigest(o, d):
    k = int(d["head"][1:])
    good, wrong = o.dg("v1/content/a.txt", k), digest(o.alg_at(k), T([chunk("wrong")]))
    d["manifest"] = {(wrong if x == good else x): v for x, v in d["manifest"].items()}
    for v in d["versions"].values():
        v["state"] = {(wrong if x == good else x): y for x, y in v["state"].items()}


def lose(o, d):
    """An older inventory does not list a file that an inventory before it lists."""
    k = int(d["head"][1:])
    g = o.dg("v1/content/d/b.txt", k)
    del d["manifest"][g]
    for v in d["versions"].values():
        v["state"].pop(g, None)


def other_doc(path, change, base=None):
    def f(o, t):
        d = deep(o.docs[(base or o.n) - 1])
        if change:
            change(o, d)
        dd, x = dig(t, path)
        dd[x] = F(o.jdoc(d))
    return f


def longer(path):
    def f(o, t):
        dd, x = dig(t, path)
        dd[x] = F(o.jdoc(o.docs[-1]), K("\n"))
    return f


def deep(d):
    if isinstance(d, dict):
        return {k: deep(v) for k, v in d.items()}
    return list(d) if isinstance(d, list) else d
