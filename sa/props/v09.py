"""V09: content files against the inventory."""
from ..world import *

EXPLAIN = ("Abstract interpretation of the object validator on abstract stored objects: names, identifiers and file "
           "contents are symbolic (digests are injective functions of content), the directory shape and the kind of "
           "damage vary per obligation. Every execution path that the interpretation keeps must report an error and "
           "return False for damaged content; every path must be clean for the matching object.")
ASSUME = ["digest functions are treated as collision free", "file systems behave like a local directory tree"]
FLOOR = 60


def chunks(path, *cs):
    return put(path, F(*[chunk(c) for c in cs]))


def obligations(p):
    obs = []
    variants = [("1 version", dict(n=1)), ("2 versions", dict(n=2)), ("3 versions", dict(n=3)), ("sha256", dict(n=3, alg="sha256")),
                ("older versions sha256", dict(n=3, prior_alg="sha256")), ("older spec", dict(n=3, prior_spec="1.0")),
                ("spec 1.0", dict(n=2, spec="1.0")), ("content directory", dict(n=3, cdir="stuff")), ("padded", dict(n=3, width=5)),
                ("fixity", dict(n=2, fixity={"md5": ["v1/content/a.txt", "v1/content/d/b.txt"], "sha1": ["v2/content/c2.txt"],
                                             "sha256": ["v1/content/a.txt"], "blake2b-512": ["v1/content/a.txt"]}))]
    for nm, kw in variants:
        obs.append(valid("intact/" + nm, obj(**kw), "an intact object is accepted"))
    for nm, kw in variants:
        cd = kw.get("cdir", "content")
        vv = lambda k: "v" + str(k).zfill(kw.get("width", 0))
        files = ["%s/%s/a.txt" % (vv(1), cd), "%s/%s/d/b.txt" % (vv(1), cd)] + \
                ["%s/%s/c%d.txt" % (vv(k), cd, k) for k in range(2, kw["n"] + 1)]
        for f in files:
            obs.append(invalid("missing/%s/%s" % (nm, f), obj(tree=remove(f), **kw), "a manifest file that is absent is an error"))
            obs.append(invalid("changed/%s/%s" % (nm, f), obj(tree=chunks(f, "x1", "x2"), **kw), "content must match the manifest digest"))
        for k in range(1, kw["n"] + 1):
            obs.append(invalid("extra/%s/v%d" % (nm, k), obj(tree=put_any("%s/%s" % (vv(k), cd), F(chunk("x"))), **kw),
                               "a content file missing from the manifest is an error"))
            obs.append(invalid("no content directory/%s/v%d" % (nm, k), obj(tree=remove("%s/%s" % (vv(k), cd)), **kw),
                               "manifest files that are absent are an error"))
    f = "v1/content/a.txt"
    for nm, cs in (("truncated", ("a1",)), ("first part lost", ("a2",)), ("extended", ("a1", "a2", "a3")), ("emptied", ()),
                   ("reordered", ("a2", "a1")), ("last part changed", ("a1", "x")), ("first part changed", ("x", "a2")),
                   ("content of another file", ("b1", "b2"))):
        for n in (1, 3):
            obs.append(invalid("content %s/%d" % (nm, n), obj(n=n, tree=chunks(f, *cs)), "content must match the manifest digest"))
    for n in (1, 2, 3):
        obs.append(invalid("empty directory/%d" % n, obj(n=n, tree=put_any("v%d/content" % n, {})), "an empty directory in content is an error"))
        obs.append(invalid("empty nested directory/%d" % n, obj(n=n, tree=put_any("v1/content/d", {})), "an empty directory in content is an error"))
        obs.append(invalid("extra nested/%d" % n, obj(n=n, tree=put_any("v1/content/d", F(chunk("x")))), "a content file missing from the manifest is an error"))
        obs.append(invalid("extra in new directory/%d" % n, obj(n=n, tree=put_any("v1/content/new", F(chunk("x")))), "a content file missing from the manifest is an error"))
        obs.append(invalid("extra duplicate/%d" % n, obj(n=n, tree=put_any("v1/content", F(chunk("a1"), chunk("a2")))), "an unlisted copy of listed content is an error"))
        obs.append(invalid("moved/%d" % n, obj(n=n, tree=both(remove(f), put("v1/content/z.txt", F(chunk("a1"), chunk("a2"))))), "a renamed content file is an error"))
    obs.append(invalid("swapped", obj(tree=both(chunks(f, "b1", "b2"), chunks("v1/content/d/b.txt", "a1", "a2"))), "swapped content is an error"))
    obs.append(invalid("directory instead of file", obj(tree=put(f, {"x": F(chunk("a1"), chunk("a2"))})), "a directory at the place of a file is an error"))

    # several paths for one digest
    def dup(o):
        o.content["v2/content/a-copy.txt"] = (2, T([chunk("a1"), chunk("a2")]))
    obs.append(valid("duplicate content", obj(made=dup), "two files of the same content are accepted"))
    obs.append(invalid("duplicate content, second changed", obj(made=dup, tree=chunks("v2/content/a-copy.txt", "x")), "every file of a digest is checked"))
    obs.append(invalid("duplicate content, first changed", obj(made=dup, tree=chunks(f, "x")), "every file of a digest is checked"))
    obs.append(invalid("duplicate content, second missing", obj(made=dup, tree=remove("v2/content/a-copy.txt")), "every file of a digest is checked"))
    obs.append(invalid("duplicate content, first missing", obj(made=dup, tree=remove(f)), "every file of a digest is checked"))

    # abstract file names
    def anyname(o):
        nm = o.st.atom(D.inter(NAME, D.compl(D.words(["a.txt", "d"]))))
        o.any = FM.mkstr(("v1/content/",) + FM.parts_of(nm))
        o.content[o.any] = (1, T([chunk("n1"), chunk("n2")]))
        o.states[0]["n"] = o.states[1]["n"] = o.any
    obs.append(valid("any file name", obj(made=anyname), "any file name is accepted"))

    def anychange(cs):
        def g(o, t):
            for k in t["v1"]["content"]:
                if not isinstance(k, str):
                    if cs is None:
                        del t["v1"]["content"][k]
                        return
                    t["v1"]["content"][k] = F(*[chunk(c) for c in cs])
        return g
    obs.append(invalid("any file name, changed", obj(made=anyname, tree=anychange(("x",))), "content of any file name is checked"))
    obs.append(invalid("any file name, missing", obj(made=anyname, tree=anychange(None)), "a missing file of any name is an error"))

    # case of digests
    def upper(o):
        for d in o.docs:
            up = lambda k: S((("upper", k),))
            d["manifest"] = {up(k): v for k, v in d["manifest"].items()}
            for v in d["versions"].values():
                v["state"] = {up(k): x for k, x in v["state"].items()}
    obs.append(valid("digests in upper case", obj(docs=upper), "digests are compared without regard to case"))
    obs.append(invalid("digests in upper case, changed", obj(docs=upper, tree=chunks(f, "x")), "content must match the manifest digest"))

    # fixity
    for alg in ("md5", "sha1", "sha256", "sha512", "blake2b-512"):
        for main in ("sha512", "sha256"):
            def bad(path, which):
                def g(o):
                    for d in ([o.docs[-1]] if which == "root" else o.docs[:-1] if which == "prior" else o.docs):
                        d["fixity"] = {alg: {digest(alg, T([chunk("wrong")])): [path]}}
                return g
            for which in ("root", "prior", "all"):
                obs.append(invalid("fixity %s wrong/%s/%s" % (alg, main, which), obj(n=2, alg=main, docs=bad(f, which)), "fixity digests of the root and of older inventories are checked"))

    def fix_second(o):
        g = {}
        for p in ("v1/content/a.txt", "v1/content/d/b.txt"):
            g.setdefault(digest("md5", o.content[p][1]), []).append(p)
        g2 = {digest("sha1", T([chunk("wrong")])): ["v1/content/d/b.txt"]}
        o.docs[-1]["fixity"] = {"md5": g, "sha1": g2}
    obs.append(invalid("second fixity algorithm wrong", obj(n=1, docs=fix_second), "every fixity block is checked"))

    def fix_two(o):
        w = digest("md5", T([chunk("wrong")]))
        o.docs[-1]["fixity"] = {"md5": {digest("md5", o.content["v1/content/a.txt"][1]): ["v1/content/a.txt"], w: ["v1/content/d/b.txt"]}}
    obs.append(invalid("second fixity digest wrong", obj(n=1, docs=fix_two), "every fixity digest is checked"))

    # digests in older inventories of another algorithm
    def prior_wrong(k):
        def g(o):
            d = o.docs[k - 1]
            good = o.dg("v1/content/a.txt", k)
            wrong = digest(o.alg_at(k), T([chunk("wrong")]))
            d["manifest"] = {(wrong if x == good else x): v for x, v in d["manifest"].items()}
            for v in d["versions"].values():
                v["state"] = {(wrong if x == good else x): y for x, y in v["state"].items()}
        return g
    for k, n in ((1, 2), (1, 3), (2, 3)):
        obs.append(invalid("older inventory digest wrong/%d of %d" % (k, n), obj(n=n, prior_alg="sha256", docs=prior_wrong(k)),
                           "digests of older inventories in another algorithm are checked against content"))
    # presence without digest checks
    for n in (1, 3):
        vk = {"check_digests": False}
        obs.append(valid("no digest checks/intact/%d" % n, obj(n=n), "an intact object is accepted", vkw=vk))
        obs.append(invalid("no digest checks/missing/%d" % n, obj(n=n, tree=remove(f)), "presence is checked without digests", vkw=vk))
        obs.append(invalid("no digest checks/extra/%d" % n, obj(n=n, tree=put_any("v1/content", F(chunk("x")))), "presence is checked without digests", vkw=vk))
        obs.append(invalid("no digest checks/empty directory/%d" % n, obj(n=n, tree=put_any("v1/content", {})), "presence is checked without digests", vkw=vk))
    return obs
