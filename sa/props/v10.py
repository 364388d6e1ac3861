"""V10: inventory sidecar files."""
from ..world import *
from ..engine import rx

EXPLAIN = ("Abstract interpretation of the object validator on abstract stored objects whose sidecar files are "
           "symbolic: arbitrary text outside the required form, digests of other content, other names, other "
           "algorithms. Every path must report an error and return False; matching sidecars must be accepted.")
ASSUME = ["digest functions are treated as collision free", "file systems behave like a local directory tree"]
FLOOR = 40
WELL = r"\w+\s+inventory\.json\s*"


def obligations(p):
    obs = []
    for alg, prior in (("sha512", "sha512"), ("sha256", "sha256"), ("sha512", "sha256")):
        for n in (1, 2, 3):
            kw = dict(n=n, alg=alg, prior_alg=prior)
            tag = "%s,%s/%d" % (alg, prior, n)
            obs.append(valid("intact/" + tag, obj(**kw), "matching sidecars are accepted"))
            places = [("", alg, n)] + [("v%d/" % k, alg if k == n else prior, k) for k in range(1, n + 1)]
            for d, a, k in places:
                path = d + "inventory.json." + a
                where = "%s/%s" % (tag, d or "root")

                def jd(o, k=k):
                    return o.jdoc(o.docs[k - 1])
                obs.append(invalid("missing/" + where, obj(tree=remove(path), **kw), "an inventory without its sidecar is an error"))
                obs.append(invalid("wrong digest/" + where, obj(tree=put(path, lambda o, a=a: F(digest(a, T([chunk("other")])), K("  inventory.json\n"))), **kw),
                                   "the sidecar must hold the digest of the inventory"))
                obs.append(invalid("other algorithm's digest/" + where, obj(tree=put(path, lambda o, jd=jd: F(digest("md5", T([jd(o)])), K("  inventory.json\n"))), **kw),
                                   "the sidecar must hold the digest of the inventory in the declared algorithm"))
                obs.append(invalid("other name/" + where, obj(tree=put(path, lambda o, jd=jd, a=a: F(digest(a, T([jd(o)])), K("  "), o.st.atom(D.inter(rx.lang(r"[^\s]+\Z"), D.compl(D.const("inventory.json")))), K("\n"))), **kw),
                                   "the sidecar must name the inventory"))
                obs.append(invalid("no name/" + where, obj(tree=put(path, lambda o, jd=jd, a=a: F(digest(a, T([jd(o)])), K("\n"))), **kw), "the sidecar must name the inventory"))
                obs.append(invalid("empty/" + where, obj(tree=put(path, F()), **kw), "an empty sidecar is an error"))
                obs.append(invalid("any other text/" + where, obj(tree=put(path, lambda o: F(o.st.atom(D.inter(D.without("\n"), D.compl(rx.lang(WELL + r"\Z")))), K("\n"))), **kw),
                                   "a sidecar of another form is an error"))
                obs.append(invalid("not text/" + where, obj(tree=put(path, F(Q("badutf8"))), **kw), "a sidecar that is not text is an error"))
                other = "sha256" if a == "sha512" else "sha512"
                obs.append(invalid("only for another algorithm/" + where, obj(tree=both(remove(path), put(d + "inventory.json." + other, lambda o, jd=jd, other=other: side_text(other, jd(o)))), **kw),
                                   "the sidecar must be for the declared algorithm"))
                obs.append(valid("digest in upper case/" + where, obj(tree=put(path, lambda o, jd=jd, a=a: F(S((("upper", digest(a, T([jd(o)]))),)), K("  inventory.json\n"))), **kw),
                                 "digests are compared without regard to case"))
                obs.append(invalid("other digest in upper case/" + where, obj(tree=put(path, lambda o, a=a: F(S((("upper", digest(a, T([chunk("other")]))),)), K("  inventory.json\n"))), **kw),
                                   "the sidecar must hold the digest of the inventory"))
                for nm, sep in (("one blank", " "), ("tab", "\t"), ("several", " \t  ")):
                    obs.append(valid("separator %s/%s" % (nm, where), obj(tree=put(path, lambda o, jd=jd, sep=sep, a=a: side_text(a, jd(o), sep + "inventory.json\n")), **kw),
                                     "any white space separates digest and name"))
                if d:
                    obs.append(invalid("inventory changed/" + where, obj(tree=put(d + "inventory.json", lambda o, k=k: F(o.jdoc(dict(o.docs[k - 1], head="v1" if k > 1 else "v2")))), **kw),
                                       "an inventory that does not match its sidecar is an error"))
                # the same inventory with other layout of the text: still not what the sidecar says
                obs.append(invalid("inventory reformatted/" + where, obj(tree=put(d + "inventory.json", lambda o, k=k: F(Q("json", val(o.st, o.docs[k - 1]), K("other")))), **kw),
                                   "an inventory that does not match its sidecar is an error"))
                obs.append(invalid("inventory with blank lines/" + where, obj(tree=put(d + "inventory.json", lambda o, k=k: F(o.jdoc(o.docs[k - 1]), K("\n"))), **kw),
                                   "an inventory that does not match its sidecar is an error"))
    for n in (1, 2):
        vk = {"check_digests": False}
        obs.append(invalid("no digest checks/missing root/%d" % n, obj(n=n, tree=remove("inventory.json.sha512")), "sidecars are required without digest checks", vkw=vk))
        obs.append(invalid("no digest checks/missing v1/%d" % n, obj(n=n, tree=remove("v1/inventory.json.sha512")), "sidecars are required without digest checks", vkw=vk))
    return obs
