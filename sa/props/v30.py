"""V30: deduplication and forward delta decide how often content is stored."""
from ..scen import *
from . import v22

EXPLAIN = ("Abstract interpretation of creating, building, updating and assembling object versions from sources with new, repeated, already stored and empty content, "
           "in all four settings of deduplication and forward delta and combined with the other settings (digest algorithm kept or changed, content directory, version padding, "
           "content names, specification version, number of versions). The content files in the new version directory are then counted per content and compared with what the "
           "settings say: content already stored is stored again only without forward delta, and several times in a version only without deduplication; the object is "
           "otherwise what was asked for.")
ASSUME = ["file systems behave like a local directory tree", "digest functions are treated as collision free"]
FLOOR = 80
RULE = "content is stored as often as the settings say"
SRC3 = {"a.txt": A, "copy/of/a": A, "b": B, "n": CN, "o/n": CN, "o/n2": CN, "e1": CE, "o/e2": CE, "m": CM}
SETTINGS = [(True, True), (True, False), (False, True), (False, False)]


def how(fd, dd):
    return ("" if fd else ", no forward delta") + ("" if dd else ", no deduplication")


def judge(fd, dd, first=None, added=None):
    def f(p, w, scen, v, s):
        want = scen.want()
        bad = check_stored(p, s, want, scen.path)
        return bad or copies(s, want, scen.path, fd, dd, first, added)
    return f


def obligations(p):
    obs = []
    for fd, dd in SETTINGS:
        kw = {"forward_delta": fd, "dedupe": dd}

        def ob(nm, sc, first=None, added=None):
            sc.okw = dict(sc.okw, **kw)
            obs.append(after(nm + how(fd, dd), RULE, sc, judge(fd, dd, first, added)))
        for n in (1, 2, 3, 9, 10):
            ob("update after %d" % n, Scen(obj={}, n=n, src=SRC3, act=update(), new=SRC3))
        for nm, okw, obj, wkw in (("sha256", {"digest_algorithm": "sha256"}, {"alg": "sha256"}, {}), ("sha256 to sha512", {}, {"alg": "sha256"}, {"alg": "sha512"}),
                                  ("sha512 to sha256", {"digest_algorithm": "sha256"}, {}, {"alg": "sha256"}), ("older sha256", {}, {"prior_alg": "sha256"}, {}),
                                  ("own content directory", {}, {"cdir": "stuff"}, {}), ("padded", {}, {"width": 3}, {}), ("1.0", {}, {"spec": "1.0"}, {}),
                                  ("1.0 to 1.1", {}, {"prior_spec": "1.0"}, {}), ("names hashed", {"content_path_normalization": "md5"}, {}, {}),
                                  ("names kept", {"content_path_normalization": None}, {}, {}), ("fixity", {}, {"fixity": {"md5": ["v1/content/a.txt"]}}, {})):
            ob("update, %s" % nm, Scen(obj=obj, n=3, src=SRC3, okw=okw, act=update(), new=SRC3, wkw=wkw))
        ob("update, abort if same", Scen(obj={}, src=SRC3, act=update(abort_if_no_difference=True), new=SRC3))
        ob("update without source", Scen(obj={}, act=update(srcdir=None), new=CARRY2), added={})
        ob("update with nothing", Scen(obj={}, src={}, act=update(), new={}))
        ob("update with the same", Scen(obj={}, src=CARRY2, act=update(), new=CARRY2))
        ob("update with what only an older version has", Scen(obj={}, n=3, src={"d/b.txt": B, "x": B, "c.txt": C3}, act=update(), new={"d/b.txt": B, "x": B, "c.txt": C3}))
        for nm, okw, wkw in (("create", {}, {}), ("create, sha256", {"digest_algorithm": "sha256"}, {"alg": "sha256"}), ("create, names hashed", {"content_path_normalization": "md5"}, {}),
                             ("create, own content directory", {"content_directory": "stuff"}, {"cdir": "stuff"}), ("create, 1.0", {"spec_version": "1.0"}, {"spec": "1.0"})):
            ob(nm, Scen(src=SRC3, okw=dict(okw, identifier="info:abc"), act=create(), states=[SRC3], wkw=wkw))
        vs = [SRC3, {"z": A, "y": A, "x": CH, "w": CH}, {}, {"z": CN, "q": CH, "r": CM, "r2": CM}]
        for nm, okw, wkw in (("build", {}, {}), ("build, sha256, 1.0", {"digest_algorithm": "sha256", "spec_version": "1.0"}, {"alg": "sha256", "spec": "1.0"}),
                             ("build, own content directory", {"content_directory": "stuff"}, {"cdir": "stuff"})):
            ob(nm, Scen(tree=build_tree(*vs), okw=dict(okw, identifier="info:abc"), act=build(), states=vs, wkw=wkw), first=1)
        ob("build with metadata", Scen(tree=build_tree(*vs[:2]), okw={"identifier": "info:abc"}, act=build({1: META, 2: META}), states=vs[:2]), first=1)
        for nm, ops, start in (("carried", [("add", "n", "n"), ("add", "o/n", "p/n"), ("add", "a.txt", "x"), ("add", "copy/of/a", "y")], None),
                               ("not carried", [("add", "n", "n"), ("add", "a.txt", "x"), ("add", "o/n2", "n2"), ("add", "b", "b"), ("add", "copy/of/a", "y")], {"carry_content_forward": False}),
                               ("own names", [("add", "n", "n", "v3/content/1"), ("add", "o/n", "n1", "v3/content/2/3"), ("add", "a.txt", "x", "v3/content/4"), ("add", "e1", "e", "v3/content/5")], None),
                               ("same source again", [("add", "m", "m1", "v3/content/m1"), ("add", "m", "m2", "v3/content/m2")], None),
                               ("after others went", [("delete", "a.txt"), ("delete", "d/b.txt"), ("rename", "c.txt", "d"), ("add", "a.txt", "q"), ("add", "n", "n"), ("add", "b", "r"), ("add", "o/n", "m")], None)):
            state = {} if start else dict(CARRY2)
            added = {}
            for o in ops:
                if o[0] == "delete":
                    del state[o[1]]
                elif o[0] == "rename":
                    state[o[2]] = state.pop(o[1])
                else:
                    state[o[2]] = added[o[2]] = SRC3[o[1]]
            ob("assembled, %s" % nm, Scen(obj={}, src=SRC3, act=steps(*ops, start=start), new=state), added=added)
    return obs
