"""The requests studied: creating, building and updating objects in all their settings."""
from .writes import *


def build_tree(*vers):
    return {"src": {"v%d" % (i + 1): nest(v) for i, v in enumerate(vers)}}


def build(md=None, **kw):
    kw.setdefault("objdir", "/w/o")
    kw.setdefault("srcdir", "/w/src")

    def act(w, o, s):
        k = {a: K(x) for a, x in kw.items()}
        if md is None:
            yield from w.meth(o, "build", st=s, **k)
            return
        todo = [(dict(), s)]
        for n in md:
            nxt = []
            for d, s1 in todo:
                for m, s2 in meta(w, s1, **md[n]):
                    s2.stack = s2.stack + (m,)
                    nxt.append((dict(d, **{str(n): m}), s2))
            todo = nxt
        for d, s1 in todo:
            k["versions_metadata"] = s1.alloc(HDict([("1", K(int(a)), m) for a, m in d.items()]))
            yield from w.meth(o, "build", st=s1, **k)
    return act


NEW = {"a.txt": A, "n.txt": CN, "d/b.txt": B, "c.txt": C2}
CARRY2 = before_states(2)[1]

UPDATES = {
    "same files and new ones": Scen(obj={}, src=SRC, act=update(), new=SRC, wkw={"meta": {3: MD}}),
    "one version before": Scen(obj={}, n=1, src=SRC2, act=update(), new=SRC2, wkw={"meta": {2: MD}}),
    "three versions before": Scen(obj={}, n=3, src=SRC2, act=update(), new=SRC2, wkw={"meta": {4: MD}}),
    "eight versions before": Scen(obj={}, n=8, src=SRC2, act=update(), new=SRC2, wkw={"meta": {9: MD}}),
    "nine versions before": Scen(obj={}, n=9, src=SRC2, act=update(), new=SRC2, wkw={"meta": {10: MD}}),
    "ten versions before": Scen(obj={}, n=10, src=SRC, act=update(), new=SRC, wkw={"meta": {11: MD}}),
    "ten versions before, other digest": Scen(obj={"alg": "sha256"}, n=10, src=SRC2, act=update(), new=SRC2, wkw={"alg": "sha512"}),
    "nine padded versions before": Scen(obj={"width": 3}, n=9, src=SRC2, act=update(), new=SRC2),
    "eight padded versions before": Scen(obj={"width": 2}, n=8, src=SRC2, act=update(), new=SRC2),
    "no metadata": Scen(obj={}, src=SRC2, act=update(md=None), new=SRC2, wkw={"meta": {3: {"created": True}}}),
    "empty source": Scen(obj={}, src={}, act=update(), new={}),
    "no source": Scen(obj={}, act=update(srcdir=None), new=CARRY2),
    "no source, other digest": Scen(obj={"alg": "sha256"}, act=update(srcdir=None), new=CARRY2, wkw={"alg": "sha512"}),
    "no forward delta": Scen(obj={}, src=SRC, okw={"forward_delta": False}, act=update(), new=SRC),
    "no deduplication": Scen(obj={}, src=SRC, okw={"dedupe": False}, act=update(), new=SRC),
    "neither": Scen(obj={}, src=SRC, okw={"dedupe": False, "forward_delta": False}, act=update(), new=SRC),
    "sha256": Scen(obj={"alg": "sha256"}, src=SRC, okw={"digest_algorithm": "sha256"}, act=update(), new=SRC),
    "sha256 to sha512": Scen(obj={"alg": "sha256"}, src=SRC, act=update(), new=SRC, wkw={"alg": "sha512"}),
    "sha512 to sha256": Scen(obj={}, src=SRC2, n=3, okw={"digest_algorithm": "sha256"}, act=update(), new=SRC2, wkw={"alg": "sha256"}),
    "sha256 in older versions": Scen(obj={"prior_alg": "sha256"}, n=3, src=SRC2, act=update(), new=SRC2),
    "version 1.0": Scen(obj={"spec": "1.0"}, src=SRC, act=update(), new=SRC),
    "version 1.0, set": Scen(obj={"spec": "1.0"}, src=SRC2, okw={"spec_version": "1.0"}, act=update(), new=SRC2),
    "version 1.1 after 1.0": Scen(obj={"prior_spec": "1.0"}, n=3, src=SRC2, act=update(), new=SRC2),
    "own content directory": Scen(obj={"cdir": "stuff"}, src=SRC, act=update(), new=SRC),
    "content directory set otherwise": Scen(obj={"cdir": "stuff"}, src=SRC2, okw={"content_directory": "data"}, act=update(), new=SRC2),
    "padded versions": Scen(obj={"width": 4}, src=SRC, act=update(), new=SRC),
    "padded versions, sha256 to sha512": Scen(obj={"width": 3, "alg": "sha256"}, src=SRC2, act=update(), new=SRC2, wkw={"alg": "sha512"}),
    "fixity block": Scen(obj={"fixity": {"md5": ["v1/content/a.txt"], "sha1": ["v1/content/a.txt", "v1/content/d/b.txt"]}}, src=SRC, act=update(), new=SRC),
    "fixity block, sha256 to sha512": Scen(obj={"alg": "sha256", "fixity": {"md5": ["v1/content/a.txt"]}}, src=SRC2, act=update(), new=SRC2, wkw={"alg": "sha512"}),
    "fixity dropped": Scen(obj={"fixity": {"md5": ["v1/content/a.txt"], "sha1": ["v1/content/a.txt"]}}, src=SRC2, okw={"fixity": ["md5"]}, act=update(), new=SRC2),
    "names hashed": Scen(obj={}, src=SRC, okw={"content_path_normalization": "md5"}, act=update(), new=SRC),
    "names kept": Scen(obj={}, src=SRC2, okw={"content_path_normalization": None}, act=update(), new=SRC2),
    "abort if same, differs": Scen(obj={}, src=SRC, act=update(abort_if_no_difference=True), new=SRC),
    "abort if same, only moved": Scen(obj={}, src={"b.txt": A, "d/b.txt": B, "c.txt": C2}, act=update(abort_if_no_difference=True), new={"b.txt": A, "d/b.txt": B, "c.txt": C2}),
    "abort if same, one less": Scen(obj={}, src={"a.txt": A, "c.txt": C2}, act=update(abort_if_no_difference=True), new={"a.txt": A, "c.txt": C2}),
    "assembled, carried forward": Scen(obj={}, src=SRC, act=steps(("add", "n.txt", "n.txt")), new=NEW, wkw={"meta": {3: MD}}),
    "assembled, nothing carried": Scen(obj={}, src=SRC, act=steps(("add", "n.txt", "x"), ("add", "a.txt", "y/z"), start={"carry_content_forward": False}), new={"x": CN, "y/z": A}),
    "assembled, all removed": Scen(obj={}, src=SRC, act=steps(("delete", "a.txt"), ("delete", "d/b.txt"), ("delete", "c.txt")), new={}),
    "assembled, sha256": Scen(obj={"alg": "sha256"}, src=SRC, act=steps(("add", "n.txt", "n.txt")), new=NEW),
    "assembled, sha256 to sha512": Scen(obj={"alg": "sha256"}, src=SRC, act=steps(("add", "n.txt", "n.txt"), start={"digest_algorithm": "sha512"}), new=NEW, wkw={"alg": "sha512"}),
    "assembled, version 1.0": Scen(obj={"spec": "1.0", "cdir": "stuff"}, src=SRC, act=steps(("add", "n.txt", "n.txt", "v3/stuff/deep/er/f"), ("rename", "a.txt", "q")), new={"n.txt": CN, "d/b.txt": B, "c.txt": C2, "q": A}),
    "assembled on open storage": Scen(obj={}, src=SRC, okw={"path": "/w/o"}, act=steps(("add", "n.txt", "n.txt"), objdir=None), new=NEW),
}

CREATES = {
    "create": Scen(src=SRC, okw={"identifier": "info:abc"}, act=create(), states=[SRC], wkw={"meta": {1: MD}}),
    "create, no metadata": Scen(src=SRC2, okw={"identifier": "info:abc"}, act=create(md=None), states=[SRC2], wkw={"meta": {1: {"created": True}}}),
    "create, 1.0": Scen(src=SRC2, okw={"identifier": "info:abc", "spec_version": "1.0"}, act=create(), states=[SRC2], wkw={"spec": "1.0"}),
    "create, sha256": Scen(src=SRC, okw={"identifier": "info:abc", "digest_algorithm": "sha256"}, act=create(), states=[SRC], wkw={"alg": "sha256"}),
    "create, own content directory": Scen(src=SRC, okw={"identifier": "info:abc", "content_directory": "stuff"}, act=create(), states=[SRC], wkw={"cdir": "stuff"}),
    "create, no deduplication": Scen(src=SRC, okw={"identifier": "info:abc", "dedupe": False}, act=create(), states=[SRC]),
    "create, names hashed": Scen(src=SRC, okw={"identifier": "info:abc", "content_path_normalization": "md5"}, act=create(), states=[SRC]),
    "create, names kept": Scen(src=SRC2, okw={"identifier": "info:abc", "content_path_normalization": None}, act=create(), states=[SRC2]),
    "create, empty source": Scen(src={}, okw={"identifier": "info:abc"}, act=create(), states=[{}]),
    "create, one file": Scen(src={"f": CN}, okw={"identifier": "info:abc"}, act=create(), states=[{"f": CN}]),
    "create, fixity asked for": Scen(src=SRC2, okw={"identifier": "info:abc", "fixity": ["md5"]}, act=create(), states=[SRC2]),
    "build, one version": Scen(tree=build_tree(SRC), okw={"identifier": "info:abc"}, act=build(), states=[SRC]),
    "build, two versions": Scen(tree=build_tree(SRC2, SRC), okw={"identifier": "info:abc"}, act=build({1: META, 2: META}), states=[SRC2, SRC], wkw={"meta": {1: MD, 2: MD}}),
    "build, metadata for the second only": Scen(tree=build_tree(SRC2, SRC), okw={"identifier": "info:abc"}, act=build({2: META}), states=[SRC2, SRC], wkw={"meta": {1: {"created": True}, 2: MD}}),
    "build, three versions": Scen(tree=build_tree({"f": CN, "g": A}, {"f": A, "g": CN, "h": CM}, {"h": CN, "i": B}), okw={"identifier": "info:abc"}, act=build(), states=[{"f": CN, "g": A}, {"f": A, "g": CN, "h": CM}, {"h": CN, "i": B}]),
    "build, eleven versions": Scen(tree=build_tree(*[{"f": ct("f%d" % i), "g%d" % (i % 3): A} for i in range(11)]), okw={"identifier": "info:abc"}, act=build({i + 1: META for i in range(11)}), states=[{"f": ct("f%d" % i), "g%d" % (i % 3): A} for i in range(11)], wkw={"light": True, "meta": {i + 1: MD for i in range(11)}}),
    "build, 1.0, sha256": Scen(tree=build_tree(SRC2, SRC), okw={"identifier": "info:abc", "spec_version": "1.0", "digest_algorithm": "sha256"}, act=build(), states=[SRC2, SRC], wkw={"alg": "sha256", "spec": "1.0"}),
    "build, own content directory": Scen(tree=build_tree(SRC2, SRC), okw={"identifier": "info:abc", "content_directory": "stuff"}, act=build(), states=[SRC2, SRC], wkw={"cdir": "stuff"}),
    "build, no forward delta": Scen(tree=build_tree(SRC2, SRC), okw={"identifier": "info:abc", "forward_delta": False}, act=build(), states=[SRC2, SRC]),
    "build, no deduplication": Scen(tree=build_tree(SRC, SRC2), okw={"identifier": "info:abc", "dedupe": False}, act=build(), states=[SRC, SRC2]),
    "build, same twice": Scen(tree=build_tree(SRC2, SRC2), okw={"identifier": "info:abc"}, act=build(), states=[SRC2, SRC2]),
    "build, an empty version": Scen(tree=build_tree(SRC2, {}, SRC2), okw={"identifier": "info:abc"}, act=build(), states=[SRC2, {}, SRC2]),
    "build, other directories beside": Scen(tree=lambda st: {"src": dict(build_tree({"f": CN})["src"], other={"x": ff(CM)}, readme=ff(CH))}, okw={"identifier": "info:abc"}, act=build(), states=[{"f": CN}]),
}
