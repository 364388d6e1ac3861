"""V19: refused requests and dry runs change nothing."""
from ..scen import *
from . import v01

EXPLAIN = ("Abstract interpretation of requests that must be refused (no identifier, existing destination, missing or ill-numbered "
           "sources, invalid object, lower specification version, unknown version, used destination, bad single operations) and of dry runs and "
           "requests without a difference. No effect on the storage occurs on any path, refusal is an exception, and a dry run returns the "
           "inventory that a real run would store.")
ASSUME = ["file systems behave like a local directory tree"]
FLOOR = 40

ID = {"identifier": "info:abc"}
OLD = lambda st: {"o": simple(st, 2).tree()}
KEPT = lambda st: {"o": {"f.txt": F(chunk("own"))}}


def nothing(p, w, scen, v, s):
    bad = ["%s of %s" % (op, name(q)) for op, q in s.mon.get("$ev", ())]
    fs, _ = files(s, "w")
    for f, c in w.all_before.items():
        if fs.get(f) != c:
            bad.append("%s was changed" % name(f))
    return list(dict.fromkeys(bad))


def refused(p, w, scen, v, s):
    bad = nothing(p, w, scen, v, s)
    if not isinstance(v, Raise):
        bad.append("the request is not refused")
    return bad


def nothing_done(p, w, scen, v, s):
    bad = nothing(p, w, scen, v, s)
    if isinstance(v, Raise):
        bad.append("raises %s" % exc_name(v, s))
    return bad


def both_trees(*fs):
    return lambda st: {k: x for f in fs for k, x in f(st).items()}


REFUSED = {
    "create without identifier": Scen(src=SRC2, act=create()),
    "build without identifier": Scen(tree=build_tree(SRC2), act=build()),
    "create over an object": Scen(src=SRC2, okw=ID, tree=OLD, act=create()),
    "create over a directory in use": Scen(src=SRC2, okw=ID, tree=KEPT, act=create()),
    "create below a directory that is not there": Scen(src=SRC2, okw=ID, act=create(objdir="/w/no/o")),
    "create from a source that is not there": Scen(okw=ID, act=create()),
    "create, unknown normalization": Scen(src=SRC2, okw=dict(ID, content_path_normalization="zz"), act=create()),
    "build over an object": Scen(okw=ID, tree=both_trees(OLD, lambda st: build_tree(SRC2, SRC)), act=build()),
    "build over a directory in use": Scen(okw=ID, tree=both_trees(KEPT, lambda st: build_tree(SRC2, SRC)), act=build()),
    "build, version missing": Scen(okw=ID, tree={"src": {"v1": nest(SRC2), "v3": nest(SRC)}}, act=build()),
    "build, no first version": Scen(okw=ID, tree={"src": {"v2": nest(SRC2), "v3": nest(SRC)}}, act=build()),
    "build, no versions": Scen(okw=ID, tree={"src": {"x": nest(SRC2)}}, act=build()),
    "build, source missing": Scen(okw=ID, act=build()),
    "update of nothing": Scen(src=SRC2, act=update()),
    "update of a directory": Scen(src=SRC2, tree=KEPT, act=update()),
    "update, source missing": Scen(obj={}, act=update()),
    "update, no room for another padded version": Scen(obj={"width": 2}, n=9, src=SRC2, act=update()),
    "update, source missing, other digest": Scen(obj={"alg": "sha256"}, act=update()),
    "assembled, source missing": Scen(obj={}, act=steps(("add", "n.txt", "n"))),
}
for _n, (_make, _good) in v01.CASES.items():
    if not _good and _n not in ("content changed", "wrong digest file"):
        REFUSED["update of an invalid object: " + _n] = Scen(src=SRC2, tree=lambda st, m=_make: {"o": m(st)}, act=update())
        if _n in ("no inventory", "empty identifier", "content missing"):
            REFUSED["assembling on an invalid object: " + _n] = Scen(src=SRC2, tree=lambda st, m=_make: {"o": m(st)}, act=steps(("add", "n.txt", "n")))

SETTINGS = {"fixity": {"fixity": ["md5"]}, "no deduplication": {"dedupe": False}, "no forward delta": {"forward_delta": False}, "sha256": {"digest_algorithm": "sha256"},
            "1.0": {"spec_version": "1.0"}, "own content directory": {"content_directory": "stuff"}, "names kept": {"content_path_normalization": None}}
for _n in [x for x in REFUSED if x.startswith(("create", "build")) and "normalization" not in x]:
    for _k, _s in SETTINGS.items():
        _o = REFUSED[_n]
        REFUSED["%s; %s" % (_n, _k)] = Scen(src=_o.src, tree=_o.more, okw=dict(_o.okw, **_s), act=_o.act)
for _k, _s in SETTINGS.items():
    for _n, _o in (("update, source missing", Scen(obj={}, okw=_s, act=update())), ("update of a directory", Scen(src=SRC2, tree=KEPT, okw=_s, act=update())),
                   ("update of nothing", Scen(src=SRC2, okw=_s, act=update()))):
        REFUSED["%s; %s" % (_n, _k)] = _o

OPS = {
    "added twice": (("add", "n.txt", "a.txt"),),
    "deleted and not there": (("delete", "zz"),),
    "renamed and not there": (("rename", "zz", "y"),),
    "renamed onto another": (("rename", "a.txt", "d/b.txt"),),
    "source file not there": (("add", "zz", "y"),),
    "content path of an earlier version": (("add", "n.txt", "y", "v1/content/y"),),
    "content path elsewhere": (("add", "n.txt", "y", "v3/other/y"),),
    "content path with dots": (("add", "n.txt", "y", "v3/content/../../v1/content/y"),),
    "content path used": (("add", "n.txt", "y", "v3/content/y"), ("add", "a.txt", "x", "v3/content/y")),
    "content path below a file": (("add", "n.txt", "y", "v3/content/y"), ("add", "z", "x", "v3/content/y/z")),
    "logical path with dots": (("add", "n.txt", "x/../y"),),
    "logical path above": (("add", "n.txt", "../y"),),
    "logical path absolute": (("add", "n.txt", "/y"),),
    "logical path ending in slash": (("add", "n.txt", "y/"),),
    "logical path empty": (("add", "n.txt", ""),),
    "logical path below a file": (("add", "n.txt", "a.txt/x"),),
    "logical path that is a directory": (("add", "n.txt", "d"),),
    "renamed below another": (("rename", "a.txt", "d/b.txt/x"),),
    "renamed to dots": (("rename", "a.txt", "../x"),),
}
for _n, _ops in OPS.items():
    REFUSED["assembling: " + _n] = Scen(obj={}, src=SRC2, act=steps(*_ops))


# settings with which the stored object would not be valid
BAD_SETTINGS = {
    "content directory of two elements": {"content_directory": "a/b"}, "content directory empty": {"content_directory": ""},
    "content directory a dot": {"content_directory": "."}, "content directory two dots": {"content_directory": ".."},
    "digest algorithm md5": {"digest_algorithm": "md5"}, "digest algorithm sha1": {"digest_algorithm": "sha1"},
    "digest algorithm blake2b-512": {"digest_algorithm": "blake2b-512"}, "digest algorithm unknown": {"digest_algorithm": "nope"},
    "specification version unknown": {"spec_version": "9.9"}, "specification version empty": {"spec_version": ""},
    "identifier empty": {"identifier": ""}, "identifier not a string": {"identifier": 1},
    "fixity unknown": {"fixity": ["nope"]},
}
BAD_META = {
    "created no date": dict(META, created="yesterday"), "created without time": dict(META, created="2024-05-06"),
    "created without timezone": dict(META, created="2024-05-06T07:08:09"), "message no string": dict(META, message=1),
    "address without name": {"address": "mailto:a@b.org"}, "name no string": dict(META, name=1), "created no string": dict(META, created=1),
}
for _n, _s in BAD_SETTINGS.items():
    REFUSED["create, " + _n] = Scen(src=SRC2, okw=dict(ID, **_s), act=create())
    REFUSED["build, " + _n] = Scen(okw=dict(ID, **_s), tree=build_tree(SRC2, SRC), act=build())
for _n in ("digest algorithm md5", "digest algorithm blake2b-512", "digest algorithm unknown"):
    REFUSED["update, " + _n] = Scen(obj={}, src=SRC2, okw=BAD_SETTINGS[_n], act=update())
    REFUSED["update without source, " + _n] = Scen(obj={"alg": "sha256"}, okw=BAD_SETTINGS[_n], act=update(srcdir=None))
    REFUSED["assembling, " + _n] = Scen(obj={}, src=SRC2, act=steps(("add", "n.txt", "n"), start=BAD_SETTINGS[_n]))
for _n, _m in BAD_META.items():
    REFUSED["create, " + _n] = Scen(src=SRC2, okw=ID, act=create(md=_m))
    REFUSED["build, " + _n] = Scen(okw=ID, tree=build_tree(SRC2, SRC), act=build({1: _m}))
    REFUSED["build, second version, " + _n] = Scen(okw=ID, tree=build_tree(SRC2, SRC), act=build({1: META, 2: _m}))
    REFUSED["update, " + _n] = Scen(obj={}, src=SRC2, act=update(md=_m))
    REFUSED["assembling, " + _n] = Scen(obj={}, src=SRC2, act=steps(("delete", "a.txt"), md=_m))


def dry(p, w, scen, v, s):
    """The inventory returned is the one the real run stores."""
    bad = nothing_done(p, w, scen, v, s)
    if bad:
        return bad
    v = deref(s, v)
    got = plain(s, s.heap[v.a].attrs["data"])
    w2, outs = scen.real.run(p)
    for v2, s2 in outs:
        if isinstance(v2, Raise):
            return ["the real run fails"]
        if inventory_at(s2, *scen.path, "inventory.json") != got:
            bad.append("the inventory returned by the dry run is not the one stored by a real run")
    return bad


DRY = {
    "create": (Scen(src=SRC, okw=ID, act=create(objdir=None)), CREATES["create"]),
    "create, sha256": (Scen(src=SRC, okw=dict(ID, digest_algorithm="sha256"), act=create(objdir=None)), CREATES["create, sha256"]),
    "build": (Scen(tree=build_tree(SRC2, SRC), okw=ID, act=build({1: META, 2: META}, objdir=None)), CREATES["build, two versions"]),
}
SAME = before_states(2)[1]
NODIFF = {
    "same source": Scen(obj={}, src=SAME, act=update(abort_if_no_difference=True)),
    "same source, names hashed": Scen(obj={}, src=SAME, okw={"content_path_normalization": "md5"}, act=update(abort_if_no_difference=True)),
    "same source, no forward delta": Scen(obj={}, src=SAME, okw={"forward_delta": False}, act=update(abort_if_no_difference=True)),
    "same source, three versions": Scen(obj={}, n=3, src=before_states(3)[2], act=update(abort_if_no_difference=True)),
    "same source, one version": Scen(obj={}, n=1, src=before_states(1)[0], act=update(abort_if_no_difference=True)),
    "no source": Scen(obj={}, act=update(srcdir=None, abort_if_no_difference=True)),
}


def assembling(w, o, s):
    """A version that is assembled and never written."""
    for m, s1 in meta(w, s, **META):
        for nv, s2 in w.meth(o, "start_new_version", st=s1, objdir=K("/w/o"), srcdir=K("/w/src"), metadata=m):
            if isinstance(nv, Raise):
                yield nv, s2
                continue
            for v, s3 in w.meth(nv, "add", K("n.txt"), K("n"), st=s2):
                s3.stack = s3.stack + (nv,)
                for v2, s4 in w.meth(nv, "delete", K("a.txt"), st=s3) if not isinstance(v, Raise) else [(v, s3)]:
                    yield from w.meth(nv, "diff_with_previous", st=s4) if not isinstance(v2, Raise) else [(v2, s4)]


def obligations(p):
    obs = [after("%s: refused without effect" % n, "refused requests have no effect", sc, refused, ok=False) for n, sc in REFUSED.items()]
    for n, (sc, real) in DRY.items():
        sc.real = real
        obs.append(after("%s: dry run" % n, "a dry run has no effect and tells what a real run does", sc, dry, ok=False))
    for n, sc in NODIFF.items():
        obs.append(after("%s: no version without difference" % n, "nothing to do has no effect", sc, nothing_done, ok=False))
    for n, kw in (("plain", {}), ("other digest", {"alg": "sha256"})):
        obs.append(after("assembling, %s: nothing is written" % n, "assembling has no effect before the version is written",
                         Scen(obj=kw, src=SRC2, act=assembling), nothing_done, ok=False))
    return obs
