"""Storage roots in the abstract file storage, and requests on them."""
from .scen import *
from .props import v23

SR = "ocfl.storage_root.StorageRoot"
FLAT, HASH, QUOTED, TREE, UUIDQ = ("0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "nnnn-flat-quoted-storage-layout",
                                   "nnnn-tuple-tree-layout", "nnnn-uuid-quadtree")
URN = "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8"


def jf(st, x):
    return F(Q("json", val(st, x), K("indent=2,sort_keys=True")))


def root(st, objs=None, version="1.1", layout=FLAT, params=None, **more):
    """Tree of a storage root with the given entries."""
    t = {"0=ocfl_" + version: "ocfl_%s\n" % version}
    if layout:
        t["ocfl_layout.json"] = jf(st, {"extension": layout, "description": "d"})
    if params is not None:
        t["extensions"] = {layout: {"config.json": jf(st, dict({"extensionName": layout}, **params))}}
    t.update(objs or {})
    t.update(more)
    return t


def spread(t, path, what):
    """Put a tree at a path of constant elements into a tree."""
    xs = path.split("/")
    for x in xs[:-1]:
        t = t.setdefault(x, {})
    t[xs[-1]] = what
    return t


def listed(w, v, s):
    """[(list object | Raise, state)] of exhausting a generator."""
    return [(v, s)] if isinstance(v, Raise) else w.I.call(w.p.builtin("list"), [v], {}, s, None)


def split(s, v):
    """Elements of a path value as used for files."""
    out = []
    for e in v23.elements(s, v):
        x = s.norm(FM.mkstr(tuple(e)))
        out.append(x.v if isinstance(x, K) else x)
    return tuple(out)
