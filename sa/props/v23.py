"""V23: object paths given by storage layouts."""
from ..world import *
from ..engine import chars
from ..engine.fsmodel import parts_of
from ..engine.ops import hash_slice
import hashlib

EXPLAIN = ("Abstract interpretation of the path computation of every registered layout on an arbitrary identifier (a string of which nothing is known), "
           "with default and other parameters. Languages show that each path is relative and free of empty, '.' and '..' elements; the identifier "
           "is shown to be recoverable from the path (it is in it literally, through a character map that is a prefix code, or through a complete digest), so "
           "that different identifiers have different paths; identifiers are refused only when no safe path exists; and the paths of the two published "
           "layouts are those of their definitions, built independently here.")
ASSUME = ["cryptographic digests of different identifiers differ"]
FLOOR = 25

ELEM = D.minus(D.compl(D.concat(D.ALL, D.concat(D.const("/"), D.ALL))), D.words(["", ".", ".."]))
SAFE = D.concat(ELEM, D.star(D.concat(D.const("/"), ELEM)))
SLASH = D.concat(D.ALL, D.concat(D.const("/"), D.ALL))
UUID = "[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}"
DIRECT, HASHED = "0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout"
REFUSE = {      # identifiers a layout may refuse
    DIRECT: D.union(D.words(["", ".", ".."]), SLASH),
    HASHED: D.words([""]),
    "nnnn-flat-quoted-storage-layout": D.words(["", ".", ".."]),
    "nnnn-tuple-tree-layout": D.words([""]),
    "nnnn-uuid-quadtree": D.compl(lang("urn:uuid:" + UUID + r"\Z")),
}
ASC = [chr(x) for x in range(128)]


def registry(p):
    """{registered name: class} by interpretation of the registry module."""
    fr = p.modules["ocfl.layout_registry"].frame
    st = p.fresh()
    out = {}
    for v in st.heap[fr].vars.values():
        if isinstance(v, R) and isinstance(st.heap[v.a], HDict):
            for e in st.heap[v.a].ents:
                if e[0] == "1" and isinstance(e[1], K) and isinstance(e[2], C):
                    out[e[1].v] = e[2].info.qual
    return out


def paths(p, name, params, ident, unroll=0, budget=200):
    """(world, [(path | Raise, state)], identifier) of a layout with parameters."""
    w = World(p, budget=budget, unroll=unroll)
    a = ident(w.st)
    outs = []
    for o, s in w.func("ocfl.layout_registry.get_layout", K(name)):
        if isinstance(o, Raise):
            outs.append((o, s))
            continue
        sets = [(None, s)]
        if params is not None:
            sets = w.meth(o, "check_and_set_layout_params", val(s, params), st=s, require_extension_name=K(False))
        for r, s1 in sets:
            outs.extend([(r, s1)] if isinstance(r, Raise) else w.meth(o, "identifier_to_path", a, st=s1))
    return w, outs, a


def elements(s, v):
    """Parts of the elements of a path: split at the slashes that are seen."""
    n = s.norm(v)
    out = [[]]
    for q in (n.parts if isinstance(n, S) else (n.v,)):
        if isinstance(q, str):
            xs = q.split("/")
            if xs[0]:
                out[-1].append(xs[0])
            for x in xs[1:]:
                out.append([x] if x else [])
        else:
            out[-1].append(q)
    return out


def union_all(ds):
    ds = list(ds)
    while len(ds) > 1:
        ds = [D.union(ds[i], ds[i + 1]) if i + 1 < len(ds) else ds[i] for i in range(0, len(ds), 2)]
    return ds[0] if ds else D.EMPTY


def prefix_code(img):
    """No image of a character is the beginning of another's, so that a sequence can be taken apart."""
    words = [D.const(img[x]) if isinstance(img[x], str) else img[x] for x in range(128)]
    if any(w is D.EPS for w in words):
        return False
    if len(set(words)) < 128:
        return False
    for i, a in enumerate(words):
        more = D.concat(a, D.ALL)
        if not D.disjoint(more, union_all(words[:i] + words[i + 1:])):
            return False
    non = union_all([img[x] if not isinstance(img[x], str) else D.const(img[x]) for x in range(128, D.NSYM)])
    return D.disjoint(non, D.concat(union_all(words), D.ALL)) and D.disjoint(D.concat(non, D.ALL), union_all(words))


def recover(s, v, a):
    """How the identifier can be found from a path, or None."""
    last = elements(s, v)[-1]
    ident = s.norm(a)
    if len(last) == 1 and isinstance(last[0], tuple) and s.norm(last[0][1]) == ident:
        nm = last[0][0]
        if nm.startswith("inj:"):
            return "injective encoding"
        if nm in chars.IMAGES and prefix_code(chars.IMAGES[nm]):
            return "prefix code"
    if last and isinstance(last[-1], tuple) and last[-1][0].startswith("h:") and last[-1][1] == T((ident,)):
        return "complete digest"
    lit = lambda x: [q for q in (x.parts if isinstance(x, S) else ()) if not isinstance(q, str)]
    n = s.norm(v)
    if lit(n) and lit(n) == lit(ident) and all(isinstance(q, int) and (n == ident or s.part_lang(q).lengths()[0] == s.part_lang(q).lengths()[1]) for q in lit(n)):
        return "the identifier itself"
    return None


def lost(s, v, a):
    """The last element holds text of which it is not known where it comes from."""
    own = {q for q in s.norm(a).parts if not isinstance(q, str)} if isinstance(s.norm(a), S) else set()
    last = elements(s, v)[-1]
    return not last or any(isinstance(q, int) and q not in own for q in last)


def any_id(st):
    return st.atom(D.ALL)


def safe(name, params=None):
    def fn(p, ob):
        r = Result()
        w, outs, a = paths(p, name, params, any_id)
        kinds = []
        for v, s in outs:
            r.count("paths")
            if isinstance(v, Raise):
                if s.taint:
                    r.undecided.append(s.taint[0])
                elif exc_name(v, s) != "LayoutException":
                    r.add(name, "raises %s for some identifiers" % describe(v.v, s)[:120])
                elif not D.subset(s.lang_of(a), REFUSE.get(name, D.EMPTY)):
                    r.add(name, "refuses identifiers it could place")
                continue
            if not (isinstance(v, S) or isinstance(v, K) and isinstance(v.v, str)):
                r.undecided.append("path not followed: %r" % (v,))
                continue
            bad = []
            if not all(D.subset(D.concat_all([D.const(q) if isinstance(q, str) else s.part_lang(q) for q in e]), ELEM) for e in elements(s, v)) and not D.subset(s.lang_of(v), SAFE):
                bad.append("gives a path with an empty, '.' or '..' element or outside the storage root for some identifiers")
            how = recover(s, v, a)
            if how is None and lost(s, v, a):
                r.undecided.append("how the last element is made was not followed")
                continue
            if how is None:
                bad.append("may give the same path to different identifiers")
            r.count("paths with " + (how or "nothing"))
            for b in bad:
                if s.taint:
                    r.undecided.append(s.taint[0])
                else:
                    r.add(name, b)
            if how in ("prefix code", "complete digest"):
                kinds.append((how, D.concat_all([s.part_lang(q) for q in elements(s, v)[-1]])))
        for i, (h, x) in enumerate(kinds):
            for g, y in kinds[:i]:
                if h != g and not D.disjoint(x, y):
                    r.add(name, "a short and a long identifier may get the same path")
        if not outs:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob("%s%s" % (name, ", %s" % params if params else ""), "paths are safe and tell identifiers apart", fn)


def hashed(alg, size, number, ident, st):
    """The published definition of layout 0003 for a known identifier, with the digest left symbolic."""
    enc = ""
    for c in ident:
        enc += c if c.isascii() and (c.isalnum() or c in "-_") else "".join("%%%02x" % b for b in c.encode("utf-8"))
    dig = digest_text(alg, K(ident), st)
    els = []
    for i in range(number):
        els.append(parts_of(hash_slice(dig.parts[0], i * size, i * size + size)))
    els.append((enc,) if len(enc) <= 100 else (enc[:100], "-") + parts_of(dig))
    out = ()
    for i, e in enumerate(els):
        out += (("/",) if i else ()) + tuple(e)
    return FM.mkstr(out)


def digest_text(alg, v, st):
    return digest(alg, T([v]))


IDS = ["object-01", "..hor/rib:le-$id", "a", "_", "~", "é", "日本語", "😀/x", "A b+c", "%41", "x" * 99, "x" * 100, "x" * 101, "y" * 97 + "/",
       "y" * 98 + "/", "y" * 99 + "/", "日" * 11, "日" * 12, "..", "AbC:/" * 40, "\n", "a\n", "İ", "ß", "\x00", "\x7f", "\xa0"]
PARAMS = [("sha256", 3, 3), ("sha512", 2, 15), ("md5", 4, 2), ("sha256", 0, 0), ("sha1", 32, 1), ("sha256", 1, 32), ("sha512", 32, 4)]


def defined(alg, size, number):
    def fn(p, ob):
        r = Result()
        for ident in IDS:
            w, outs, a = paths(p, HASHED, {"digestAlgorithm": alg, "tupleSize": size, "numberOfTuples": number}, lambda st: K(ident), unroll=400)
            want = hashed(alg, size, number, ident, w.st)
            for v, s in outs:
                r.count("identifiers")
                if s.taint:
                    r.undecided.append(s.taint[0])
                elif isinstance(v, Raise):
                    r.add(HASHED, "raises %s for %r" % (describe(v.v, s)[:100], ident))
                elif s.norm(v) != w.st.norm(want):
                    r.add(HASHED, "path of %r with %s %d %d is not that of the definition" % (ident[:20], alg, size, number))
        return finish(r, w.I)
    return Ob("0003 as published, %s %d %d" % (alg, size, number), "paths are those of the published definition", fn)


def tuples(alg, size, number):
    """The leading elements for an arbitrary identifier, and the images of the characters."""
    def fn(p, ob):
        r = Result()
        w, outs, a = paths(p, HASHED, {"digestAlgorithm": alg, "tupleSize": size, "numberOfTuples": number}, any_id)
        for v, s in outs:
            r.count("paths")
            if isinstance(v, Raise):
                continue
            if s.taint:
                r.undecided.append(s.taint[0])
                continue
            els = elements(s, v)
            dig = digest_text(alg, s.norm(a), s)
            want = [list(parts_of(hash_slice(dig.parts[0], i * size, i * size + size))) for i in range(number)]
            if els[:-1] != want:
                r.add(HASHED, "the elements before the last are not %d groups of %d characters of the %s digest" % (number, size, alg))
            last = els[-1]
            if not last or isinstance(last[0], int) and last[-len(list(parts_of(dig))):] != list(parts_of(dig)):
                r.undecided.append("how the last element is made was not followed")
                continue
            if isinstance(last[0], tuple) and last[0][0] in chars.IMAGES:
                img = chars.IMAGES[last[0][0]]
                for c in ASC:
                    if img[ord(c)] != (c if c.isalnum() or c in "-_" else "%%%02x" % ord(c)):
                        r.add(HASHED, "encoding of %r is not that of the definition" % c)
            if len(last) > 1 and last[-2:] != ["-"] + list(parts_of(dig)):
                r.add(HASHED, "a long identifier does not end in - and the digest")
        return finish(r, w.I)
    return Ob("0003 elements, %s %d %d" % (alg, size, number), "paths are those of the published definition", fn)


def direct(p, ob):
    r = Result()
    w, outs, a = paths(p, DIRECT, None, any_id)
    for v, s in outs:
        r.count("paths")
        if not isinstance(v, Raise) and s.norm(v) != s.norm(a):
            if s.taint:
                r.undecided.append(s.taint[0])
            else:
                r.add(DIRECT, "the path is not the identifier")
    return finish(r, w.I)


def names(p, ob):
    r = Result()
    reg = registry(p)
    r.count("registered names", len(reg))
    if not reg:
        r.undecided.append("registry not found")
    for nm, cls in sorted(reg.items()):
        w = World(p)
        for o, s in w.func("ocfl.layout_registry.get_layout", K(nm)):
            got = None if isinstance(o, Raise) else s.heap[o.a].attrs.get("NAME")
            r.count("layouts")
            if not isinstance(got, K) or reg.get(got.v) != cls:
                r.add(nm, "the name %s it writes is not registered for it" % (got,))
    return r


def obligations(p):
    reg = registry(p)
    full = sorted({nm for nm in reg if nm in REFUSE} | set(REFUSE))
    obs = [Ob("names", "every layout is registered under the name it records", names)]
    for nm in full:
        obs.append(safe(nm))
    for size in (2, 3, 4, 5, 6):
        obs.append(safe("nnnn-tuple-tree-layout", {"tupleSize": size}))
    for alg, size, number in PARAMS:
        obs.append(safe(HASHED, {"digestAlgorithm": alg, "tupleSize": size, "numberOfTuples": number}))
        obs.append(defined(alg, size, number))
        obs.append(tuples(alg, size, number))
    obs.append(Ob("0002 as published", "paths are those of the published definition", direct))
    return obs
