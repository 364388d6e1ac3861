"""Abstract file storage: one tree of directories and files per state.

Local paths, LocalFileSystem and nested DirFileSystem objects all act on the same tree.
Names are strings of the abstract domain (constants or atoms); file contents are tuples of
chunks: text (string values), Q('json', data, format), and opaque Q('chunk', id),
Q('badjson'), Q('badutf8').
"""
import json

from . import dfa as D
from .values import (K, S, N, U, R, T, Q, X, C, NONE, TRUE, FALSE, HInst, HList, HDict, HNat, HFwd, Raise,
                     Abort, is_str, is_int, mkstr, parts_of)
from .lib import LIB

CWD = ("w",)
SPECIAL = ("", ".", "..")
HASHES = ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "sha3_256", "sha3_512", "blake2s")


# -- building and reading trees outside the interpreted code ------------------

class F:
    """A file of the given chunks."""

    def __init__(self, *chunks):
        self.chunks = chunks


class Dyn:
    """Part of a tree made when the state exists: fn(state) -> chunk or spec."""

    def __init__(self, fn):
        self.fn = fn


def mk(st, spec):
    """Node for a nested specification: dict is a directory, F a file, text or value a file of it."""
    if isinstance(spec, Dyn):
        spec = spec.fn(st)
    if isinstance(spec, R):
        return spec
    if isinstance(spec, dict):
        ents = []
        for k, v in spec.items():
            ents.append(("1", K(k) if isinstance(k, str) else k, mk(st, v)))
        return st.alloc(HNat("dir", {"d": st.alloc(HDict(ents))}))
    if spec == "other":
        return st.alloc(HNat("other", {}))
    if not isinstance(spec, F):
        spec = F(spec)
    cs = []
    for c in spec.chunks:
        if isinstance(c, Dyn):
            c = c.fn(st)
        cs.extend(c if isinstance(c, (list, tuple)) else [c])
    return st.alloc(HNat("file", {"c": norm_chunks(st, [K(c) if isinstance(c, str) else c for c in cs])}))


def chunk(name):
    return Q("chunk", K(name))


def setup(st, spec):
    """Install a tree (the root directory) in a state and remember it as the old one."""
    root = mk(st, spec)
    if "w" not in spec:
        d = st.heap[root.a].f["d"]
        st.heap[d.a] = HDict(st.heap[d.a].ents + (("1", K("w"), mk(st, {})),))
    st.mon["$fs"] = root
    st.mon["$fs0"] = copy_tree(st, root)


def copy_tree(st, n):
    o = st.heap[n.a]
    if o.kind != "dir":
        return st.alloc(HNat(o.kind, dict(o.f)))
    d = st.heap[o.f["d"].a]
    return st.alloc(HNat("dir", {"d": st.alloc(HDict([("1", e[1], copy_tree(st, e[2])) for e in d.ents if e[0] == "1"]))}))


def entries(st, n):
    """[(name, node)] of a directory node."""
    return [(e[1], e[2]) for e in st.heap[st.heap[n.a].f["d"].a].ents if e[0] == "1"]


def flat(st, n, pre=()):
    """[(path elements, kind, chunks or None)] of everything below a node."""
    out = []
    for name, c in entries(st, n):
        name = st.norm(name)
        o = st.heap[c.a]
        out.append((pre + (name,), o.kind, o.f.get("c")))
        if o.kind == "dir":
            out.extend(flat(st, c, pre + (name,)))
    return out


def at(st, n, *path):
    """Node below n by constant names, or None."""
    for p in path:
        if n is None or st.heap[n.a].kind != "dir":
            return None
        n = dict((st.norm(a), b) for a, b in entries(st, n)).get(K(p) if isinstance(p, str) else st.norm(p))
    return n


def show(elems):
    return "/".join(e.v if isinstance(e, K) else "<%s>" % ",".join(map(str, e.parts)) for e in elems)


# -- content ---------------------------------------------------------------------

def run(name, lo, hi):
    """Bytes lo..hi of the content with the given name (contents of different names agree nowhere)."""
    return Q("run", K(name), K(lo), K(hi))


def is_run(c):
    return isinstance(c, Q) and c.kind == "run"


def run_len(cs):
    """Length of content made of runs and constants, or None."""
    n = 0
    for c in cs:
        if is_run(c):
            n += c.args[2].v - c.args[1].v
        elif isinstance(c, K) and isinstance(c.v, str):
            n += len(c.v.encode("utf-8"))
        else:
            return None
    return n


def cut_runs(cs, n):
    """(first n bytes, rest) of content made of runs."""
    head, rest = [], list(cs)
    while rest and n > 0:
        c = rest.pop(0)
        nm, lo, hi = c.args[0].v, c.args[1].v, c.args[2].v
        k = min(n, hi - lo)
        head.append(run(nm, lo, lo + k))
        if lo + k < hi:
            rest.insert(0, run(nm, lo + k, hi))
        n -= k
    return tuple(head), tuple(rest)


def norm_chunks(st, cs):
    out = []
    for c in cs:
        c = st.norm(c)
        if c == K(""):
            continue
        if is_run(c):
            if c.args[1] == c.args[2]:
                continue
            if out and is_run(out[-1]) and out[-1].args[0] == c.args[0] and out[-1].args[2] == c.args[1]:
                out[-1] = run(c.args[0].v, out[-1].args[1].v, c.args[2].v)
                continue
        if out and is_str(c) and is_str(out[-1]):
            out[-1] = mkstr(parts_of(out[-1]) + parts_of(c))
            continue
        out.append(c)
    return T(out)


def bytes_value(st, cs):
    t = norm_chunks(st, cs)
    if not t.items:
        return K(b"")
    if len(t.items) == 1 and is_str(t.items[0]):
        v = t.items[0]
        return K(v.v.encode("utf-8")) if isinstance(v, K) else Q("bytes", v)
    return Q("b", t)


def bytes_chunks(v):
    """Chunks of a bytes value, or None."""
    if isinstance(v, K) and isinstance(v.v, bytes):
        try:
            return (K(v.v.decode("utf-8")),)
        except UnicodeDecodeError:
            return (Q("chunk", v),)
    if isinstance(v, Q) and v.kind == "bytes" and is_str(v.args[0]):
        return (v.args[0],)
    if isinstance(v, Q) and v.kind == "b":
        return v.args[0].items
    return None


def text_chunks(v):
    if is_str(v):
        return (v,)
    if isinstance(v, Q) and v.kind == "text":
        return v.args[0].items
    return None


def text_values(I, st, cs):
    """[(text value | Raise, st)] of decoding chunks."""
    t = norm_chunks(st, cs)
    if not t.items:
        return [(K(""), st)]
    if len(t.items) == 1 and is_str(t.items[0]):
        return [(t.items[0], st)]
    if any(isinstance(c, Q) and c.kind == "badutf8" for c in t.items):
        return [(I.exc(st, "UnicodeDecodeError"), st)]
    if any(isinstance(c, Q) and c.kind in ("chunk", "run") for c in t.items):
        s2 = st.fork()
        return [(I.exc(s2, "UnicodeDecodeError"), s2), (st.atom(D.concat(D.DOT, D.ALL)), st)]
    return [(Q("text", t), st)]


def from_json(st, x):
    if isinstance(x, dict):
        return st.alloc(HDict([("1", K(k), from_json(st, v)) for k, v in x.items()]))
    if isinstance(x, list):
        return st.alloc(HList([("1", from_json(st, v)) for v in x]))
    return K(x)


def json_parse(I, st, cs):
    t = norm_chunks(st, cs)
    docs = [c for c in t.items if isinstance(c, Q) and c.kind == "json"]
    rest = [c for c in t.items if not (isinstance(c, Q) and c.kind == "json")]
    if any(isinstance(c, Q) and c.kind == "badutf8" for c in rest):
        return [(I.exc(st, "UnicodeDecodeError"), st)]
    if len(docs) == 1 and all(isinstance(c, K) and isinstance(c.v, str) and not c.v.strip() for c in rest):
        return LIB["copy.deepcopy"](I, [docs[0].args[0]], {}, st)
    if not docs and all(isinstance(c, K) and isinstance(c.v, str) for c in rest):
        try:
            return [(from_json(st, json.loads("".join(c.v for c in rest))), st)]
        except ValueError:
            return [(I.exc(st, "json.JSONDecodeError"), st)]
    if any(isinstance(c, Q) and c.kind in ("chunk", "run") for c in rest):
        s2 = st.fork()
        return [(I.exc(st, "json.JSONDecodeError"), st), (I.exc(s2, "UnicodeDecodeError"), s2)]
    if not docs and all(is_str(c) for c in rest):
        st.add_taint("json text that is not a document of the model")
    return [(I.exc(st, "json.JSONDecodeError"), st)]


# -- paths -----------------------------------------------------------------------

def path_elems(I, v, st, prefix, root=None, fs=False):
    """[(T of path elements | Raise, st)] for a path string under a prefix."""
    v = I.deref(v, st)
    if I.is_hj(v, st):
        return I.each_kind(v, st, lambda w, s: path_elems(I, w, s, prefix, root, fs))
    if isinstance(v, X):
        I.gap(st, "file access with unknown path")
        return [(I.exc(st, "OSError"), st)]
    if not is_str(v):
        return [(I.exc(st, "TypeError", "path"), st)]
    v = st.norm(v)
    if not fs:
        L = st.lang_of(v)
        if isinstance(v, K) and v.v.startswith("/") or not isinstance(v, K) and isinstance(v.parts[0], str) and v.parts[0][0] == "/":
            prefix = ()
        else:
            if not isinstance(v, K) and not D.disjoint(L, D.prefix_lang("/")):
                st.add_taint("path that may be absolute")
            prefix = tuple(K(c) for c in CWD)
    res = []
    for segs, s in seg_lists(I, v, st):
        cur = [(tuple(prefix), s)]
        for x in segs:
            nxt = []
            for el, s2 in cur:
                for w, s3 in specials(I, x, s2):
                    if isinstance(el, Raise):
                        nxt.append((el, s3))
                    elif isinstance(w, K) and w.v in ("", "."):
                        nxt.append((el, s3))
                    elif isinstance(w, K) and w.v == "..":
                        if fs and len(el) <= len(prefix):
                            event(I, s3, "escape", el)
                            if root is not None and len(el) <= root:
                                nxt.append((I.exc(s3, "ValueError", "escapes"), s3))
                                continue
                        nxt.append((el[:-1], s3))
                    else:
                        nxt.append((el + (w,), s3))
            cur = nxt
        res.extend((el if isinstance(el, Raise) else T(el), s2) for el, s2 in cur)
    return res


def seg_lists(I, v, st):
    sg = I.split_val(v, "/", st)
    if sg is not None and all(x[0] == "1" for x in sg):
        return [([x[1] for x in sg], st)]
    outs = []
    for p in st.norm(v).parts:
        if not isinstance(p, str) and not D.disjoint(st.part_lang(p), D.contains("/")):
            if not isinstance(p, int):
                I.gap(st, "path made of text that may have separators")
                return []
            s2 = st.fork()
            if s2.refine_part(p, D.contains("/")):
                I.gap(s2, "path with an unknown number of elements")
                if "$deep" in s2.mon:
                    outs.append((None, s2))
            if not st.refine_part(p, D.compl(D.contains("/"))):
                return []
    return seg_lists(I, v, st)


def specials(I, x, st):
    x = st.norm(x)
    if isinstance(x, K):
        return [(x, st)]
    res = []
    for w in SPECIAL:
        if st.lang_of(x).accepts(w):
            nxt = None
            for t, s in I.branch_lang(x, D.const(w), st):
                if t:
                    res.append((K(w), s))
                else:
                    nxt = s
            if nxt is None:
                return res
            st = nxt
            x = st.norm(x)
    return res + [(x, st)]


def event(I, st, op, elems, extra=None):
    h = getattr(I, "on_fs", None)
    if h:
        h(I, st, op, elems, extra)


def broken(I, st, op, elems):
    """Whether the operation is to fail (storage fault injected by a check)."""
    h = getattr(I, "fault", None)
    return h is not None and h(I, st, op, elems)


def lookup(I, st, elems):
    """[(node | None, st)]"""
    cur = [(st.mon["$fs"], st)]
    for e in elems:
        nxt = []
        for n, s in cur:
            if n is None or s.heap[n.a].kind != "dir":
                nxt.append((None, s))
                continue
            for v, s2 in I.find(s.heap[n.a].f["d"].a, e, s):
                nxt.append((v, s2))
        cur = nxt
    return cur


def children(st, n):
    return entries(st, n)


def with_node(I, st, fs, path, f):
    """f(elems, node|None, st) for every way the path can be read."""
    res = []
    for el, s in fs_path(I, st, fs, path):
        if isinstance(el, Raise):
            res.append((el, s))
            continue
        for n, s2 in lookup(I, s, el.items):
            res.extend(f(el.items, n, s2))
    return res


def fs_path(I, st, fs, path):
    if fs is None:
        return path_elems(I, path, st, (), None, False)
    f = st.heap[fs.a].f
    if f["kind"] == K("local"):
        return path_elems(I, path, st, (), None, False)
    return path_elems(I, path, st, f["prefix"].items, f["root"].v, True)


def kind(st, n):
    return None if n is None else st.heap[n.a].kind


def parent(I, st, elems, f, create=False):
    """f(dict address, st) for the parent directory; FileNotFoundError if missing."""
    if not elems:
        return [(I.exc(st, "IsADirectoryError"), st)]
    res = []
    for n, s in lookup(I, st, elems[:-1]):
        if kind(s, n) != "dir":
            if create and (n is None):
                for r, s2 in make_dirs(I, s, elems[:-1], True):
                    res.extend([(r, s2)] if isinstance(r, Raise) else parent(I, s2, elems, f))
                continue
            res.append((I.exc(s, "FileNotFoundError" if n is None else "NotADirectoryError"), s))
        else:
            res.extend(f(s.heap[n.a].f["d"].a, s))
    return res


def make_dirs(I, st, elems, exist_ok):
    """mkdir -p."""
    cur = [(TRUE, st)]
    for i in range(1, len(elems) + 1):
        nxt = []
        for r, s in cur:
            if isinstance(r, Raise):
                nxt.append((r, s))
                continue
            last = i == len(elems)
            for n, s2 in lookup(I, s, elems[:i]):
                if n is None:
                    nxt.extend(make_dir(I, s2, elems[:i]))
                elif kind(s2, n) != "dir":
                    nxt.append((I.exc(s2, "FileExistsError" if last else "NotADirectoryError"), s2))
                elif last and not exist_ok:
                    nxt.append((I.exc(s2, "FileExistsError"), s2))
                else:
                    nxt.append((TRUE, s2))
        cur = nxt
    return [(r if isinstance(r, Raise) else NONE, s) for r, s in cur]


def make_dir(I, st, elems):
    def f(a, s):
        if broken(I, s, "mkdir", elems):
            return [(I.exc(s, "OSError", "storage fault"), s)]
        event(I, s, "mkdir", elems)
        node = s.alloc(HNat("dir", {"d": s.alloc(HDict([]))}))
        s.stack = s.stack + (node,)
        r = put(I, s, a, elems[-1], node)
        s.stack = s.stack[:-1]
        return [(NONE, s)] if r is None else r
    return parent(I, st, elems, f)


def put(I, st, a, name, node):
    """Add or replace a directory entry (the name is known to be present or absent by lookup)."""
    o = st.heap[a]
    nn = st.norm(name)
    ents = list(o.ents)
    for i, e in enumerate(ents):
        if st.norm(e[1]) == nn:
            ents[i] = ("1", e[1], node)
            break
    else:
        ents.append(("1", nn, node))
    I.wr(st, a, HDict(ents, frozenset(x for x in o.absent if st.norm(x) != nn)))
    return None


def drop(I, st, a, name):
    o = st.heap[a]
    nn = st.norm(name)
    I.wr(st, a, HDict([e for e in o.ents if st.norm(e[1]) != nn], frozenset()))


# -- operations ------------------------------------------------------------------

def open_file(I, st, elems, mode, mkparents=False):
    """[(handle | Raise, st)]"""
    wr = any(c in mode for c in "wax+")
    res = []
    for n, s in lookup(I, st, elems):
        k = kind(s, n)
        if k == "dir":
            res.append((I.exc(s, "IsADirectoryError"), s))
            continue
        if not wr:
            if n is None:
                res.append((I.exc(s, "FileNotFoundError"), s))
                continue
            if broken(I, s, "read", elems):
                res.append((I.exc(s, "OSError", "storage fault"), s))
                continue
            event(I, s, "read", elems)
            rest = s.heap[n.a].f.get("c", T([Q("chunk", K("special file"))]))
            res.append((s.alloc(HNat("fh", {"_n": n, "_m": K(mode), "_r": rest, "_p": T(elems), "_b": T(())})), s))
            continue
        if "+" in mode:
            I.gap(s, "file opened for update")
        if n is not None and "x" in mode:
            res.append((I.exc(s, "FileExistsError"), s))
            continue

        def f(a, s2, n=n):
            if broken(I, s2, "create", elems):
                return [(I.exc(s2, "OSError", "storage fault"), s2)]
            if n is None:
                event(I, s2, "create", elems)
                node = s2.alloc(HNat("file", {"c": T(())}))
                put(I, s2, a, elems[-1], node)
            else:
                node = n
                if "a" not in mode:
                    event(I, s2, "truncate", elems)
                    I.wr(s2, node.a, HNat("file", {"c": T(())}))
            return [(s2.alloc(HNat("fh", {"_n": node, "_m": K(mode), "_r": T(()), "_p": T(elems), "_b": T(())})), s2)]
        res.extend(parent(I, s, elems, f, mkparents))
    return res


def fh_close(I, h, st):
    """Closing a handle opened for writing completes the file."""
    o = st.heap[h.a]
    if any(c in o.f["_m"].v for c in "wax+") and not o.f.get("_closed"):
        event(I, st, "written", o.f["_p"].items, o.f["_n"])
        I.wr(st, h.a, HNat("fh", dict(o.f, _closed=TRUE)))


def fh_write(I, h, v, st):
    o = st.heap[h.a]
    m = o.f["_m"].v
    if not any(c in m for c in "wax+"):
        return [(I.exc(st, "ValueError", "not writable"), st)]
    v = I.deref(v, st)
    if I.is_hj(v, st):
        return I.each_kind(v, st, lambda w, s: fh_write(I, h, w, s))
    cs = bytes_chunks(v) if "b" in m else text_chunks(v)
    if cs is None:
        if isinstance(v, X) or isinstance(v, U) and v.kind == "bytes":
            I.gap(st, "unknown text written to a file")
            cs = (Q("chunk", K("?")),)
        else:
            return [(I.exc(st, "TypeError", "write"), st)]
    n = o.f["_n"]
    f = st.heap[n.a]
    if broken(I, st, "write", o.f["_p"].items):
        return [(I.exc(st, "OSError", "storage fault"), st)]
    event(I, st, "write", o.f["_p"].items)
    I.wr(st, n.a, HNat("file", {"c": norm_chunks(st, f.f["c"].items + tuple(cs))}))
    return [(N(1, None), st)]


def fh_read(I, h, n, st):
    """n None: all; otherwise the next chunk."""
    o = st.heap[h.a]
    if "r" not in o.f["_m"].v and "+" not in o.f["_m"].v:
        return [(I.exc(st, "ValueError", "not readable"), st)]
    rest = o.f["_r"].items
    if n is not None and rest and all(is_run(c) for c in rest):
        if not (isinstance(n, K) and isinstance(n.v, int)):
            I.gap(st, "number of bytes to read is not known")
            n = K(1)
        take, left = cut_runs(rest, n.v)
    else:
        take, left = (rest, ()) if n is None else (rest[:1], rest[1:])
    I.wr(st, h.a, HNat("fh", dict(o.f, _r=T(left))))
    if "b" in o.f["_m"].v:
        return [(bytes_value(st, take), st)]
    return text_values(I, st, take)


def fh_readline(I, h, st):
    from .lib import cut
    o = st.heap[h.a]
    rest = o.f["_r"].items
    res = []
    for v, s in text_values(I, st, rest):
        if isinstance(v, Raise):
            res.append((v, s))
            continue
        if isinstance(v, Q):
            # a document or other text of unknown layout: its first line is unknown text
            I.wr(s, h.a, HNat("fh", dict(o.f, _r=T(()))))
            res.append((s.atom(D.concat(D.DOT, D.ALL)), s))
            continue
        for first, rem, s2 in cut(I, v, "\n", s):
            if rem is None:
                I.wr(s2, h.a, HNat("fh", dict(o.f, _r=T(()))))
                line = first
            else:
                I.wr(s2, h.a, HNat("fh", dict(o.f, _r=norm_chunks(s2, [rem]))))
                line = mkstr(parts_of(s2.norm(first)) + ("\n",))
            if "b" in o.f["_m"].v:
                line = bytes_value(s2, [line])
            res.append((line, s2))
    return res


def num_arg(I, a, kw, st, name="size"):
    v = a[0] if a else kw.get(name)
    if v is None or v == NONE or isinstance(v, K) and isinstance(v.v, int) and v.v < 0:
        return None
    return v


def m_fh(I, r, name, a, kw, st):
    o = st.heap[r.a]
    if o.f.get("_closed") and name not in ("close",):
        return [(I.exc(st, "ValueError", "closed file"), st)]
    if name == "read":
        n = num_arg(I, a, kw, st)
        if isinstance(n, K) and n.v == 0:
            return [(K(b"" if "b" in o.f["_m"].v else ""), st)]
        return fh_read(I, r, n, st)
    if name == "readline":
        return fh_readline(I, r, st)
    if name == "readinto":
        b = I.deref(a[0], st)
        if not (isinstance(b, R) and isinstance(st.heap.get(b.a), HNat) and st.heap[b.a].kind == "buf"):
            return [(I.gap(st, "readinto of unknown buffer"), st)]
        res = []
        for v, s in fh_read(I, r, s_n(st, b), st):
            if isinstance(v, (Raise, Abort)):
                res.append((v, s))
                continue
            cs = bytes_chunks(v) or ()
            I.wr(s, b.a, HNat("buf", dict(s.heap[b.a].f, _c=T(cs))))
            n = run_len(cs)
            res.append((K(0) if not cs else K(n) if n is not None else N(1, s_n(s, b).v), s))
        return res
    if name == "writelines":
        res = []
        for k, x, s in I.iterate(a[0], st, lambda e, s1: [("E", v.v, s2) if isinstance(v, Raise) else ("A", v, s2) if isinstance(v, Abort) else ("N", None, s2)
                                                         for v, s2 in fh_write(I, r, e, s1)], None):
            res.append((NONE, s) if k == "N" else (Raise(x), s) if k == "E" else (x, s))
        return res
    if name == "write":
        return fh_write(I, r, a[0], st)
    if name == "close":
        fh_close(I, r, st)
        return [(NONE, st)]
    if name in ("flush", "fileno"):
        return [(NONE, st)]
    if name == "tell":
        whole, left = run_len(st.heap[o.f["_n"].a].f.get("c", T(())).items), run_len(o.f["_r"].items)
        if whole is None or left is None or not set("wax+").isdisjoint(o.f["_m"].v):
            return [(N(0, None), st)]
        return [(K(whole - left), st)]
    if name == "seek" and a and a[0] == K(0):
        I.wr(st, r.a, HNat("fh", dict(o.f, _r=st.heap[o.f["_n"].a].f.get("c", T(())))))
        return [(K(0), st)]
    if name in ("readlines", "splitlines"):
        outs = fh_read(I, r, None, st)
        res = []
        for v, s in outs:
            if isinstance(v, Raise):
                res.append((v, s))
            elif is_str(v):
                res.extend(I.wrap_v(I.getattr(v, "splitlines", s), lambda f, s2: I.call(f, [TRUE], {}, s2, None)))
            else:
                res.append((I.gap(s, "lines of a binary file"), s))
        return res
    if name in ("readable", "writable"):
        return [(K(("r" in o.f["_m"].v) == (name == "readable")), st)]
    if name == "__enter__":
        return [(r, st)]
    return [(I.gap(st, "file method " + name), st)]


def s_n(st, b):
    return st.heap[b.a].f["_n"]


def b_bytearray(I, a, kw, st):
    n = I.deref(a[0], st) if a else None
    if isinstance(n, K) and isinstance(n.v, int) and not isinstance(n.v, bool):
        return [(st.alloc(HNat("buf", {"_n": n, "_c": T(())})), st)]
    return [(I.gap(st, "bytearray"), st)]


def b_view(I, a, kw, st):
    return [(a[0], st)]


def buf_slice(I, v, lo, hi, st):
    """Part of a buffer: the bytes read into it before (at most the number read is asked for)."""
    o = st.heap[v.a]
    cs = o.f["_c"].items
    n = run_len(cs)
    if lo not in (NONE, K(0)):
        return [(I.gap(st, "slice of buffer"), st)]
    if n is None and isinstance(hi, N) or hi == NONE and n == o.f["_n"].v:
        return [(bytes_value(st, cs), st)]
    if n is not None and isinstance(hi, K) and isinstance(hi.v, int) and 0 <= hi.v <= n and all(is_run(c) for c in cs):
        return [(bytes_value(st, cut_runs(cs, hi.v)[0]), st)]
    return [(I.gap(st, "slice of buffer"), st)]


def copyfileobj(I, a, kw, st):
    def put_all(v, s):
        return I.wrap_v(fh_write(I, a[1], v, s), lambda _, s2: [(NONE, s2)])
    return I.wrap_v(fh_read(I, a[0], None, st), put_all)


def fh_exit(I, v, k, st):
    fh_close(I, v, st)
    return [(False, st)]


def fh_iter(I, v, st, body, live):
    res = []
    for w, s in m_fh(I, v, "readlines", [], {}, st):
        if isinstance(w, Raise):
            res.append(("E", w.v, s))
        else:
            res.extend(I.iterate(w, s, body, live))
    return res


def remove(I, st, elems, node, recursive):
    """Remove the entry; directories only if recursive (or empty for rmdir)."""
    def f(a, s):
        for p, k, _ in (flat(s, node, tuple(elems)) if kind(s, node) == "dir" else []):
            event(I, s, "rm", p)
        event(I, s, "rm", elems)
        drop(I, s, a, elems[-1])
        return [(NONE, s)]
    return parent(I, st, elems, f)


def rel_name(st, elems, prefix):
    out = []
    for i, e in enumerate(elems[len(prefix):]):
        if i:
            out.append("/")
        out.extend(parts_of(st.norm(e)))
    return mkstr(out)


def size_of(st, n):
    o = st.heap[n.a]
    if o.kind != "file":
        return K(4096)
    c = norm_chunks(st, o.f["c"].items)
    if not c.items:
        return K(0)
    if all(isinstance(x, K) and isinstance(x.v, str) for x in c.items):
        return K(sum(len(x.v.encode("utf-8")) for x in c.items))
    n = run_len(c.items)
    return Q("size", c) if n is None else K(n)


TYPES = {"dir": "directory", "file": "file", "other": "other"}


def info_dict(st, name, n):
    return st.alloc(HDict([("1", K("name"), name), ("1", K("size"), size_of(st, n)),
                           ("1", K("type"), K(TYPES[st.heap[n.a].kind])), ("1", K("islink"), FALSE)]))


def arg(a, kw, i, name, default=None):
    return a[i] if len(a) > i else kw.get(name, default)


def want(v, default):
    return default if v is None else not (isinstance(v, K) and not v.v)


def transfer(I, st, e1, n1, e2, move):
    """shutil.move / copy of a file node to the elements e2 (into it when a directory)."""
    res = []
    for n2, s in lookup(I, st, e2):
        dst = e2
        if kind(s, n2) == "dir":
            dst = tuple(e2) + (e1[-1],)
        for n3, s2 in lookup(I, s, dst):
            if kind(s2, n3) == "dir" or (n3 is not None and kind(s2, n1) == "dir"):
                res.append((I.exc(s2, "OSError"), s2))
                continue

            def f(a, s3, dst=dst, n3=n3):
                event(I, s3, "truncate" if n3 is not None else "create", dst)
                if move:
                    for p, k, _ in (flat(s3, n1, ()) if kind(s3, n1) == "dir" else []):
                        event(I, s3, "create" if k == "file" else "mkdir", tuple(dst) + p)
                        event(I, s3, "rm", tuple(e1) + p)
                    put(I, s3, a, dst[-1], n1)
                    event(I, s3, "rm", e1)
                    return parent(I, s3, e1, lambda a1, s4: (drop(I, s4, a1, e1[-1]), [(NONE, s4)])[1])
                put(I, s3, a, dst[-1], copy_tree(s3, n1))
                event(I, s3, "write", dst)
                event(I, s3, "written", dst)
                return [(NONE, s3)]
            res.extend(parent(I, s2, dst, f))
    return res


def m_fs(I, r, name, a, kw, st):
    """Methods of a file system object."""
    f = st.heap[r.a].f
    local = f["kind"] == K("local")
    if f["kind"] == K("other"):
        return [(I.gap(st, "file system of another kind"), st)]
    prefix = () if local else f["prefix"].items
    a = [I.deref(x, st) for x in a]
    path = arg(a, kw, 0, "path", kw.get("path1", K("")))

    def node(g):
        return with_node(I, st, r, path, g)

    def miss(s):
        return [(I.exc(s, "FileNotFoundError"), s)]
    if name in ("exists", "lexists", "isfile", "isdir"):
        ok = {"isfile": ("file",), "isdir": ("dir",)}.get(name, ("file", "dir", "other"))
        res = []
        for el, s in fs_path(I, st, r, path):
            if isinstance(el, Raise):
                res.append((FALSE, s) if I.deref(el.v, s) and exc_is(s, el, "ValueError") else (el, s))
                continue
            res.extend((K(kind(s2, n) in ok), s2) for n, s2 in lookup(I, s, el.items))
        return res
    if name in ("ls", "listdir"):
        det = want(arg(a, kw, 1, "detail"), not (local and name == "ls"))

        def g(el, n, s):
            if n is None:
                return miss(s)
            pairs = [(tuple(el) + (nm,), c) for nm, c in entries(s, n)] if kind(s, n) == "dir" else [(tuple(el), n)]
            event(I, s, "list", el)
            outs = []
            for p, c in pairs:
                nm = rel_name(s, p, prefix)
                if local:
                    nm = mkstr(("/",) + parts_of(nm))
                outs.append(("1", info_dict(s, nm, c) if det else nm))
            return [(s.alloc(HList(outs)), s)]
        return node(g)
    if name in ("info", "stat"):
        def g(el, n, s):
            if n is None:
                return miss(s)
            nm = rel_name(s, el, prefix)
            return [(info_dict(s, mkstr(("/",) + parts_of(nm)) if local else nm, n), s)]
        return node(g)
    if name in ("size", "getsize"):
        return node(lambda el, n, s: miss(s) if n is None else [(size_of(s, n), s)])
    if name == "open":
        mode = arg(a, kw, 1, "mode", K("rb"))
        if not isinstance(mode, K):
            return [(I.gap(st, "unknown file mode"), st)]
        return I.wrap_v(fs_path(I, st, r, path), lambda el, s: open_file(I, s, el.items, mode.v))
    if name in ("makedir", "mkdir"):
        cp = want(arg(a, kw, 1, "create_parents"), True)

        def g(el, n, s):
            if n is not None:
                return [(I.exc(s, "FileExistsError"), s)]
            return make_dirs(I, s, el, True) if cp else make_dir(I, s, el)
        return node(g)
    if name in ("makedirs", "mkdirs"):
        ok = want(arg(a, kw, 1, "exist_ok"), False)
        return I.wrap_v(fs_path(I, st, r, path), lambda el, s: make_dirs(I, s, el.items, ok))
    if name in ("rm", "rm_file", "delete", "rmdir", "_rm"):
        rec = want(arg(a, kw, 1, "recursive"), False)

        def g(el, n, s):
            if n is None:
                return miss(s)
            if kind(s, n) == "dir":
                if name == "rmdir" and entries(s, n):
                    return [(I.exc(s, "OSError"), s)]
                if name in ("rm_file",) or name != "rmdir" and not rec:
                    return [(I.exc(s, "ValueError"), s)]
            return remove(I, s, el, n, rec)
        return node(g)
    if name in ("mv", "move", "rename", "mv_file", "copy", "cp", "cp_file"):
        p2 = arg(a, kw, 1, "path2")

        def g(el, n, s):
            if n is None:
                return miss(s)
            if name in ("copy", "cp", "cp_file") and kind(s, n) == "dir":
                I.gap(s, "directory copy by the file system")
            return I.wrap_v(fs_path(I, s, r, p2), lambda e2, s2: transfer(I, s2, el, n, e2.items, name in ("mv", "move", "rename", "mv_file")))
        return node(g)
    if name == "touch":
        trunc = want(kw.get("truncate"), True)

        def g(el, n, s):
            if n is not None and not trunc:
                return [(NONE, s)]
            return I.wrap_v(open_file(I, s, el, "wb"), lambda h, s2: (fh_close(I, h, s2), [(NONE, s2)])[1])
        return node(g)
    if name in ("read_text", "read_bytes", "cat", "cat_file"):
        m = "r" if name == "read_text" else "rb"
        return I.wrap_v(fs_path(I, st, r, path),
                        lambda el, s: I.wrap_v(open_file(I, s, el.items, m), lambda h, s2: fh_read(I, h, None, s2)))
    if name in ("write_text", "write_bytes", "pipe", "pipe_file"):
        v = a[1] if len(a) > 1 else kw.get("value", kw.get("text"))
        m = "w" if name == "write_text" else "wb"

        def go(h, s):
            res = []
            for w, s2 in fh_write(I, h, v, s):
                if not isinstance(w, Raise):
                    fh_close(I, h, s2)
                res.append((w, s2))
            return res
        return I.wrap_v(fs_path(I, st, r, path), lambda el, s: I.wrap_v(open_file(I, s, el.items, m), go))
    if name == "find":
        def g(el, n, s):
            if n is None:
                return [(s.alloc(HList([])), s)]
            return [(s.alloc(HList([("1", rel_name(s, p, prefix)) for p, k, _ in flat(s, n, tuple(el)) if k == "file"])), s)]
        return node(g)
    if name == "walk":
        def g(el, n, s):
            out = []
            if kind(s, n) == "dir":
                for p, k, _ in [(tuple(el), "dir", None)] + flat(s, n, tuple(el)):
                    if k != "dir":
                        continue
                    d = at(s, s.mon["$fs"], *p)
                    out.append(("1", T([rel_name(s, p, prefix)] + [
                        s.alloc(HList([("1", nm) for nm, c in entries(s, d) if (kind(s, c) == "dir") == w])) for w in (True, False)])))
            return [(s.alloc(HList(out)), s)]
        return node(g)
    if name in ("to_json", "to_dict", "__str__"):
        return [(st.atom(D.concat(D.DOT, D.ALL)), st)]
    if name in ("invalidate_cache", "close", "start_transaction", "end_transaction"):
        return [(NONE, st)]
    return [(I.gap(st, "file system method " + name), st)]


def exc_is(st, r, name):
    o = st.heap.get(r.v.a) if isinstance(r.v, R) else None
    return isinstance(o, HInst) and o.cls.name == name


# -- library entry points --------------------------------------------------------

def new_fs(st, prefix, root):
    return st.alloc(HNat("fs", {"kind": K("dir"), "prefix": T(prefix), "root": K(root)}))


def dir_fs(I, a, kw, st):
    path = arg(a, kw, 0, "path", kw.get("fo", NONE))
    fs = arg(a, kw, 1, "fs", NONE)
    fs = I.deref(fs, st)
    if not (isinstance(fs, R) and isinstance(st.heap[fs.a], HNat) and st.heap[fs.a].kind == "fs"):
        if fs == NONE:
            return [(I.exc(st, "ValueError", "no filesystem"), st)]
        return [(I.gap(st, "DirFileSystem on an unknown file system"), st)]
    f = st.heap[fs.a].f
    if f["kind"] == K("other"):
        return [(st.alloc(HNat("fs", {"kind": K("other")})), st)]
    res = []
    for el, s in fs_path(I, st, fs, path):
        if isinstance(el, Raise):
            res.append((el, s))
        elif f["kind"] == K("local"):
            res.append((new_fs(s, el.items, len(el.items)), s))
        else:
            res.append((new_fs(s, el.items, f["root"].v), s))
    return res


def local_fs(I, a, kw, st):
    return [(st.alloc(HNat("fs", {"kind": K("local")})), st)]


def other_fs(I, a, kw, st):
    return [(st.alloc(HNat("fs", {"kind": K("other")})), st)]


def fsspec_fs(I, a, kw, st):
    p = arg(a, kw, 0, "protocol", NONE)
    return local_fs(I, a, kw, st) if p in (K("file"), K("local")) else other_fs(I, a, kw, st)


def os_is(*kinds):
    def f(I, a, kw, st):
        return with_node(I, st, None, a[0], lambda el, n, s: [(K(kind(s, n) in kinds), s)])
    return f


def b_open(I, a, kw, st):
    mode = arg(a, kw, 1, "mode", K("r"))
    if not isinstance(mode, K):
        return [(I.gap(st, "unknown file mode"), st)]

    def go(el, s):
        repo = tuple(K(x) for x in I.p.repo.strip("/").split("/"))
        if el.items[:len(repo)] == repo and all(isinstance(x, K) for x in el.items) and not set(mode.v) & set("wax+"):
            # a data file of the project itself
            try:
                with open("/" + "/".join(x.v for x in el.items), encoding="utf-8") as fh:
                    cs = T([K(fh.read())])
            except OSError:
                return [(I.exc(s, "FileNotFoundError"), s)]
            return [(s.alloc(HNat("fh", {"_n": NONE, "_m": mode, "_r": cs, "_p": el, "_b": T(())})), s)]
        return open_file(I, s, el.items, mode.v)
    return I.wrap_v(fs_path(I, st, None, a[0] if a else kw.get("file")), go)


def os_makedirs(I, a, kw, st):
    ok = want(arg(a, kw, 2, "exist_ok"), False)
    return I.wrap_v(fs_path(I, st, None, arg(a, kw, 0, "name")), lambda el, s: make_dirs(I, s, el.items, ok))


def os_mkdir(I, a, kw, st):
    return with_node(I, st, None, a[0], lambda el, n, s: [(I.exc(s, "FileExistsError"), s)] if n is not None else make_dir(I, s, el))


def os_rm(what):
    def f(I, a, kw, st):
        def g(el, n, s):
            if n is None:
                return [(I.exc(s, "FileNotFoundError"), s)]
            if what == "file" and kind(s, n) == "dir" or what == "empty" and (kind(s, n) != "dir" or entries(s, n)):
                return [(I.exc(s, "OSError"), s)]
            return remove(I, s, el, n, True)
        return with_node(I, st, None, a[0], g)
    return f


def os_move(move):
    def f(I, a, kw, st):
        def g(el, n, s):
            if n is None:
                return [(I.exc(s, "FileNotFoundError"), s)]
            return I.wrap_v(fs_path(I, s, None, a[1]), lambda e2, s2: transfer(I, s2, el, n, e2.items, move))
        return with_node(I, st, None, a[0], g)
    return f


def os_listdir(I, a, kw, st):
    def g(el, n, s):
        if n is None:
            return [(I.exc(s, "FileNotFoundError"), s)]
        if kind(s, n) != "dir":
            return [(I.exc(s, "NotADirectoryError"), s)]
        event(I, s, "list", el)
        return [(s.alloc(HList([("1", nm) for nm, _ in entries(s, n)])), s)]
    return with_node(I, st, None, a[0] if a else K("."), g)


def os_walk(I, a, kw, st):
    def g(el, n, s):
        out = []
        if kind(s, n) == "dir":
            for p, k, _ in [(tuple(el), "dir", None)] + flat(s, n, tuple(el)):
                if k == "dir":
                    d = at(s, s.mon["$fs"], *p)
                    rel = rel_name(s, p, el)
                    pre = a[0] if rel == K("") else mkstr(parts_of(a[0]) + ("/",) + parts_of(rel))
                    out.append(("1", T([pre] + [
                        s.alloc(HList([("1", nm) for nm, c in entries(s, d) if (kind(s, c) == "dir") == w])) for w in (True, False)])))
        return [(s.alloc(HList(out)), s)]
    return with_node(I, st, None, a[0], g)


def os_copytree(I, a, kw, st):
    def g(el, n, s):
        if n is None:
            return [(I.exc(s, "FileNotFoundError"), s)]

        def h(e2, n2, s2):
            if n2 is not None:
                if want(kw.get("dirs_exist_ok"), False):
                    I.gap(s2, "copytree into an existing directory")
                return [(I.exc(s2, "FileExistsError"), s2)]

            def done(_, s3):
                def f(ad, s4):
                    put(I, s4, ad, e2[-1], copy_tree(s4, n))
                    for p, k, _c in flat(s4, n, tuple(e2)):
                        event(I, s4, "mkdir" if k == "dir" else "create", p)
                        if k == "file":
                            event(I, s4, "written", p)
                    return [(a[1], s4)]
                return parent(I, s3, e2, f)
            return I.wrap_v(make_dirs(I, s2, e2, True), done)
        return with_node(I, s, None, a[1], h)
    return with_node(I, st, None, a[0], g)


def os_getsize(I, a, kw, st):
    return with_node(I, st, None, a[0], lambda el, n, s: [(I.exc(s, "FileNotFoundError"), s)] if n is None else [(size_of(s, n), s)])


def os_abspath(I, a, kw, st):
    res = []
    for el, s in path_elems(I, a[0], st, ()):
        res.append((el, s) if isinstance(el, Raise) else (mkstr(("/",) + parts_of(rel_name(s, el.items, ()))), s))
    return res


def mkdtemp(I, a, kw, st):
    i = len([1 for nm, _ in entries(st, st.mon["$fs"]) if isinstance(nm, K) and nm.v.startswith("tmp-")])
    name = "tmp-%d" % i
    return [(K("/" + name) if not isinstance(r, Raise) else r, s) for r, s in make_dir(I, st, (K(name),))]


def hasher(alg):
    def f(I, a, kw, st):
        name = alg
        args = list(a)
        if alg is None:
            v = args.pop(0) if args else kw.get("name")
            v = st.norm(v) if is_str(v) else v
            if not isinstance(v, K):
                return [(I.gap(st, "hash of unknown name"), st)]
            name = v.v
            if name not in HASHES and name.lower() not in HASHES:
                return [(I.exc(st, "ValueError", "unsupported hash"), st)]
            name = name.lower()
        size = kw.get("digest_size")
        if name == "blake2b":
            n = size.v if isinstance(size, K) else 64
            name = "blake2b-%d" % (8 * n)
        o = {"_alg": K(name), "_d": T(())}
        data = args[0] if args else kw.get("string", kw.get("data"))
        if data is not None:
            cs = bytes_chunks(I.deref(data, st))
            if cs is None:
                return [(I.exc(st, "TypeError", "hash of text"), st)]
            o["_d"] = norm_chunks(st, cs)
        return [(st.alloc(HNat("hash", o)), st)]
    return f


def m_hash(I, r, name, a, kw, st):
    o = st.heap[r.a]
    if name == "update":
        v = I.deref(a[0], st)
        cs = bytes_chunks(v)
        if cs is None:
            if isinstance(v, X):
                I.gap(st, "hash of unknown data")
                cs = (Q("chunk", K("?")),)
            else:
                return [(I.exc(st, "TypeError", "hash of text"), st)]
        I.wr(st, r.a, HNat("hash", dict(o.f, _d=norm_chunks(st, o.f["_d"].items + tuple(cs)))))
        return [(NONE, st)]
    if name == "hexdigest":
        return [(digest(o.f["_alg"].v, o.f["_d"]), st)]
    if name == "copy":
        return [(st.alloc(o), st)]
    return [(I.gap(st, "hash method " + name), st)]


def digest(alg, chunks):
    """The digest of content, as a string value."""
    t = chunks if isinstance(chunks, T) else T(chunks)
    return S((("h:" + alg, t),))


def file_digest_lib(I, a, kw, st):
    """hashlib.file_digest(fh, name or constructor)."""
    alg = I.deref(arg(a, kw, 1, "digest"), st)
    outs = hasher(None)(I, [alg], {}, st) if is_str(alg) else I.call(alg, [], {}, st, None)

    def go(h, s):
        def upd(b, s2):
            return I.wrap_v(m_hash(I, h, "update", [b], {}, s2), lambda _, s3: [(h, s3)])
        return I.wrap_v(fh_read(I, a[0], None, s), upd)
    return I.wrap_v(outs, go)


def j_dumps(I, a, kw, st):
    fmt = K(",".join("%s=%s" % (k, v.v if isinstance(v, K) else "?") for k, v in sorted(kw.items())))
    return [(Q("text", T([Q("json", c, fmt)])), s) for c, s in LIB["copy.deepcopy"](I, [a[0]], {}, st)]


def j_dump(I, a, kw, st):
    kw = dict(kw)
    fh = a[1] if len(a) > 1 else kw.pop("fp")
    return I.wrap_v(j_dumps(I, a[:1], kw, st), lambda v, s: I.wrap_v(fh_write(I, fh, v, s), lambda _, s2: [(NONE, s2)]))


def j_loads(I, a, kw, st):
    def one(v, s):
        if isinstance(v, X):
            return [(X("json"), s)]
        cs = text_chunks(v)
        cs = bytes_chunks(v) if cs is None else cs
        if cs is None:
            return [(I.exc(s, "TypeError"), s)]
        return json_parse(I, s, cs)
    return one(a[0], st)


def j_load(I, a, kw, st):
    fh = a[0]
    o = st.heap[fh.a] if isinstance(fh, R) else None
    if not (isinstance(o, HNat) and o.kind == "fh"):
        return [(I.exc(st, "AttributeError", "read"), st)]
    rest = o.f["_r"].items
    I.wr(st, fh.a, HNat("fh", dict(o.f, _r=T(()))))
    return json_parse(I, st, rest)


def q_json_eq(I, a, b, st):
    if b.kind != a.kind:
        return [(False, st)]
    if a == b:
        return [(True, st)]
    if a.args[1] != b.args[1]:
        return [(False, st)]
    return I.eq(a.args[0], b.args[0], st)


def q_chunks_eq(I, a, b, st):
    """Equality of bytes or text made of chunks (also with plain text)."""
    if a == b:
        return [(True, st)]
    ca = bytes_chunks(a) if a.kind in ("b", "bytes") else text_chunks(a)
    cb = bytes_chunks(b) if b.kind in ("b", "bytes") else text_chunks(b)
    if ca is None or cb is None:
        return [(False, st)]
    return I.eq(norm_chunks(st, ca), norm_chunks(st, cb), st)


def q_chunks_eqk(I, a, b, st):
    """Equality with a constant or string."""
    isb = a.kind in ("b", "bytes")
    ca = bytes_chunks(a) if isb else text_chunks(a)
    cb = bytes_chunks(b) if isb else text_chunks(b)
    if ca is None or cb is None:
        return [(False, st)]
    return I.eq(norm_chunks(st, ca), norm_chunks(st, cb), st)


def q_size_eqk(I, a, b, st):
    if is_int(b) and not (isinstance(b, K) and b.v <= 0):
        s2 = st.fork()
        return [(True, st), (False, s2)]
    return [(False, st)]


def q_token_eq(I, a, b, st):
    return [(a == b, st)]


def q_size_eq(I, a, b, st):
    res = []
    for t, s in I.eq(a.args[0], b.args[0], st) if isinstance(b, Q) and b.kind == "size" else [(False, st)]:
        if t is True:
            res.append((True, s))
        else:
            s2 = s.fork()
            res += [(True, s), (False, s2)]
    return res


def q_add(I, op, a, b, st):
    if isinstance(a, Q) and isinstance(b, X) or isinstance(a, X):
        return [(I.gap(st, "text with unknown part"), st)]
    for f, g in ((bytes_chunks, lambda c: bytes_value(st, c)), (text_chunks, lambda c: Q("text", norm_chunks(st, c)))):
        ca, cb = f(a), f(b)
        if ca is not None and cb is not None and type(op).__name__ == "Add":
            return [(g(tuple(ca) + tuple(cb)), st)]
    return [(I.exc(st, "TypeError"), st)]


def iter2(I, q, st, body, live):
    """for x in iter(f, sentinel), unrolled while files are finite."""
    f, end = q.args
    outs = []
    heads = [st]
    for _ in range(max(getattr(I, "unroll", 0) or 12, I.UNROLL)):
        nxt = []
        for h in heads:
            for v, s in I.call(f, [], {}, h, None):
                if isinstance(v, Raise):
                    outs.append(("E", v.v, s))
                    continue
                if isinstance(v, Abort):
                    outs.append(("A", v, s))
                    continue
                for t, s2 in I.eq(v, end, s):
                    if t is True:
                        outs.append(("N", None, s2))
                        continue
                    for k, x, s3 in body(v, s2):
                        if k in ("N", "C"):
                            nxt.append(s3)
                        else:
                            outs.append((k, x, s3))
        heads = nxt
        if not heads:
            break
    for h in heads:
        h.add_taint("loop over reads did not end")
        outs.append(("N", None, h))
    return outs


def is_fs(v, x, st):
    from .values import Lib
    if isinstance(x, Lib) and x.name.split(".")[-1] in ("AbstractFileSystem", "DirFileSystem", "LocalFileSystem"):
        return isinstance(v, R) and isinstance(st.heap.get(v.a), HNat) and st.heap[v.a].kind == "fs"
    return None


def install(p):
    """Use this model in a project."""
    def text_enc(I, q, a, kw, st):
        return [(bytes_value(st, q.args[0].items), st)]

    def b_dec(I, q, a, kw, st):
        return text_values(I, st, q.args[0].items)

    def same(I, q, a, kw, st):
        return [(q, st)]
    yes = lambda I, v, st: [(True, st)]
    some = lambda I, v, st: [(N(1, None), st)]
    for k in ("b", "text"):
        p.q_eq[k] = q_chunks_eq
        p.q_truth[k] = yes
        p.q_len[k] = some
        p.q_binop[k] = q_add
    p.q_eqk["b"] = p.q_eqk["bytes"] = p.q_eqk["text"] = q_chunks_eqk
    p.q_eqk["size"] = q_size_eqk
    p.q_eq["bytes"] = q_chunks_eq
    p.q_len["bytes"] = some
    p.q_binop["bytes"] = q_add
    p.q_eq["json"] = q_json_eq
    p.q_eq["size"] = q_size_eq
    def b_len(I, v, st):
        n = run_len(v.args[0].items)
        return [(N(1, None) if n is None else K(n), st)]

    def b_slice(I, v, lo, hi, st):
        cs = v.args[0].items
        if not all(is_run(c) for c in cs) or not all(x == NONE or isinstance(x, K) and isinstance(x.v, int) for x in (lo, hi)):
            return [(I.gap(st, "slice of bytes"), st)]
        a, b, _ = slice(lo.v if lo != NONE else None, hi.v if hi != NONE else None).indices(run_len(cs))
        return [(bytes_value(st, cut_runs(cut_runs(cs, a)[1], max(0, b - a))[0]), st)]
    p.q_len["b"] = b_len
    p.q_slice["b"] = b_slice
    for k in ("chunk", "badjson", "badutf8", "run"):
        p.q_eq[k] = q_token_eq
    p.q_method[("text", "encode")] = text_enc
    p.q_method[("text", "strip")] = same
    p.q_method[("text", "rstrip")] = same
    p.q_method[("b", "decode")] = b_dec
    p.q_iter["iter2"] = iter2
    p.nat_method[("fs", "*")] = m_fs
    p.nat_method[("fh", "*")] = m_fh
    p.nat_method[("hash", "*")] = m_hash
    p.nat_exit["fh"] = fh_exit
    p.nat_iter["fh"] = fh_iter
    p.nat_eq["fs"] = lambda I, a, b, st: [(a == b, st)]
    p.isinst = is_fs
    L = p.lib
    L["fsspec.implementations.dirfs.DirFileSystem"] = dir_fs
    L["fsspec.implementations.local.LocalFileSystem"] = local_fs
    L["fsspec.implementations.zip.ZipFileSystem"] = other_fs
    L["s3fs.S3FileSystem"] = other_fs
    L["fsspec.filesystem"] = fsspec_fs
    L["os.path.isdir"] = os_is("dir")
    L["os.path.isfile"] = os_is("file")
    L["os.path.exists"] = L["os.path.lexists"] = os_is("file", "dir", "other")
    L["os.path.getsize"] = os_getsize
    L["os.path.abspath"] = L["os.path.realpath"] = os_abspath
    L["os.getcwd"] = lambda I, a, kw, st: [(K("/" + "/".join(CWD)), st)]
    L["os.path.expanduser"] = L["os.path.normcase"] = lambda I, a, kw, st: [(a[0], st)]
    L["os.makedirs"] = os_makedirs
    L["os.mkdir"] = os_mkdir
    L["os.remove"] = L["os.unlink"] = os_rm("file")
    L["os.rmdir"] = os_rm("empty")
    L["shutil.copyfileobj"] = copyfileobj
    L["bytearray"] = L["type:bytearray"] = b_bytearray
    L["memoryview"] = L["type:memoryview"] = b_view
    p.nat_slice["buf"] = buf_slice
    p.nat_len["buf"] = lambda I, v, st: [(s_n(st, v), st)]
    L["shutil.rmtree"] = os_rm("tree")
    L["os.rename"] = L["os.replace"] = L["shutil.move"] = os_move(True)
    L["shutil.copyfile"] = L["shutil.copy"] = L["shutil.copy2"] = os_move(False)
    L["shutil.copytree"] = os_copytree
    L["os.listdir"] = os_listdir
    L["os.walk"] = os_walk
    L["open"] = L["io.open"] = b_open
    L["tempfile.mkdtemp"] = mkdtemp
    for h in HASHES:
        L["hashlib." + h] = hasher(h)
    L["hashlib.new"] = hasher(None)
    L["hashlib.file_digest"] = file_digest_lib
    L["json.dumps"], L["json.dump"], L["json.loads"], L["json.load"] = j_dumps, j_dump, j_loads, j_load
    return p
