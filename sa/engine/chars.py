"""Loops over the characters of symbolic strings, strings grown in loops, and single bytes."""
from . import dfa as D
from .values import K, S, N, R, T, Q, X, HFrame, HList, Raise, Abort, is_str, is_int, mkstr
from .canon import Canon, Tm, gc
from .lib import LIB, char_map
from .fsmodel import bytes_chunks

IMAGES = {}     # name of a character map -> {symbol: constant or language}
HEX2 = D.repeat(D.charset(D.mask_of("0123456789abcdef")), 2, 2)


def _var(st, name, v):
    f = st.heap[st.frame]
    vs = dict(f.vars)
    vs[name] = v
    st.heap[st.frame] = HFrame(vs, f.up, f.fn)


def _vars(st):
    return st.heap[st.frame].vars


def char_loop(I, v, st, body, live):
    """The loop appends to one string an image of each character: that string as a character map of v, else None."""
    if live is None:
        return None
    n = st.norm(v)
    frame = st.frame

    def run(c, s):
        """[state] after one iteration, or None if it does not just go on."""
        out = []
        for k, _, s2 in body(c(s), s):
            if k not in ("N", "C") or s2.taint != st.taint:
                return None
            s2.frame = frame
            I.kill_dead(s2, live, frame)
            out.append(s2)
        return out

    base = st.fork()
    I.kill_dead(base, live, frame)
    gc(base, I.base)
    got = run(lambda s: K("a"), st.fork())
    if not got or len(got) != 1:
        return None
    old = _vars(base)
    new = _vars(got[0])
    if set(old) != set(new):
        return None
    diff = [k for k in old if old[k] != new[k] and not (is_str(old[k]) and is_str(new[k]) and base.norm(old[k]) == got[0].norm(new[k]))]
    if len(diff) != 1 or not is_str(old[diff[0]]):
        return None
    name = diff[0]
    key = Canon(base, I.base).key

    def image(c):
        s = st.fork()
        m = s.atom(D.ALL)
        _var(s, name, m)
        outs = run(c, s)
        if outs is None:
            return None
        L = D.EMPTY
        for s2 in outs:
            x = _vars(s2).get(name)
            p = s2.norm(x).parts if isinstance(x, S) else ()
            if not p or p[0] != m.parts[0] or m.parts[0] in s2.sub or s2.lang[m.parts[0]] is not D.ALL:
                return None
            rest = mkstr(p[1:]) if len(p) > 1 else K("")
            L = D.union(L, s2.lang_of(rest))
            _var(s2, name, old[name])
            gc(s2, I.base)
            if Canon(s2, I.base).key != key:
                return None
        return L

    img = {}
    for x in range(D.NSYM):
        if x < 128:
            L = image(lambda s, x=x: K(chr(x)))
            w = L.single() if L is not None else None
            if w is None:
                return None
            img[x] = w
        else:
            L = image(lambda s, x=x: s.atom(D.charset(1 << x)))
            if L is None:
                return None
            img[x] = L
    more = {}
    for p in (n.parts if isinstance(n, S) else ()):
        for ch in (p if isinstance(p, str) else ""):
            if ord(ch) > 127 and ch not in more:
                L = image(lambda s, ch=ch: K(ch))
                more[ch] = L.single() if L is not None else None
                if more[ch] is None:
                    return None
    ident = tuple(sorted(img.items(), key=lambda z: z[0]))
    nm = "chars:%d" % (abs(hash(tuple((a, b if isinstance(b, str) else id(b)) for a, b in ident))) % 10 ** 9)
    IMAGES[nm] = img

    def as_lang(s):
        t = img[s]
        if not isinstance(t, str):
            return t
        return 1 << ord(t) if len(t) == 1 and ord(t) < 128 else D.const(t)
    f = char_map(nm, lambda t: "".join(img[ord(c)] if ord(c) < 128 else more[c] for c in t), as_lang)
    res = base.fork()
    _var(res, name, I.cat([old[name], f(res, n)]))
    return res


# -- strings that grow in loops --------------------------------------------------------------

def grown(heads, s, c, I):
    """A loop head state whose string variables extend those of another head: with them as languages."""
    key, strs = c.blurred_strings()
    if not strs:
        return None
    same = [h for h in heads.values() if h[1].blurred_strings()[0] == key]
    if len(same) < 12:
        return None
    best = None
    for h in same:
        hs = h[1].blurred_strings()[1]
        ext = {}
        for (loc, a), (_, b) in zip(hs, strs):
            pa, pb = parts(h[0], a), parts(s, b)
            if pa == pb:
                continue
            if len(pb) >= len(pa) and (pb[:len(pa)] == pa or pa and isinstance(pa[-1], str) and pb[:len(pa) - 1] == pa[:-1]
                                       and isinstance(pb[len(pa) - 1], str) and pb[len(pa) - 1].startswith(pa[-1])):
                ext[loc] = (a, pa, pb)
            else:
                break
        else:
            if ext and (best is None or len(ext) < len(best[1])):
                best = (h, ext)
    if best is None:
        return None
    h, ext = best
    for loc, (a, pa, pb) in ext.items():
        if pb[:len(pa)] == pa:
            rest = pb[len(pa):]
        else:
            rest = (pb[len(pa) - 1][len(pa[-1]):],) + pb[len(pa):]
        X_ = s.lang_of(mkstr(rest)) if rest else D.EPS
        acc = I.grow.get(pa[0]) if len(pa) == 1 and isinstance(pa[0], int) else None
        L0, X0 = acc if acc else (h[0].lang_of(a) if is_str(a) else D.ALL, D.EMPTY)
        X1 = D.union(X0, X_)
        if X1.n > 80:
            L0, X1 = D.ALL, D.EPS
        v = s.atom(D.concat(L0, D.star(X1)))
        if isinstance(v, S):
            I.grow[v.parts[0]] = (L0, X1)
        from .interp import _store
        _store(s, loc, v)
    return s, Canon(s, I.base)


def parts(st, v):
    n = st.norm(v)
    if isinstance(n, K):
        return (n.v,) if n.v else ()
    return tuple(n.parts)


# -- bytes ------------------------------------------------------------------------------------

def _bytes_list(I, v, st):
    """List object of the integers of a bytes value, or None."""
    if isinstance(v, K) and isinstance(v.v, bytes):
        return st.alloc(HList([("1", K(b)) for b in v.v]))
    if isinstance(v, Q) and v.kind == "bytes" and is_str(v.args[0]):
        n = st.norm(v.args[0])
        if isinstance(n, K):
            return st.alloc(HList([("1", K(b)) for b in n.v.encode("utf-8", "surrogatepass")]))
        syms = st.lang_of(n).symbols() or 0
        lo, hi = 0, 255
        if syms and not syms & ((1 << 128) - 1):
            lo = 128
        elif not syms >> 128:
            hi = 127
        b = N(lo, hi)
        least = (st.lang_of(n).lengths()[0] or 0) * (2 if lo else 1)
        return st.alloc(HList([("1", b)] * min(least, 1) + [("*", Tm(b, frozenset()))]))
    return None


def iter_bytes(I, v, st, body, live):
    it = _bytes_list(I, v, st)
    if it is None:
        I.gap(st, "iteration over bytes")
        it = st.alloc(HList([("*", Tm(N(0, 255), frozenset()))]))
    return I.iter_segs(it, st, body, live, None)


def _new_bytes(old):
    def f(I, a, kw, st):
        if len(a) == 1 and not kw:
            v = I.deref(a[0], st)
            xs = list(v.items) if isinstance(v, T) else None
            if isinstance(v, R) and isinstance(st.heap[v.a], HList) and all(g[0] == "1" for g in st.heap[v.a].segs):
                xs = [g[1] for g in st.heap[v.a].segs]
            if xs is not None and all(is_int(x) for x in xs):
                if all(isinstance(x, K) for x in xs):
                    try:
                        return [(K(bytes([x.v for x in xs])), st)]
                    except ValueError:
                        return [(I.exc(st, "ValueError", "bytes must be in range(0, 256)"), st)]
                return [(Q("raw", T(xs)), st)]
        return old(I, a, kw, st)
    return f


def hex_of(I, st, v):
    """Hexadecimal text of a bytes value."""
    if isinstance(v, K) and isinstance(v.v, bytes):
        return K(v.v.hex())
    if isinstance(v, Q) and v.kind == "raw":
        return I.cat([hex_int(st, x) for x in v.args[0].items])
    if isinstance(v, Q) and v.kind == "bytes" and is_str(v.args[0]):
        n = st.norm(v.args[0])
        if isinstance(n, K):
            return K(n.v.encode("utf-8").hex())
    return st.atom(D.star(HEX2))


def hex_int(st, x):
    if isinstance(x, K):
        return K("%02x" % x.v)
    first = "89abcdef" if isinstance(x, N) and x.lo is not None and x.lo >= 128 else "01234567" if isinstance(x, N) and x.hi is not None and x.hi < 128 else "0123456789abcdef"
    return st.atom(D.concat(D.charset(D.mask_of(first)), D.charset(D.mask_of("0123456789abcdef"))))


def codecs_encode(I, a, kw, st):
    enc = a[1] if len(a) > 1 else kw.get("encoding", K("utf-8"))
    v = I.deref(a[0], st)
    if isinstance(enc, K) and enc.v in ("hex", "hex_codec"):
        return [(Q("bytes", hex_of(I, st, v)), st)]
    if isinstance(enc, K) and is_str(v) and str(enc.v).replace("-", "").lower() == "utf8":
        return [(Q("bytes", st.norm(v)), st)]
    return [(I.gap(st, "codecs.encode"), st)]


def m_hex(I, q, a, kw, st):
    return [(hex_of(I, st, q), st)]


def install(p):
    p.q_iter["bytes"] = iter_bytes
    p.q_method[("raw", "hex")] = m_hex
    p.q_method[("bytes", "hex")] = m_hex
    p.lib["codecs.encode"] = codecs_encode
    p.lib["binascii.hexlify"] = lambda I, a, kw, st: [(Q("bytes", hex_of(I, st, I.deref(a[0], st))), st)]
    if not getattr(p, "chars_installed", False):
        p.lib["type:bytes"] = _new_bytes(p.lib["type:bytes"] if "type:bytes" in p.lib else LIB["type:bytes"])
        p.chars_installed = True
