"""Models of builtins, methods of builtin types and parts of the standard library."""
import ast
import re as _re
import posixpath

from . import dfa as D
from . import rx as RX
from .values import (K, S, N, U, R, T, Fn, Bm, Nm, C, Lib, Q, X, NONE, TRUE, FALSE,
                     HInst, HList, HSet, HDict, HJ, HFwd, HNat, Raise, Abort, Derived, DERIVED,
                     mkstr, is_str, is_int)
from .canon import Tm, copy_value
from .ops import _parts, new_set, NAT, INTLANG, DIGITS, JSET

LIB = {}
STR = {}
LISTM = {}
DICTM = {}
SETM = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


def reg(table, *names):
    def deco(f):
        for n in names:
            table[n] = f
        return f
    return deco


def derived(name, lang, py, v):
    """String value of a known function without further structure."""
    if name not in DERIVED:
        DERIVED[name] = Derived(lambda st, x: lang(st.lang_of(x)), lambda st, x: (py(x.v),) if isinstance(x, K) else None)
    return mkstr(((name, v),))


_IMAGES = {}


def char_map(name, py, img):
    """A string function given per character: name, on constants, image of each symbol (a mask or a language)."""
    if name not in DERIVED:
        cache = {}

        def im(s):
            if s not in cache:
                cache[s] = img(s)
            return cache[s]
        known = {}      # language of arguments -> language of results, where it was found by refining

        def image(L, x):
            r = known.get(L) if L.n > 60 else known.get((L, x))
            return D.map_syms(L, im) if r is None else r

        def refined(st, x, L):
            old = st.lang_of(x)
            r = st.refine(x, D.unmap_syms(L, im))
            new = st.lang_of(x)
            key = new if new.n > 60 else (new, x)
            if new is not old and new is not D.EMPTY and key not in known:
                known[key] = D.inter(image(old, x), L)
            return r
        DERIVED[name] = Derived(lambda st, x: image(st.lang_of(x), x), lambda st, x: (py(x.v),) if isinstance(x, K) else None, refined)

    def f(st, v):
        n = st.norm(v)
        if isinstance(n, K):
            return K(py(n.v))
        return st.norm(mkstr([py(q) if isinstance(q, str) else (name, S((q,))) for q in n.parts]))
    return f


def _hexes(lead, fmt):
    """Escaped UTF-8 sequences of non-ASCII characters."""
    U8 = [D.charset(D.mask_of(x)) for x in ("CDEF" if fmt.isupper() else "cdef", "89AB" if fmt.isupper() else "89ab",
                                            "0123456789ABCDEF" if fmt.isupper() else "0123456789abcdef")]
    one = D.concat_all([D.const(lead), U8[1], U8[2]])
    return D.concat_all([D.const(lead), U8[0], U8[2], D.repeat(one, 1, 3)])


def quoting(kind, safe):
    from urllib.parse import quote, quote_plus
    py = (lambda x: quote(x, safe=safe)) if kind == "quote" else (lambda x: quote_plus(x, safe=safe))
    non = _hexes("%", "X")

    def img(s):
        if s >= 128:
            return non
        t = py(chr(s))
        return 1 << ord(t) if len(t) == 1 else D.const(t)
    return char_map("inj:%s:%s" % (kind, safe), py, img)


def _quote(kind, default):
    def f(I, a, kw, st):
        v = I.deref(a[0] if a else kw.get("string"), st)
        safe = a[1] if len(a) > 1 else kw.get("safe", K(default))
        if not is_str(v):
            if I.is_hj(v, st):
                return I.each_kind(v, st, lambda w, s: f(I, [w] + list(a[1:]), kw, s))
            return [(I.exc(st, "TypeError", "quote"), st)]
        if not (isinstance(safe, K) and isinstance(safe.v, str)) or len(a) > 2 or set(kw) - {"safe", "string"}:
            return [(I.gap(st, "quoting with options"), st)]
        return [(quoting(kind, safe.v)(st, v), st)]
    return f


LIB["urllib.parse.quote"] = _quote("quote", "/")
LIB["urllib.parse.quote_plus"] = _quote("quote_plus", "")


def _unquote(kind):
    def f(I, a, kw, st):
        import urllib.parse
        v = I.deref(a[0], st)
        if is_str(v) and len(a) == 1 and not kw:
            n = st.norm(v)
            if isinstance(n, K):
                return [(K(getattr(urllib.parse, "un" + kind)(n.v)), st)]
            if all(isinstance(q, tuple) and q[0].startswith("inj:%s:" % kind) for q in n.parts):
                return [(st.norm(mkstr([z for q in n.parts for z in _parts(q[1])])), st)]
        return [(I.gap(st, "unquoting"), st)]
    return f


LIB["urllib.parse.unquote"] = _unquote("quote")
LIB["urllib.parse.unquote_plus"] = _unquote("quote_plus")


def _pairtree_encode(x):
    """As pairtree.id_encode (CDL pairtree identifier cleaning)."""
    out = ""
    for b in x.encode("utf-8"):
        c = chr(b)
        out += "^%02x" % b if c in '"*+,<=>?\\^|' or not "!" <= c <= "~" else {"/": "=", ":": "+", ".": ","}.get(c, c)
    return out


def _pairtree(I, a, kw, st):
    v = I.deref(a[0], st)
    if not is_str(v):
        return [(I.exc(st, "TypeError", "id_encode"), st)]
    non = _hexes("^", "x")

    def img(s):
        if s >= 128:
            return non
        t = _pairtree_encode(chr(s))
        return 1 << ord(t) if len(t) == 1 else D.const(t)
    return [(char_map("inj:pairtree", _pairtree_encode, img)(st, v), st)]


LIB["pairtree.id_encode"] = _pairtree


class Lib_:
    """Mixin: calls of natives and library functions."""

    def call_native(self, nm, args, kw, st):
        recv = self.deref(nm.recv, st)
        name = nm.name
        if is_str(recv):
            f = STR.get(name)
            if f is None:
                self.gap(st, "str." + name)
                return [(st.atom(D.ALL), st)]
            return self.res_args(args, st, lambda a, s: f(self, recv, a, kw, s))
        if isinstance(recv, R):
            o = st.heap[recv.a]
            table = LISTM if isinstance(o, HList) else DICTM if isinstance(o, HDict) else SETM if isinstance(o, HSet) else None
            if table is not None:
                f = table.get(name)
                if f is None:
                    return [(self.gap(st, "method " + name), st)]
                return f(self, recv, args, kw, st)
            if isinstance(o, HNat):
                f = self.p.nat_method.get((o.kind, name)) or self.p.nat_method.get((o.kind, "*"))
                if f is None:
                    return [(self.gap(st, "method %s of %s" % (name, o.kind)), st)]
                return f(self, recv, args, kw, st) if (o.kind, name) in self.p.nat_method else f(self, recv, name, args, kw, st)
        if isinstance(recv, Q):
            f = self.p.q_method.get((recv.kind, name)) or QM.get((recv.kind, name))
            if f is not None:
                return f(self, recv, args, kw, st)
            if recv.kind == "bytes" and isinstance(recv.args[0], K) and isinstance(recv.args[0].v, str) and all(isinstance(x, K) for x in args) and not kw:
                try:
                    r = getattr(recv.args[0].v.encode("utf-8"), name)(*[x.v for x in args])
                    if isinstance(r, bytes):
                        return [(Q("bytes", K(r.decode("utf-8"))), st)]
                    if isinstance(r, (int, bool, str)):
                        return [(K(r), st)]
                except Exception:
                    pass
            return [(self.gap(st, "method %s of %s" % (name, recv.kind)), st)]
        if isinstance(recv, T):
            if name == "index":
                cur = [st]
                res = []
                for i, x in enumerate(recv.items):
                    nxt = []
                    for s in cur:
                        for t, s2 in self.eq(x, args[0], s):
                            (nxt if t is False else res).append(s2 if t is False else (K(i), s2))
                    cur = nxt
                return res + [(self.exc(s, "ValueError", "not in tuple"), s) for s in cur]
            return [(N(0), st)]
        if isinstance(recv, K) and isinstance(recv.v, bytes) or isinstance(recv, U) and recv.kind == "bytes":
            if name == "decode":
                return self.decode(recv, st)
            if isinstance(recv, K) and all(isinstance(a, K) for a in args):
                try:
                    r = getattr(recv.v, name)(*[a.v for a in args])
                    if isinstance(r, (bytes, int, bool, str)):
                        return [(K(r), st)]
                except Exception:
                    return [(self.exc(st, "ValueError"), st)]
            return [(self.gap(st, "bytes." + name), st)]
        if isinstance(recv, X):
            return [(self.gap(st, "method %s of unknown value" % name), st)]
        return [(self.gap(st, "method %s" % name), st)]

    def decode(self, recv, st):
        if isinstance(recv, K):
            try:
                return [(K(recv.v.decode("utf-8")), st)]
            except UnicodeDecodeError:
                return [(self.exc(st, "UnicodeDecodeError"), st)]
        s2 = st.fork()
        return [(st.atom(D.ALL), st), (self.exc(s2, "UnicodeDecodeError"), s2)]

    def res_args(self, args, st, f):
        """Resolve unknown JSON arguments before calling f(args, st)."""
        outs = [([], st)]
        for a in args:
            nxt = []
            for acc, s in outs:
                a2 = self.deref(a, s)
                if self.is_hj(a2, s):
                    nxt.extend((acc + [w], s2) for w, s2 in self.resolve(a2, s))
                else:
                    nxt.append((acc + [a2], s))
            outs = nxt
        res = []
        for acc, s in outs:
            res.extend(f([self.deref(x, s) for x in acc], s))
        return res

    def call_lib(self, name, args, kw, st, node):
        args = [self.deref(a, st) for a in args]
        h = self.p.lib.get(name) or LIB.get(name)
        if h is None:
            return [(self.gap(st, "library call " + name, node), st)]
        return h(self, args, kw, st)

    # -- containers from iterables ------------------------------------------
    def to_segs(self, v, st):
        """[(segs | Raise, st)] for the elements of any iterable."""
        v = self.deref(v, st)
        if self.is_hj(v, st):
            return self.each_kind(v, st, lambda w, s: self.to_segs(w, s))
        sg = self.segs_of(v, st)
        if sg is not None:
            return [(tuple(sg), st)]
        acc = st.alloc(HList([]))
        st.stack = st.stack + (acc,)

        def body(e, s):
            o = s.heap[acc.a]
            self.wr(s, acc.a, HList(o.segs + (("1", e),)))
            return [("N", None, s)]
        res = []
        for k, x, s in self.iterate(v, st, body, None):
            s.stack = s.stack[:-1]
            if k == "N":
                res.append((s.heap[acc.a].segs, s))
            elif k == "E":
                res.append((Raise(x), s))
            else:
                res.append((x, s))
        return res

    # -- regular expressions ----------------------------------------------------
    def rx_leaves(self, s, sub, seq):
        """The string cut along the leaf languages: one string value per leaf, or None if impossible."""
        parts = (sub.v,) if isinstance(sub, K) else sub.parts
        n = len(seq)
        out = [None] * n
        done, rest, base = 0, parts, 0
        # known cuts: every boundary whose position in the rope is determined
        segs = []
        if len(parts) > 1 or (parts and isinstance(parts[0], str)):
            start = 0
            for j in range(1, n):
                got = unique_cut(s, rest, D.concat_all(seq[start:j]), D.concat_all(seq[j:]))
                if got is not None:
                    segs.append((start, j, got[0]))
                    rest, start = got[1], j
            segs.append((start, n, rest))
        else:
            segs.append((0, n, parts))
        for a, b, ps in segs:
            rope = mkstr(ps)
            if b == a + 1:
                if not s.refine(rope, seq[a]):
                    return None
                out[a] = s.norm(rope)
                continue
            L = seq[a:b]
            if not s.refine(rope, D.concat_all(L)):
                return None
            rope = s.norm(rope)
            W = s.lang_of(rope)
            for j, Lf in enumerate(L):
                m = D.middle(W, D.concat_all(L[:j]), Lf, D.concat_all(L[j + 1:]))
                if m is D.EMPTY:
                    return None
                out[a + j] = s.atom(m)
            if isinstance(rope, S) and len(rope.parts) == 1 and isinstance(rope.parts[0], int) and rope.parts[0] not in s.sub:
                s.sub[rope.parts[0]] = _parts(mkstr(sum((_parts(x) for x in out[a:b]), ())))
        return out

    def rx(self, pat, flags, mode, subj, st):
        """Match outcome: [(match value | None, st)]."""
        pat = st.norm(pat) if is_str(pat) else pat
        if isinstance(pat, Q) and pat.kind == "re":
            flags = pat.args[1]
            pat = pat.args[0]
        if isinstance(pat, X) or not isinstance(pat, K):
            if is_str(pat):
                ws = st.lang_of(pat).words(16)
                if ws is not None:
                    res = []
                    for w in ws:
                        s = st.fork()
                        if s.refine(pat, D.const(w)):
                            res.extend(self.rx(K(w), flags, mode, subj, s))
                    return res
            self.gap(st, "regular expression not constant")
            s2 = st.fork()
            return [(st.alloc(HNat("match", {"groups": T(())})), st), (NONE, s2)]
        if not is_str(subj):
            if isinstance(subj, X):
                self.gap(st, "match on unknown value")
                s2 = st.fork()
                return [(st.alloc(HNat("match", {"groups": X("group")})), st), (NONE, s2)]
            return [(self.exc(st, "TypeError", "expected string"), st)]
        fl = flags.v if isinstance(flags, K) else 0
        sub = st.norm(subj)
        if isinstance(sub, K):
            m = {"match": _re.match, "search": _re.search, "full": _re.fullmatch}[mode](pat.v, sub.v, fl)
            if m is None:
                return [(NONE, st)]
            gs = (m.group(0),) + m.groups()
            return [(st.alloc(HNat("match", {"groups": T([K(g) for g in gs]), "string": subj, "names": tuple(m.re.groupindex.items())})), st)]
        try:
            r = RX.compile(pat.v, fl)
        except RX.Unsupported as e:
            self.gap(st, "regular expression: %s" % e)
            s2 = st.fork()
            return [(st.alloc(HNat("match", {"groups": X("group")})), st), (NONE, s2)]
        L = r.lang(mode)
        names = tuple(_re.compile(pat.v, fl).groupindex.items())
        res = []
        s2 = st.fork()
        if s2.refine(subj, D.compl(L)):
            res.append((NONE, s2))
        if r.ngroups == 0:
            if st.refine(subj, L):
                res.append((st.alloc(HNat("match", {"groups": None, "string": subj})), st))
            return res
        for i, alt in enumerate(r.alts):
            s = st.fork()
            head, leaves, tail = r.alt_parts(alt, mode)
            seq = [head] + list(leaves) + [tail]
            if not s.refine(subj, D.concat_all(seq)):
                continue
            atoms = self.rx_leaves(s, s.norm(subj), seq)
            if atoms is None:
                continue
            groups = [subj if head is D.EPS and tail is D.EPS else mkstr(sum((_parts(a) for a in atoms[1:-1]), ()))]
            for g in range(1, r.ngroups + 1):
                sp = alt.groups.get(g)
                if sp is None:
                    groups.append(NONE)
                elif sp[0] == "loose":
                    groups.append(s.atom(sp[1]))
                else:
                    groups.append(mkstr(sum((_parts(a) for a in atoms[1 + sp[0]:1 + sp[1]]), ())))
            res.append((s.alloc(HNat("match", {"groups": T(groups), "string": subj, "names": names})), s))
        return res


def unique_cut(st, parts, H, T):
    """Position where every word of H.T described by the parts is cut: (prefix parts, suffix parts) or None."""
    pls = [st.part_lang(p) for p in parts]
    W = D.concat_all(pls)
    hs = D.inter(H, D.right_quot(W, T))
    ts = D.inter(T, D.left_quot(W, H))
    if hs is D.EMPTY or ts is D.EMPTY:
        return None
    h1, t1 = hs.single(), ts.single()
    if h1 is not None:
        got = literal_cut(parts, h1)
        if got is not None:
            return got
    if t1 is not None:
        got = literal_cut(tuple(p[::-1] if isinstance(p, str) else p for p in reversed(parts)), t1[::-1])
        if got is not None:
            rev = lambda q: tuple(p[::-1] if isinstance(p, str) else p for p in reversed(q))
            return rev(got[1]), rev(got[0])
    for i, p in enumerate(parts):
        places = range(len(p) + 1) if isinstance(p, str) else (0, None)
        for k in places:
            if isinstance(p, str):
                if k == len(p) and i + 1 < len(parts):
                    continue
                a, b = parts[:i] + ((p[:k],) if k else ()), ((p[k:],) if k < len(p) else ()) + parts[i + 1:]
            else:
                a, b = (parts[:i], parts[i:]) if k == 0 else (parts[:i + 1], parts[i + 1:])
            P, Q_ = D.concat_all([st.part_lang(x) for x in a]), D.concat_all([st.part_lang(x) for x in b])
            if not (D.subset(hs, P) and D.subset(ts, Q_)):
                continue
            u1, u2 = D.left_quot(P, P), D.right_quot(Q_, Q_)
            if D.inter(u1, u2) is D.EPS:
                return a, b
    return None


def literal_cut(parts, word):
    """Split parts after a known prefix when it lies in leading literals."""
    a, i = [], 0
    while word:
        if i >= len(parts) or not isinstance(parts[i], str):
            return None
        p = parts[i]
        if len(p) <= len(word):
            if not word.startswith(p):
                return None
            a.append(p)
            word = word[len(p):]
            i += 1
        else:
            if not p.startswith(word):
                return None
            return tuple(a) + (word,), (p[len(word):],) + tuple(parts[i + 1:])
    return tuple(a), tuple(parts[i:])


# -- str methods --------------------------------------------------------------

def need_str(I, a, st):
    if is_str(a) or isinstance(a, X):
        return None
    return [(I.exc(st, "TypeError", "str expected"), st)]


@reg(STR, "split", "rsplit")
def s_split(I, v, a, kw, st):
    sep = a[0] if a else kw.get("sep", NONE)
    mx = a[1] if len(a) > 1 else kw.get("maxsplit", K(-1))
    right = False
    if sep == NONE:
        n = st.norm(v)
        if isinstance(n, K):
            return [(st.alloc(HList([("1", K(x)) for x in n.v.split()])), st)]
        e = st.atom(D.concat(D.DOT, D.ALL))
        return [(st.alloc(HList([("*", Tm(e, frozenset(e.parts)))])), st)]
    sep = st.norm(sep) if is_str(sep) else sep
    if not is_str(sep):
        return [(I.exc(st, "TypeError", "sep"), st)]
    if not isinstance(sep, K):
        e = st.atom(D.ALL)
        return [(st.alloc(HList([("*", Tm(e, frozenset(e.parts)))])), st)]
    if sep.v == "":
        return [(I.exc(st, "ValueError", "empty separator"), st)]
    if isinstance(mx, K) and mx.v >= 0:
        outs = [([], v, st)]
        for _ in range(mx.v):
            nxt = []
            for acc, rest, s in outs:
                if rest is None:
                    nxt.append((acc, None, s))
                    continue
                for f, r, s2 in cut(I, rest, sep.v, s):
                    nxt.append((acc + [f], r, s2))
            outs = nxt
        return [(s.alloc(HList([("1", x) for x in acc + ([rest] if rest is not None else [])])), s) for acc, rest, s in outs]
    return [(s.alloc(HList(sg)), s) for sg, s in I.split(v, sep.v, st)]


def cut(I, v, sep, st):
    """Split at the first separator: [(first, rest | None, st)]."""
    n = st.norm(v)
    parts = n.parts if isinstance(n, S) else (n.v,)
    cur = []
    work = [((), list(parts), st)]
    res = []
    while work:
        pre, ps, s = work.pop()
        if not ps:
            res.append((mkstr(pre), None, s))
            continue
        p = ps[0]
        if isinstance(p, str):
            i = p.find(sep)
            if i >= 0:
                res.append((mkstr(pre + (p[:i],)), mkstr([p[i + len(sep):]] + ps[1:]), s))
            else:
                work.append((pre + (p,), ps[1:], s))
            continue
        a = S((p,))
        if D.disjoint(s.lang_of(a), D.contains(sep)):
            work.append((pre + (p,), ps[1:], s))
            continue
        s2 = s.fork()
        if s.refine(a, D.without(sep)):
            work.append((pre + (p,), ps[1:], s))
        if s2.refine(a, D.contains(sep)):
            if isinstance(p, int):
                f, r = I.cut_first(s2, a, sep)
            else:
                L = s2.lang_of(a)
                ns = D.without(sep)
                f = s2.atom(D.middle(L, D.EPS, ns, D.concat(D.const(sep), D.ALL)))
                r = s2.atom(D.middle(L, D.concat(ns, D.const(sep)), D.ALL, D.EPS))
            res.append((mkstr(pre + _parts(f)), mkstr(list(_parts(r)) + ps[1:]), s2))
    return res


@reg(STR, "partition")
def s_partition(I, v, a, kw, st):
    sep = st.norm(a[0])
    if not isinstance(sep, K):
        return [(I.gap(st, "partition"), st)]
    return [(T((f, K("") if r is None else sep, K("") if r is None else r)), s) for f, r, s in cut(I, v, sep.v, st)]


@reg(STR, "rpartition")
def s_rpartition(I, v, a, kw, st):
    sep = st.norm(a[0])
    n = st.norm(v)
    if isinstance(n, K) and isinstance(sep, K):
        return [(T([K(x) for x in n.v.rpartition(sep.v)]), st)]
    if not isinstance(sep, K):
        return [(I.gap(st, "rpartition"), st)]
    res = []
    for b, s in I.branch_lang(v, D.contains(sep.v), st):
        if not b:
            res.append((T((K(""), K(""), v)), s))
        else:
            r, l = I.cut_last(s, v, sep.v)
            res.append((T((r, sep, l)), s))
    return res


def rope_of(I, sep, segs, st):
    """Elements with some of unknown number joined: known ones stay as they are; None without a known one."""
    known = [i for i, g in enumerate(segs) if g[0] == "1"]
    if not known:
        return None
    sepL = st.lang_of(sep)

    def el(g):
        e = I.deref(g[1].v if g[0] == "*" else g[1], st)
        return st.lang_of(e) if is_str(e) else D.ALL
    out = []
    for i, g in enumerate(segs):
        if g[0] == "1":
            if out and out[-1] != "sep":
                out.append(sep)
            e = I.deref(g[1], st)
            if not is_str(e):
                return None
            out = [x for x in out if x != "sep"] + [e]
        elif g[0] == "*":
            L = el(g)
            if L.n > 60:
                L = D.ALL
            if i < known[0]:
                out = [x for x in out if x != "sep"] + [st.atom(D.star(D.concat(L, sepL))), "sep"]
            else:
                out.append(st.atom(D.star(D.concat(sepL, L))))
        else:
            return None
    return I.cat([x for x in out if x != "sep"])


@reg(STR, "join")
def s_join(I, v, a, kw, st):
    res = []
    for sg, s in I.to_segs(a[0], st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
            continue
        outs = [([], s)]
        if any(g[0] == "*" for g in sg):
            # unknown number of elements; non-strings in it would raise
            if isinstance(v, K) and len(v.v) == 1:
                pass
            ok = [(None, s)]
            for g in sg:
                nxt = []
                for r, s1 in ok:
                    if r is not None:
                        nxt.append((r, s1))
                        continue
                    e = g[1] if g[0] == "1" else copy_value(s1, g[1].v, g[1].ids) if g[0] == "*" else K("")
                    e = I.deref(e, s1)
                    if is_str(e) or isinstance(e, X):
                        nxt.append((None, s1))
                    elif I.is_hj(e, s1):
                        s2 = s1.fork()
                        nxt.append((None, s1))
                        nxt.append((I.exc(s2, "TypeError", "join"), s2))
                    else:
                        s2 = s1.fork()
                        if g[0] == "*":
                            nxt.append((None, s1))
                        nxt.append((I.exc(s2, "TypeError", "join"), s2))
                ok = nxt
            joined = rope_of(I, v, sg, s)
            if joined is not None:
                for r, s1 in ok:
                    res.append((rope_of(I, v, sg, s1) if r is None else r, s1))
                continue
            # language: elements separated by v
            sepL = s.lang_of(v)
            eL = D.EMPTY
            for g in sg:
                e = g[1] if g[0] == "1" else g[1].v if g[0] == "*" else S((g[1],))
                e = I.deref(e, s)
                eL = D.union(eL, s.lang_of(e) if is_str(e) else D.ALL)
            L = D.union(D.EPS, D.concat(eL, D.star(D.concat(sepL, eL)))) if eL.n < 60 else D.ALL
            for r, s1 in ok:
                res.append((s1.atom(L) if r is None else r, s1))
            continue
        first = True
        bad = None
        for g in sg:
            nxt = []
            for acc, s1 in outs:
                if not isinstance(acc, list):
                    nxt.append((acc, s1))
                    continue
                pre = acc if first else acc + [v]
                if g[0] == "/":
                    if g[2] == (v.v if isinstance(v, K) else None):
                        nxt.append((pre + [S((g[1],))], s1))
                    else:
                        nxt.append((pre + [s1.atom(D.ALL)], s1))
                    continue
                for e, s2 in I.each_kind(g[1], s1, lambda w, s3: [(w, s3)]):
                    e = I.deref(e, s2)
                    if is_str(e):
                        nxt.append((pre + [e], s2))
                    elif isinstance(e, X):
                        nxt.append((pre + [s2.atom(D.ALL)], s2))
                    else:
                        nxt.append((I.exc(s2, "TypeError", "join"), s2))
            outs = nxt
            first = False
        for acc, s1 in outs:
            res.append((I.cat(acc) if isinstance(acc, list) else acc, s1))
    return res


def _affix(lang, attr):
    def f(I, v, a, kw, st):
        x = a[0]
        if isinstance(x, T):
            cur = [st]
            res = []
            for y in x.items:
                nxt = []
                for s in cur:
                    for b, s2 in f(I, v, [y], kw, s):
                        if b == TRUE:
                            res.append((b, s2))
                        elif b == FALSE:
                            nxt.append(s2)
                        else:
                            res.append((b, s2))
                cur = nxt
            return res + [(FALSE, s) for s in cur]
        bad = need_str(I, x, st)
        if bad:
            return bad
        if isinstance(x, X):
            return [(K(b), s) for b, s in I.truth(x, st)]
        nx = st.norm(x)
        if isinstance(nx, K):
            return [(K(b), s) for b, s in I.branch_lang(v, lang(nx.v), st)]
        nv = st.norm(v)
        if isinstance(nv, K):
            w = nv.v
            return [(K(b), s) for b, s in I.branch_lang(nx, D.words([w[:i] if attr == "startswith" else w[i:] for i in range(len(w) + 1)]), st)]
        # syntactic comparison of ropes
        p = list(nv.parts if isinstance(nv, S) else (nv.v,))
        q = list(nx.parts)
        end = 0 if attr == "startswith" else -1
        from .ops import _strip
        if not _strip(p, q, end):
            return [(FALSE, st)]
        if not q:
            return [(TRUE, st)]
        rest = mkstr(p)
        lx = st.lang_of(mkstr(q))
        full = D.concat(lx, D.ALL) if end == 0 else D.concat(D.ALL, lx)
        lr = D.const(rest.v) if isinstance(rest, K) else st.lang_of(rest)
        if D.disjoint(lr, full):
            return [(FALSE, st)]
        s2 = st.fork()
        res = [(FALSE, s2)]
        if len(p) == 1 and isinstance(p[0], int) and p[0] not in q and p[0] not in st.sub:
            W = st.lang[p[0]]
            t = st.atom(D.middle(W, lx, D.ALL, D.EPS) if end == 0 else D.middle(W, D.EPS, D.ALL, lx))
            rope = tuple(q) + _parts(t) if end == 0 else _parts(t) + tuple(q)
            if I.subst(st, p[0], rope):
                res.append((TRUE, st))
        else:
            res.append((TRUE, st))
        return res
    return f


STR["startswith"] = _affix(D.prefix_lang, "startswith")
STR["endswith"] = _affix(D.suffix_lang, "endswith")


def _casefn(name, py):
    def f(I, v, a, kw, st):
        n = st.norm(v)
        if isinstance(n, K):
            return [(K(py(n.v)), st)]
        out = []
        for p in n.parts:
            out.append(py(p) if isinstance(p, str) else (name, S((p,))))
        return [(st.norm(mkstr(out)), st)]
    return f


STR["lower"] = STR["casefold"] = _casefn("lower", str.lower)
STR["upper"] = _casefn("upper", str.upper)


def _stripper(which):
    def f(I, v, a, kw, st):
        if a and a[0] != NONE:
            c = st.norm(a[0])
            if not isinstance(c, K):
                return [(st.atom(D.ALL), st)]
            mask = D.mask_of(c.v) if c.v else 0
            chars = c.v
        else:
            mask = D.mask_of(" \t\n\r\f\v\x1c\x1d\x1e\x1f") | (1 << D.S_SPACE)
            chars = None
        n = st.norm(v)
        if isinstance(n, K):
            return [(K(getattr(n.v, which)(chars)), st)]
        outs = [(list(n.parts), st)]
        if which in ("strip", "lstrip"):
            outs = strip_end(I, outs, mask, chars, 0)
        if which in ("strip", "rstrip"):
            outs = strip_end(I, outs, mask, chars, -1)
        return [(mkstr(ps), s) for ps, s in outs]
    return f


def strip_end(I, outs, mask, chars, end):
    if not mask:
        return outs
    res = []
    cs = D.charset(mask)
    ncs = D.charset(D.FULL & ~mask)
    run = D.star(cs)
    if end == 0:
        stop = D.concat(ncs, D.ALL)
    else:
        stop = D.concat(D.ALL, ncs)
    work = [(ps, s) for ps, s in outs]
    while work:
        ps, s = work.pop()
        if not ps:
            res.append((ps, s))
            continue
        p = ps[end]
        rest = ps[1:] if end == 0 else ps[:-1]
        if isinstance(p, str):
            q = p.lstrip(chars) if end == 0 else p.rstrip(chars)
            if q:
                res.append(([q] + rest if end == 0 else rest + [q], s))
            else:
                work.append((rest, s))
            continue
        a = S((p,))
        L = s.lang_of(a)
        if D.subset(L, stop):
            res.append((ps, s))
            continue
        # all stripped
        s1 = s.fork()
        if s1.refine(a, run):
            work.append((rest, s1))
        s2 = s.fork()
        if s2.refine(a, stop):
            res.append((ps, s2))
        s3 = s
        some = D.concat(cs, D.concat(run, stop)) if end == 0 else D.concat(stop, D.concat(run, cs))
        if s3.refine(a, some):
            L = s3.lang_of(a)
            if end == 0:
                x = s3.atom(D.middle(L, D.EPS, D.concat(cs, run), stop))
                y = s3.atom(D.middle(L, D.concat(cs, run), stop, D.EPS))
                I.learn(s3, a, mkstr(_parts(x) + _parts(y)))
                res.append((list(_parts(y)) + rest, s3))
            else:
                x = s3.atom(D.middle(L, stop, D.concat(run, cs), D.EPS))
                y = s3.atom(D.middle(L, D.EPS, stop, D.concat(run, cs)))
                I.learn(s3, a, mkstr(_parts(y) + _parts(x)))
                res.append((rest + list(_parts(y)), s3))
    return res


for _n in ("strip", "lstrip", "rstrip"):
    STR[_n] = _stripper(_n)


@reg(STR, "replace")
def s_replace(I, v, a, kw, st):
    x, y = st.norm(a[0]), st.norm(a[1])
    n = st.norm(v)
    if all(isinstance(z, K) for z in (x, y, n)):
        return [(K(n.v.replace(x.v, y.v)), st)]
    if isinstance(x, K) and D.disjoint(st.lang_of(n), D.contains(x.v)):
        return [(n, st)]
    if isinstance(x, K) and isinstance(y, K) and len(x.v) == 1:
        sy = D.sym_of(x.v)
        img = D.const(y.v)
        fn = _mapper(sy, y.v)
        return [(derived("repl:%r:%r" % (x.v, y.v), lambda L: D.map_syms(L, fn), lambda w: w.replace(x.v, y.v), n), st)]
    if isinstance(x, K) and isinstance(y, K):
        return [(derived("repl:%r:%r" % (x.v, y.v), lambda L: D.ALL, lambda w: w.replace(x.v, y.v), n), st)]
    return [(st.atom(D.ALL), st)]


_MAPPERS = {}


def _mapper(sy, w):
    k = (sy, w)
    if k not in _MAPPERS:
        img = D.const(w)
        if len(w) == 1:
            img = 1 << D.sym_of(w)
        _MAPPERS[k] = lambda s: img if s == sy else 1 << s
    return _MAPPERS[k]


@reg(STR, "encode")
def s_encode(I, v, a, kw, st):
    v = st.norm(v)
    enc = a[0] if a else kw.get("encoding", K("utf-8"))
    enc = enc.v.lower().replace("_", "-") if isinstance(enc, K) and isinstance(enc.v, str) else "?"
    if enc in ("utf-8", "utf8", "u8"):
        return [(Q("bytes", v), st)]
    if enc in ("ascii", "us-ascii", "latin-1", "latin1", "iso-8859-1") and D.subset(st.lang_of(v), _ASCII):
        return [(Q("bytes", v), st)]
    if isinstance(v, K):
        try:
            b = v.v.encode(enc)
        except (UnicodeEncodeError, LookupError) as e:
            return [(I.exc(st, type(e).__name__), st)]
        return [(Q("bytes", v) if b == v.v.encode("utf-8", "surrogatepass") else K(b), st)]
    return [(I.gap(st, "encoding " + enc), st)]


_ASCII = D.star(D.charset(D.mask_range(0, 127)))


@reg(STR, "format")
def s_format(I, v, a, kw, st):
    n = st.norm(v)
    if isinstance(n, K) and not kw:
        import string
        try:
            items = list(string.Formatter().parse(n.v))
        except ValueError:
            return [(I.exc(st, "ValueError", "format"), st)]
        auto = 0
        outs = [([], st)]
        ok = True
        for lit, field, spec, conv in items:
            outs = [(acc + [K(lit)] if isinstance(acc, list) else acc, s) for acc, s in outs]
            if field is None:
                continue
            if field == "":
                i = auto
                auto += 1
            elif field.isdigit():
                i = int(field)
            else:
                ok = False
                break
            if i >= len(a):
                return [(I.exc(st, "IndexError", "format"), st)]
            nxt = []
            for acc, s in outs:
                if not isinstance(acc, list):
                    nxt.append((acc, s))
                elif spec or conv:
                    nxt.extend((acc + [w], s2) if not isinstance(w, Raise) else (w, s2) for w, s2 in I.fmt_spec(a[i], spec, s))
                else:
                    nxt.extend((acc + [w], s2) if not isinstance(w, (Raise, Abort)) else (w, s2) for w, s2 in I.to_str(a[i], s))
            outs = nxt
        if ok:
            return [(I.cat(acc) if isinstance(acc, list) else acc, s) for acc, s in outs]
    return [(st.atom(D.ALL), st)]


@reg(STR, "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isupper", "islower", "isspace", "isidentifier")
def s_isdigit(I, v, a, kw, st):
    n = st.norm(v)
    if isinstance(n, K):
        return [(K(n.v.isdigit()), st)]
    d = D.charset(D.mask_range(48, 57) | 1 << D.S_DIGIT)
    L = D.concat(d, D.star(d))
    return [(K(b), s) for b, s in I.branch_lang(n, L, st)]


def _isx(name):
    def f(I, v, a, kw, st):
        n = st.norm(v)
        if isinstance(n, K):
            return [(K(getattr(n.v, name)()), st)]
        s2 = st.fork()
        return [(TRUE, st), (FALSE, s2)]
    return f


for _n in ("isalpha", "isalnum", "isupper", "islower", "isspace", "isidentifier"):
    STR[_n] = _isx(_n)


@reg(STR, "find", "rfind", "index", "count", "rindex")
def s_find(I, v, a, kw, st):
    n = st.norm(v)
    x = st.norm(a[0]) if is_str(a[0]) else a[0]
    if isinstance(n, K) and isinstance(x, K):
        return [(K(n.v.find(x.v)), st)]
    if isinstance(x, K) and isinstance(x.v, str):
        return [(N(0) if b else K(-1), s) for b, s in I.branch_lang(n, D.contains(x.v), st)]
    return [(N(-1), st)]


@reg(STR, "rfind", "count")
def s_rfind(I, v, a, kw, st):
    n = st.norm(v)
    x = st.norm(a[0])
    if isinstance(n, K) and isinstance(x, K):
        return [(K(n.v.rfind(x.v)), st)]
    return [(N(-1), st)]


@reg(STR, "count")
def s_count(I, v, a, kw, st):
    n = st.norm(v)
    x = st.norm(a[0])
    if isinstance(n, K) and isinstance(x, K):
        return [(K(n.v.count(x.v)), st)]
    if isinstance(x, K) and x.v:
        return [(N(1) if b else K(0), s) for b, s in I.branch_lang(n, D.contains(x.v), st)]
    return [(N(0), st)]


def _indexf(name):
    def f(I, v, a, kw, st):
        n = st.norm(v)
        x = st.norm(a[0])
        if isinstance(n, K) and isinstance(x, K):
            try:
                return [(K(getattr(n.v, name)(x.v)), st)]
            except ValueError:
                return [(I.exc(st, "ValueError"), st)]
        if isinstance(x, K):
            return [(N(0) if b else I.exc(s, "ValueError"), s) for b, s in I.branch_lang(n, D.contains(x.v), st)]
        s2 = st.fork()
        return [(N(0), st), (I.exc(s2, "ValueError"), s2)]
    return f


STR["index"] = _indexf("index")
STR["rindex"] = _indexf("rindex")


@reg(STR, "zfill", "ljust", "rjust", "center", "title", "capitalize", "swapcase", "expandtabs", "translate")
def s_pad(I, v, a, kw, st):
    n = st.norm(v)
    if isinstance(n, K) and all(isinstance(x, K) for x in a):
        return [(st.atom(D.ALL), st)]
    return [(st.atom(D.ALL), st)]


@reg(STR, "zfill")
def s_zfill(I, v, a, kw, st):
    n = st.norm(v)
    if isinstance(n, K) and isinstance(a[0], K):
        return [(K(n.v.zfill(a[0].v)), st)]
    if isinstance(a[0], K):
        w = a[0].v
        L = st.lang_of(n)
        L = D.inter(D.concat(D.star(D.const("0")), L), D.repeat(D.DOT, w, None))
        return [(st.atom(L), st)]
    return [(st.atom(D.ALL), st)]


@reg(STR, "splitlines")
def s_splitlines(I, v, a, kw, st):
    n = st.norm(v)
    if isinstance(n, K):
        return [(st.alloc(HList([("1", K(x)) for x in n.v.splitlines()])), st)]
    e = st.atom(D.without("\n"))
    return [(st.alloc(HList([("*", Tm(e, frozenset(e.parts)))])), st)]


@reg(STR, "removeprefix", "removesuffix")
def s_removeprefix(I, v, a, kw, st):
    x = st.norm(a[0])
    if not isinstance(x, K):
        return [(st.atom(D.ALL), st)]
    n = len(x.v)
    res = []
    for b, s in I.branch_lang(v, D.prefix_lang(x.v), st):
        if b:
            res.extend(I.str_slice(v, K(n), NONE, s))
        else:
            res.append((v, s))
    return res


@reg(STR, "removesuffix")
def s_removesuffix(I, v, a, kw, st):
    x = st.norm(a[0])
    if not isinstance(x, K) or not x.v:
        return [(st.atom(D.ALL), st)]
    n = len(x.v)
    res = []
    for b, s in I.branch_lang(v, D.suffix_lang(x.v), st):
        if b:
            res.extend(I.str_slice(v, NONE, K(-n), s))
        else:
            res.append((v, s))
    return res


# -- list methods ---------------------------------------------------------------

@reg(LISTM, "append")
def l_append(I, r, a, kw, st):
    o = st.heap[r.a]
    I.wr(st, r.a, HList(o.segs + (("1", a[0]),)))
    return [(NONE, st)]


@reg(LISTM, "extend")
def l_extend(I, r, a, kw, st):
    res = []
    st.stack = st.stack + (r,)
    for sg, s in I.to_segs(a[0], st):
        s.stack = s.stack[:-1]
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
        else:
            I.wr(s, r.a, HList(s.heap[r.a].segs + tuple(g[:3] for g in sg)))
            res.append((NONE, s))
    return res


@reg(LISTM, "insert")
def l_insert(I, r, a, kw, st):
    o = st.heap[r.a]
    if a[0] == K(0):
        I.wr(st, r.a, HList((("1", a[1]),) + o.segs))
    elif isinstance(a[0], K) and all(g[0] == "1" for g in o.segs):
        sg = list(o.segs)
        sg.insert(a[0].v, ("1", a[1]))
        I.wr(st, r.a, HList(sg))
    else:
        I.gap(st, "list.insert")
    return [(NONE, st)]


@reg(LISTM, "pop")
def l_pop(I, r, a, kw, st):
    i = a[0].v if a and isinstance(a[0], K) else -1
    if a and not isinstance(a[0], K):
        return [(I.gap(st, "list.pop"), st)]
    res = []
    for pos, segs, s in I.expose(st.heap[r.a].segs, i, st):
        if pos is None:
            s.heap[r.a] = HList(segs)
            res.append((I.exc(s, "IndexError", "pop"), s))
        else:
            v = segs[pos][1]
            I.wr(s, r.a, HList(segs[:pos] + segs[pos + 1:]))
            res.append((I.deref(v, s), s))
    return res


@reg(LISTM, "remove")
def l_remove(I, r, a, kw, st):
    o = st.heap[r.a]
    if not all(g[0] == "1" for g in o.segs):
        # some element equal to the argument goes; known ones are tried in order
        res = []
        cur = [st]
        for i, g in enumerate(o.segs):
            if g[0] != "1":
                nxt = []
                for s in cur:
                    nxt.append(s)
                    s2 = s.fork()
                    I.wr(s2, r.a, s2.heap[r.a])
                    res.append((NONE, s2))
                cur = nxt
                continue
            nxt = []
            for s in cur:
                for t, s2 in I.eq(g[1], a[0], s):
                    if t is True:
                        sg = s2.heap[r.a].segs
                        I.wr(s2, r.a, HList(sg[:i] + sg[i + 1:]))
                        res.append((NONE, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        return res + [(I.exc(s, "ValueError", "not in list"), s) for s in cur]
    res = []
    cur = [st]
    for i, g in enumerate(o.segs):
        nxt = []
        for s in cur:
            for t, s2 in I.eq(g[1], a[0], s):
                if t is True:
                    sg = s2.heap[r.a].segs
                    I.wr(s2, r.a, HList(sg[:i] + sg[i + 1:]))
                    res.append((NONE, s2))
                elif t is False:
                    nxt.append(s2)
                else:
                    res.append((t, s2))
        cur = nxt
    return res + [(I.exc(s, "ValueError", "not in list"), s) for s in cur]


@reg(LISTM, "copy")
def l_copy(I, r, a, kw, st):
    return [(st.alloc(HList(st.heap[r.a].segs)), st)]


@reg(LISTM, "clear")
def l_clear(I, r, a, kw, st):
    I.wr(st, r.a, HList(()))
    return [(NONE, st)]


@reg(LISTM, "sort")
def l_sort(I, r, a, kw, st):
    res = []
    for out, s in keyed(I, st.heap[r.a].segs, kw, st):
        if isinstance(out, (Raise, Abort)):
            res.append((out, s))
        else:
            I.wr(s, r.a, HList(out))
            res.append((NONE, s))
    return res


@reg(LISTM, "reverse")
def l_reverse(I, r, a, kw, st):
    I.wr(st, r.a, HList(tuple(reversed(st.heap[r.a].segs))))
    return [(NONE, st)]


@reg(LISTM, "index")
def l_index(I, r, a, kw, st):
    o = st.heap[r.a]
    if all(g[0] == "1" for g in o.segs):
        return I.call_native(Nm(T([g[1] for g in o.segs]), "index"), a, kw, st)
    s2 = st.fork()
    return [(N(0), st), (I.exc(s2, "ValueError", "not in list"), s2)]


@reg(LISTM, "count")
def l_count(I, r, a, kw, st):
    return [(N(0), st)]


# -- dict methods -----------------------------------------------------------------

@reg(DICTM, "get")
def d_get(I, r, a, kw, st):
    dflt = a[1] if len(a) > 1 else kw.get("default", NONE)
    res = []
    st.stack = st.stack + (r, dflt)
    for v, s in I.find(r.a, a[0], st):
        s.stack = s.stack[:-2]
        if v is None:
            res.append((dflt, s))
        elif isinstance(v, (Raise, Abort)):
            res.append((v, s))
        else:
            res.append((I.deref(v, s), s))
    return res


@reg(DICTM, "setdefault")
def d_setdefault(I, r, a, kw, st):
    dflt = a[1] if len(a) > 1 else NONE
    res = []
    for v, s in I.find(r.a, a[0], st):
        if v is None:
            for w, s2 in I.setkey(r.a, a[0], dflt, s):
                res.append((w if isinstance(w, (Raise, Abort)) else dflt, s2))
        else:
            res.append((v if isinstance(v, (Raise, Abort)) else I.deref(v, s), s))
    return res


@reg(DICTM, "pop")
def d_pop(I, r, a, kw, st):
    res = []
    for v, s in I.delkey(r.a, a[0], st):
        if v is None:
            res.append((a[1], s) if len(a) > 1 else (I.exc(s, "KeyError", a[0]), s))
        elif isinstance(v, (Raise, Abort)):
            res.append((v, s))
        else:
            res.append((I.deref(v, s), s))
    return res


@reg(DICTM, "popitem")
def d_popitem(I, r, a, kw, st):
    o = st.heap[r.a]
    if o.ents and o.ents[-1][0] == "1":
        e = o.ents[-1]
        I.wr(st, r.a, HDict(o.ents[:-1], o.absent, o.default))
        return [(T((e[1], e[2])), st)]
    if not o.ents:
        return [(I.exc(st, "KeyError"), st)]
    return [(I.gap(st, "popitem"), st)]


@reg(DICTM, "keys")
def d_keys(I, r, a, kw, st):
    return [(Q("keys", r), st)]


@reg(DICTM, "values")
def d_values(I, r, a, kw, st):
    return [(Q("values", r), st)]


@reg(DICTM, "items")
def d_items(I, r, a, kw, st):
    return [(Q("items", r), st)]


@reg(DICTM, "copy")
def d_copy(I, r, a, kw, st):
    o = st.heap[r.a]
    return [(st.alloc(HDict(o.ents, o.absent, o.default)), st)]


@reg(DICTM, "clear")
def d_clear(I, r, a, kw, st):
    I.wr(st, r.a, HDict(()))
    return [(NONE, st)]


@reg(DICTM, "update")
def d_update(I, r, a, kw, st):
    outs = [(NONE, st)]
    if a:
        src = I.deref(a[0], st)
        if I.is_hj(src, st):
            return I.each_kind(src, st, lambda w, s: d_update(I, r, [w], kw, s))
        if isinstance(src, R) and isinstance(st.heap[src.a], HDict):
            ents = st.heap[src.a].ents
            for e in ents:
                if e[0] == "1":
                    nxt = []
                    for v, s in outs:
                        if isinstance(v, (Raise, Abort)):
                            nxt.append((v, s))
                        else:
                            nxt.extend(I.setkey(r.a, e[1], e[2], s))
                    outs = nxt
            many = tuple(e for e in ents if e[0] == "*")
            if many:
                for v, s in outs:
                    o = s.heap[r.a]
                    I.wr(s, r.a, HDict(o.ents + many, frozenset(), o.default))
        elif isinstance(src, X):
            I.gap(st, "dict.update")
        else:
            segs = I.segs_of(src, st)
            if segs is None or any(g[0] != "1" or not isinstance(g[1], T) for g in segs):
                I.gap(st, "dict.update")
            else:
                for g in segs:
                    nxt = []
                    for v, s in outs:
                        nxt.extend(I.setkey(r.a, g[1].items[0], g[1].items[1], s))
                    outs = nxt
    for k, v in kw.items():
        nxt = []
        for w, s in outs:
            nxt.extend([(w, s)] if isinstance(w, (Raise, Abort)) else I.setkey(r.a, K(k), v, s))
        outs = nxt
    return outs


# -- set methods -------------------------------------------------------------------

@reg(SETM, "add")
def e_add(I, r, a, kw, st):
    x = I.deref(a[0], st)
    if I.is_hj(x, st):
        return I.each_kind(x, st, lambda w, s: e_add(I, r, [w], kw, s))
    if isinstance(x, R) and isinstance(st.heap[x.a], (HList, HDict, HSet)):
        return [(I.exc(st, "TypeError", "unhashable"), st)]
    o = st.heap[r.a]
    nx = st.norm(x) if isinstance(x, S) else x
    for g in o.segs:
        if g[0] == "1" and (g[1] == x or (st.norm(g[1]) if isinstance(g[1], S) else g[1]) == nx):
            if len(g) > 2:
                I.wr(st, r.a, HSet([(h[:2] if h is g else h) for h in o.segs], o.absent, o.frozen))
            return [(NONE, st)]
    I.wr(st, r.a, HSet(o.segs + (("1", x),), frozenset(y for y in o.absent if y != nx and y != x), o.frozen))
    return [(NONE, st)]


@reg(SETM, "discard")
def e_discard(I, r, a, kw, st):
    return [(v if isinstance(v, (Raise, Abort)) else NONE, s) for v, s in I.delkey(r.a, a[0], st)]


@reg(SETM, "remove")
def e_remove(I, r, a, kw, st):
    return [(I.exc(s, "KeyError", a[0]) if v is None else v if isinstance(v, (Raise, Abort)) else NONE, s)
            for v, s in I.delkey(r.a, a[0], st)]


def _setop(name):
    def f(I, r, a, kw, st):
        if not a:
            return l_setcopy(I, r, a, kw, st)
        outs = [(r, st)]
        for x in a:
            nxt = []
            for v, s in outs:
                if isinstance(v, (Raise, Abort)):
                    nxt.append((v, s))
                    continue
                s.stack = s.stack + (v,)
                for sg, s2 in I.to_segs(x, s):
                    s2.stack = s2.stack[:-1]
                    if isinstance(sg, (Raise, Abort)):
                        nxt.append((sg, s2))
                        continue
                    y = I.deref(x, s2)
                    if not (isinstance(y, R) and isinstance(s2.heap[y.a], (HSet, HDict))):
                        y = s2.alloc(new_set(sg, s2))
                    nxt.extend(I.set_op(name, v, y, s2))
            outs = nxt
        return outs
    return f


for _n in ("union", "difference", "intersection", "symmetric_difference"):
    SETM[_n] = _setop(_n)


@reg(SETM, "copy")
def l_setcopy(I, r, a, kw, st):
    o = st.heap[r.a]
    return [(st.alloc(HSet(o.segs, o.absent)), st)]


@reg(SETM, "clear")
def e_clear(I, r, a, kw, st):
    I.wr(st, r.a, HSet(()))
    return [(NONE, st)]


def _upd(name):
    def f(I, r, a, kw, st):
        res = []
        for v, s in SETM[name](I, r, a, kw, st):
            if isinstance(v, (Raise, Abort)):
                res.append((v, s))
            else:
                I.wr(s, r.a, s.heap[v.a])
                res.append((NONE, s))
        return res
    return f


SETM["update"] = _upd("union")
SETM["difference_update"] = _upd("difference")
SETM["intersection_update"] = _upd("intersection")


def _as_setv(I, x, st):
    """[(set-like value, st)]"""
    res = []
    for sg, s in I.to_segs(x, st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
        else:
            y = I.deref(x, s)
            if not (isinstance(y, R) and isinstance(s.heap[y.a], (HSet, HDict))) and not (isinstance(y, Q) and y.kind == "keys"):
                y = s.alloc(new_set(sg, s))
            res.append((y, s))
    return res


@reg(SETM, "issubset")
def e_issubset(I, r, a, kw, st):
    res = []
    for y, s in _as_setv(I, a[0], st):
        if isinstance(y, (Raise, Abort)):
            res.append((y, s))
        else:
            res.extend((K(t) if isinstance(t, bool) else t, s2) for t, s2 in I.subset(r, y, s))
    return res


@reg(SETM, "issuperset")
def e_issuperset(I, r, a, kw, st):
    res = []
    for y, s in _as_setv(I, a[0], st):
        if isinstance(y, (Raise, Abort)):
            res.append((y, s))
        else:
            res.extend((K(t) if isinstance(t, bool) else t, s2) for t, s2 in I.subset(y, r, s))
    return res


@reg(SETM, "isdisjoint")
def e_isdisjoint(I, r, a, kw, st):
    res = []
    for v, s in SETM["intersection"](I, r, a, kw, st):
        if isinstance(v, (Raise, Abort)):
            res.append((v, s))
        else:
            res.extend((K(not b), s2) for b, s2 in I.truth(v, s))
    return res


@reg(SETM, "pop")
def e_pop(I, r, a, kw, st):
    return [(I.gap(st, "set.pop"), st)]


# -- opaque value methods -----------------------------------------------------------
QM = {}


def _keys_op(name):
    def f(I, q, a, kw, st):
        s = st.alloc(new_set(I.segs_of(q, st), st))
        return SETM[name](I, s, a, kw, st)
    return f


for _n in ("union", "difference", "intersection", "issubset", "isdisjoint"):
    QM[("keys", _n)] = _keys_op(_n)


@reg(QM, ("bytes", "decode"))
def b_decode(I, q, a, kw, st):
    v = q.args[0]
    return [(v, st)] if is_str(v) else I.decode(U("bytes"), st)


@reg(QM, ("re", "match"))
def re_match(I, q, a, kw, st):
    return I.res_args(a[:1], st, lambda x, s: I.rx(q.args[0], q.args[1], "match", x[0], s))


@reg(QM, ("re", "search"))
def re_search(I, q, a, kw, st):
    return I.res_args(a[:1], st, lambda x, s: I.rx(q.args[0], q.args[1], "search", x[0], s))


@reg(QM, ("re", "fullmatch"))
def re_full(I, q, a, kw, st):
    return I.res_args(a[:1], st, lambda x, s: I.rx(q.args[0], q.args[1], "full", x[0], s))


@reg(QM, ("re", "sub"))
def re_subq(I, q, a, kw, st):
    return LIB["re.sub"](I, [q.args[0]] + a, kw, st)


@reg(QM, ("super", "__init__"))
def super_init(I, q, a, kw, st):
    obj = q.args[1]
    if isinstance(obj, R) and isinstance(st.heap[obj.a], HInst) and st.heap[obj.a].cls.issub(I.p.exc("BaseException")):
        return I.setattr(obj, "args", T(a), st)
    return [(NONE, st)]


# -- re -------------------------------------------------------------------------------

def _refn(mode):
    def f(I, a, kw, st):
        flags = a[2] if len(a) > 2 else kw.get("flags", K(0))
        return I.res_args([a[1]], st, lambda x, s: I.rx(a[0], flags, mode, x[0], s))
    return f


LIB["re.match"] = _refn("match")
LIB["re.search"] = _refn("search")
LIB["re.fullmatch"] = _refn("full")


@lib("re.compile")
def re_compile(I, a, kw, st):
    p = a[0]
    if isinstance(p, Q):
        return [(p, st)]
    return [(Q("re", st.norm(p) if is_str(p) else p, a[1] if len(a) > 1 else kw.get("flags", K(0))), st)]


@lib("re.sub")
def re_sub(I, a, kw, st):
    pat, rep, v = [st.norm(x) if is_str(x) else x for x in a[:3]]
    if isinstance(pat, Q):
        pat = pat.args[0]
    if all(isinstance(x, K) for x in (pat, rep, v)):
        return [(K(_re.sub(pat.v, rep.v, v.v)), st)]
    if is_str(v) and isinstance(pat, K) and isinstance(rep, K):
        # single character class replaced by a fixed text: image of the language
        try:
            tree = RX.compile(pat.v, 0)
            L = tree.lang("full")
            if len(tree.alts) == 1 and not tree.alts[0].start and tree.alts[0].end is None \
                    and len(tree.alts[0].leaves) == 1 and L.lengths() == (1, 1) and "\\" not in rep.v:
                syms = L.symbols()
                img = D.const(rep.v)
                fn = _SUBF.setdefault((pat.v, rep.v), lambda s: (img if syms >> s & 1 else 1 << s))
                return [(derived("sub:%r:%r" % (pat.v, rep.v), lambda W: D.map_syms(W, fn), lambda w: _re.sub(pat.v, rep.v, w), v), st)]
            if rep.v == "" and len(tree.alts) == 1 and tree.alts[0].start and tree.alts[0].end is None:
                pass
        except RX.Unsupported:
            pass
        return [(derived("sub:%r:%r" % (pat.v, rep.v), lambda W: D.ALL, lambda w: _re.sub(pat.v, rep.v, w), v), st)]
    if is_str(v) and isinstance(pat, K) and isinstance(pat.v, str) and not is_str(rep) and len(a) == 3 and not kw:
        # single characters replaced by what a function gives
        try:
            tree = RX.compile(pat.v, 0)
            single = len(tree.alts) == 1 and not tree.alts[0].start and tree.alts[0].end is None and len(tree.alts[0].leaves) == 1 \
                and tree.lang("full").lengths() == (1, 1)
        except RX.Unsupported:
            single = False
        if single:
            return I.call(I.mkfn(_SUBFN, st, None), [Q("re", pat, K(0)), a[1], v], {}, st, None)
    if not all(isinstance(x, K) for x in (pat, rep)):
        return [(I.gap(st, "re.sub"), st)]
    return [(st.atom(D.ALL), st)]


_SUBFN = ast.parse("def substituted(__p, __f, __s):\n    __acc = ''\n    for __c in __s:\n        __m = __p.match(__c)\n"
                   "        if __m:\n            __acc += __f(__m)\n        else:\n            __acc += __c\n    return __acc\n").body[0]


_SUBF = {}


@lib("re.split", "re.findall")
def re_split(I, a, kw, st):
    e = st.atom(D.ALL)
    return [(st.alloc(HList([("*", Tm(e, frozenset(e.parts)))])), st)]


@lib("re.escape")
def re_escape(I, a, kw, st):
    v = st.norm(a[0])
    if isinstance(v, K):
        return [(K(_re.escape(v.v)), st)]
    return [(I.gap(st, "re.escape"), st)]


def m_group(I, r, a, kw, st):
    g = st.heap[r.a].f["groups"]
    if isinstance(g, X):
        return [(X("group"), st)]
    if g is None:
        if not a or a[0] == K(0):
            return [(st.heap[r.a].f["string"] if False else st.atom(D.ALL), st)]
        return [(I.exc(st, "IndexError", "no such group"), st)]
    idx = a if a else [K(0)]
    out = []
    names = dict(st.heap[r.a].f.get("names") or ())
    for x in idx:
        if isinstance(x, K) and isinstance(x.v, str):
            if x.v not in names:
                return [(I.exc(st, "IndexError", "no such group"), st)]
            x = K(names[x.v])
        if not isinstance(x, K) or not isinstance(x.v, int):
            return [(I.gap(st, "named group"), st)]
        if x.v >= len(g.items):
            return [(I.exc(st, "IndexError", "no such group"), st)]
        out.append(g.items[x.v])
    return [(out[0] if len(out) == 1 else T(out), st)]


def m_groups(I, r, a, kw, st):
    g = st.heap[r.a].f["groups"]
    if isinstance(g, T):
        d = a[0] if a else kw.get("default", NONE)
        return [(T([d if x is NONE or x == NONE else x for x in g.items[1:]]), st)]
    return [(X("groups"), st)]


def m_groupdict(I, r, a, kw, st):
    g = st.heap[r.a].f["groups"]
    names = st.heap[r.a].f.get("names")
    if not isinstance(g, T) or names is None:
        return [(I.gap(st, "groupdict"), st)]
    d = a[0] if a else kw.get("default", NONE)
    return [(st.alloc(HDict(tuple(("1", K(n), d if g.items[i] == NONE else g.items[i]) for n, i in names))), st)]


NATM = {("match", "group"): m_group, ("match", "groups"): m_groups, ("match", "groupdict"): m_groupdict}


def match_item(I, r, k, st):
    return m_group(I, r, [I.deref(k, st)], {}, st)


# -- builtins ----------------------------------------------------------------------------

@lib("len")
def b_len(I, a, kw, st):
    v = a[0]

    def go(v, st):
        if is_str(v):
            n = st.norm(v)
            if isinstance(n, K):
                return [(K(len(n.v)), st)]
            lo, hi = st.lang_of(n).lengths()
            return [(K(lo) if lo == hi else N(lo, hi, n), st)]
        if isinstance(v, K) and isinstance(v.v, bytes):
            return [(K(len(v.v)), st)]
        if isinstance(v, T):
            return [(K(len(v.items)), st)]
        if isinstance(v, Q) and v.kind in ("keys", "values", "items"):
            return go(v.args[0], st)
        if isinstance(v, Q) and v.kind == "bytes":
            return [(N(0), st)]
        if isinstance(v, Q) and v.kind == "range":
            if all(isinstance(x, K) for x in v.args):
                return [(K(len(range(*[x.v for x in v.args]))), st)]
            return [(N(0), st)]
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, (HList, HDict)):
                segs = o.segs if isinstance(o, HList) else o.ents
                ones = sum(1 for g in segs if g[0] == "1")
                if all(g[0] == "1" for g in segs):
                    return [(K(ones), st)]
                sl = sum(1 for g in segs if g[0] == "/")
                if not any(g[0] == "*" for g in segs):
                    return split_len(I, v.a, st)
                return [(N(ones + sl, None, v.a), st)]
            if isinstance(o, HSet):
                ones = [g[1] for g in o.segs if g[0] == "1"]
                many = any(g[0] == "*" for g in o.segs)
                # are the known elements pairwise different?
                if all(isinstance(x, K) for x in ones) or len(ones) <= 1:
                    if not many:
                        return [(K(len(ones)), st)]
                    return [(N(len(ones), None, v.a), st)]
                cur = [((), st)]
                for x in ones:
                    nxt = []
                    for kept, s in cur:
                        work = [(0, s)]
                        while work:
                            i, s1 = work.pop()
                            if i == len(kept):
                                nxt.append((kept + (x,), s1))
                                continue
                            for t, s2 in I.eq(x, kept[i], s1):
                                if t is True:
                                    nxt.append((kept, s2))
                                else:
                                    work.append((i + 1, s2))
                    cur = nxt
                res = []
                for kept, s in cur:
                    if len(kept) < len(ones):
                        o2 = s.heap[v.a]
                        s.heap[v.a] = HSet(tuple(("1", x) for x in kept) + tuple(g for g in o2.segs if g[0] == "*"), o2.absent, o2.frozen)
                    res.append((N(len(kept), None, v.a) if many else K(len(kept)), s))
                return res
            if isinstance(o, HInst):
                return I.wrap_v(I.getattr(v, "__len__", st), lambda f, s: I.call(f, [], {}, s, None))
            if isinstance(o, HNat):
                h = I.p.nat_len.get(o.kind)
                if h:
                    return h(I, v, st)
        if isinstance(v, X):
            return [(N(0), st)]
        if isinstance(v, Q):
            h = I.p.q_len.get(v.kind)
            if h:
                return h(I, v, st)
            return [(I.gap(st, "len of " + v.kind), st)]
        return [(I.exc(st, "TypeError", "len"), st)]
    return I.each_kind(v, st, go)


def split_len(I, a, st):
    """Length of a list whose unknown part is one split string: decide small lengths."""
    res = []
    o = st.heap[a]
    i = next(i for i, g in enumerate(o.segs) if g[0] == "/")
    atom, sep = o.segs[i][1:3]
    if sum(1 for g in o.segs if g[0] == "/") > 1:
        return [(N(len(o.segs)), st)]
    ns = D.without(sep)
    sp = D.const(sep)
    known = len(o.segs) - 1
    L = ns
    rest = st
    for n in range(1, 5):
        s = rest.fork()
        if s.refine(S((atom,)), L):
            res.append((K(known + n), s))
        if not rest.refine(S((atom,)), D.compl(L)):
            return res
        L = D.concat(L, D.concat(sp, ns))
    res.append((N(known + 5), rest))
    return res


@lib("type:str")
def b_str(I, a, kw, st):
    if not a:
        return [(K(""), st)]
    if isinstance(a[0], Q) and a[0].kind == "bytes" and len(a) > 1:
        return [(a[0].args[0], st)]
    return I.to_str(a[0], st)


@lib("repr", "ascii")
def b_repr(I, a, kw, st):
    return [(st.atom(D.ALL), st)]


@lib("type:int")
def b_int(I, a, kw, st):
    if not a:
        return [(K(0), st)]

    def go(v, st):
        if isinstance(v, K) and isinstance(v.v, (int, float, str)):
            try:
                return [(K(int(v.v)), st)]
            except (ValueError, OverflowError):
                return [(I.exc(st, "ValueError", "int"), st)]
        if is_int(v):
            return [(v, st)]
        if isinstance(v, U):
            return [(N(), st)]
        if isinstance(v, S):
            n = st.norm(v)
            if isinstance(n, K):
                return go(n, st)
            ws = D.star(D.charset(RX.SPACE_ASCII | 1 << D.S_SPACE))
            digs = D.charset(RX.DIGITS | 1 << D.S_DIGIT)
            body = D.concat(D.concat(digs, D.star(digs)), D.star(D.concat(D.const("_"), D.concat(digs, D.star(digs)))))
            sign = D.union(D.EPS, D.charset(D.mask_of("+-")))
            L = D.concat_all([ws, sign, body, ws])
            neg = D.concat_all([ws, D.const("-"), D.ALL])
            res = []
            s2 = st.fork()
            if st.refine(n, L):
                lang = st.lang_of(n)
                ws_ = lang.words(8)
                if ws_ is not None:
                    for w in ws_:
                        s3 = st.fork()
                        if s3.refine(n, D.const(w)):
                            try:
                                res.append((K(int(w)), s3))
                            except ValueError:
                                res.append((I.exc(s3, "ValueError", "int"), s3))
                elif lang.words(512) is not None:
                    try:
                        vals = [int(w) for w in lang.words(512)]
                        res.append((N(min(vals), max(vals)), st))
                    except ValueError:
                        res.append((I.exc(st, "ValueError", "int"), st))
                        res.append((N(), st))
                else:
                    zeros = D.concat_all([ws, sign, D.concat(D.const("0"), D.star(D.charset(D.mask_of("0_")))), ws])
                    lo = None
                    hi = None
                    if D.disjoint(lang, neg):
                        lo = 0
                        if D.disjoint(lang, zeros) and not lang.symbols() >> D.S_DIGIT & 1:
                            lo = 1
                        mx = lang.lengths()[1]
                        if mx is not None:
                            hi = 10 ** mx - 1
                        # languages of plain decimal digits: smallest value by length
                    res.append((N(lo, hi), st))
            if s2.refine(n, D.compl(L)):
                res.append((I.exc(s2, "ValueError", "int"), s2))
            return res
        if isinstance(v, X):
            return [(N(), st)]
        return [(I.exc(st, "TypeError", "int"), st)]
    return I.each_kind(a[0], st, go)


@lib("type:float")
def b_float(I, a, kw, st):
    if not a:
        return [(K(0.0), st)]
    if is_int(a[0]) or isinstance(a[0], U):
        return [(U("float", st.new_id()), st)]
    if is_str(a[0]):
        n = st.norm(a[0])
        if isinstance(n, K):
            try:
                return [(K(float(n.v)), st)]
            except ValueError:
                return [(I.exc(st, "ValueError"), st)]
        dg = D.charset(RX.DIGITS)
        plain = D.concat_all([dg, D.star(dg), D.union(D.EPS, D.concat(D.const("."), D.star(dg)))])
        if D.subset(st.lang_of(n), D.union(plain, D.concat_all([D.star(dg), D.const("."), dg, D.star(dg)]))):
            return [(U("float", st.new_id()), st)]
        s2 = st.fork()
        return [(U("float", st.new_id()), st), (I.exc(s2, "ValueError"), s2)]
    return [(I.exc(st, "TypeError", "float"), st)]


@lib("type:bool", "bool")
def b_bool(I, a, kw, st):
    if not a:
        return [(FALSE, st)]
    return [(K(b) if isinstance(b, bool) else b, s) for b, s in I.truth(a[0], st)]


@lib("type:bytes")
def b_bytes(I, a, kw, st):
    if not a:
        return [(K(b""), st)]
    if is_str(a[0]):
        return [(Q("bytes", st.norm(a[0])), st)]
    return [(U("bytes"), st)]


@lib("type:list", "list")
def b_list(I, a, kw, st):
    if not a:
        return [(st.alloc(HList([])), st)]
    return [(sg if isinstance(sg, (Raise, Abort)) else s.alloc(HList(sg)), s) for sg, s in I.to_segs(a[0], st)]


@lib("type:tuple", "tuple")
def b_tuple(I, a, kw, st):
    if not a:
        return [(T(()), st)]
    res = []
    for sg, s in I.to_segs(a[0], st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
        elif all(g[0] == "1" for g in sg):
            res.append((T([g[1] for g in sg]), s))
        else:
            res.append((s.alloc(HList(sg)), s))
    return res


@lib("type:set", "set", "type:frozenset")
def b_set(I, a, kw, st):
    if not a:
        return [(st.alloc(HSet([])), st)]
    res = []
    for sg, s in I.to_segs(a[0], st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
            continue
        # unhashable members raise
        outs = [(True, s)]
        for g in sg:
            if g[0] == "/":
                continue
            nxt = []
            for ok, s1 in outs:
                if ok is not True:
                    nxt.append((ok, s1))
                    continue
                if g[0] == "*":
                    v = I.deref(g[1].v, s1)
                    if I.is_hj(v, s1) and s1.heap[v.a].kinds & {"list", "dict"} or isinstance(v, R) and isinstance(s1.heap[v.a], (HList, HDict)):
                        s2 = s1.fork()
                        if I.track_blame and not s2.generic:
                            s2.blame = True
                        nxt.append((I.exc(s2, "TypeError", "unhashable"), s2))
                    nxt.append((True, s1))
                else:
                    v = I.deref(g[1], s1)
                    if I.is_hj(v, s1):
                        for w, s2 in I.resolve(v, s1):
                            if isinstance(w, R):
                                nxt.append((I.exc(s2, "TypeError", "unhashable"), s2))
                            else:
                                nxt.append((True, s2))
                    elif isinstance(v, R) and isinstance(s1.heap[v.a], (HList, HDict)):
                        nxt.append((I.exc(s1, "TypeError", "unhashable"), s1))
                    else:
                        nxt.append((True, s1))
            outs = nxt
        for ok, s1 in outs:
            res.append((s1.alloc(new_set([(g[0], I.deref(g[1], s1)) if g[0] == "1" else g for g in sg], s1)) if ok is True else ok, s1))
    return res


@lib("type:dict", "dict")
def b_dict(I, a, kw, st):
    d = st.alloc(HDict(()))
    if not a and not kw:
        return [(d, st)]
    return [(v if isinstance(v, (Raise, Abort)) else d, s) for v, s in d_update(I, d, a, kw, st)]


@lib("collections.defaultdict")
def c_defaultdict(I, a, kw, st):
    return [(st.alloc(HDict((), frozenset(), a[0] if a else None)), st)]


@lib("collections.OrderedDict")
def c_od(I, a, kw, st):
    return b_dict(I, a, kw, st)


def sort_segs(segs, kw, st, I):
    ones = [g for g in segs if g[0] == "1"]
    if len(ones) == len(segs) and "key" not in kw:
        vals = [st.norm(g[1]) if isinstance(g[1], S) else g[1] for g in ones]
        if all(isinstance(v, K) for v in vals):
            try:
                vs = sorted([v.v for v in vals], reverse=bool(kw.get("reverse", FALSE).v) if isinstance(kw.get("reverse", FALSE), K) else False)
                return tuple(("1", K(v)) for v in vs)
            except TypeError:
                pass
    if len(ones) == len(segs):
        return tuple(segs)
    out = []
    for g in segs:
        if g[0] == "/":
            e = st.atom(D.without(g[2]))
            g = ("*", Tm(e, frozenset(e.parts) if isinstance(e, S) else frozenset()))
        out.append(g)
    many = [g for g in out if g[0] == "*"]
    return tuple(many) + tuple(x for g in ones for x in ((g[:2],) + tuple(many)))


def keyed(I, sg, kw, st):
    """[(segments in the order of their keys, or Raise, state)]."""
    key = kw.get("key", NONE)
    if key == NONE or not sg:
        return [(sort_segs(sg, kw, st, I), st)]
    if not all(g[0] == "1" for g in sg):
        return [(sort_segs(sg, kw, st, I), st)]
    outs = [([], st)]
    res = []
    for g in sg:
        nxt = []
        for ks, s in outs:
            s.stack = s.stack + tuple(h[1] for h in sg) + tuple(ks)
            n = len(sg) + len(ks)
            for k, s2 in I.call(key, [g[1]], {}, s, None):
                s2.stack = s2.stack[:-n]
                if isinstance(k, (Raise, Abort)):
                    res.append((k, s2))
                else:
                    k = I.deref(k, s2)
                    nxt.append((ks + [s2.norm(k) if isinstance(k, S) else k], s2))
        outs = nxt
    for ks, s in outs:
        def py(k):
            if isinstance(k, K):
                return k.v
            if isinstance(k, T):
                return tuple(py(x) for x in k.items)
            raise TypeError
        rev = kw.get("reverse", FALSE)
        try:
            order = sorted(range(len(sg)), key=lambda i: py(ks[i]), reverse=bool(rev.v) if isinstance(rev, K) else False)
            res.append((tuple(sg[i] for i in order), s))
        except TypeError:
            res.append((tuple(sg), s))
    return res


@lib("sorted")
def b_sorted(I, a, kw, st):
    res = []
    for sg, s in I.to_segs(a[0], st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
            continue
        for out, s in keyed(I, sg, kw, s):
            if isinstance(out, (Raise, Abort)):
                res.append((out, s))
                continue
            # values of mixed kinds cannot be ordered
            mixed = False
            n = 0
            for g in sg:
                v = g[1] if g[0] == "1" else g[1].v if g[0] == "*" else K("")
                v = I.deref(v, s)
                n += 1
                if I.is_hj(v, s):
                    mixed = True
                if isinstance(v, R) and isinstance(s.heap[v.a], (HDict, HInst)) and "key" not in kw and len(sg) > 1:
                    mixed = True
            if mixed and "key" not in kw:
                s2 = s.fork()
                if I.track_blame and not s2.generic:
                    s2.blame = True
                res.append((I.exc(s2, "TypeError", "unorderable"), s2))
            res.append((s.alloc(HList(out)), s))
    return res


@lib("reversed")
def b_reversed(I, a, kw, st):
    return [(sg if isinstance(sg, (Raise, Abort)) else s.alloc(HList(tuple(reversed(sg)))), s) for sg, s in I.to_segs(a[0], st)]


@lib("enumerate")
def b_enumerate(I, a, kw, st):
    start = a[1] if len(a) > 1 else kw.get("start", K(0))
    res = []
    for sg, s in I.to_segs(a[0], st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
            continue
        out = []
        i = start.v if isinstance(start, K) else 0
        exact = isinstance(start, K)
        for g in sg:
            n = K(i) if exact else N(i)
            if g[0] == "1":
                out.append(("1", T((n, g[1]))))
                i += 1
            elif g[0] == "*":
                exact = False
                out.append(("*", Tm(T((N(i), g[1].v)), g[1].ids)))
            else:
                exact = False
                e = s.atom(D.without(g[2]))
                out.append(("*", Tm(T((N(i), e)), frozenset(e.parts))))
        res.append((s.alloc(HList(out)), s))
    return res


@lib("zip")
def b_zip(I, a, kw, st):
    outs = [([], st)]
    for x in a:
        nxt = []
        for acc, s in outs:
            if not isinstance(acc, list):
                nxt.append((acc, s))
                continue
            for sg, s2 in I.to_segs(x, s):
                nxt.append((sg, s2) if isinstance(sg, (Raise, Abort)) else (acc + [sg], s2))
        outs = nxt
    res = []
    for acc, s in outs:
        if not isinstance(acc, list):
            res.append((acc, s))
        elif all(g[0] == "1" for sg in acc for g in sg):
            res.append((s.alloc(HList([("1", T(x)) for x in zip(*[[g[1] for g in sg] for sg in acc])])), s))
        else:
            res.append((I.gap(s, "zip"), s))
    return res


@lib("type:range", "range")
def b_range(I, a, kw, st):
    if len(a) == 1:
        a = [K(0), a[0], K(1)]
    elif len(a) == 2:
        a = [a[0], a[1], K(1)]
    for x in a:
        if not is_int(x) and not isinstance(x, X):
            return [(I.exc(st, "TypeError", "range"), st)]
    return [(Q("range", *a), st)]


@lib("max", "min")
def b_max(I, a, kw, st):
    return _minmax(I, a, kw, st, max)


@lib("min")
def b_min(I, a, kw, st):
    return _minmax(I, a, kw, st, min)


def _minmax(I, a, kw, st, fn):
    if len(a) > 1 and all(isinstance(x, K) for x in a):
        return [(K(fn(x.v for x in a)), st)]
    if len(a) > 1 and all(is_int(x) for x in a):
        los = [x.v if isinstance(x, K) else x.lo for x in a]
        his = [x.v if isinstance(x, K) else x.hi for x in a]
        if fn is max:
            lo = max([x for x in los if x is not None], default=None)
            hi = None if None in his else max(his)
        else:
            lo = None if None in los else min(los)
            hi = min([x for x in his if x is not None], default=None)
        return [(N(lo, hi), st)]
    res = []
    for sg, s in I.to_segs(a[0], st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
        elif not sg:
            res.append((kw["default"], s) if "default" in kw else (I.exc(s, "ValueError", "empty"), s))
        elif all(g[0] == "1" and isinstance(g[1], K) for g in sg) and "key" not in kw:
            res.append((K(fn(g[1].v for g in sg)), s))
        elif len(sg) == 1 and sg[0][0] == "1":
            res.append((sg[0][1], s))
        elif "key" in kw and all(g[0] == "1" for g in sg):
            for out, s2 in keyed(I, sg, dict(kw, reverse=K(fn is max)), s):
                res.append((out if isinstance(out, (Raise, Abort)) else out[0][1], s2))
        else:
            if all(g[0] == "*" for g in sg):
                s2 = s.fork()
                res.append((kw["default"], s2) if "default" in kw else (I.exc(s2, "ValueError", "empty"), s2))
            for g in sg:
                s2 = s.fork()
                res.append((g[1] if g[0] == "1" else copy_value(s2, g[1].v, g[1].ids) if g[0] == "*" else s2.atom(D.without(g[2])), s2))
    return res


@lib("sum")
def b_sum(I, a, kw, st):
    res = []
    for sg, s in I.to_segs(a[0], st):
        if isinstance(sg, (Raise, Abort)):
            res.append((sg, s))
        elif all(g[0] == "1" and isinstance(g[1], K) for g in sg):
            res.append((K(sum(g[1].v for g in sg)), s))
        elif all(g[0] in ("1", "*") and isinstance(g[1].v if g[0] == "*" else g[1], K) and (g[1].v if g[0] == "*" else g[1]).v in (0, 1, True, False) for g in sg):
            res.append((N(sum(int(g[1].v) for g in sg if g[0] == "1"), None), s))
        else:
            res.append((N(), s))
    return res


def _anyall(stop):
    def f(I, a, kw, st):
        res = []

        def body(e, s):
            out = []
            for b, s2 in I.truth(e, s):
                if isinstance(b, Raise):
                    out.append(("E", b.v, s2))
                elif isinstance(b, Abort):
                    out.append(("A", b, s2))
                elif b == stop:
                    out.append(("B", None, s2))
                else:
                    out.append(("N", None, s2))
            return out
        for k, v, s in I.iterate(a[0], st, body, None):
            if k == "B":
                res.append((K(stop), s))
            elif k == "N":
                res.append((K(not stop), s))
            elif k == "E":
                res.append((Raise(v), s))
            else:
                res.append((v, s))
        return res
    return f


LIB["any"] = _anyall(True)
LIB["all"] = _anyall(False)


@lib("isinstance")
def b_isinstance(I, a, kw, st):
    v, c = a[0], a[1]
    classes = []
    work = [c]
    while work:
        x = I.deref(work.pop(), st)
        if isinstance(x, T):
            work.extend(x.items)
        elif isinstance(x, C):
            classes.append(x.info)
        else:
            h = I.p.isinstance_lib(v, x, st)
            if h is not None:
                return [(K(h), st)]
            I.gap(st, "isinstance class")
            s2 = st.fork()
            return [(TRUE, st), (FALSE, s2)]
    names = set(x.qual for x in classes)
    kinds = set()
    for nm in names:
        kinds |= {"str": {"str"}, "int": {"int", "bool"}, "bool": {"bool"}, "float": {"float"}, "list": {"list"},
                  "dict": {"dict"}, "NoneType": {"null"}, "object": set(JSET)}.get(nm, set())
    if I.is_hj(v, st):
        res = []
        s2 = st.fork()
        r = I.narrow(v, frozenset(kinds), st)
        if r:
            res.append((TRUE, r[1]))
        r = I.narrow(v, JSET - kinds, s2)
        if r:
            res.append((FALSE, r[1]))
        return res
    ty = I.type_name(v, st)
    if isinstance(v, R) and isinstance(st.heap[v.a], HInst):
        ci = st.heap[v.a].cls
        return [(K(any(ci.issub(x) for x in classes)), st)]
    if ty is None:
        I.gap(st, "isinstance of unknown value")
        s2 = st.fork()
        return [(TRUE, st), (FALSE, s2)]
    if "object" in names:
        return [(TRUE, st)]
    return [(K(ty in names or ty == "bool" and "int" in names), st)]


def type_name(self, v, st):
    if isinstance(v, K):
        return type(v.v).__name__
    if isinstance(v, S):
        return "str"
    if isinstance(v, N):
        return "int"
    if isinstance(v, U):
        return v.kind
    if isinstance(v, T):
        return "tuple"
    if isinstance(v, C):
        return "type"
    if isinstance(v, (Fn, Bm, Nm)):
        return "function"
    if isinstance(v, Q):
        return {"bytes": "bytes", "keys": "dict_keys"}.get(v.kind, v.kind)
    if isinstance(v, R):
        o = st.heap[v.a]
        if isinstance(o, HList):
            return "list"
        if isinstance(o, HDict):
            return "dict"
        if isinstance(o, HSet):
            return "set"
        if isinstance(o, HNat):
            return o.kind
    return None


Lib_.type_name = type_name


@lib("type:type", "type")
def b_type(I, a, kw, st):
    v = a[0]

    def go(v, st):
        if isinstance(v, R) and isinstance(st.heap[v.a], HInst):
            return [(C(st.heap[v.a].cls), st)]
        ty = I.type_name(v, st)
        if ty in I.p.types:
            return [(C(I.p.types[ty]), st)]
        return [(U("type"), st)]
    return I.each_kind(v, st, go)


@lib("issubclass")
def b_issubclass(I, a, kw, st):
    if isinstance(a[0], C) and isinstance(a[1], C):
        return [(K(a[0].info.issub(a[1].info)), st)]
    return [(K(b), s) for b, s in I.truth(X("issubclass"), st)]


@lib("callable")
def b_callable(I, a, kw, st):
    return [(K(isinstance(a[0], (Fn, Bm, Nm, C, Lib))), st)]


@lib("hasattr")
def b_hasattr(I, a, kw, st):
    res = []
    for v, s in I.getattr(a[0], a[1].v, st):
        res.append((K(not isinstance(v, Raise)), s))
    return res


@lib("getattr")
def b_getattr(I, a, kw, st):
    if not (isinstance(a[1], K) and isinstance(a[1].v, str)):
        return [(I.gap(st, "getattr"), st)]
    res = []
    for v, s in I.getattr(a[0], a[1].v, st):
        if isinstance(v, Raise) and len(a) > 2:
            res.append((a[2], s))
        else:
            res.append((v, s))
    return res


@lib("setattr")
def b_setattr(I, a, kw, st):
    return I.setattr(a[0], a[1].v, a[2], st)


@lib("iter")
def b_iter(I, a, kw, st):
    if len(a) == 2:
        return [(Q("iter2", a[0], a[1]), st)]
    return [(a[0], st)]


@lib("next")
def b_next(I, a, kw, st):
    def body(e, s):
        return [("B", e, s)]
    res = []
    for k, v, s in I.iterate(a[0], st, lambda e, s: [("R", e, s)], None):
        if k == "R":
            res.append((v, s))
        elif k == "N":
            res.append((a[1], s) if len(a) > 1 else (I.exc(s, "StopIteration"), s))
        elif k == "E":
            res.append((Raise(v), s))
        else:
            res.append((v, s))
    return res


@lib("map")
def b_map(I, a, kw, st):
    acc = st.alloc(HList([]))
    st.stack = st.stack + (acc, a[0])

    def body(e, s):
        out = []
        for v, s2 in I.call(a[0], [e], {}, s, None):
            if isinstance(v, Raise):
                out.append(("E", v.v, s2))
            elif isinstance(v, Abort):
                out.append(("A", v, s2))
            else:
                I.wr(s2, acc.a, HList(s2.heap[acc.a].segs + (("1", v),)))
                out.append(("N", None, s2))
        return out
    res = []
    for k, v, s in I.iterate(a[1], st, body, None):
        s.stack = s.stack[:-2]
        res.append((acc, s) if k == "N" else (Raise(v), s) if k == "E" else (v, s))
    return res


@lib("filter")
def b_filter(I, a, kw, st):
    acc = st.alloc(HList([]))
    st.stack = st.stack + (acc, a[0])

    def body(e, s):
        out = []
        s.stack = s.stack + (e,)
        rs = I.call(a[0], [e], {}, s, None) if a[0] != NONE else [(e, s)]
        for v, s2 in rs:
            s2.stack = s2.stack[:-1]
            if isinstance(v, Raise):
                out.append(("E", v.v, s2))
                continue
            for b, s3 in I.truth(v, s2):
                if b:
                    I.wr(s3, acc.a, HList(s3.heap[acc.a].segs + (("1", e),)))
                out.append(("N", None, s3))
        return out
    res = []
    for k, v, s in I.iterate(a[1], st, body, None):
        s.stack = s.stack[:-2]
        res.append((acc, s) if k == "N" else (Raise(v), s) if k == "E" else (v, s))
    return res


@lib("print")
def b_print(I, a, kw, st):
    if "$out" in st.mon:
        x = [st.norm(I.deref(v, st)) if isinstance(I.deref(v, st), (K, S)) else None for v in a]
        txt = K(" ".join(str(v.v) for v in x)) if all(isinstance(v, K) for v in x) else x[0] if len(x) == 1 and x[0] is not None else NONE
        st.mon["$out"] = st.mon["$out"] + (txt,)
    h = I.p.lib.get("$print")
    if h:
        return h(I, a, kw, st)
    return [(NONE, st)]


@lib("abs", "round", "hash", "id")
def b_num(I, a, kw, st):
    return [(N(0), st)]


@lib("ord")
def b_ord(I, a, kw, st):
    v = st.norm(a[0]) if is_str(a[0]) else a[0]
    if isinstance(v, K):
        return [(K(ord(v.v)), st)]
    return [(N(0, 0x10ffff), st)]


@lib("chr")
def b_chr(I, a, kw, st):
    if isinstance(a[0], K):
        return [(K(chr(a[0].v)), st)]
    return [(st.atom(D.DOT), st)]


@lib("format")
def b_format(I, a, kw, st):
    if len(a) == 1 or isinstance(a[1], K) and a[1].v == "":
        return I.to_str(a[0], st)
    if isinstance(a[1], K) and isinstance(a[1].v, str):
        return I.fmt_spec(a[0], a[1].v, st)
    return [(st.atom(D.ALL), st)]


def _base(pre, conv):
    def f(I, a, kw, st):
        v = I.deref(a[0], st)
        if isinstance(v, K) and isinstance(v.v, int):
            return [(K(format(v.v, "#" + conv)), st)]
        from .ops import small_texts
        L = small_texts(v, "{:#%s}" % conv) if isinstance(v, N) else None
        return [(st.atom(D.ALL if L is None else L), st)]
    return f


LIB["hex"], LIB["oct"], LIB["bin"] = _base("0x", "x"), _base("0o", "o"), _base("0b", "b")


@lib("input")
def b_hex(I, a, kw, st):
    return [(st.atom(D.ALL), st)]


@lib("type:object", "object.__new__")
def b_object(I, a, kw, st):
    if a and isinstance(a[0], C):
        return [(st.alloc(HInst(a[0].info, {})), st)]
    return [(st.alloc(HInst(I.p.types["object"], {})), st)]


@lib("type:bytes.fromhex")
def b_fromhex(I, a, kw, st):
    return [(U("bytes"), st)]


@lib("type:str.join")
def b_strjoin(I, a, kw, st):
    return s_join(I, a[0], a[1:], kw, st)


# -- copy ---------------------------------------------------------------------------------

@lib("copy.deepcopy")
def c_deepcopy(I, a, kw, st):
    v = a[0]
    ids = set()
    work = [v]
    # every reachable heap object is copied; atoms keep their identity
    from .canon import kids
    seen = set()
    while work:
        x = work.pop()
        if isinstance(x, R):
            if x.a in seen:
                continue
            o = st.heap[x.a]
            seen.add(x.a)
            ids.add(x.a)
            work.extend(kids(o))
        elif isinstance(x, T):
            work.extend(x.items)
        elif isinstance(x, Tm):
            work.append(x.v)
    return [(copy_value(st, v, ids), st)]


@lib("copy.copy")
def c_copy(I, a, kw, st):
    v = a[0]
    if isinstance(v, R):
        return [(st.alloc(st.heap[v.a]), st)]
    return [(v, st)]


# -- os.path ------------------------------------------------------------------------------

@lib("os.path.join", "posixpath.join")
def p_join(I, a, kw, st):
    def go(args, st):
        for x in args:
            if isinstance(x, X):
                return [(st.atom(D.ALL), st)]
            if not is_str(x):
                return [(I.exc(st, "TypeError", "join path"), st)]
        outs = [(args[0], st)]
        for x in args[1:]:
            nxt = []
            for acc, s in outs:
                for b, s2 in I.branch_lang(x, D.prefix_lang("/"), s):
                    if b:
                        nxt.append((x, s2))
                        continue
                    acc_n = s2.norm(acc)
                    if acc_n == K(""):
                        nxt.append((x, s2))
                        continue
                    for e, s3 in I.branch_lang(acc_n, D.union(D.EPS, D.suffix_lang("/")), s2):
                        nxt.append((I.cat([acc_n, x] if e else [acc_n, K("/"), x]), s3))
            outs = nxt
        return outs
    return I.res_args(a, st, go)


def join_list(I, segs, st):
    """os.path.join(*list) for a list of unknown length, or None."""
    flat = D.minus(D.compl(D.concat(D.ALL, D.concat(D.const("/"), D.ALL))), D.EPS)
    known = [i for i, g in enumerate(segs) if g[0] == "1"]
    if not known:
        return None
    for i, g in enumerate(segs):
        if g[0] not in "1*":
            return None
        e = I.deref(g[1].v if g[0] == "*" else g[1], st)
        if not is_str(e) or not D.subset(st.lang_of(e), flat):
            return None
    return rope_of(I, K("/"), segs, st)


@lib("os.path.dirname", "posixpath.dirname")
def p_dirname(I, a, kw, st):
    def go(args, st):
        v = args[0]
        if not is_str(v):
            return [(I.exc(st, "TypeError", "path"), st)]
        n = st.norm(v)
        if isinstance(n, K):
            return [(K(posixpath.dirname(n.v)), st)]
        return [(h, s) for h, t, s in path_split(I, n, st)]
    return I.res_args(a, st, go)


@lib("os.path.basename", "posixpath.basename")
def p_basename(I, a, kw, st):
    def go(args, st):
        v = args[0]
        if not is_str(v):
            return [(I.exc(st, "TypeError", "path"), st)]
        n = st.norm(v)
        if isinstance(n, K):
            return [(K(posixpath.basename(n.v)), st)]
        return [(t, s) for h, t, s in path_split(I, n, st)]
    return I.res_args(a, st, go)


@lib("os.path.split")
def p_split(I, a, kw, st):
    n = st.norm(a[0])
    if isinstance(n, K):
        return [(T([K(x) for x in posixpath.split(n.v)]), st)]
    return [(T((h, t)), s) for h, t, s in path_split(I, n, st)]


def rcut(I, v, sep, st):
    """Split at the last separator: [(head | None, tail, st)]."""
    n = st.norm(v)
    parts = n.parts if isinstance(n, S) else (n.v,)
    work = [(list(parts), (), st)]
    res = []
    while work:
        ps, post, s = work.pop()
        if not ps:
            res.append((None, mkstr(post), s))
            continue
        p = ps[-1]
        if isinstance(p, str):
            i = p.rfind(sep)
            if i >= 0:
                res.append((mkstr(ps[:-1] + [p[:i]]), mkstr((p[i + len(sep):],) + post), s))
            else:
                work.append((ps[:-1], (p,) + post, s))
            continue
        a = S((p,))
        if D.disjoint(s.lang_of(a), D.contains(sep)):
            work.append((ps[:-1], (p,) + post, s))
            continue
        s2 = s.fork()
        if s.refine(a, D.without(sep)):
            work.append((ps[:-1], (p,) + post, s))
        if s2.refine(a, D.contains(sep)):
            r, l = I.cut_last(s2, a, sep)
            res.append((mkstr(ps[:-1] + list(_parts(r))), mkstr(_parts(l) + post), s2))
    return res


def path_split(I, n, st):
    res = []
    for h, t, s in rcut(I, n, "/", st):
        if h is None:
            res.append((K(""), t, s))
            continue
        # head keeps its slash only when it consists of slashes
        for b, s2 in I.branch_lang(h, D.star(D.const("/")), s):
            if b:
                res.append((I.cat([h, K("/")]), t, s2))
            else:
                hs = strip_end(I, [(list(_parts(s2.norm(h))), s2)], D.mask_of("/"), "/", -1)
                for ps, s3 in hs:
                    res.append((mkstr(ps), t, s3))
    return res


SAFE_SEG = None


def clean_lang():
    """Relative paths that normpath leaves alone."""
    global SAFE_SEG
    if SAFE_SEG is None:
        seg = D.minus(D.without("/"), D.words(["", ".", ".."]))
        SAFE_SEG = D.concat(seg, D.star(D.concat(D.const("/"), seg)))
    return SAFE_SEG


@lib("os.path.normpath", "posixpath.normpath")
def p_normpath(I, a, kw, st):
    n = st.norm(a[0])
    if isinstance(n, K):
        return [(K(posixpath.normpath(n.v)), st)]
    cl = clean_lang()
    ok = D.union(cl, D.concat(D.const("/"), cl))
    res = []
    for b, s in I.branch_lang(n, ok, st):
        if b:
            res.append((n, s))
        else:
            # normal form: optional leading .. segments, then clean segments, or "." or absolute
            dd = D.concat(D.const(".."), D.star(D.const("/..")))
            rel = D.union(D.const("."), D.union(dd, D.union(cl, D.concat(dd, D.concat(D.const("/"), cl)))))
            ab = D.concat(D.union(D.const("/"), D.const("//")), D.union(D.EPS, cl))
            L = D.union(rel, ab)
            W = s.lang_of(n)
            if D.disjoint(W, D.prefix_lang("/")):
                L = rel
            res.append((s.atom(L), s))
    return res


@lib("os.path.relpath", "posixpath.relpath")
def p_relpath(I, a, kw, st):
    v = st.norm(a[0])
    base = st.norm(a[1]) if len(a) > 1 else kw.get("start", K("."))
    if isinstance(v, K) and isinstance(base, K):
        try:
            return [(K(posixpath.relpath(v.v, base.v)), st)]
        except ValueError:
            return [(I.exc(st, "ValueError", "no path"), st)]
    # base/rest -> rest for clean paths
    p = list(v.parts if isinstance(v, S) else (v.v,))
    q = list(base.parts if isinstance(base, S) else (base.v,)) if is_str(base) else None
    if q is not None:
        if base in (K(""), K(".")):
            return p_normpath(I, [v], {}, st)
        from .ops import _strip
        if _strip(p, q, 0) and not q and p and isinstance(p[0], str) and p[0].startswith("/"):
            rest = mkstr([p[0][1:]] + p[1:])
            res = []
            lead = D.union(D.EPS, D.const("/"))
            for b, s in I.branch_lang(v, D.concat(lead, clean_lang()), st):
                if b:
                    res.append((rest, s))
                else:
                    res.append((s.atom(D.ALL), s))
            return res
        if not p and not q:
            return [(K("."), st)]
    return [(st.atom(D.concat(D.DOT, D.ALL)), st)]


@lib("os.path.isabs")
def p_isabs(I, a, kw, st):
    return [(K(b), s) for b, s in I.branch_lang(a[0], D.prefix_lang("/"), st)]


@lib("os.path.splitext")
def p_splitext(I, a, kw, st):
    v = st.norm(a[0])
    if isinstance(v, K):
        return [(T([K(x) for x in posixpath.splitext(v.v)]), st)]
    x, y = st.atom(D.ALL), st.atom(D.ALL)
    I.learn(st, v, mkstr(_parts(x) + _parts(y)))
    return [(T((x, y)), st)]


@lib("os.path.commonprefix")
def p_commonprefix(I, a, kw, st):
    res = []
    for sg, s in I.to_segs(a[0], st):
        if not isinstance(sg, (Raise, Abort)) and all(g[0] == "1" for g in sg) and len(sg) == 2:
            x, y = s.norm(sg[0][1]), s.norm(sg[1][1])
            if isinstance(x, K) and isinstance(y, K):
                res.append((K(posixpath.commonprefix([x.v, y.v])), s))
                continue
            res.append((s.atom(D.ALL), s))
        else:
            res.append((s.atom(D.ALL), s))
    return res


@lib("os.path.abspath", "os.path.realpath", "os.path.expanduser", "os.getcwd", "os.path.normcase")
def p_abspath(I, a, kw, st):
    return [(st.atom(D.prefix_lang("/")), st)]


# -- misc ---------------------------------------------------------------------------------

def const_none(I, a, kw, st):
    return [(NONE, st)]


for _n in ("logging.info", "logging.warning", "logging.debug", "logging.error", "logging.basicConfig",
           "logging.getLogger", "logging.log", "logging.critical", "logging.exception", "time.sleep"):
    LIB[_n] = const_none


@lib("json.dumps")
def j_dumps(I, a, kw, st):
    return [(st.atom(D.concat(D.DOT, D.ALL)), st)]


@lib("time.time")
def t_time(I, a, kw, st):
    return [(U("float", st.new_id()), st)]


_DT_OK = D.union(RX.lang(r"(?:(?:[1-9][0-9]{3}|0[1-9][0-9]{2}|00[1-9][0-9]|000[1-9])-(?:0[1-9]|1[0-2])-(?:0[1-9]|1[0-9]|2[0-8])T(?:[01][0-9]|2[0-3]):[0-5][0-9](?::[0-5][0-9])?Z?)\Z"),
                 RX.lang(r"(?:19|20)[0-9][0-9]-(?:(?:0[13578]|1[02])-(?:0[1-9]|[12][0-9]|3[01])|(?:0[469]|11)-(?:0[1-9]|[12][0-9]|30)|02-(?:0[1-9]|1[0-9]|2[0-8]))T(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](?:\.[0-9]{6})?(?:Z|\+00:00)?\Z"))


@lib("dateutil.parser.parse")
def dt_parse(I, a, kw, st):
    """dateutil: a datetime, or ValueError (ParserError); certain only for plainly valid ASCII datetimes."""
    v = st.norm(a[0])
    L = st.lang_of(v)
    if D.subset(L, _DT_OK):
        return [(Q("datetime"), st)]
    s2 = st.fork()
    res = []
    if st.refine(v, _dt_not_bad()):
        res.append((Q("datetime"), st))
    res.append((I.exc(s2, "ValueError", "cannot parse datetime"), s2))
    return res


_NB = []


def _dt_not_bad():
    """Everything but plain ASCII datetimes with a field certainly out of range (dateutil raises ValueError for them)."""
    if not _NB:
        z = r"(?:Z|[+-][0-9]{2}:[0-9]{2})?"
        full = RX.lang(r"[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}(?::[0-9]{2})?%s\Z" % z)
        okr = RX.lang(r"[0-9]{4}-(?:0[1-9]|1[0-2])-(?:0[1-9]|[12][0-9]|3[01])T(?:[01][0-9]|2[0-3]):[0-5][0-9](?::[0-5][0-9])?%s\Z" % z)
        _NB.append(D.compl(D.minus(full, okr)))
    return _NB[0]


_D = r"(?:(?:19|20)[0-9][0-9]-(?:(?:0[13578]|1[02])-(?:0[1-9]|[12][0-9]|3[01])|(?:0[469]|11)-(?:0[1-9]|[12][0-9]|30)|02-(?:0[1-9]|1[0-9]|2[0-8])))"
_T = r"T(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]"


def _now(I, a, kw, st):
    """The current time; naive or with the timezone UTC."""
    tz = a[1] if len(a) > 1 else kw.get("tz", NONE)
    return [(Q("datetime", K("now"), FALSE if I.deref(tz, st) == NONE else TRUE), st)]


LIB["datetime.datetime.now"] = lambda I, a, kw, st: _now(I, [NONE] + list(a), kw, st)
LIB["datetime.datetime.utcnow"] = LIB["datetime.datetime.fromtimestamp"] = LIB["datetime.datetime.utcfromtimestamp"] = _now


def dt_replace(I, r, a, kw, st):
    if not r.args or set(kw) - {"tzinfo", "microsecond"} or a:
        return [(I.gap(st, "datetime.replace"), st)]
    tz = r.args[1] if "tzinfo" not in kw else FALSE if I.deref(kw["tzinfo"], st) == NONE else TRUE
    return [(Q("datetime", r.args[0], tz, *((TRUE,) if "microsecond" in kw or len(r.args) > 2 else ())), st)]


def dt_iso(I, r, a, kw, st):
    if not r.args or a or set(kw) - {"timespec"}:
        return [(I.gap(st, "datetime.isoformat"), st)]
    frac = "" if len(r.args) > 2 or kw.get("timespec") == K("seconds") else r"(?:\.[0-9]{6})?"
    return [(st.atom(RX.lang(_D + _T + frac + (r"\+00:00" if r.args[1] == TRUE else "") + r"\Z")), st)]


QM[("datetime", "replace")] = dt_replace
QM[("datetime", "isoformat")] = dt_iso
QM[("datetime", "timetuple")] = lambda I, r, a, kw, st: [(Q("timetuple"), st)]


@lib("calendar.timegm")
def timegm(I, a, kw, st):
    return [(N(), st)]
