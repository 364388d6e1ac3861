"""Operations on abstract values: truth, comparison, attributes, containers, arithmetic, text."""
import ast

from . import dfa as D
from .values import (K, S, N, U, R, T, Fn, Bm, Nm, Prop, C, M, Lib, Q, X, NONE, TRUE, FALSE,
                     HInst, HFrame, HList, HSet, HDict, HJ, HFwd, HNat, Raise, Abort, INJECTIVE, HASH_LEN,
                     mkstr, is_str, is_int, parts_of)
from .canon import Tm, copy_value

JKINDS = ("null", "bool", "int", "float", "str", "list", "dict")
JSET = frozenset(JKINDS)

STR_METHODS = set(m for m in dir(str) if not m.startswith("__"))
BYTES_METHODS = set(m for m in dir(bytes) if not m.startswith("__"))
LIST_METHODS = set(m for m in dir(list) if not m.startswith("__"))
DICT_METHODS = set(m for m in dir(dict) if not m.startswith("__"))
SET_METHODS = set(m for m in dir(set) if not m.startswith("__"))
TUPLE_METHODS = {"index", "count"}
INT_METHODS = set(m for m in dir(int) if not m.startswith("__"))
FLOAT_METHODS = set(m for m in dir(float) if not m.startswith("__"))

DIGITS = D.charset(D.mask_range(48, 57))
NAT = D.union(D.const("0"), D.concat(D.charset(D.mask_range(49, 57)), D.star(DIGITS)))
INTLANG = D.union(NAT, D.concat(D.const("-"), D.concat(D.charset(D.mask_range(49, 57)), D.star(DIGITS))))


class Ops:
    """Mixin with value operations."""

    # -- JSON values of unknown kind -----------------------------------------
    def resolve_kind(self, a, kind, st):
        if kind == "list":
            b = st.alloc(HJ(JSET))
            st.heap[a] = HList([("*", Tm(b, frozenset([b.a])))])
            return R(a)
        if kind == "dict":
            b = st.alloc(HJ(JSET))
            k = st.atom(D.ALL)
            st.heap[a] = HDict([("*", Tm(T((k, b)), frozenset([k.parts[0], b.a])))])
            return R(a)
        v = {"null": lambda: NONE, "bool": lambda: U("bool", st.new_id()), "int": lambda: N(),
             "float": lambda: U("float", st.new_id()), "str": lambda: st.atom(D.ALL)}[kind]()
        st.heap[a] = HFwd(v)
        return v

    def resolve(self, v, st):
        """Split a JSON value into its possible kinds."""
        o = st.heap[v.a]
        kinds = [k for k in JKINDS if k in o.kinds]
        res = []
        for i, k in enumerate(kinds):
            s = st if i == len(kinds) - 1 else st.fork()
            res.append((self.resolve_kind(v.a, k, s), s))
        return res

    def narrow(self, v, kinds, st):
        """(value, state) with the JSON value restricted to kinds, or None."""
        ks = st.heap[v.a].kinds & kinds
        if not ks:
            return None
        if len(ks) == 1:
            return self.resolve_kind(v.a, next(iter(ks)), st), st
        st.heap[v.a] = HJ(ks)
        return v, st

    def is_hj(self, v, st):
        return isinstance(v, R) and isinstance(st.heap[v.a], HJ)

    def each_kind(self, v, st, f):
        """Apply f(value, state) after resolving an unknown JSON value."""
        v = self.deref(v, st)
        if self.is_hj(v, st):
            res = []
            for w, s in self.resolve(v, st):
                res.extend(f(w, s))
            return res
        return f(v, st)

    # -- truth ---------------------------------------------------------------
    def truth(self, v, st):
        v = self.deref(v, st)
        if isinstance(v, K):
            return [(bool(v.v), st)]
        if isinstance(v, S):
            return self.branch_lang(v, D.EPS, st, invert=True)
        if isinstance(v, N):
            if v.lo is not None and v.lo > 0 or v.hi is not None and v.hi < 0:
                return [(True, st)]
            return self.compare(ast.NotEq(), v, K(0), st)
        if isinstance(v, T):
            return [(len(v.items) > 0, st)]
        if isinstance(v, U):
            if v.kind in ("bool", "float", "bytes"):
                return self.ubranch(v, st)
            return [(True, st)]
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HJ):
                res = []
                for w, s in self.resolve(v, st):
                    res.extend(self.truth(w, s))
                return res
            if isinstance(o, (HList, HSet, HDict)):
                segs = o.ents if isinstance(o, HDict) else o.segs
                if any(s[0] != "*" for s in segs):
                    return [(True, st)]
                if not segs:
                    return [(False, st)]
                s2 = st.fork()
                s2.heap[v.a] = self.without_manys(o)
                if self.track_blame and not st.generic:
                    st.blame = True
                return [(True, st), (False, s2)]
            if isinstance(o, HInst):
                for name in ("__bool__", "__len__"):
                    m = self.p.lookup(o.cls, name, st)
                    if m is not None:
                        res = []
                        for w, s in self.call_fn(m, [v], {}, st, self.cur_node):
                            res.extend([(w, s)] if isinstance(w, (Raise, Abort)) else self.truth(w, s))
                        return res
            return [(True, st)]
        if isinstance(v, X):
            s2 = st.fork()
            self.gap(st, "decision on unknown value (%s)" % v.why)
            self.gap(s2, "decision on unknown value (%s)" % v.why)
            return [(True, st), (False, s2)]
        if isinstance(v, Q):
            h = self.p.q_truth.get(v.kind)
            if h:
                return h(self, v, st)
        return [(True, st)]

    def ubranch(self, v, st):
        """Branch on an unknown scalar, remembering the outcome by its identity."""
        if v.ident is not None:
            L = st.lang.get(v.ident)
            if L is not None:
                return [(L is D.EPS, st)]
        s2 = st.fork()
        if isinstance(v.ident, int):
            st.lang[v.ident] = D.EPS
            s2.lang[v.ident] = D.DOT
        return [(True, st), (False, s2)]

    def without_manys(self, o):
        if isinstance(o, HDict):
            return HDict([e for e in o.ents if e[0] != "*"], o.absent, o.default)
        if isinstance(o, HSet):
            return HSet([s for s in o.segs if s[0] != "*"], o.absent, o.frozen)
        return HList([s for s in o.segs if s[0] != "*"])

    def branch_lang(self, v, L, st, invert=False):
        """[(in L?, st)] for a string value."""
        s2 = st.fork()
        res = []
        if st.refine(v, L):
            res.append((not invert, st))
        if s2.refine(v, D.compl(L)):
            res.append((invert, s2))
        return res

    # -- equality ------------------------------------------------------------
    def eq(self, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        if is_str(a) and is_str(b):
            return self.eq_str(a, b, st)
        if isinstance(a, K) and isinstance(b, K):
            return [(a.v == b.v, st)]
        ja, jb = self.is_hj(a, st), self.is_hj(b, st)
        if ja and jb:
            if a == b:
                return [(True, st)]
            s2 = st.fork()
            return [(True, st), (False, s2)]
        if jb:
            a, b, ja, jb = b, a, True, False
        if ja:
            ks = self.kinds_of(b, st)
            if ks is None:
                s2 = st.fork()
                return [(True, st), (False, s2)]
            res = []
            s2 = st.fork()
            r = self.narrow(a, ks, st)
            if r is not None:
                w, s = r
                if self.is_hj(w, s):
                    s3 = s.fork()
                    res += [(True, s), (False, s3)]
                else:
                    res += self.eq(w, b, s)
            r = self.narrow(a, JSET - ks, s2)
            if r is not None:
                res.append((False, r[1]))
            return res
        if isinstance(a, X) or isinstance(b, X):
            self.gap(st, "comparison with unknown value")
            s2 = st.fork()
            return [(True, st), (False, s2)]
        if is_int(a) and is_int(b):
            return self.compare_num(ast.Eq(), a, b, st)
        if isinstance(a, T) and isinstance(b, T):
            if len(a.items) != len(b.items):
                return [(False, st)]
            return self.eq_seq(a.items, b.items, st)
        if isinstance(a, U) or isinstance(b, U):
            if a == b and getattr(a, "ident", None) is not None:
                return [(True, st)]
            ka, kb = self.kinds_of(a, st), self.kinds_of(b, st)
            if ka is not None and kb is not None and not ka & kb:
                return [(False, st)]
            if isinstance(a, U) and a.kind == "bool" and isinstance(b, K) and isinstance(b.v, bool):
                return [(t == b.v, s) for t, s in self.ubranch(a, st)]
            s2 = st.fork()
            return [(True, st), (False, s2)]
        if isinstance(a, R) and isinstance(b, R):
            if a.a == b.a:
                return [(True, st)]
            oa, ob = st.heap[a.a], st.heap[b.a]
            if type(oa) is not type(ob):
                return [(False, st)]
            if isinstance(oa, HInst):
                m = self.p.lookup(oa.cls, "__eq__", st)
                if m is None:
                    return [(False, st)]
                res = []
                for w, s in self.call_fn(m, [a, b], {}, st, self.cur_node):
                    res.extend([(w, s)] if isinstance(w, (Raise, Abort)) else self.truth(w, s))
                return res
            if isinstance(oa, HList) and all(s[0] == "1" for s in oa.segs + ob.segs):
                if len(oa.segs) != len(ob.segs):
                    return [(False, st)]
                return self.eq_seq([s[1] for s in oa.segs], [s[1] for s in ob.segs], st)
            if isinstance(oa, HSet) and all(s[0] == "1" and isinstance(s[1], K) for s in oa.segs + ob.segs):
                return [(set(s[1] for s in oa.segs) == set(s[1] for s in ob.segs), st)]
            if isinstance(oa, (HSet, HDict)):
                return self.eq_cont(a, b, st)
            if isinstance(oa, HNat):
                h = self.p.nat_eq.get(oa.kind)
                if h:
                    return h(self, a, b, st)
                return [(False, st)]
            s2 = st.fork()
            return [(True, st), (False, s2)]
        if isinstance(a, Q) and isinstance(b, Q):
            h = self.p.q_eq.get(a.kind)
            if h:
                return h(self, a, b, st)
            if a == b:
                return [(True, st)]
            if a.kind == b.kind == "bytes":
                return self.eq(a.args[0], b.args[0], st)
            if a.kind == b.kind == "keys":
                return self.eq_cont(a, b, st)
            s2 = st.fork()
            return [(True, st), (False, s2)]
        if type(a) is type(b) and not isinstance(a, (S, N)):
            return [(a == b, st)]
        ka, kb = self.kinds_of(a, st), self.kinds_of(b, st)
        if ka is not None and kb is not None and not (ka & kb):
            return [(False, st)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Q) and not isinstance(y, (Q, X)):
                h = self.p.q_eqk.get(x.kind)
                if h:
                    return h(self, x, y, st)
        if isinstance(a, Q) or isinstance(b, Q):
            s2 = st.fork()
            return [(True, st), (False, s2)]
        return [(False, st)]

    def kinds_of(self, v, st):
        """JSON kinds a value can be equal to."""
        if isinstance(v, K):
            if v.v is None:
                return frozenset(["null"])
            if isinstance(v.v, str):
                return frozenset(["str"])
            if isinstance(v.v, (bool, int, float)):
                return frozenset(["bool", "int", "float"])
            return frozenset()
        if isinstance(v, S):
            return frozenset(["str"])
        if isinstance(v, N) or isinstance(v, U) and v.kind in ("bool", "float"):
            return frozenset(["bool", "int", "float"])
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HList):
                return frozenset(["list"])
            if isinstance(o, HDict):
                return frozenset(["dict"])
            if isinstance(o, HJ):
                return o.kinds
            return frozenset()
        if isinstance(v, (T, Fn, Bm, Nm, C, M, Lib)):
            return frozenset()
        return None

    def eq_seq(self, xs, ys, st):
        cur = [st]
        res = []
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for t, s2 in self.eq(x, y, s):
                    if t is True:
                        nxt.append(s2)
                    else:
                        res.append((t, s2))
            cur = nxt
        res.extend((True, s) for s in cur)
        return res

    def eq_dict(self, a, b, st):
        """Equality of two dicts whose entries are all known individually."""
        oa, ob = st.heap[a.a], st.heap[b.a]
        if len(oa.ents) != len(ob.ents):
            return [(False, st)]
        res = []
        cur = [st]
        for e in oa.ents:
            nxt = []
            for s in cur:
                for v, s2 in self.find(b.a, e[1], s):
                    if v is None:
                        res.append((False, s2))
                    elif isinstance(v, Raise):
                        res.append((v, s2))
                    else:
                        for t, s3 in self.eq(e[2], v, s2):
                            if t is True:
                                nxt.append(s3)
                            else:
                                res.append((t, s3))
            cur = nxt
        return res + [(True, s) for s in cur]

    def eq_cont(self, a, b, st):
        """Equality of sets or dicts: decided only on individually known elements."""
        if isinstance(a, R) and isinstance(b, R) and isinstance(st.heap[a.a], HDict) and isinstance(st.heap[b.a], HDict) \
                and all(e[0] == "1" for e in st.heap[a.a].ents + st.heap[b.a].ents):
            return self.eq_dict(a, b, st)
        res = []
        cur = [st]
        for x, y in ((a, b), (b, a)):
            for item in self.ones_of(x, st):
                nxt = []
                for s in cur:
                    for t, s2 in self.contains(y, item, s):
                        if t is True:
                            nxt.append(s2)
                        else:
                            res.append((t, s2))
                cur = nxt
        for s in cur:
            sure = True
            for x in (a, b):
                o = s.heap[x.a if isinstance(x, R) else x.args[0].a]
                if isinstance(o, HDict) and isinstance(x, R) and o.ents:
                    sure = False
                if any(e[0] == "*" for e in (o.ents if isinstance(o, HDict) else o.segs)):
                    sure = False
            s2 = s.fork() if not sure else None
            res.append((True, s))
            if s2 is not None:
                if self.track_blame and not s2.generic:
                    s2.blame = True
                res.append((False, s2))
        return res

    def ones_of(self, x, st):
        o = st.heap[x.a if isinstance(x, R) else x.args[0].a]
        return [e[1] for e in (o.ents if isinstance(o, HDict) else o.segs) if e[0] == "1"]

    def eq_str(self, a, b, st):
        if a == b:
            return [(True, st)]
        na, nb = st.norm(a), st.norm(b)
        if na == nb:
            return [(True, st)]
        if isinstance(na, K) and isinstance(nb, K):
            return [(na.v == nb.v, st)]
        p, q = list(na.v if False else (na.parts if isinstance(na, S) else (na.v,))), list(nb.parts if isinstance(nb, S) else (nb.v,))
        # strip common prefixes and suffixes
        ok = _strip(p, q, 0) and _strip(p, q, -1)
        if not ok:
            return [(False, st)]
        if not p and not q:
            return [(True, st)]
        if not p or not q:
            return self.branch_lang(mkstr(p or q), D.EPS, st)
        va, vb = mkstr(p), mkstr(q)
        if isinstance(va, K):
            va, vb, p, q = vb, va, q, p
        if isinstance(vb, K):
            return self.branch_lang(va, D.const(vb.v), st)
        la, lb = st.lang_of(va), st.lang_of(vb)
        if D.disjoint(la, lb):
            return [(False, st)]
        if len(p) == 1 and len(q) == 1:
            x, y = p[0], q[0]
            if isinstance(x, int) and isinstance(y, int):
                if frozenset((x, y)) in st.ne:
                    return [(False, st)]
                s2 = st.fork()
                res = []
                if x < y:
                    x, y = y, x
                if self.subst(st, x, (y,)):
                    res.append((True, st))
                s2.add_ne(x, y)
                res.append((False, s2))
                return res
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                if INJECTIVE(x[0]):
                    return self.eq(x[1], y[1], st)
                s2 = st.fork()
                return [(True, st), (False, s2)]
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0].startswith("h:") and y[0].startswith("h:"):
                return [(False, st)]
        # a string against its own case folding: equal iff nothing is moved
        for x, other in ((p, q), (q, p)):
            if len(x) == 1 and isinstance(x[0], tuple) and x[0][0] in CASE_MOVED:
                w = st.norm(x[0][1])
                if list(parts_of(w)) == other and not st.lang_of(w).symbols() >> 128:
                    some = D.concat_all([D.ALL, D.charset(CASE_MOVED[x[0][0]]), D.ALL])
                    return [(not t, s) for t, s in self.branch_lang(w, some, st)]
        # one side a single atom not occurring in the other
        for x, other in ((p, q), (q, p)):
            if len(x) == 1 and isinstance(x[0], int) and not _occurs(st, x[0], other):
                s2 = st.fork()
                res = []
                if self.subst(st, x[0], tuple(other)):
                    res.append((True, st))
                res.append((False, s2))
                return res
        s2 = st.fork()
        L = D.inter(la, lb)
        res = []
        if st.refine(va, L) and st.refine(vb, L):
            res.append((True, st))
        res.append((False, s2))
        return res

    def subst(self, st, x, parts):
        """Learn that atom x equals the rope; False if impossible."""
        L = st.lang[x]
        v = S(tuple(parts))
        if not st.refine(v, L):
            return False
        new = st.lang_of(v)
        L2 = D.inter(L, new)
        if L2 is D.EMPTY:
            return False
        st.sub[x] = tuple(parts)
        st.lang[x] = L2
        if len(parts) == 1 and isinstance(parts[0], int):
            y = parts[0]
            add = []
            for pr in st.ne:
                if x in pr:
                    o = [i for i in pr if i != x]
                    if not o or o[0] == y:
                        return False
                    add.append(frozenset((y, o[0])))
            if add:
                st.ne = st.ne | frozenset(add)
        return True

    # -- comparisons -----------------------------------------------------------
    def compare(self, op, a, b, st):
        if isinstance(op, ast.Eq):
            return self.eq(a, b, st)
        if isinstance(op, ast.NotEq):
            return [((not t) if isinstance(t, bool) else t, s) for t, s in self.eq(a, b, st)]
        if isinstance(op, ast.Is):
            return self.is_(a, b, st)
        if isinstance(op, ast.IsNot):
            return [((not t) if isinstance(t, bool) else t, s) for t, s in self.is_(a, b, st)]
        if isinstance(op, ast.In):
            return self.contains(b, a, st)
        if isinstance(op, ast.NotIn):
            return [((not t) if isinstance(t, bool) else t, s) for t, s in self.contains(b, a, st)]
        return self.order(op, a, b, st)

    def is_(self, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        if isinstance(b, K) and not isinstance(a, K) or not isinstance(b, K) and isinstance(a, K):
            k, o = (b, a) if isinstance(b, K) else (a, b)
            if k.v is None:
                if self.is_hj(o, st):
                    res = []
                    s2 = st.fork()
                    r = self.narrow(o, frozenset(["null"]), st)
                    if r:
                        res.append((True, r[1]))
                    r = self.narrow(o, JSET - {"null"}, s2)
                    if r:
                        res.append((False, r[1]))
                    return res
                if isinstance(o, X):
                    return self.truth(o, st)
                return [(False, st)]
            if isinstance(k.v, bool):
                if self.is_hj(o, st) or isinstance(o, U) and o.kind == "bool":
                    return self.each_kind(o, st, lambda w, s: self.eq(w, k, s) if isinstance(w, U) and w.kind == "bool" else [(False, s)])
                if isinstance(o, X):
                    return self.truth(o, st)
                return [(False, st)]
        if isinstance(a, K) and isinstance(b, K):
            return [(a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v), st)]
        if isinstance(a, R) and isinstance(b, R):
            return [(a.a == b.a, st)]
        if isinstance(a, X) or isinstance(b, X):
            return self.truth(X("is"), st)
        return [(a == b, st)]

    def order(self, op, a, b, st):
        def go2(a, b, st):
            if is_int(a) and is_int(b):
                return self.compare_num(op, a, b, st)
            if is_str(a) and is_str(b):
                na, nb = st.norm(a), st.norm(b)
                if isinstance(na, K) and isinstance(nb, K):
                    return [(_cmp(op, na.v, nb.v), st)]
                wa, wb = st.lang_of(na).words(12), st.lang_of(nb).words(12)
                if wa is not None and wb is not None:
                    # finite: split into the concrete cases
                    res = []
                    for x in wa:
                        for y in wb:
                            s = st.fork()
                            if s.refine(na, D.const(x)) and s.refine(nb, D.const(y)):
                                res.append((_cmp(op, x, y), s))
                    return res
                s2 = st.fork()
                return [(True, st), (False, s2)]
            if isinstance(a, K) and isinstance(b, K):
                try:
                    return [(_cmp(op, a.v, b.v), st)]
                except TypeError:
                    return [(self.exc(st, "TypeError", "unorderable"), st)]
            sa, sb = self.as_set(a, st), self.as_set(b, st)
            if sa is not None and sb is not None:
                return self.set_order(op, sa, sb, st)
            if isinstance(a, T) and isinstance(b, T):
                if all(isinstance(x, K) for x in a.items + b.items):
                    try:
                        return [(_cmp(op, tuple(x.v for x in a.items), tuple(x.v for x in b.items)), st)]
                    except TypeError:
                        return [(self.exc(st, "TypeError", "unorderable"), st)]
                s2 = st.fork()
                return [(True, st), (False, s2)]
            num = lambda v: is_int(v) or isinstance(v, U) and v.kind in ("bool", "float") or isinstance(v, K) and isinstance(v.v, (bool, float))
            if num(a) and num(b):
                s2 = st.fork()
                return [(True, st), (False, s2)]
            if isinstance(a, X) or isinstance(b, X):
                return self.truth(X("order"), st)
            if isinstance(a, Q) or isinstance(b, Q) or isinstance(a, R) and isinstance(st.heap[a.a], (HInst, HNat, HList)):
                if isinstance(a, R) and isinstance(st.heap[a.a], HList) and isinstance(b, R) and isinstance(st.heap[b.a], HList):
                    s2 = st.fork()
                    return [(True, st), (False, s2)]
                return self.truth(X("order"), st)
            return [(self.exc(st, "TypeError", "unorderable"), st)]
        return self.each_kind(a, st, lambda x, s: self.each_kind(b, s, lambda y, s2: go2(self.deref(x, s2), y, s2)))

    def compare_num(self, op, a, b, st):
        al, ah = (a.v, a.v) if isinstance(a, K) else (a.lo, a.hi)
        bl, bh = (b.v, b.v) if isinstance(b, K) else (b.lo, b.hi)
        t = _cmp_iv(op, al, ah, bl, bh)
        if t is not None:
            return [(t, st)]
        s2 = st.fork()
        res = []
        for val, s in ((True, st), (False, s2)):
            ok = True
            for x, ol, oh, flip in ((a, bl, bh, False), (b, al, ah, True)):
                if isinstance(x, N) and isinstance(x.src, S):
                    r = _refine_iv(op, val, x.lo, x.hi, ol, oh, flip)
                    if r is None or max(r[0] or 0, r[1] or 0) < 400 and not s.refine(x.src, D.repeat(D.DOT, r[0] or 0, r[1])):
                        ok = False
                        break
                    continue
                if isinstance(x, N) and x.src is not None and x.src in s.heap:
                    r = _refine_iv(op, val, x.lo, x.hi, ol, oh, flip)
                    if r is None:
                        ok = False
                        break
                    lo, hi = r
                    o = s.heap[x.src]
                    if not isinstance(o, (HList, HSet, HDict)):
                        continue
                    segs = o.ents if isinstance(o, HDict) else o.segs
                    ones = sum(1 for g in segs if g[0] != "*")
                    if hi is not None and hi < (x.lo or 0):
                        ok = False
                        break
                    if hi is not None and hi == ones and any(g[0] == "*" for g in segs) and not isinstance(o, HSet):
                        s.heap[x.src] = self.without_manys(o)
                    elif hi == 0:
                        s.heap[x.src] = self.without_manys(o)
                    elif lo is not None and lo > ones and self.track_blame and not s.generic:
                        s.blame = True
            if ok:
                res.append((val, s))
        return res

    # -- membership ----------------------------------------------------------
    def contains(self, c, x, st):
        c, x = self.deref(c, st), self.deref(x, st)
        if is_str(c):
            return self.each_kind(x, st, lambda w, s: self.substr(c, w, s))
        if isinstance(c, T):
            return self.in_seq([("1", y) for y in c.items], x, st)
        if isinstance(c, Q):
            if c.kind in ("keys",):
                return self.contains(c.args[0], x, st)
            if c.kind == "values":
                o = st.heap[c.args[0].a]
                return self.in_seq([("1", e[2]) if e[0] == "1" else ("*", Tm(e[1].v.items[1], e[1].ids)) for e in o.ents], x, st)
            h = self.p.q_contains.get(c.kind)
            if h:
                return h(self, c, x, st)
        if isinstance(c, R):
            o = st.heap[c.a]
            if isinstance(o, HJ):
                return self.each_kind(c, st, lambda w, s: self.contains(w, x, s))
            if isinstance(o, HList):
                return self.in_seq(o.segs, x, st)
            if isinstance(o, HSet) and o.src and isinstance(st.norm(x) if is_str(x) else x, K):
                return self.in_seq(tuple(g[:2] for g in o.segs if g[0] == "1") + o.src, x, st)
            if isinstance(o, (HDict, HSet)):
                res = []
                for r, s in self.find(c.a, x, st):
                    res.append((r, s) if isinstance(r, (Raise, Abort)) else (r is not None, s))
                return res
            if isinstance(o, HInst):
                m = self.p.lookup(o.cls, "__contains__", st)
                if m is not None:
                    res = []
                    for w, s in self.call_fn(m, [c, x], {}, st, self.cur_node):
                        res.extend([(w, s)] if isinstance(w, (Raise, Abort)) else self.truth(w, s))
                    return res
        if isinstance(c, X):
            return self.truth(c, st)
        if isinstance(c, Q):
            return self.truth(X("in " + c.kind), st)
        return [(self.exc(st, "TypeError", "not a container"), st)]

    def substr(self, c, x, st):
        if not is_str(x):
            if isinstance(x, X):
                return self.truth(x, st)
            return [(self.exc(st, "TypeError", "in <string> requires string"), st)]
        nx = st.norm(x)
        if isinstance(nx, K):
            return self.branch_lang(c, D.contains(nx.v), st)
        nc = st.norm(c)
        if nc == nx:
            return [(True, st)]
        s2 = st.fork()
        return [(True, st), (False, s2)]

    def in_seq(self, segs, x, st):
        res = []
        cur = [st]
        # fast path: constants against a string
        if is_str(x) and all(g[0] == "1" and isinstance(g[1], K) for g in segs):
            ws = [g[1].v for g in segs if isinstance(g[1].v, str)]
            L = D.words(ws) if ws else D.EMPTY
            return self.branch_lang(x, L, st)
        for g in segs:
            nxt = []
            for s in cur:
                if g[0] == "1":
                    for t, s2 in self.eq(x, g[1], s):
                        (nxt if t is False else res).append(s2 if t is False else (t, s2))
                elif g[0] == "*":
                    s2 = s.fork()
                    e = copy_value(s2, g[1].v, g[1].ids)
                    for t, s3 in self.eq(x, e, s2):
                        if t is not False:
                            if self.track_blame and not s3.generic:
                                s3.blame = True
                            res.append((t, s3))
                    nxt.append(s)
                else:
                    if is_str(x):
                        nx = s.norm(x)
                        if isinstance(nx, K):
                            w, sep = nx.v, g[2]
                            if sep in w:
                                nxt.append(s)
                                continue
                            sp = D.const(sep)
                            pre = D.union(D.EPS, D.concat(D.ALL, sp))
                            post = D.union(D.EPS, D.concat(sp, D.ALL))
                            L = D.concat(pre, D.concat(D.const(w), post))
                            for t, s2 in self.branch_lang(S((g[1],)), L, s):
                                (res if t else nxt).append((True, s2) if t else s2)
                            continue
                    s2 = s.fork()
                    res.append((True, s2))
                    nxt.append(s)
            cur = nxt
        res.extend((False, s) for s in cur)
        return res

    # -- dict and set lookup ---------------------------------------------------
    def find(self, a, key, st):
        """[(value | True for sets | None if absent | Raise, st)] for a key."""
        key = self.deref(key, st)
        if self.is_hj(key, st):
            res = []
            for w, s in self.resolve(key, st):
                res.extend(self.find(a, w, s))
            return res
        if isinstance(key, R) and isinstance(st.heap[key.a], (HList, HDict, HSet)) and not getattr(st.heap[key.a], "frozen", False):
            return [(self.exc(st, "TypeError", "unhashable type"), st)]
        if isinstance(key, X):
            self.gap(st, "lookup of unknown key")
            s2 = st.fork()
            return [(X("value"), st), (None, s2)]
        o = st.heap[a]
        isd = isinstance(o, HDict)
        ents = o.ents if isd else o.segs
        nk = st.norm(key) if isinstance(key, S) else key
        # certain hit
        for e in ents:
            if e[0] == "1":
                k1 = e[1]
                if k1 == key or k1 == nk or (isinstance(k1, S) and isinstance(nk, S) and st.norm(k1) == nk):
                    return [(e[2] if isd else True, st)]
        if isinstance(nk, K) and not any(e[0] == "*" for e in ents) and all(isinstance(e[1], K) for e in ents):
            return [(None, st)]
        # a string key against many constant keys: decide by language
        res = []
        cur = [st]
        for e in ents:
            if e[0] != "1":
                continue
            nxt = []
            for s in cur:
                for t, s2 in self.eq(key, e[1], s):
                    if t is True:
                        res.append((self._ent(s2, a, e, isd), s2))
                    elif t is False:
                        nxt.append(s2)
                    else:
                        res.append((t, s2))
            cur = nxt
        many = [e for e in ents if e[0] == "*"]
        if not many:
            res.extend((None, s) for s in cur)
            return res
        for s in cur:
            if self.known_absent(s, a, key):
                res.append((None, s))
                continue
            for e in many:
                s2 = s.fork()
                c = copy_value(s2, e[1].v, e[1].ids)
                k2, v2 = (c.items if isd else (c, True))
                for t, s3 in self.eq(key, k2, s2):
                    if t is True:
                        o3 = s3.heap[a]
                        if isd:
                            s3.heap[a] = HDict(o3.ents + (("1", key, v2, True),), o3.absent, o3.default)
                        else:
                            s3.heap[a] = HSet(o3.segs + (("1", key, True),), o3.absent, o3.frozen)
                        if self.track_blame and not s3.generic:
                            s3.blame = True
                        res.append((v2, s3))
            o3 = s.heap[a]
            ak = s.norm(key) if isinstance(key, S) else key
            if isinstance(ak, (K, S)):
                s.heap[a] = HDict(o3.ents, o3.absent | {ak}, o3.default) if isd else HSet(o3.segs, o3.absent | {ak}, o3.frozen)
            res.append((None, s))
        return res

    def _ent(self, st, a, e, isd):
        if not isd:
            return True
        for x in st.heap[a].ents:
            if x[0] == "1" and x[1] == e[1]:
                return x[2]
        return e[2]

    def known_absent(self, st, a, key):
        ab = st.heap[a].absent
        if not ab:
            return False
        if key in ab:
            return True
        nk = st.norm(key) if isinstance(key, S) else key
        return any(x == nk or (isinstance(x, S) and st.norm(x) == nk) for x in ab)

    def setkey(self, a, key, v, st):
        """d[key] = v: [(None | Raise, st)]."""
        res = []
        for r, s in self.find(a, key, st):
            if isinstance(r, (Raise, Abort)):
                res.append((r, s))
                continue
            key2 = self.deref(key, s)
            o = s.heap[a]
            if r is None:
                nk = s.norm(key2) if isinstance(key2, S) else key2
                self.wr(s, a, HDict(o.ents + (("1", key2, v),), frozenset(x for x in o.absent if x != nk and x != key2), o.default))
            else:
                ents = []
                done = False
                nk = s.norm(key2) if isinstance(key2, S) else key2
                for e in o.ents:
                    if not done and e[0] == "1" and (e[1] == key2 or (s.norm(e[1]) if isinstance(e[1], S) else e[1]) == nk):
                        ents.append(("1", e[1], v))
                        done = True
                    else:
                        ents.append(e)
                if not done:
                    ents.append(("1", key2, v))
                self.wr(s, a, HDict(ents, o.absent, o.default))
            res.append((NONE, s))
        return res

    def delkey(self, a, key, st):
        """[(removed value | None, st)]"""
        res = []
        for r, s in self.find(a, key, st):
            if r is not None and not isinstance(r, (Raise, Abort)):
                key2 = self.deref(key, s)
                nk = s.norm(key2) if isinstance(key2, S) else key2
                o = s.heap[a]
                same = lambda k: k == key2 or (s.norm(k) if isinstance(k, S) else k) == nk
                ab = o.absent | ({nk} if isinstance(nk, (K, S)) else frozenset())
                if isinstance(o, HDict):
                    self.wr(s, a, HDict([e for e in o.ents if not (e[0] == "1" and same(e[1]))], ab, o.default))
                else:
                    self.wr(s, a, HSet([e for e in o.segs if not (e[0] == "1" and same(e[1]))], ab, o.frozen))
            res.append((r, s))
        return res

    # -- sets ------------------------------------------------------------------
    def as_set(self, v, st):
        """Segments of a set-like value or None."""
        if isinstance(v, Q) and v.kind == "keys":
            return v
        if isinstance(v, R) and isinstance(st.heap[v.a], HSet):
            return v
        return None

    def segs_of(self, v, st):
        """Element segments of an iterable container (no order meaning for sets)."""
        v = self.deref(v, st)
        if isinstance(v, T):
            return [("1", x) for x in v.items]
        if isinstance(v, Q) and v.kind == "keys":
            v = v.args[0]
        if isinstance(v, Q) and v.kind in ("values", "items"):
            o = st.heap[v.args[0].a]
            out = []
            for e in o.ents:
                if e[0] == "1":
                    out.append(("1", e[2] if v.kind == "values" else T((e[1], e[2]))))
                else:
                    out.append(("*", Tm(e[1].v.items[1] if v.kind == "values" else e[1].v, e[1].ids)))
            return out
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HList):
                return list(o.segs)
            if isinstance(o, HSet):
                return [s[:2] for s in o.segs]
            if isinstance(o, HDict):
                out = []
                for e in o.ents:
                    if e[0] == "1":
                        out.append(("1", e[1]))
                    else:
                        out.append(("*", Tm(e[1].v.items[0], e[1].ids)))
                return out
        if isinstance(v, K) and isinstance(v.v, str):
            return [("1", K(c)) for c in v.v]
        return None

    def set_order(self, op, a, b, st):
        """a <= b, a < b, a >= b, a > b on sets."""
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b = b, a
        strict = isinstance(op, (ast.Lt, ast.Gt))
        res = []
        for t, s in self.subset(a, b, st):
            if t is not True or not strict:
                res.append((t, s))
                continue
            # proper: some element of b is not in a
            cur = [s]
            for x in self.ones_of(b, s):
                nxt = []
                for s2 in cur:
                    for t2, s3 in self.contains(a, x, s2):
                        if t2 is False:
                            res.append((True, s3))
                        elif t2 is True:
                            nxt.append(s3)
                        else:
                            res.append((t2, s3))
                cur = nxt
            for s2 in cur:
                if self.has_manys(b, s2):
                    s3 = s2.fork()
                    res.append((True, s3))
                    if self.track_blame and not s2.generic and not self.has_manys(a, s2):
                        s3.blame = True
                if self.has_manys(b, s2) and self.track_blame and not s2.generic and self.has_manys(a, s2):
                    s2.blame = True
                res.append((False, s2))
        return res

    def has_manys(self, x, st):
        o = st.heap[x.a if isinstance(x, R) else x.args[0].a]
        return any(e[0] == "*" for e in (o.ents if isinstance(o, HDict) else o.segs))

    def subset(self, a, b, st):
        res = []
        cur = [st]
        for x in self.ones_of(a, st):
            nxt = []
            for s in cur:
                for t, s2 in self.contains(b, x, s):
                    (nxt if t is True else res).append(s2 if t is True else (t, s2))
            cur = nxt
        for s in cur:
            if self.has_manys(a, s):
                s2 = s.fork()
                if self.track_blame and not s2.generic:
                    s2.blame = True
                res.append((False, s2))
            res.append((True, s))
        return res

    # -- attributes ------------------------------------------------------------
    def getattr(self, v, name, st):
        v = self.deref(v, st)
        if isinstance(v, S) or isinstance(v, K) and isinstance(v.v, str):
            if name in STR_METHODS:
                return [(Nm(v, name), st)]
            return [(self.exc(st, "AttributeError", name), st)]
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HInst):
                cv = self.p.lookup(o.cls, name, st)
                if isinstance(cv, Prop):
                    return self.call_fn(cv.fget, [v], {}, st, self.cur_node)
                if name in o.attrs:
                    return [(self.deref(o.attrs[name], st), st)]
                if cv is not None:
                    return [(self.bindto(cv, v, C(o.cls), st), st)]
                if name == "__class__":
                    return [(C(o.cls), st)]
                if name == "__dict__":
                    return [(st.alloc(HDict([("1", K(k), x) for k, x in o.attrs.items()])), st)]
                h = self.p.inst_attr.get(name)
                if h:
                    r = h(self, v, st)
                    if r is not None:
                        return r
                return [(self.exc(st, "AttributeError", name), st)]
            if isinstance(o, HJ):
                return self.each_kind(v, st, lambda w, s: self.getattr(w, name, s))
            table = LIST_METHODS if isinstance(o, HList) else DICT_METHODS if isinstance(o, HDict) else SET_METHODS if isinstance(o, HSet) else None
            if table is not None:
                if name in table:
                    return [(Nm(v, name), st)]
                return [(self.exc(st, "AttributeError", name), st)]
            if isinstance(o, HNat):
                if name in o.f:
                    return [(self.deref(o.f[name], st), st)]
                return [(Nm(v, name), st)]
        if isinstance(v, M):
            w = self.p.module_attr(v.name, name, st)
            if w is None:
                return [(self.gap(st, "attribute %s of module %s" % (name, v.name)), st)]
            return [(w, st)]
        if isinstance(v, C):
            if v.info.node is None:
                if name == "__name__":
                    return [(K(v.info.name), st)]
                return [(Lib("type:" + v.info.qual + "." + name), st)]
            w = self.p.lookup(v.info, name, st)
            if w is None:
                if name in ("__name__", "__qualname__"):
                    return [(K(v.info.name), st)]
                if name == "__doc__":
                    return [(NONE, st)]
                if name == "__new__":
                    return [(Lib("object.__new__"), st)]
                return [(self.exc(st, "AttributeError", name), st)]
            if isinstance(w, Fn) and w.kind == "class":
                return [(Bm(w, v), st)]
            return [(w, st)]
        if isinstance(v, Lib):
            w = self.p.lib_attr(v.name, name)
            return [(w, st)]
        if isinstance(v, Q):
            if v.kind == "super":
                cls, obj = v.args
                self_cls = st.heap[obj.a].cls if isinstance(obj, R) else obj.info
                mro = self_cls.mro()
                i = mro.index(cls.info) if cls.info in mro else -1
                for ci in mro[i + 1:]:
                    w = self.p.own(ci, name, st)
                    if w is not None:
                        return [(self.bindto(w, obj, C(self_cls), st), st)]
                if name == "__init__":
                    return [(Nm(v, "__init__"), st)]
                return [(self.exc(st, "AttributeError", name), st)]
            h = self.p.q_attr.get(v.kind)
            if h:
                r = h(self, v, name, st)
                if r is not None:
                    return r
            return [(Nm(v, name), st)]
        if isinstance(v, T):
            return [(Nm(v, name), st) if name in TUPLE_METHODS else (self.exc(st, "AttributeError", name), st)]
        if isinstance(v, X):
            return [(X(v.why + "." + name), st)]
        if is_int(v) or isinstance(v, K) and isinstance(v.v, bool) or isinstance(v, U) and v.kind == "bool":
            return [(Nm(v, name), st) if name in INT_METHODS else (self.exc(st, "AttributeError", name), st)]
        if isinstance(v, U) and v.kind == "float" or isinstance(v, K) and isinstance(v.v, float):
            return [(Nm(v, name), st) if name in FLOAT_METHODS else (self.exc(st, "AttributeError", name), st)]
        if isinstance(v, K) and isinstance(v.v, bytes) or isinstance(v, U) and v.kind == "bytes":
            return [(Nm(v, name), st) if name in BYTES_METHODS else (self.exc(st, "AttributeError", name), st)]
        if isinstance(v, Fn) and name in ("__name__", "__qualname__"):
            return [(K(getattr(v.node, "name", "<lambda>")), st)]
        if isinstance(v, (Fn, Bm)) and name == "__doc__":
            return [(NONE, st)]
        return [(self.exc(st, "AttributeError", name), st)]

    def bindto(self, w, obj, cls, st):
        if isinstance(w, Fn):
            if w.kind == "static":
                return w
            if w.kind == "class":
                return Bm(w, cls)
            return Bm(w, obj)
        return self.deref(w, st)

    def setattr(self, o, name, v, st):
        o = self.deref(o, st)
        if isinstance(o, R):
            h = st.heap[o.a]
            if isinstance(h, HInst):
                cv = self.p.lookup(h.cls, name, st)
                if isinstance(cv, Prop):
                    if cv.fset is None:
                        return [(self.exc(st, "AttributeError", name), st)]
                    return self.call_fn(cv.fset, [o, v], {}, st, self.cur_node)
                at = dict(h.attrs)
                at[name] = v
                self.wr(st, o.a, HInst(h.cls, at))
                return [(NONE, st)]
            if isinstance(h, HNat):
                f = dict(h.f)
                f[name] = v
                self.wr(st, o.a, HNat(h.kind, f))
                return [(NONE, st)]
        if isinstance(o, C) and o.info.frame is not None:
            f = st.heap[o.info.frame]
            vs = dict(f.vars)
            vs[name] = v
            self.wr(st, o.info.frame, HFrame(vs, f.up, f.fn))
            return [(NONE, st)]
        if isinstance(o, M):
            a = self.p.modules[o.name].frame
            f = st.heap[a]
            vs = dict(f.vars)
            vs[name] = v
            self.wr(st, a, HFrame(vs, f.up, f.fn))
            return [(NONE, st)]
        if isinstance(o, X):
            self.gap(st, "attribute store on unknown value")
            return [(NONE, st)]
        return [(self.exc(st, "AttributeError", name), st)]

    # -- items -------------------------------------------------------------------
    def getitem(self, o, k, st):
        o = self.deref(o, st)
        if isinstance(o, R):
            h = st.heap[o.a]
            if isinstance(h, HJ):
                return self.each_kind(o, st, lambda w, s: self.getitem(w, k, s))
            if isinstance(h, HDict):
                res = []
                for r, s in self.find(o.a, k, st):
                    if r is None:
                        if h.default is not None:
                            mk = self.call(h.default, [], {}, s, self.cur_node)
                            for w, s2 in mk:
                                for x, s3 in self.setkey(o.a, k, w, s2):
                                    res.append((w, s3))
                        else:
                            res.append((self.exc(s, "KeyError", k), s))
                    elif isinstance(r, (Raise, Abort)):
                        res.append((r, s))
                    else:
                        res.append((self.deref(r, s), s))
                return res
            if isinstance(h, HList):
                return self.each_kind(k, st, lambda i, s: self.index(o.a, i, s))
            if isinstance(h, HInst):
                return self.wrap_v(self.getattr(o, "__getitem__", st), lambda f, s: self.call(f, [k], {}, s, self.cur_node))
            if isinstance(h, HNat):
                hh = self.p.nat_item.get(h.kind)
                if hh:
                    return hh(self, o, k, st)
            return [(self.exc(st, "TypeError", "not subscriptable"), st)]
        if isinstance(o, T):
            k = self.deref(k, st)
            if isinstance(k, K) and isinstance(k.v, int):
                if -len(o.items) <= k.v < len(o.items):
                    return [(self.deref(o.items[k.v], st), st)]
                return [(self.exc(st, "IndexError"), st)]
            if isinstance(k, N):
                res = []
                for i, x in enumerate(o.items):
                    res.append((x, st.fork()))
                res.append((self.exc(st, "IndexError"), st))
                return res
            return [(self.gap(st, "tuple index"), st)]
        if is_str(o):
            return self.str_index(o, self.deref(k, st), st)
        if isinstance(o, X):
            return [(X(o.why + "[]"), st)]
        if isinstance(o, Q):
            h = self.p.q_item.get(o.kind)
            if h:
                return h(self, o, k, st)
            return [(self.gap(st, "item of " + o.kind), st)]
        if isinstance(o, Lib):
            return [(self.gap(st, "item of " + o.name), st)]
        return [(self.exc(st, "TypeError", "not subscriptable"), st)]

    def str_index(self, o, k, st):
        k = self.deref(k, st)
        if self.is_hj(k, st):
            return self.each_kind(k, st, lambda w, s: self.str_index(v, w, s))
        if not is_int(k) and not (isinstance(k, U) and k.kind == "bool" or isinstance(k, K) and isinstance(k.v, bool)):
            if isinstance(k, X):
                return [(self.gap(st, "string index"), st)]
            return [(self.exc(st, "TypeError", "string indices must be integers"), st)]
        if not isinstance(k, K):
            if is_int(k):
                s2 = st.fork()
                c = st.atom(D.charset(st.lang_of(o).symbols() or D.FULL))
                return [(c, st), (self.exc(s2, "IndexError"), s2)]
            return [(self.exc(st, "TypeError", "string index"), st)]
        n = st.norm(o)
        if isinstance(n, K):
            try:
                return [(K(n.v[k.v]), st)]
            except IndexError:
                return [(self.exc(st, "IndexError"), st)]
        res = []
        L = st.lang_of(n)
        i = k.v
        dots = D.repeat(D.DOT, i if i >= 0 else -i - 1, i if i >= 0 else -i - 1)
        ok = D.concat_all([dots, D.DOT, D.ALL]) if i >= 0 else D.concat_all([D.ALL, D.DOT, dots])
        for t, s in self.branch_lang(n, ok, st):
            if not t:
                res.append((self.exc(s, "IndexError"), s))
                continue
            L = s.lang_of(n)
            c = D.middle(L, dots, D.DOT, D.ALL) if i >= 0 else D.middle(L, D.ALL, D.DOT, dots)
            res.append((s.atom(c), s))
        return res

    def index(self, a, k, st):
        """List item."""
        o = st.heap[a]
        if isinstance(k, K) and isinstance(k.v, (int, bool)):
            i = int(k.v)
            if all(g[0] == "1" for g in o.segs):
                if -len(o.segs) <= i < len(o.segs):
                    return [(self.deref(o.segs[i][1], st), st)]
                return [(self.exc(st, "IndexError"), st)]
            res = []
            for pos, segs, s in self.expose(o.segs, i, st):
                s.heap[a] = HList(segs)
                if pos is None:
                    res.append((self.exc(s, "IndexError"), s))
                else:
                    res.append((self.deref(segs[pos][1], s), s))
            return res
        if isinstance(k, N):
            res = []
            for g in o.segs:
                s = st.fork()
                if g[0] == "1":
                    res.append((g[1], s))
                elif g[0] == "*":
                    res.append((copy_value(s, g[1].v, g[1].ids), s))
                else:
                    res.append((s.atom(D.without(g[2])), s))
            res.append((self.exc(st, "IndexError"), st))
            return res
        if isinstance(k, X):
            return [(X("item"), st)]
        return [(self.exc(st, "TypeError", "list index"), st)]

    def expose(self, segs, i, st):
        """Make element i individually known: [(position | None, segs, st)]."""
        segs = tuple(segs)
        if i >= 0:
            res = []
            work = [(0, 0, segs, st)]     # (known elements before, position, segs, state)
            while work:
                cnt, pos, sg, s = work.pop()
                if pos >= len(sg):
                    res.append((None, sg, s))
                    continue
                if sg[pos][0] == "1":
                    if cnt == i:
                        res.append((pos, sg, s))
                    else:
                        work.append((cnt + 1, pos + 1, sg, s))
                    continue
                for e, new, s2 in self.first(sg[pos:], s):
                    if e is None:
                        work.append((cnt, pos, sg[:pos] + new, s2))
                    else:
                        work.append((cnt, pos, sg[:pos] + new, s2))
            return res
        res = []
        work = [(1, segs, (), st)]
        while work:
            cnt, sg, tail, s = work.pop()
            if not sg:
                res.append((None, tail, s))
                continue
            if sg[-1][0] == "1":
                if cnt == -i:
                    res.append((len(sg) - 1, sg + tail, s))
                else:
                    work.append((cnt + 1, sg[:-1], (sg[-1],) + tail, s))
                continue
            for new, s2 in self.last(sg, s):
                work.append((cnt, new, tail, s2))
        return res

    def first(self, segs, st):
        """segs starting with a non-'1' segment: [(elem | None, new segs, st)]."""
        g = segs[0]
        if g[0] == "/":
            atom, sep = g[1], g[2]
            res = []
            v = S((atom,))
            s2 = st.fork()
            if st.refine(v, D.without(sep)):
                res.append((v, (("1", st.norm(v) if isinstance(st.norm(v), K) else v),) + segs[1:], st))
            if s2.refine(v, D.contains(sep)):
                f, r = self.cut_first(s2, v, sep)
                tail = (("/", r.parts[0], sep),) if isinstance(r, S) and len(r.parts) == 1 and isinstance(r.parts[0], int) else self.split_val(r, sep, s2)
                res.append((f, (("1", f),) + tail + segs[1:], s2))
            return res
        n = 0
        while n < len(segs) and segs[n][0] == "*":
            n += 1
        res = []
        for j in range(n):
            s = st.fork()
            e = copy_value(s, segs[j][1].v, segs[j][1].ids)
            if self.track_blame and not s.generic:
                s.blame = True
            res.append((e, (("1", e),) + segs, s))
        res.append((None, segs[n:], st))
        return res

    def last(self, segs, st):
        """segs ending with a non-'1' segment: [(new segs, st)]."""
        g = segs[-1]
        if g[0] == "/":
            atom, sep = g[1], g[2]
            res = []
            v = S((atom,))
            s2 = st.fork()
            if st.refine(v, D.without(sep)):
                res.append((segs[:-1] + (("1", v),), st))
            if s2.refine(v, D.contains(sep)):
                r, l = self.cut_last(s2, v, sep)
                head = (("/", r.parts[0], sep),) if isinstance(r, S) and len(r.parts) == 1 and isinstance(r.parts[0], int) else self.split_val(r, sep, s2)
                res.append((segs[:-1] + head + (("1", l),), s2))
            return res
        n = len(segs)
        while n > 0 and segs[n - 1][0] == "*":
            n -= 1
        res = []
        for j in range(n, len(segs)):
            s = st.fork()
            e = copy_value(s, segs[j][1].v, segs[j][1].ids)
            if self.track_blame and not s.generic:
                s.blame = True
            res.append((segs + (("1", e),), s))
        res.append((segs[:n], st))
        return res

    def cut_first(self, st, v, sep):
        """v contains sep: v = first + sep + rest, first without sep."""
        L = st.lang_of(st.norm(v))
        ns = D.without(sep)
        sp = D.const(sep)
        f = st.atom(D.middle(L, D.EPS, ns, D.concat(sp, D.ALL)))
        r = st.atom(D.middle(L, D.concat(ns, sp), D.ALL, D.EPS))
        self.learn(st, v, mkstr(_parts(f) + (sep,) + _parts(r)))
        return f, r

    def cut_last(self, st, v, sep):
        L = st.lang_of(st.norm(v))
        ns = D.without(sep)
        sp = D.const(sep)
        l = st.atom(D.middle(L, D.concat(D.ALL, sp), ns, D.EPS))
        r = st.atom(D.middle(L, D.EPS, D.ALL, D.concat(sp, ns)))
        self.learn(st, v, mkstr(_parts(r) + (sep,) + _parts(l)))
        return r, l

    def learn(self, st, v, rope):
        """Record v = rope when v is a single free atom."""
        if isinstance(v, S) and len(v.parts) == 1 and isinstance(v.parts[0], int) and v.parts[0] not in st.sub:
            st.sub[v.parts[0]] = _parts(rope)

    def split_val(self, v, sep, st):
        """Segments of v.split(sep) when possible without deciding lengths."""
        v = st.norm(v)
        if isinstance(v, K):
            return tuple(("1", K(x)) for x in v.v.split(sep))
        parts = v.parts
        if len(parts) == 1 and isinstance(parts[0], int):
            if D.disjoint(st.lang[parts[0]], D.contains(sep)):
                return (("1", v),)
            return (("/", parts[0], sep),)
        out = []
        cur = []
        i = 0
        n = len(parts)
        while i < n:
            p = parts[i]
            if isinstance(p, str):
                bits = p.split(sep)
                cur.append(bits[0])
                for b in bits[1:]:
                    out.append(("1", mkstr(cur)))
                    cur = [b]
            else:
                if D.disjoint(st.part_lang(p), D.contains(sep)):
                    cur.append(p)
                else:
                    aligned = not any(c != "" for c in cur) and (i + 1 == n or (isinstance(parts[i + 1], str) and parts[i + 1].startswith(sep)))
                    if not aligned or not isinstance(p, int):
                        return None
                    out.append(("/", p, sep))
                    cur = None
                    if i + 1 < n:
                        # skip the separator at the start of the next literal
                        nxt = parts[i + 1][len(sep):]
                        parts = parts[:i + 1] + (nxt,) + parts[i + 2:]
                        cur = []
            i += 1
        if cur is not None:
            out.append(("1", mkstr(cur)))
        return tuple(out)

    def split(self, v, sep, st):
        """[(segs, st)] for v.split(sep), deciding separators inside unaligned atoms."""
        r = self.split_val(v, sep, st)
        if r is not None:
            return [(r, st)]
        # find the first unaligned atom containing the separator and split on it
        v = st.norm(v)
        for i, p in enumerate(v.parts):
            if isinstance(p, int) and not D.disjoint(st.lang[p], D.contains(sep)):
                nextok = i + 1 == len(v.parts) or (isinstance(v.parts[i + 1], str) and v.parts[i + 1].startswith(sep))
                prevok = i == 0 or (isinstance(v.parts[i - 1], str) and v.parts[i - 1].endswith(sep))
                if nextok and prevok:
                    continue
                res = []
                s2 = st.fork()
                a = S((p,))
                if st.refine(a, D.without(sep)):
                    res.extend(self.split(v, sep, st))
                if s2.refine(a, D.contains(sep)):
                    if not prevok:
                        self.cut_first(s2, a, sep)
                    else:
                        self.cut_last(s2, a, sep)
                    res.extend(self.split(v, sep, s2))
                return res
        it = st.atom(D.without(sep))
        return [((("*", Tm(it, frozenset(it.parts))),), st)]

    def explode(self, segs, n, st):
        """[(list of exactly n values | None, st)]"""
        if all(g[0] == "1" for g in segs):
            return [([g[1] for g in segs] if len(segs) == n else None, st)]
        res = []
        work = [(tuple(segs), st)]
        while work:
            sg, s = work.pop()
            pos = next((i for i, g in enumerate(sg) if g[0] != "1"), None)
            if pos is None:
                res.append(([g[1] for g in sg] if len(sg) == n else None, s))
                continue
            if pos > n:
                res.append((None, s))
                continue
            for e, new, s2 in self.first(sg[pos:], s):
                work.append((sg[:pos] + new, s2))
        return res

    def getslice(self, o, lo, hi, step, st):
        o = self.deref(o, st)
        lo, hi, step = self.deref(lo, st), self.deref(hi, st), self.deref(step, st)
        if isinstance(o, R) and isinstance(st.heap[o.a], HJ):
            return self.each_kind(o, st, lambda w, s: self.getslice(w, lo, hi, step, s))
        if isinstance(o, X):
            return [(o, st)]
        if not (step == NONE or step == K(1)):
            if isinstance(o, K) and isinstance(o.v, str) and all(isinstance(x, K) for x in (lo, hi, step)):
                return [(K(o.v[lo.v:hi.v:step.v]), st)]
            return [(self.gap(st, "slice step"), st)]
        if isinstance(o, T) and isinstance(lo, K) and isinstance(hi, K):
            return [(T(o.items[lo.v:hi.v]), st)]
        if isinstance(o, Q) and o.kind in self.p.q_slice:
            return self.p.q_slice[o.kind](self, o, lo, hi, st)
        if isinstance(o, R) and isinstance(st.heap[o.a], HNat) and st.heap[o.a].kind in self.p.nat_slice:
            return self.p.nat_slice[st.heap[o.a].kind](self, o, lo, hi, st)
        if isinstance(o, K) and isinstance(o.v, bytes) and isinstance(lo, K) and isinstance(hi, K):
            return [(K(o.v[lo.v:hi.v]), st)]
        if is_str(o):
            return self.str_slice(o, lo, hi, st)
        if isinstance(o, R) and isinstance(st.heap[o.a], HList):
            segs = st.heap[o.a].segs
            if isinstance(lo, K) and isinstance(hi, K):
                if all(g[0] == "1" for g in segs):
                    return [(st.alloc(HList(segs[lo.v:hi.v])), st)]
                outs = [(segs, st)]
                l = lo.v or 0
                if l > 0:
                    outs = self.drop_front(outs, l)
                h = hi.v
                if h is not None and h < 0:
                    outs = self.drop_back(outs, -h)
                elif l < 0 or (h is not None and h - l > 12):
                    outs = None
                elif h is not None:
                    outs = self.take_front(outs, max(h - l, 0))
                if outs is not None:
                    return [(s.alloc(HList(sg)), s) for sg, s in outs]
            tms = []
            if self.track_blame and not st.generic:
                st.blame = True
            for g in segs:
                if g[0] == "*":
                    tms.append(g)
                elif g[0] == "1":
                    tms.append(("*", Tm(g[1], frozenset())))
                else:
                    e = st.atom(D.without(g[2]))
                    tms.append(("*", Tm(e, frozenset(e.parts) if isinstance(e, S) else frozenset())))
            return [(st.alloc(HList(tms)), st)]
        return [(self.exc(st, "TypeError", "not sliceable"), st)]

    def drop_front(self, outs, n):
        for _ in range(n):
            nxt = []
            for sg, s in outs:
                work = [(tuple(sg), s)]
                while work:
                    g, s1 = work.pop()
                    if not g:
                        nxt.append((g, s1))
                    elif g[0][0] == "1":
                        nxt.append((g[1:], s1))
                    else:
                        for e, new, s2 in self.first(g, s1):
                            work.append((new, s2))
            outs = nxt
        return outs

    def take_front(self, outs, n):
        res = []
        work = [((), tuple(sg), n, s) for sg, s in outs]
        while work:
            got, g, k, s = work.pop()
            if not g or k == 0:
                res.append((got, s))
            elif g[0][0] == "1":
                work.append((got + (g[0],), g[1:], k - 1, s))
            else:
                for e, new, s2 in self.first(g, s):
                    work.append((got, tuple(new), k, s2))
        return res

    def drop_back(self, outs, n):
        for _ in range(n):
            nxt = []
            for sg, s in outs:
                work = [(tuple(sg), s)]
                while work:
                    g, s1 = work.pop()
                    if not g:
                        nxt.append((g, s1))
                    elif g[-1][0] == "1":
                        nxt.append((g[:-1], s1))
                    else:
                        for new, s2 in self.last(g, s1):
                            work.append((new, s2))
            outs = nxt
        return outs

    def str_slice(self, o, lo, hi, st):
        n = st.norm(o)
        if isinstance(n, K) and isinstance(lo, K) and isinstance(hi, K):
            return [(K(n.v[lo.v:hi.v]), st)]
        if not (isinstance(lo, K) and isinstance(hi, K)) or (lo.v or 0) < 0 and hi.v is not None:
            if isinstance(lo, N) or isinstance(hi, N) or isinstance(lo, K):
                a = st.atom(D.star(D.charset(st.lang_of(n).symbols()) if st.lang_of(n).symbols() else D.EPS))
                return [(a, st)]
            return [(self.gap(st, "string slice"), st)]
        if isinstance(n, S) and len(n.parts) == 1 and isinstance(n.parts[0], tuple) and n.parts[0][0][:2] in ("h:", "hs"):
            w = hash_slice(n.parts[0], lo.v, hi.v)
            if w is not None:
                return [(w, st)]
        l, h = lo.v or 0, hi.v
        parts = list(n.parts) if isinstance(n, S) else [n.v]
        # literal at the cut ends is the common case
        if l > 0:
            while l > 0 and parts:
                if isinstance(parts[0], str):
                    k = min(l, len(parts[0]))
                    parts[0] = parts[0][k:]
                    l -= k
                    if parts[0] == "":
                        parts.pop(0)
                else:
                    lens = st.part_lang(parts[0]).lengths()
                    if lens[1] is not None and lens[0] == lens[1] and lens[0] <= l:
                        l -= lens[0]
                        parts.pop(0)
                    else:
                        break
        if h is not None and h < 0:
            h = -h
            while h > 0 and parts and isinstance(parts[-1], str):
                k = min(h, len(parts[-1]))
                parts[-1] = parts[-1][:len(parts[-1]) - k]
                h -= k
                if parts[-1] == "":
                    parts.pop()
            h = -h
        if l == 0 and (h is None or h == 0 and hi.v is not None and hi.v < 0):
            return [(mkstr(parts), st)]
        if not parts:
            return [(K(""), st)]
        v = mkstr(parts)
        hi2 = h
        pos = l >= 0 and (hi2 is None or hi2 >= 0)
        L = st.lang_of(v) if isinstance(v, S) else D.const(v.v)
        res = []
        dots = lambda a, b: D.repeat(D.DOT, a, b)
        if l >= 0 and hi2 is None:
            # drop l symbols
            for t, s in self.branch_lang(v, dots(l, None), st):
                if not t:
                    res.append((K(""), s))
                else:
                    Ls = s.lang_of(v)
                    p = s.atom(D.middle(Ls, D.EPS, dots(l, l), D.ALL))
                    r = s.atom(D.middle(Ls, dots(l, l), D.ALL, D.EPS))
                    self.learn(s, v, mkstr(_parts(p) + _parts(r)))
                    res.append((r, s))
            return res
        if l < 0 and hi2 is None:
            m = -l
            for t, s in self.branch_lang(v, dots(m, None), st):
                if not t:
                    res.append((v, s))
                else:
                    Ls = s.lang_of(v)
                    p = s.atom(D.middle(Ls, D.EPS, D.ALL, dots(m, m)))
                    r = s.atom(D.middle(Ls, D.ALL, dots(m, m), D.EPS))
                    self.learn(s, v, mkstr(_parts(p) + _parts(r)))
                    res.append((r, s))
            return res
        if hi2 >= 0:
            if l >= hi2:
                return [(K(""), st)]
            for t, s in self.branch_lang(v, dots(hi2, None), st):
                Ls = s.lang_of(v)
                if t:
                    pre = s.atom(D.middle(Ls, D.EPS, dots(l, l), D.concat(dots(hi2 - l, hi2 - l), D.ALL)))
                    r = s.atom(D.middle(Ls, dots(l, l), dots(hi2 - l, hi2 - l), D.ALL))
                    post = s.atom(D.middle(Ls, dots(hi2, hi2), D.ALL, D.EPS))
                    self.learn(s, v, mkstr(_parts(pre) + _parts(r) + _parts(post)))
                    res.append((r, s))
                elif l == 0:
                    res.append((v, s))
                else:
                    res.append((s.atom(D.union(D.EPS, D.middle(Ls, dots(l, l), D.ALL, D.EPS))), s))
            return res
        m = -hi2
        for t, s in self.branch_lang(v, dots(l + m, None), st):
            if not t:
                res.append((K(""), s))
            else:
                Ls = s.lang_of(v)
                pre = s.atom(D.middle(Ls, D.EPS, dots(l, l), D.ALL))
                r = s.atom(D.middle(Ls, dots(l, l), D.ALL, dots(m, m)))
                post = s.atom(D.middle(Ls, D.ALL, dots(m, m), D.EPS))
                self.learn(s, v, mkstr(_parts(pre) + _parts(r) + _parts(post)))
                res.append((r, s))
        return res

    def setitem(self, o, k, v, st):
        o = self.deref(o, st)
        if isinstance(o, R):
            h = st.heap[o.a]
            if isinstance(h, HDict):
                return self.setkey(o.a, k, v, st)
            if isinstance(h, HJ):
                return self.each_kind(o, st, lambda w, s: self.setitem(w, k, v, s))
            if isinstance(h, HList):
                k = self.deref(k, st)
                if isinstance(k, K) and all(g[0] == "1" for g in h.segs):
                    if -len(h.segs) <= k.v < len(h.segs):
                        sg = list(h.segs)
                        sg[k.v] = ("1", v)
                        self.wr(st, o.a, HList(sg))
                        return [(NONE, st)]
                    return [(self.exc(st, "IndexError"), st)]
                self.gap(st, "list store")
                return [(NONE, st)]
            if isinstance(h, HInst):
                return self.wrap_v(self.getattr(o, "__setitem__", st), lambda f, s: self.call(f, [k, v], {}, s, self.cur_node))
        if isinstance(o, X):
            self.gap(st, "item store on unknown value")
            return [(NONE, st)]
        return [(self.exc(st, "TypeError", "no item assignment"), st)]

    def delitem(self, o, k, st):
        o = self.deref(o, st)
        if isinstance(o, R):
            h = st.heap[o.a]
            if isinstance(h, HDict):
                return [(self.exc(s, "KeyError", k) if r is None else r if isinstance(r, (Raise, Abort)) else NONE, s)
                        for r, s in self.delkey(o.a, k, st)]
            if isinstance(h, HList):
                k = self.deref(k, st)
                if isinstance(k, K) and all(g[0] == "1" for g in h.segs):
                    if -len(h.segs) <= k.v < len(h.segs):
                        sg = list(h.segs)
                        del sg[k.v]
                        self.wr(st, o.a, HList(sg))
                        return [(NONE, st)]
                    return [(self.exc(st, "IndexError"), st)]
        self.gap(st, "del item")
        return [(NONE, st)]

    # -- arithmetic and text -----------------------------------------------------
    def binop(self, op, a, b, st):
        a, b = self.deref(a, st), self.deref(b, st)
        if self.is_hj(a, st):
            return self.each_kind(a, st, lambda w, s: self.binop(op, w, b, s))
        if isinstance(op, ast.Mod) and is_str(a):
            return self.percent(a, b, st)
        if self.is_hj(b, st):
            return self.each_kind(b, st, lambda w, s: self.binop(op, a, w, s))
        if isinstance(a, K) and isinstance(b, K):
            try:
                return [(K(_arith(op, a.v, b.v)), st)]
            except ZeroDivisionError:
                return [(self.exc(st, "ZeroDivisionError"), st)]
            except (TypeError, ValueError):
                return [(self.exc(st, "TypeError", "operand"), st)]
        if isinstance(a, X) or isinstance(b, X):
            return [(X("arith"), st)]
        if isinstance(op, ast.Add):
            if is_str(a) and is_str(b):
                return [(self.cat([a, b]), st)]
            if isinstance(a, R) and isinstance(b, R):
                oa, ob = st.heap[a.a], st.heap[b.a]
                if isinstance(oa, HList) and isinstance(ob, HList):
                    return [(st.alloc(HList(oa.segs + ob.segs)), st)]
            if isinstance(a, T) and isinstance(b, T):
                return [(T(a.items + b.items), st)]
        if is_int(a) and is_int(b):
            al, ah = (a.v, a.v) if isinstance(a, K) else (a.lo, a.hi)
            bl, bh = (b.v, b.v) if isinstance(b, K) else (b.lo, b.hi)
            add = lambda x, y: None if x is None or y is None else x + y
            if isinstance(op, ast.Add):
                return [(N(add(al, bl), add(ah, bh)), st)]
            if isinstance(op, ast.Sub):
                neg = lambda x: None if x is None else -x
                return [(N(add(al, neg(bh)), add(ah, neg(bl))), st)]
            if isinstance(op, ast.Mult):
                if None not in (al, ah, bl, bh):
                    c = [al * bl, al * bh, ah * bl, ah * bh]
                    return [(N(min(c), max(c)), st)]
                if al is not None and bl is not None and al >= 0 and bl >= 0:
                    return [(N(al * bl, None), st)]
                return [(N(), st)]
            if isinstance(op, (ast.FloorDiv, ast.Mod, ast.Pow)):
                if isinstance(op, ast.Mod) and isinstance(b, K) and b.v > 0:
                    return [(N(0, b.v - 1), st)]
                return [(N(), st)]
            if isinstance(op, ast.Div):
                return [(U("float", st.new_id()), st)]
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            sa, sb = self.as_set(a, st), self.as_set(b, st)
            if sa is not None and sb is not None:
                name = {ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersection", ast.BitXor: "symmetric_difference"}[type(op)]
                return self.set_op(name, sa, sb, st)
            if isinstance(a, R) and isinstance(b, R) and isinstance(st.heap[a.a], HDict) and isinstance(st.heap[b.a], HDict) and isinstance(op, ast.BitOr):
                oa = st.heap[a.a]
                n = st.alloc(HDict(oa.ents, oa.absent, oa.default))
                return [(n, s) if not isinstance(r, (Raise, Abort)) else (r, s) for r, s in self.call_native(Nm(n, "update"), [b], {}, st)]
        num = lambda v: is_int(v) or isinstance(v, U) and v.kind in ("bool", "float") or isinstance(v, K) and isinstance(v.v, (bool, float))
        if num(a) and num(b):
            return [(U("float", st.new_id()), st)]
        if isinstance(op, ast.Mult) and (is_str(a) and is_int(b)):
            if isinstance(b, K):
                return [(self.cat([a] * max(0, b.v)), st)]
            return [(st.atom(D.star(st.lang_of(a))), st)]
        if isinstance(a, R) and isinstance(st.heap[a.a], HInst):
            nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mod: "__mod__"}.get(type(op))
            m = nm and self.p.lookup(st.heap[a.a].cls, nm, st)
            if m:
                return self.call_fn(m, [a, b], {}, st, self.cur_node)
        if isinstance(a, (Q, R)) or isinstance(b, (Q, R)):
            h = self.p.q_binop.get(getattr(a, "kind", None))
            if h:
                return h(self, op, a, b, st)
            if isinstance(a, Q) and isinstance(b, Q) and a.kind == "bytes" and b.kind == "bytes" and isinstance(op, ast.Add):
                return [(Q("bytes", self.cat([a.args[0], b.args[0]])), st)]
            if isinstance(a, Q) or isinstance(b, Q):
                return [(self.gap(st, "operator on %s" % getattr(a, "kind", "?")), st)]
        return [(self.exc(st, "TypeError", "unsupported operand"), st)]

    def set_segs(self, v, st):
        """Like segs_of, for uses without order."""
        v = self.deref(v, st)
        if isinstance(v, R) and isinstance(st.heap[v.a], HSet) and st.heap[v.a].src:
            o = st.heap[v.a]
            return [g[:2] for g in o.segs if g[0] == "1"] + list(o.src)
        return self.segs_of(v, st)

    def set_op(self, name, a, b, st):
        """New set from two set-like or iterable values."""
        sa, sb = self.set_segs(a, st), self.set_segs(b, st)
        if sa is None or sb is None:
            return [(self.gap(st, "set operation"), st)]
        sb_v = st.alloc(new_set(sb, st)) if not isinstance(b, R) or not isinstance(st.heap[b.a], (HSet, HDict)) else b
        if name == "union":
            out = st.alloc(new_set(list(sa) + list(sb), st))
            return [(out, st)]
        if name in ("difference", "intersection"):
            keep = name == "intersection"
            if keep and any(g[0] != "1" for g in sa) and all(g[0] == "1" for g in sb):
                return self.set_op(name, b, a, st)
            cur = [((), st)]
            st.stack = st.stack + (sb_v,)
            for g in sa:
                nxt = []
                for acc, s in cur:
                    if g[0] != "1":
                        nxt.append((acc + (g,), s))
                        continue
                    for t, s2 in self.contains(sb_v, g[1], s):
                        if isinstance(t, (Raise, Abort)):
                            nxt.append((t, s2))
                        elif t == keep:
                            nxt.append((acc + (("1", g[1]),), s2))
                        else:
                            nxt.append((acc, s2))
                cur = nxt
            res = []
            for acc, s in cur:
                s.stack = s.stack[:-1]
                res.append((acc if isinstance(acc, (Raise, Abort)) else s.alloc(new_set(acc, s)), s))
            return res
        if name == "symmetric_difference":
            res = []
            for x, s in self.set_op("difference", a, b, st):
                s.stack = s.stack + (x,)
                for y, s2 in self.set_op("difference", b, a, s):
                    s2.stack = s2.stack[:-1]
                    res.extend(self.set_op("union", x, y, s2))
            return res
        return [(self.gap(st, "set operation " + name), st)]

    def cat(self, vals):
        parts = []
        for v in vals:
            parts.extend(_parts(v))
        return mkstr(parts)

    def to_str(self, v, st):
        """str(v): [(string value | Raise, st)]"""
        v = self.deref(v, st)
        if is_str(v):
            return [(v, st)]
        if isinstance(v, K):
            return [(K(str(v.v)), st)]
        if isinstance(v, N):
            L = NAT if v.lo is not None and v.lo >= 0 else INTLANG
            if v.lo is not None and v.lo > 0:
                L = D.minus(L, D.const("0"))
            return [(st.atom(L), st)]
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HInst):
                m = self.p.lookup(o.cls, "__str__", st)
                if m is not None:
                    return self.call_fn(m, [v], {}, st, self.cur_node)
                if o.cls.issub(self.p.exc("BaseException")):
                    args = o.attrs.get("args")
                    if isinstance(args, T) and len(args.items) == 1:
                        return self.to_str(args.items[0], st)
        return [(st.atom(D.ALL), st)]

    def percent(self, fmt, arg, st):
        f = st.norm(fmt)
        if not isinstance(f, K):
            # literal pieces of a rope may still be formatted when they hold all directives
            return [(st.atom(D.ALL), st)]
        items = _parse_format(f.v)
        if items is None:
            return [(st.atom(D.ALL), st)]
        n = sum(1 for x in items if not isinstance(x, str))
        arg = self.deref(arg, st)
        if isinstance(arg, T):
            args = list(arg.items)
        else:
            args = [arg]
        if isinstance(arg, X):
            return [(st.atom(D.ALL), st)]
        if len(args) != n:
            if isinstance(arg, R) and isinstance(st.heap[arg.a], (HDict, HList)) and n == 0:
                return [(f, st)]
            return [(self.exc(st, "TypeError", "format arguments"), st)]
        outs = [([], st)]
        i = 0
        for x in items:
            if isinstance(x, str):
                outs = [(acc + [K(x)] if isinstance(acc, list) else acc, s) for acc, s in outs]
                continue
            a = args[i]
            i += 1
            nxt = []
            for acc, s in outs:
                if not isinstance(acc, list):
                    nxt.append((acc, s))
                    continue
                for w, s2 in self.fmt_one(x, a, s):
                    nxt.append((acc + [w], s2) if not isinstance(w, (Raise, Abort)) else (w, s2))
            outs = nxt
        return [(self.cat(acc) if isinstance(acc, list) else acc, s) for acc, s in outs]

    def fmt_one(self, x, a, st):
        flags, width, prec, conv = x
        if conv in "sr":
            if flags or width or prec or conv == "r":
                a = self.deref(a, st)
                if isinstance(a, K) and not isinstance(a.v, bytes):
                    return [(K(("%" + flags + width + prec + conv) % (a.v,)), st)]
                return [(st.atom(D.ALL), st)]
            return self.to_str(a, st)
        if conv in "di":
            def go(v, s):
                if isinstance(v, K) and isinstance(v.v, (int, float, bool)):
                    return [(K(("%" + flags + width + prec + conv) % v.v), s)]
                if isinstance(v, N):
                    L = NAT if v.lo is not None and v.lo >= 0 else INTLANG
                    if v.lo is not None and v.lo > 0:
                        L = D.minus(L, D.const("0"))
                    w = int(width) if width else 0
                    if w and "0" in flags and L is not INTLANG:
                        # at least w digits; longer only without leading zero
                        exact = D.repeat(DIGITS, w, w)
                        longer = D.concat(D.charset(D.mask_range(49, 57)), D.repeat(DIGITS, w, None))
                        L = D.union(exact, longer)
                        if v.lo is not None and v.lo > 0:
                            L = D.minus(L, D.const("0" * w))
                        if v.hi is not None and v.hi < 10 ** w:
                            L = D.inter(L, exact)
                    elif w:
                        L = D.ALL
                    elif v.hi is not None and v.hi < 10 ** 7 and L is not INTLANG:
                        L = D.inter(L, D.repeat(DIGITS, 1, len(str(v.hi))))
                    return [(s.atom(L), s)]
                if isinstance(v, U) or isinstance(v, X):
                    return [(s.atom(D.ALL), s)]
                return [(self.exc(s, "TypeError", "%d format"), s)]
            return self.each_kind(a, st, go)
        if conv in "xXo" and not prec:
            b = self.deref(a, st)
            if isinstance(b, K) and isinstance(b.v, int):
                return [(K(("%" + flags + width + conv) % b.v), st)]
            if isinstance(b, N) and flags in ("", "0") and b.lo is not None and b.lo >= 0:
                L = small_texts(b, "{:%s}" % ((flags if width else "") + (width or "") + conv))
                if L is not None:
                    return [(st.atom(L), st)]
        return [(st.atom(D.ALL), st)]

    def fmt_spec(self, v, spec, st):
        v = self.deref(v, st)
        if isinstance(v, K) and spec is not None:
            try:
                return [(K(format(v.v, spec)), st)]
            except (ValueError, TypeError):
                return [(self.exc(st, "ValueError", "format"), st)]
        if spec is not None and isinstance(v, N) and spec.endswith("d"):
            body = spec[:-1]
            if body == "":
                return self.fmt_one(("", "", "", "d"), v, st)
            if body.isdigit():
                if body.startswith("0"):
                    return self.fmt_one(("0", body[1:], "", "d"), v, st)
        if spec and isinstance(v, N) and spec[-1] in "xXob":
            L = small_texts(v, "{:%s}" % spec)
            if L is not None:
                return [(st.atom(L), st)]
        return [(st.atom(D.ALL), st)]


_SMALL = {}


def small_texts(v, form):
    """Language of the texts of a small range of integers."""
    if v.lo is None or v.hi is None or v.hi - v.lo > 300:
        return None
    k = v.lo, v.hi, form
    if k not in _SMALL:
        try:
            ts = sorted({form.format(i) for i in range(v.lo, v.hi + 1)})
        except (ValueError, TypeError, IndexError):
            return None
        heads = {}
        for t in ts:
            heads.setdefault(t[:-1], []).append(t[-1:])
        by = {}
        for h, ends in heads.items():
            by.setdefault(tuple(ends), []).append(h)
        L = D.EMPTY
        for ends, hs in by.items():
            for n in sorted({len(h) for h in hs}):
                same = [h for h in hs if len(h) == n]
                cs = D.const(same[0])
                for h in same[1:]:
                    cs = D.union(cs, D.const(h))
                L = D.union(L, D.concat(cs, D.union(D.charset(D.mask_of("".join(ends))) if any(ends) else D.EPS, D.EPS if "" in ends else D.EMPTY)))
        _SMALL[k] = L
    return _SMALL[k]


def _parts(v):
    return (v.v,) if isinstance(v, K) else v.parts


def new_set(segs, st, frozen=False):
    """Set of the elements of the segments of a list."""
    src = tuple(g for g in segs if g[0] == "/")
    if any(g[0] == "*" for g in segs):
        src = ()
    return HSet(_setsegs(segs, st), frozenset(), frozen, src)


def _setsegs(segs, st):
    out = []
    seen = set()
    for g in segs:
        if g[0] == "1":
            k = st.norm(g[1]) if isinstance(g[1], S) else g[1]
            if k in seen:
                continue
            seen.add(k)
        elif g[0] == "/":
            e = st.atom(D.without(g[2]))
            g = ("*", Tm(e, frozenset(e.parts) if isinstance(e, S) else frozenset()))
        out.append(g[:2])
    return tuple(out)


CASE_MOVED = {"lower": D.mask_range(65, 90), "upper": D.mask_range(97, 122)}


def _occurs(st, i, parts):
    """Does atom i occur in the parts, also inside derived strings?"""
    for p in parts:
        if p == i:
            return True
        if isinstance(p, tuple):
            v = st.norm(p[1]) if is_str(p[1]) else p[1]
            if isinstance(v, S) and _occurs(st, i, v.parts):
                return True
    return False


def _strip(p, q, end):
    """Remove equal parts at one end; False if they certainly differ."""
    while p and q:
        x, y = p[end], q[end]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if end == 0:
                if x[:n] != y[:n]:
                    return False
                x, y = x[n:], y[n:]
            else:
                if x[len(x) - n:] != y[len(y) - n:]:
                    return False
                x, y = x[:len(x) - n], y[:len(y) - n]
            if x:
                p[end] = x
            else:
                p.pop(end)
            if y:
                q[end] = y
            else:
                q.pop(end)
            continue
        if x == y:
            p.pop(end)
            q.pop(end)
            continue
        break
    return True


def _cmp(op, a, b):
    if isinstance(op, ast.Lt):
        return a < b
    if isinstance(op, ast.LtE):
        return a <= b
    if isinstance(op, ast.Gt):
        return a > b
    if isinstance(op, ast.GtE):
        return a >= b
    return a == b


def _cmp_iv(op, al, ah, bl, bh):
    lt = lambda x, y: x is not None and y is not None and x < y
    le = lambda x, y: x is not None and y is not None and x <= y
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = None
        if lt(ah, bl) or lt(bh, al):
            r = False
        elif al is not None and al == ah == bl == bh:
            r = True
        if r is None:
            return None
        return r if isinstance(op, ast.Eq) else not r
    if isinstance(op, ast.Lt):
        return True if lt(ah, bl) else False if le(bh, al) else None
    if isinstance(op, ast.LtE):
        return True if le(ah, bl) else False if lt(bh, al) else None
    if isinstance(op, ast.Gt):
        return True if lt(bh, al) else False if le(ah, bl) else None
    return True if le(bh, al) else False if lt(ah, bl) else None


def _refine_iv(op, val, lo, hi, ol, oh, flip):
    """Interval of x given (x op o) == val (flip: (o op x)); None if empty."""
    name = type(op).__name__
    if flip:
        name = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(name, name)
    if not val:
        name = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}[name]
    mx = lambda a, b: b if a is None else a if b is None else max(a, b)
    mn = lambda a, b: b if a is None else a if b is None else min(a, b)
    if name == "Eq":
        lo, hi = mx(lo, ol), mn(hi, oh)
    elif name == "NotEq":
        if ol is not None and ol == oh:
            if lo == ol:
                lo = lo + 1
            if hi == ol:
                hi = hi - 1
    elif name == "Lt":
        hi = mn(hi, None if oh is None else oh - 1)
    elif name == "LtE":
        hi = mn(hi, oh)
    elif name == "Gt":
        lo = mx(lo, None if ol is None else ol + 1)
    elif name == "GtE":
        lo = mx(lo, ol)
    if lo is not None and hi is not None and lo > hi:
        return None
    return lo, hi


def _arith(op, a, b):
    import operator
    f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
         ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
         ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
         ast.LShift: operator.lshift, ast.RShift: operator.rshift}[type(op)]
    return f(a, b)


def _parse_format(f):
    import re
    out = []
    pos = 0
    for m in re.finditer(r"%(\([^)]*\))?([#0\- +]*)(\d*|\*)(\.\d+)?([a-zA-Z%])", f):
        if m.group(1) or m.group(3) == "*":
            return None
        if m.start() > pos:
            out.append(f[pos:m.start()])
        if m.group(5) == "%":
            out.append("%")
        else:
            out.append((m.group(2), m.group(3), m.group(4) or "", m.group(5)))
        pos = m.end()
    if pos < len(f):
        if "%" in f[pos:]:
            return None
        out.append(f[pos:])
    return out


def hash_slice(part, lo, hi):
    """Part of a digest: a constant for constant data, else a function of the data."""
    import hashlib
    name, data = part
    if name.startswith("hs:"):
        alg, a, b = name.split(":")[1:]
        a, b = int(a), int(b)
    else:
        alg = name[2:]
        n = HASH_LEN.get(alg)
        if n is None:
            return None
        a, b = 0, n
    i, j, _ = slice(lo, hi).indices(b - a)
    i, j = a + i, a + max(i, j)
    if i == j:
        return K("")
    if isinstance(data, T) and all(isinstance(c, K) and isinstance(c.v, (str, bytes)) for c in data.items):
        h = hashlib.blake2b(digest_size=int(alg[8:]) // 8) if alg.startswith("blake2b-") else hashlib.new(alg)
        for c in data.items:
            h.update(c.v.encode("utf-8") if isinstance(c.v, str) else c.v)
        return K(h.hexdigest()[i:j])
    if i == 0 and j == HASH_LEN.get(alg):
        return S((("h:" + alg, data),))
    return S((("hs:%s:%d:%d" % (alg, i, j), data),))
