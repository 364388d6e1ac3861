"""Canonical forms of states: dedupe, ageing of loop-local values, joins at loop heads."""
from .values import K, S, N, U, R, T, Fn, Bm, Nm, Q, X, V, HInst, HFrame, HList, HSet, HDict, HJ, HFwd, HNat, is_int


class Tm:
    """Template of zero or more elements: ids are freshened for every element."""

    __slots__ = ("v", "ids")

    def __init__(self, v, ids):
        self.v, self.ids = v, ids

    def __eq__(self, o):
        return isinstance(o, Tm) and self.v == o.v and self.ids == o.ids

    def __hash__(self):
        return hash((self.v, self.ids))

    def __repr__(self):
        return "Tm(%r)" % (self.v,)


class Walk:
    """Numbering of a state's reachable part."""

    def __init__(self, st, base):
        self.st = st
        self.base = base
        self.num = {}        # id -> canonical number
        self.order = []      # ids in canonical order
        self.conts = []      # container addresses (with Many segments) in order
        self.atoms = []
        self.ints = None     # list when integers in variables are to be blurred
        self.strs = None     # the same for strings

    def value(self, v):
        st = self.st
        if isinstance(v, K):
            return ("K",) + v._k
        if isinstance(v, S):
            return ("S",) + tuple(self.part(p) for p in st.expand(v.parts)) + self.whole(v)
        if isinstance(v, N):
            if isinstance(v.src, S):
                return ("N", v.lo, v.hi, self.value(v.src))
            return ("N", v.lo, v.hi, self.addr(v.src) if v.src is not None and v.src in st.heap else None)
        if isinstance(v, R):
            return ("R", self.addr(v.a))
        if isinstance(v, T):
            return ("T",) + tuple(self.value(x) for x in v.items)
        if isinstance(v, Bm):
            return ("Bm", self.value(v.fn), self.value(v.self))
        if isinstance(v, Nm):
            return ("Nm", self.value(v.recv), v.name)
        if isinstance(v, Q):
            return ("Q", v.kind) + tuple(self.any(x) for x in v.args)
        if isinstance(v, Fn):
            return ("Fn", v.qual, id(v.node), None if v.frame is None else self.addr(v.frame))
        if isinstance(v, U):
            return ("U", v.kind, self.ident(v.ident))
        if isinstance(v, V):
            return (v.tag, v._k if isinstance(v._k, (str, int, tuple)) else id(v._k))
        raise TypeError("canon: %r" % (v,))

    def part(self, p):
        if isinstance(p, str):
            return p
        if isinstance(p, tuple):
            return ("f", p[0], self.any(p[1]))
        return self.atom(p)

    def whole(self, v):
        # an atom with a substitution keeps its own identity (needed for ne facts)
        if len(v.parts) == 1 and isinstance(v.parts[0], int) and v.parts[0] in self.st.sub:
            return (("=", self.atom_id(v.parts[0])),)
        return ()

    def ident(self, i):
        if isinstance(i, int):
            return ("i", self.atom_id(i))
        return i

    def any(self, x):
        if isinstance(x, V):
            return self.value(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, frozenset):
            return ("fs",) + tuple(sorted((self.any(y) for y in x), key=repr))
        return x

    def atom_id(self, i):
        n = self.num.get(i)
        if n is None:
            n = self.num[i] = len(self.num)
            self.order.append(i)
            self.atoms.append(i)
        return n

    def atom(self, i):
        if i in self.num:
            return ("a", self.num[i])
        return ("a", self.atom_id(i), self.st.lang[i])

    def addr(self, a):
        st = self.st
        obj = st.heap.get(a)
        if a < self.base[0] and obj is self.base[1].get(a):
            return ("b", a)
        if a in self.num:
            return self.num[a]
        n = self.num[a] = len(self.num)
        self.order.append(a)
        return (n, self.obj(a, obj))

    def slot(self, kind, a, k, v):
        if self.ints is not None and is_int(v):
            self.ints.append(((kind, a, k), v))
            return "int"
        if self.strs is not None and kind != "m" and isinstance(v, (K, S)) and (isinstance(v, S) or isinstance(v.v, str)):
            self.strs.append(((kind, a, k), v))
            return "str"
        return self.value(v) if isinstance(v, V) else self.any(v)

    def obj(self, a, o):
        if isinstance(o, HFrame):
            return ("F", o.fn if isinstance(o.fn, str) else getattr(o.fn, "qual", None),
                    tuple((k, self.slot("f", a, k, o.vars[k])) for k in sorted(o.vars)),
                    None if o.up is None else self.addr(o.up))
        if isinstance(o, HInst):
            return ("I", o.cls.qual, tuple((k, self.slot("i", a, k, o.attrs[k])) for k in sorted(o.attrs)))
        if isinstance(o, HList):
            out = []
            for s in o.segs:
                if s[0] == "1":
                    out.append(self.value(s[1]))
                elif s[0] == "/":
                    out.append(("/", self.atom(s[1]), s[2]))
                elif not out or out[-1] != "*":
                    out.append("*")
            if any(s[0] == "*" for s in o.segs):
                self.conts.append(a)
            return ("L", tuple(out))
        if isinstance(o, HSet):
            self.conts.append(a)
            return ("S", tuple(self.value(s[1]) for s in o.segs if s[0] == "1"), self.absent(o.absent),
                    tuple((self.atom(x[1]), x[2]) for x in o.src))
        if isinstance(o, HDict):
            self.conts.append(a)
            return ("D", tuple((self.value(e[1]), self.value(e[2])) for e in o.ents if e[0] == "1"),
                    self.absent(o.absent), o.default)
        if isinstance(o, HJ):
            return ("J", o.kinds)
        if isinstance(o, HFwd):
            return ("W", self.value(o.v))
        if isinstance(o, HNat):
            return ("X", o.kind, tuple((k, self.any(o.f[k])) for k in sorted(o.f)))
        raise TypeError(repr(o))

    def absent(self, ab):
        out = []
        for v in ab:
            if isinstance(v, K):
                out.append(repr(v))
        return tuple(sorted(out))

    def roots(self):
        st = self.st
        r = [self.addr(st.frame) if st.frame is not None else None]
        for x in st.stack:
            r.append(self.value(x))
        r.append(tuple((k, self.slot("m", None, k, st.mon[k])) for k in sorted(st.mon)))
        for a in sorted(st.basemod):
            r.append(self.addr(a))
        return tuple(r)


def manys(o):
    if isinstance(o, HDict):
        return [e[1] for e in o.ents if e[0] == "*"]
    return [s[1] for s in o.segs if s[0] == "*"]


def tm_key(st, tm, walk):
    """Key of a template: local numbering, global numbers for shared parts."""
    w = Walk(st, walk.base)
    w.num = dict(walk.num)
    n0 = len(w.num)
    k = w.value(tm.v)
    # nested Many templates, sorted
    nested = []
    i = 0
    while i < len(w.conts):
        a = w.conts[i]
        i += 1
        nested.append(tuple(sorted((tm_key(st, t, w)[0] for t in manys(st.heap[a])), key=repr)))
    nes = []
    for pr in st.ne:
        t = tuple(pr)
        if len(t) == 2 and t[0] in w.num and t[1] in w.num and (w.num[t[0]] >= n0 or w.num[t[1]] >= n0):
            nes.append(tuple(sorted((w.num[t[0]], w.num[t[1]]))))
    return (k, tuple(nested), tuple(sorted(nes))), w


class Canon:
    """Canonical view of a state: skeleton key, containers, template keys."""

    def __init__(self, st, base):
        self.st = st
        w = self.w = Walk(st, base)
        roots = w.roots()
        nes = []
        for pr in st.ne:
            t = tuple(pr)
            if len(t) == 2 and t[0] in w.num and t[1] in w.num:
                nes.append(tuple(sorted((w.num[t[0]], w.num[t[1]]))))
        self.key = (roots, tuple(sorted(nes)), st.blame, st.taint, st.generic)
        self.hash = hash(self.key)
        self.conts = list(w.conts)
        self._tms = None
        self._blur = None
        self._sblur = None

    def blurred_strings(self):
        """(key with strings in variables hidden, those strings)."""
        if self._sblur is None:
            w = Walk(self.st, self.w.base)
            w.strs = []
            r = w.roots()
            self._sblur = ((r, self.key[2:]), w.strs)
        return self._sblur

    def blurred(self):
        """(key with integers in variables hidden, those integers) or None if there are none."""
        if self._blur is None:
            w = Walk(self.st, self.w.base)
            w.ints = []
            r = w.roots()
            self._blur = ((r, self.key[1:]), w.ints)
        return self._blur if self._blur[1] else None

    @property
    def tms(self):
        if self._tms is None:
            self._tms = [{tm_key(self.st, t, self.w)[0]: t for t in manys(self.st.heap[a])} for a in self.conts]
        return self._tms


def reach(st, roots, base, into=None):
    """Ids reachable from values in roots, including through templates."""
    seen = set() if into is None else into
    work = list(roots)
    heap = st.heap
    while work:
        x = work.pop()
        if isinstance(x, S):
            for p in x.parts:
                if isinstance(p, tuple):
                    work.append(p[1])
                elif isinstance(p, int) and p not in seen:
                    seen.add(p)
                    if p in st.sub:
                        work.append(S(st.sub[p]))
        elif isinstance(x, R):
            if x.a not in seen:
                o = heap.get(x.a)
                if x.a < base[0] and o is base[1].get(x.a):
                    continue
                seen.add(x.a)
                if o is None:
                    raise KeyError("dangling address %d" % x.a)
                work.extend(kids(o))
        elif isinstance(x, T):
            work.extend(x.items)
        elif isinstance(x, Bm):
            work += (x.fn, x.self)
        elif isinstance(x, Nm):
            work.append(x.recv)
        elif isinstance(x, Fn):
            if x.frame is not None:
                work.append(R(x.frame))
        elif isinstance(x, N):
            if isinstance(x.src, S):
                work.append(x.src)
            elif x.src is not None and x.src in heap:
                work.append(R(x.src))
        elif isinstance(x, U):
            if isinstance(x.ident, int):
                seen.add(x.ident)
        elif isinstance(x, Q):
            work.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            work.extend(x)
        elif isinstance(x, Tm):
            work.append(x.v)
    return seen


def vids(v):
    """Ids a scalar value mentions."""
    out = set()
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, S):
            for p in x.parts:
                if isinstance(p, int):
                    out.add(p)
                elif isinstance(p, tuple):
                    work.append(p[1])
        elif isinstance(x, N) and isinstance(x.src, S):
            work.append(x.src)
        elif isinstance(x, (T, Q)):
            work.extend(x.items if isinstance(x, T) else [y for y in x.args if isinstance(y, V)])
        elif isinstance(x, U) and isinstance(x.ident, int):
            out.add(x.ident)
        elif isinstance(x, R):
            out.add(x.a)
    return out


def kids(o):
    if isinstance(o, HFrame):
        return list(o.vars.values()) + ([R(o.up)] if o.up is not None else [])
    if isinstance(o, HInst):
        return list(o.attrs.values())
    if isinstance(o, HList):
        return [S((s[1],)) if s[0] == "/" else s[1] for s in o.segs]
    if isinstance(o, HSet):
        return [s[1] for s in o.segs] + [S((x[1],)) for x in o.src]
    if isinstance(o, HDict):
        out = []
        for e in o.ents:
            out.extend(e[1:3])
        return out
    if isinstance(o, HFwd):
        return [o.v]
    if isinstance(o, HNat):
        return list(o.f.values())
    return []


def gc(st, base):
    roots = [R(st.frame)] + list(st.stack) + list(st.mon.values())
    for a in st.basemod:
        roots.extend(kids(st.heap[a]))
    live = reach(st, roots, base)
    b0 = base[0]
    st.heap = {a: o for a, o in st.heap.items() if a in live or a < b0}
    # absent facts may mention dead atoms: prune
    for a in list(st.heap):
        o = st.heap[a]
        if a >= b0 and isinstance(o, (HSet, HDict)) and o.absent:
            ab = frozenset(v for v in o.absent if isinstance(v, K) or vids(v) <= live)
            if len(ab) != len(o.absent):
                st.heap[a] = HSet(o.segs, ab, o.frozen, o.src) if isinstance(o, HSet) else HDict(o.ents, ab, o.default)
    # sub closure for atoms
    st.lang = {i: L for i, L in st.lang.items() if i in live}
    st.sub = {i: p for i, p in st.sub.items() if i in live}
    st.ne = frozenset(p for p in st.ne if p <= live)
    st.dirty = st.dirty & live
    return st


def copy_value(st, v, ids, src=None, mapping=None):
    """Copy of v where ids (atoms and addresses) become fresh.  src: state to copy from."""
    src = src or st
    m = {} if mapping is None else mapping

    def cp(x):
        if isinstance(x, S):
            return S(tuple(pt(p) for p in x.parts))
        if isinstance(x, R):
            return R(ad(x.a))
        if isinstance(x, T):
            return T(cp(y) for y in x.items)
        if isinstance(x, Bm):
            return Bm(cp(x.fn), cp(x.self))
        if isinstance(x, Nm):
            return Nm(cp(x.recv), x.name)
        if isinstance(x, Q):
            return Q(x.kind, *[cp(y) for y in x.args])
        if isinstance(x, N) and isinstance(x.src, S):
            return N(x.lo, x.hi, cp(x.src))
        if isinstance(x, N):
            return N(x.lo, x.hi, m.get(x.src) if x.src in m else (x.src if x.src not in ids else None))
        if isinstance(x, U) and isinstance(x.ident, int):
            return U(x.kind, uid(x.ident))
        if isinstance(x, Tm):
            return Tm(cp(x.v), frozenset(m.get(i, i) for i in x.ids))
        if isinstance(x, tuple):
            return tuple(cp(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(cp(y) for y in x)
        return x

    def pt(p):
        if isinstance(p, str):
            return p
        if isinstance(p, tuple):
            return (p[0], cp(p[1]))
        return at(p)

    def uid(i):
        if i in m:
            return m[i]
        if i not in ids:
            return i
        m[i] = st.new_id()
        return m[i]

    def at(i):
        if i in m:
            return m[i]
        if i not in ids:
            return i
        n = st.new_id()
        m[i] = n
        st.lang[n] = src.lang[i]
        if i in src.sub:
            st.sub[n] = tuple(pt(p) for p in src.sub[i])
        return n

    def ad(a):
        if a in m:
            return m[a]
        if a not in ids:
            return a
        n = st.new_id()
        m[a] = n
        st.heap[n] = None
        st.heap[n] = ob(src.heap[a])
        return n

    def ob(o):
        if isinstance(o, HInst):
            return HInst(o.cls, {k: cp(x) for k, x in o.attrs.items()})
        if isinstance(o, HList):
            return HList(tuple(("/", at(s[1]), s[2]) if s[0] == "/" else (s[0], cp(s[1])) for s in o.segs))
        if isinstance(o, HSet):
            return HSet(tuple((s[0], cp(s[1])) + s[2:] for s in o.segs), frozenset(cp(x) for x in o.absent), o.frozen,
                        tuple(("/", at(x[1]), x[2]) for x in o.src))
        if isinstance(o, HDict):
            return HDict(tuple((e[0],) + tuple(cp(x) for x in e[1:3]) + e[3:] for e in o.ents), frozenset(cp(x) for x in o.absent), o.default)
        if isinstance(o, HJ):
            return o
        if isinstance(o, HFwd):
            return HFwd(cp(o.v))
        if isinstance(o, HNat):
            return HNat(o.kind, {k: cp(x) for k, x in o.f.items()})
        if isinstance(o, HFrame):
            return HFrame({k: cp(x) for k, x in o.vars.items()}, o.up, o.fn)
        raise TypeError(repr(o))

    def deep_ids(x):
        # template ids inside must be mapped before Tm is rebuilt
        return cp(x)

    r = deep_ids(v)
    if m:
        add = set()
        for pr in src.ne:
            t = tuple(pr)
            if len(t) == 2 and (t[0] in m or t[1] in m):
                x, y = m.get(t[0], t[0]), m.get(t[1], t[1])
                if src is not st and not ((t[0] in m) and (t[1] in m)):
                    continue
                add.add(frozenset((x, y)))
        if add:
            st.ne = st.ne | add
    return r


def age(st, mark, before, base):
    """Turn elements built from ids >= mark, added since heap `before`, into templates."""
    for a in list(st.heap):
        if a >= mark:
            continue
        o = st.heap[a]
        b = before.get(a)
        if o is b or b is None or type(o) is not type(b):
            continue
        if isinstance(o, HList):
            if o.segs == b.segs:
                continue
            n = 0
            while n < len(b.segs) and n < len(o.segs) and o.segs[n] == b.segs[n]:
                n += 1
            segs = list(o.segs[:n])
            tail = []
            for s in o.segs[n:]:
                if s[0] == "1":
                    ids = frozenset(i for i in reach(st, [s[1]], base) if i >= mark)
                    s = ("*", Tm(s[1], ids))
                tail.append(s)
            st.heap[a] = HList(merge_many(st, segs + tail, base))
        elif isinstance(o, HSet):
            old = set(s[1] for s in b.segs if s[0] == "1")
            segs = []
            for s in o.segs:
                if s[0] == "1" and s[1] not in old:
                    ids = frozenset(i for i in reach(st, [s[1]], base) if i >= mark)
                    if ids:
                        if len(s) > 2:
                            continue
                        s = ("*", Tm(s[1], ids))
                segs.append(s)
            st.heap[a] = HSet(merge_many(st, segs, base, True), _old(o.absent, mark), o.frozen, o.src)
        elif isinstance(o, HDict):
            oldk = set(e[1] for e in b.ents if e[0] == "1")
            ents = []
            for e in o.ents:
                if e[0] == "1" and e[1] not in oldk:
                    kids_ = reach(st, [e[1]], base)
                    if any(i >= mark for i in kids_):
                        ids = frozenset(i for i in reach(st, [e[1], e[2]], base) if i >= mark)
                        if len(e) > 3 and not ids & st.dirty:
                            continue
                        e = ("*", Tm(T((e[1], e[2])), ids))
                ents.append(e)
            st.heap[a] = HDict(merge_many(st, ents, base, True), _old(o.absent, mark), o.default)
    return st


def _old(absent, mark):
    return frozenset(x for x in absent if isinstance(x, K) or not any(p >= mark for p in vids(x)))


def merge_many(st, segs, base, anywhere=False):
    """Drop duplicate templates (adjacent ones for lists)."""
    out = []
    w = Walk(st, base)
    seen = {}
    for s in segs:
        if s[0] != "*":
            if not anywhere:
                seen = {}
            out.append(s)
            continue
        k = tm_key(st, s[1], _shared_walk(st, s[1], base))[0]
        if k in seen:
            continue
        seen[k] = True
        out.append(s)
    return tuple(out)


def _shared_walk(st, tm, base):
    """Numbering that identifies ids outside the template by themselves."""
    w = Walk(st, base)
    for i in reach(st, [tm.v], base):
        if i not in tm.ids:
            w.num[i] = ("ext", i)
    return _ExtWalk(st, base, w.num)


class _ExtWalk(Walk):
    def __init__(self, st, base, num):
        Walk.__init__(self, st, base)
        # external ids keep negative numbers so they compare below local ones
        self.num = {}
        for i in sorted(num):
            self.num[i] = -1 - i


def join_into(dst, dc, src, sc):
    """Add templates of src (canon sc) missing in dst (canon dc); True if dst grew."""
    grew = False
    back = None
    for pos, a in enumerate(dc.conts):
        have = dc.tms[pos]
        for k, t in sc.tms[pos].items():
            if k in have:
                continue
            grew = True
            if back is None:
                back = dict(zip(sc.w.order, dc.w.order))
            ids = set(reach(src, [t.v], dc.w.base))
            shared = {i: back[i] for i in ids if i in back}
            m = dict(shared)
            tv = copy_value(dst, t, ids, src, m)
            # keep ne facts between the template's atoms and shared atoms
            add = set()
            for pr in src.ne:
                p = tuple(pr)
                if len(p) == 2 and (p[0] in m or p[0] in back) and (p[1] in m or p[1] in back):
                    add.add(frozenset((m.get(p[0], back.get(p[0])), m.get(p[1], back.get(p[1])))))
            dst.ne = dst.ne | add
            nt = Tm(tv.v, frozenset(x for i, x in m.items() if i not in shared))
            o = dst.heap[a]
            if isinstance(o, HList):
                # put beside the existing Many run (canonical skeleton has the same runs)
                segs = list(o.segs)
                run = _run_of(src.heap[sc.conts[pos]].segs, t)
                idx = [i for i, s in enumerate(segs) if s[0] == "*" and _run_of(segs, s[1]) == run]
                segs.insert(idx[-1] + 1 if idx else len(segs), ("*", nt))
                dst.heap[a] = HList(segs)
            elif isinstance(o, HSet):
                dst.heap[a] = HSet(o.segs + (("*", nt),), o.absent & _absK(src.heap[sc.conts[pos]].absent), o.frozen, o.src)
            else:
                dst.heap[a] = HDict(o.ents + (("*", nt),), o.absent, o.default)
        so, do = src.heap[sc.conts[pos]], dst.heap[a]
        if isinstance(do, (HSet, HDict)) and do.absent:
            keep = frozenset(x for x in do.absent if isinstance(x, K) and x in so.absent)
            if len(keep) != len(do.absent):
                # atoms known absent are only kept when both states agree structurally
                if back is None:
                    back = dict(zip(sc.w.order, dc.w.order))
                extra = set()
                for x in so.absent:
                    if isinstance(x, S) and all(isinstance(p, str) or (isinstance(p, int) and p in back) for p in x.parts):
                        y = S(tuple(p if isinstance(p, str) else back[p] for p in x.parts))
                        if y in do.absent:
                            extra.add(y)
                keep = keep | extra
                if len(keep) != len(do.absent):
                    grew = True
                    dst.heap[a] = HSet(do.segs, keep, do.frozen, do.src) if isinstance(do, HSet) else HDict(do.ents, keep, do.default)
    return grew


def _absK(ab):
    return frozenset(ab)


def _run_of(segs, tm):
    n = 0
    prev = False
    for s in segs:
        if s[0] == "*":
            if not prev:
                n += 1
            prev = True
            if s[1] is tm or s[1] == tm:
                return n
        else:
            prev = False
    return n
