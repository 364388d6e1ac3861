"""Regular languages as canonical minimal DFAs over a finite symbol alphabet.

The alphabet is every ASCII character plus one representative symbol for each
class of non-ASCII characters that Python's ``re`` and ``str`` methods tell
apart: word characters, decimal digits, whitespace, everything else.  A DFA is
complete, minimal and interned, so equality of languages is object identity.
"""
from functools import lru_cache

NSYM = 132
S_WORD, S_DIGIT, S_SPACE, S_OTHER = 128, 129, 130, 131
FULL = (1 << NSYM) - 1
# Representatives used when printing witnesses
REPR = {S_WORD: "\u00e9", S_DIGIT: "\u0663", S_SPACE: "\u2003", S_OTHER: "\u20ac"}


def sym_of(ch):
    o = ord(ch)
    if o < 128:
        return o
    if ch.isdecimal():
        return S_DIGIT
    if ch.isspace():
        return S_SPACE
    if ch.isalnum():
        return S_WORD
    return S_OTHER


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << sym_of(c)
    return m


def mask_range(lo, hi):
    m = 0
    for o in range(lo, min(hi, 127) + 1):
        m |= 1 << o
    if hi > 127:
        m |= 0b1111 << 128
    return m


def sym_str(s):
    return chr(s) if s < 128 else REPR[s]


class DFA:
    """Interned minimal complete DFA; state 0 is initial."""

    __slots__ = ("cls", "ncls", "trans", "acc", "n", "_hash", "_memo", "reps")
    _intern = {}

    def __new__(cls, symcls, trans, acc):
        key = (symcls, trans, acc)
        got = cls._intern.get(key)
        if got is not None:
            return got
        self = object.__new__(cls)
        self.cls, self.trans, self.acc = symcls, trans, acc
        self.n = len(trans)
        self.ncls = len(trans[0])
        reps = {}
        for s, c in enumerate(symcls):
            reps.setdefault(c, s)
        self.reps = tuple(reps[c] for c in range(self.ncls))
        self._hash = hash(key)
        self._memo = {}
        cls._intern[key] = self
        return self

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        ws = self.words(4)
        if ws is not None:
            return "{%s}" % ",".join(repr(w) for w in ws)
        return "L<%d states, e.g. %r>" % (self.n, self.example())

    # -- queries --------------------------------------------------------
    def empty(self):
        return self is EMPTY

    def step(self, q, word):
        for ch in word:
            q = self.trans[q][self.cls[sym_of(ch)]]
        return q

    def accepts(self, word):
        return self.acc[self.step(0, word)]

    def live(self):
        """States from which acceptance is reachable."""
        got = self._memo.get("live")
        if got is None:
            pre = [set() for _ in range(self.n)]
            for q in range(self.n):
                for r in self.trans[q]:
                    pre[r].add(q)
            seen = {q for q in range(self.n) if self.acc[q]}
            work = list(seen)
            while work:
                for p in pre[work.pop()]:
                    if p not in seen:
                        seen.add(p)
                        work.append(p)
            got = self._memo["live"] = frozenset(seen)
        return got

    def example(self):
        got = self._memo.get("ex")
        if got is None:
            live = self.live()
            if 0 not in live:
                return None
            seen, work = {0: ""}, [0]
            i = 0
            while True:
                q = work[i]
                i += 1
                if self.acc[q]:
                    got = seen[q]
                    break
                # prefer friendly characters
                order = sorted(range(self.ncls), key=lambda c: (not (48 <= self.nice(c) < 123), self.nice(c)))
                for c in order:
                    r = self.trans[q][c]
                    if r in live and r not in seen:
                        seen[r] = seen[q] + sym_str(self.nice(c))
                        work.append(r)
            self._memo["ex"] = got
        return got

    def nice(self, c):
        """A readable representative symbol of class c."""
        memo = self._memo.setdefault("nice", {})
        if c not in memo:
            best = None
            for s in range(NSYM):
                if self.cls[s] == c:
                    k = (not (97 <= s < 123), not (48 <= s < 58), not (33 <= s < 127), s)
                    if best is None or k < best[0]:
                        best = (k, s)
            memo[c] = best[1]
        return memo[c]

    def words(self, limit):
        """All words if there are at most limit, else None.  Words containing
        a non-ASCII class stand for many strings, so they never count."""
        key = ("words", limit)
        if key in self._memo:
            return self._memo[key]
        live = self.live()
        out = []
        res = None
        ok = True
        work = [(0, "")] if 0 in live else []
        steps = 0
        while work and ok:
            nxt = []
            for q, w in work:
                if self.acc[q]:
                    out.append(w)
                for s in range(NSYM):
                    r = self.trans[q][self.cls[s]]
                    if r in live:
                        if s >= 128:
                            ok = False
                            break
                        nxt.append((r, w + chr(s)))
                        steps += 1
                if len(out) > limit or len(nxt) > 4 * limit + 8 or steps > 20000 or not ok:
                    ok = False
                    break
            work = nxt
        if ok and len(out) <= limit:
            res = tuple(out)
        self._memo[key] = res
        return res

    def single(self):
        w = self.words(1)
        return w[0] if w is not None and len(w) == 1 else None

    def lengths(self):
        """(min, max) word length, max None if unbounded."""
        got = self._memo.get("len")
        if got is None:
            live = self.live()
            if 0 not in live:
                got = (0, 0)
            else:
                lo, cur, d = None, {0}, 0
                hi = 0
                while True:
                    if any(self.acc[q] for q in cur):
                        if lo is None:
                            lo = d
                        hi = d
                    cur = {r for q in cur for r in self.trans[q] if r in live}
                    d += 1
                    if not cur:
                        break
                    if d > self.n + 1:
                        hi = None
                        break
                if lo is None:
                    lo = 0
                got = (lo, hi)
            self._memo["len"] = got
        return got

    def symbols(self):
        """Mask of symbols that occur in some word."""
        got = self._memo.get("syms")
        if got is None:
            live = self.live()
            m = 0
            cl = set()
            for q in range(self.n):
                if q in live:
                    for c, r in enumerate(self.trans[q]):
                        if r in live:
                            cl.add(c)
            for s in range(NSYM):
                if self.cls[s] in cl:
                    m |= 1 << s
            got = self._memo["syms"] = m
        return got


def _canon(symcls, trans, acc, start):
    """Minimise (Moore), merge symbol classes, renumber breadth first, intern."""
    # reachable
    order = [start]
    idx = {start: 0}
    for q in order:
        for r in trans[q]:
            if r not in idx:
                idx[r] = len(order)
                order.append(r)
    t = [[idx[r] for r in trans[q]] for q in order]
    a = [acc[q] for q in order]
    n = len(order)
    # Moore refinement, starting from the length of the shortest accepted word
    back = [[] for _ in range(n)]
    for q in range(n):
        for r in set(t[q]):
            back[r].append(q)
    part = [0] * n
    work = [q for q in range(n) if a[q]]
    for q in work:
        part[q] = 1
    for q in work:
        d = part[q] + 1
        for r in back[q]:
            if not part[r]:
                part[r] = d
                work.append(r)
    nparts = len(set(part))
    while True:
        sig = {}
        new = [0] * n
        for q in range(n):
            k = (part[q],) + tuple(part[r] for r in t[q])
            v = sig.get(k)
            if v is None:
                v = sig[k] = len(sig)
            new[q] = v
        part = new
        if len(sig) == nparts:
            break
        nparts = len(sig)
    rep = {}
    for q in range(n):
        rep.setdefault(part[q], q)
    mt = {p: [part[r] for r in t[q]] for p, q in rep.items()}
    ma = {p: a[q] for p, q in rep.items()}
    # merge classes with equal columns, numbering by first symbol
    ncl = len(t[0])
    cols = {}
    plist = sorted(mt)
    colof = [tuple(mt[p][c] for p in plist) for c in range(ncl)]
    newcls = []
    colrep = []
    for s in range(NSYM):
        k = colof[symcls[s]]
        v = cols.get(k)
        if v is None:
            v = cols[k] = len(cols)
            colrep.append(symcls[s])
        newcls.append(v)
    # BFS numbering
    s0 = part[0]
    num = {s0: 0}
    bfs = [s0]
    for p in bfs:
        for c in colrep:
            r = mt[p][c]
            if r not in num:
                num[r] = len(bfs)
                bfs.append(r)
    ft = tuple(tuple(num[mt[p][c]] for c in colrep) for p in bfs)
    fa = tuple(bool(ma[p]) for p in bfs)
    return DFA(tuple(newcls), ft, fa)


EMPTY = DFA((0,) * NSYM, ((0,),), (False,))
ALL = DFA((0,) * NSYM, ((0,),), (True,))


class NFA:
    """Epsilon NFA with bitmask edges, used only during construction."""

    def __init__(self):
        self.eps = []
        self.edges = []

    def new(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def add_dfa(self, d):
        """Embed a DFA; returns (start, [accepting])."""
        base = len(self.eps)
        live = d.live()
        for _ in range(d.n):
            self.new()
        masks = [0] * d.ncls
        for s in range(NSYM):
            masks[d.cls[s]] |= 1 << s
        for q in range(d.n):
            if q not in live:
                continue
            bydst = {}
            for c, r in enumerate(d.trans[q]):
                if r in live:
                    bydst[r] = bydst.get(r, 0) | masks[c]
            for r, m in bydst.items():
                self.edges[base + q].append((m, base + r))
        return base, [base + q for q in range(d.n) if d.acc[q]]

    def to_dfa(self, start, accs):
        return self.to_dfa_multi([start], accs)

    def to_dfa_multi(self, starts, accs):
        masks = {m for es in self.edges for (m, _) in es}
        classes = _partition(frozenset(masks))
        symcls, nc, repmask = classes
        accs = set(accs)

        def close(states):
            seen = set(states)
            work = list(states)
            while work:
                for r in self.eps[work.pop()]:
                    if r not in seen:
                        seen.add(r)
                        work.append(r)
            return frozenset(seen)
        s0 = close(starts)
        idx = {s0: 0}
        order = [s0]
        trans = []
        for S in order:
            row = []
            outs = [e for q in S for e in self.edges[q]]
            for c in range(nc):
                bit = repmask[c]
                T = close({r for (m, r) in outs if m & bit})
                if T not in idx:
                    idx[T] = len(order)
                    order.append(T)
                row.append(idx[T])
            trans.append(row)
        return _canon(symcls, trans, [bool(S & accs) for S in order], 0)


@lru_cache(maxsize=None)
def _partition(masks):
    blocks = [FULL]
    for m in masks:
        nb = []
        for b in blocks:
            x, y = b & m, b & ~m
            if x:
                nb.append(x)
            if y:
                nb.append(y)
        blocks = nb
    symcls = [0] * NSYM
    rep = []
    for i, b in enumerate(blocks):
        rep.append(b & -b)
        for s in range(NSYM):
            if b >> s & 1:
                symcls[s] = i
    return tuple(symcls), len(blocks), tuple(rep)


@lru_cache(maxsize=None)
def _joint(c1, c2):
    pairs = {}
    symcls = []
    for s in range(NSYM):
        k = (c1[s], c2[s])
        v = pairs.get(k)
        if v is None:
            v = pairs[k] = len(pairs)
        symcls.append(v)
    return tuple(symcls), tuple(pairs)


@lru_cache(maxsize=None)
def product(a, b, op):
    symcls, pairs = _joint(a.cls, b.cls)
    idx = {(0, 0): 0}
    order = [(0, 0)]
    trans = []
    for (p, q) in order:
        row = []
        for (c1, c2) in pairs:
            t = (a.trans[p][c1], b.trans[q][c2])
            if t not in idx:
                idx[t] = len(order)
                order.append(t)
            row.append(idx[t])
        trans.append(row)
    f = {"and": lambda x, y: x and y, "or": lambda x, y: x or y,
         "minus": lambda x, y: x and not y}[op]
    return _canon(symcls, trans, [f(a.acc[p], b.acc[q]) for (p, q) in order], 0)


def inter(a, b):
    if a is b or b is ALL:
        return a
    if a is ALL:
        return b
    if a is EMPTY or b is EMPTY:
        return EMPTY
    return product(a, b, "and")


def union(a, b):
    if a is b or b is EMPTY:
        return a
    if a is EMPTY:
        return b
    if a is ALL or b is ALL:
        return ALL
    return product(a, b, "or")


def minus(a, b):
    if b is EMPTY or a is EMPTY:
        return a
    if a is b or b is ALL:
        return EMPTY
    return product(a, b, "minus")


def compl(a):
    return minus(ALL, a)


@lru_cache(maxsize=None)
def _meets(a, b, want):
    """Some word is in a and (in b if want, else not in b)."""
    pairs = _joint(a.cls, b.cls)[1]
    live = a.live()
    blive = b.live() if want else None
    if 0 not in live:
        return False
    seen = {(0, 0)}
    work = [(0, 0)]
    at, bt = a.trans, b.trans
    while work:
        p, q = work.pop()
        if a.acc[p] and b.acc[q] == want:
            return True
        ra, rb = at[p], bt[q]
        for (c1, c2) in pairs:
            x, y = ra[c1], rb[c2]
            if x in live and (blive is None or y in blive) and (x, y) not in seen:
                seen.add((x, y))
                work.append((x, y))
    return False


def subset(a, b):
    if a is b or b is ALL or a is EMPTY:
        return True
    return not _meets(a, b, False)


def disjoint(a, b):
    if a is EMPTY or b is EMPTY:
        return True
    return not _meets(a, b, True)


@lru_cache(maxsize=None)
def const(word):
    nfa = NFA()
    q = nfa.new()
    s = q
    for ch in word:
        r = nfa.new()
        nfa.edges[q].append((1 << sym_of(ch), r))
        q = r
    return nfa.to_dfa(s, [q])


def charset(mask):
    nfa = NFA()
    q, r = nfa.new(), nfa.new()
    nfa.edges[q].append((mask, r))
    return nfa.to_dfa(q, [r])


@lru_cache(maxsize=None)
def concat(a, b):
    if a is EMPTY or b is EMPTY:
        return EMPTY
    if a is EPS:
        return b
    if b is EPS:
        return a
    nfa = NFA()
    s, acc = nfa.add_dfa(a)
    s2, acc2 = nfa.add_dfa(b)
    for q in acc:
        nfa.eps[q].append(s2)
    return nfa.to_dfa(s, acc2)


def concat_all(parts):
    parts = list(parts)
    if not parts:
        return EPS
    r = parts[-1]
    for p in reversed(parts[:-1]):
        r = concat(p, r)
    return r


@lru_cache(maxsize=None)
def star(a):
    nfa = NFA()
    st = nfa.new()
    s, acc = nfa.add_dfa(a)
    nfa.eps[st].append(s)
    for q in acc:
        nfa.eps[q].append(st)
    return nfa.to_dfa(st, [st])


@lru_cache(maxsize=None)
def repeat(a, lo, hi):
    """a{lo,hi}; hi None for unbounded."""
    nfa = NFA()
    cur = start = nfa.new()
    outs = []
    for _ in range(lo):
        s, acc = nfa.add_dfa(a)
        nfa.eps[cur].append(s)
        cur = nfa.new()
        for q in acc:
            nfa.eps[q].append(cur)
    if hi is None:
        s, acc = nfa.add_dfa(a)
        nfa.eps[cur].append(s)
        for q in acc:
            nfa.eps[q].append(cur)
        outs.append(cur)
    else:
        outs.append(cur)
        for _ in range(hi - lo):
            s, acc = nfa.add_dfa(a)
            nfa.eps[cur].append(s)
            cur = nfa.new()
            for q in acc:
                nfa.eps[q].append(cur)
            outs.append(cur)
    return nfa.to_dfa(start, outs)


EPS = const("")
DOT = charset(FULL)


def words(ws):
    r = EMPTY
    for w in ws:
        r = union(r, const(w))
    return r


# -- quotients and images ----------------------------------------------

@lru_cache(maxsize=None)
def states_after(d, pre):
    """States of d reachable by words of pre."""
    symcls, pairs = _joint(d.cls, pre.cls)
    live = pre.live()
    if 0 not in live:
        return frozenset()
    seen = {(0, 0)}
    work = [(0, 0)]
    out = set()
    while work:
        p, q = work.pop()
        if pre.acc[q]:
            out.add(p)
        for (c1, c2) in pairs:
            t = (d.trans[p][c1], pre.trans[q][c2])
            if t[1] in live and t not in seen:
                seen.add(t)
                work.append(t)
    return frozenset(out)


@lru_cache(maxsize=None)
def states_before(d, post):
    """States of d from which some word of post is accepted."""
    if post is EPS:
        return frozenset(q for q in range(d.n) if d.acc[q])
    if post is ALL:
        return frozenset(q for q in range(d.n) if q in d.live())
    symcls, pairs = _joint(d.cls, post.cls)
    lp, ld = post.live(), d.live()
    seen = {(q, 0) for q in range(d.n)}
    work = list(seen)
    back = {}
    good = []
    while work:
        s = work.pop()
        p, q = s
        if d.acc[p] and post.acc[q]:
            good.append(s)
        for (c1, c2) in pairs:
            t = (d.trans[p][c1], post.trans[q][c2])
            if t[1] not in lp or t[0] not in ld:
                continue
            back.setdefault(t, []).append(s)
            if t not in seen:
                seen.add(t)
                work.append(t)
    ok = set(good)
    while good:
        for s in back.get(good.pop(), ()):
            if s not in ok:
                ok.add(s)
                good.append(s)
    return frozenset(p for p, q in ok if q == 0)


@lru_cache(maxsize=None)
def from_state(d, q):
    return _canon(d.cls, [list(r) for r in d.trans], list(d.acc), q)


@lru_cache(maxsize=None)
def between(d, q1s, q2s):
    """Words leading from a state in q1s to a state in q2s."""
    nfa = NFA()
    masks = [0] * d.ncls
    for s in range(NSYM):
        masks[d.cls[s]] |= 1 << s
    for _ in range(d.n):
        nfa.new()
    for q in range(d.n):
        by = {}
        for c, r in enumerate(d.trans[q]):
            by[r] = by.get(r, 0) | masks[c]
        for r, m in by.items():
            nfa.edges[q].append((m, r))
    if not q1s or not q2s:
        return EMPTY
    return nfa.to_dfa_multi(sorted(q1s), sorted(q2s))


@lru_cache(maxsize=None)
def middle(d, pre, mid, post):
    """{w in mid : exists u in pre, v in post with u w v in d}."""
    if d is ALL:
        return mid if pre is not EMPTY and post is not EMPTY else EMPTY
    return inter(mid, between(d, states_after(d, pre), states_before(d, post)))


def left_quot(d, pre):
    """{w : exists u in pre, u w in d}."""
    return middle(d, pre, ALL, EPS)


def right_quot(d, post):
    """{w : exists v in post, w v in d}."""
    return middle(d, EPS, ALL, post)


@lru_cache(maxsize=None)
def map_syms(d, fn):
    """Image under a per-symbol map fn(sym) -> iterable of words (as DFAs or a symbol)."""
    nfa = NFA()
    for _ in range(d.n):
        nfa.new()
    live = d.live()
    for q in range(d.n):
        if q not in live:
            continue
        by = {}
        for s in range(NSYM):
            r = d.trans[q][d.cls[s]]
            if r in live:
                by.setdefault(r, []).append(s)
        for r, syms in by.items():
            m = 0
            langs = {}
            for s in syms:
                img = fn(s)
                if isinstance(img, int):
                    m |= img
                else:
                    langs[img] = True
            if m:
                nfa.edges[q].append((m, r))
            for L in langs:
                s0, accs = nfa.add_dfa(L)
                nfa.eps[q].append(s0)
                for a in accs:
                    nfa.eps[a].append(r)
    return nfa.to_dfa(0, [q for q in range(d.n) if d.acc[q]])


def _lower_sym(s):
    if s < 128:
        return 1 << ord(chr(s).lower())
    return 1 << s


def _upper_sym(s):
    if s < 128:
        return 1 << ord(chr(s).upper())
    return 1 << s


def lower(d):
    return map_syms(d, _lower_sym)


def upper(d):
    return map_syms(d, _upper_sym)


@lru_cache(maxsize=None)
def premap(d, fn):
    """{w : fn(w) in d} for a symbol-to-symbol map."""
    symcls = [d.cls[fn(s)] for s in range(NSYM)]
    used = sorted(set(symcls))
    idx = {c: i for i, c in enumerate(used)}
    return _canon([idx[c] for c in symcls], [[r[c] for c in used] for r in d.trans], list(d.acc), 0)


@lru_cache(maxsize=None)
def reverse(d):
    nfa = NFA()
    masks = [0] * d.ncls
    for s in range(NSYM):
        masks[d.cls[s]] |= 1 << s
    for _ in range(d.n):
        nfa.new()
    live = d.live()
    for q in range(d.n):
        if q in live:
            for c, r in enumerate(d.trans[q]):
                if r in live:
                    nfa.edges[r].append((masks[c], q))
    st = nfa.new()
    for q in range(d.n):
        if d.acc[q]:
            nfa.eps[st].append(q)
    return nfa.to_dfa(st, [0])


@lru_cache(maxsize=None)
def contains(word):
    return concat(concat(ALL, const(word)), ALL)


@lru_cache(maxsize=None)
def without(word):
    return compl(contains(word))


@lru_cache(maxsize=None)
def prefix_lang(word):
    return concat(const(word), ALL)


@lru_cache(maxsize=None)
def suffix_lang(word):
    return concat(ALL, const(word))


@lru_cache(maxsize=None)
def unmap_syms(d, fn):
    """{w : some image of w under the per-symbol map fn is in d}."""
    nfa = NFA()
    for _ in range(d.n):
        nfa.new()
    edges = {}
    memo = {}
    for s in range(NSYM):
        img = fn(s)
        if isinstance(img, int):
            img = charset(img)
        for q in range(d.n):
            if (q, img) not in memo:
                memo[q, img] = reach(d, q, img)
            for r in memo[q, img]:
                edges[q, r] = edges.get((q, r), 0) | 1 << s
    for (q, r), m in edges.items():
        nfa.edges[q].append((m, r))
    return nfa.to_dfa(0, [q for q in range(d.n) if d.acc[q]])



def reach(d, start, pre):
    """States of d reached from a state by words of pre."""
    symcls, pairs = _joint(d.cls, pre.cls)
    live = pre.live()
    if 0 not in live:
        return frozenset()
    seen = {(start, 0)}
    work = [(start, 0)]
    out = set()
    while work:
        p, q = work.pop()
        if pre.acc[q]:
            out.add(p)
        for (c1, c2) in pairs:
            t = (d.trans[p][c1], pre.trans[q][c2])
            if t[1] in live and t not in seen:
                seen.add(t)
                work.append(t)
    return frozenset(out)
