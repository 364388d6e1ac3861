"""Abstract values, heap objects and abstract states."""
from . import dfa as D


class V:
    """Base class of abstract values (immutable, compared by structure)."""

    __slots__ = ("_k",)
    tag = "?"

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self._k == o._k)

    def __hash__(self):
        return hash((self.tag, self._k))

    def __repr__(self):
        return "%s%r" % (self.tag, self._k)


class K(V):
    """A concrete immutable constant (None, bool, int, float, str, bytes, ...)."""

    __slots__ = ("v",)
    tag = "K"

    def __init__(self, v):
        self.v = v
        self._k = (type(v).__name__, v)

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = K(None), K(True), K(False)


class S(V):
    """A non-constant string: parts are str literals or atom ids."""

    __slots__ = ("parts",)
    tag = "S"

    def __init__(self, parts):
        self.parts = parts
        self._k = parts


class N(V):
    """Unknown integer in [lo, hi]; src is the address it is the length of."""

    __slots__ = ("lo", "hi", "src")
    tag = "N"

    def __init__(self, lo=None, hi=None, src=None):
        self.lo, self.hi, self.src = lo, hi, src
        self._k = (lo, hi, src)


class U(V):
    """Unknown scalar of a known kind: 'bool', 'float', 'bytes', 'type', 'obj'.

    ident distinguishes provably different or same unknowns (may be None).
    """

    __slots__ = ("kind", "ident")
    tag = "U"

    def __init__(self, kind, ident=None):
        self.kind, self.ident = kind, ident
        self._k = (kind, ident)


class R(V):
    """Reference to a heap object."""

    __slots__ = ("a",)
    tag = "R"

    def __init__(self, a):
        self.a = a
        self._k = a


class T(V):
    """Tuple."""

    __slots__ = ("items",)
    tag = "T"

    def __init__(self, items):
        self.items = tuple(items)
        self._k = self.items


class Fn(V):
    """Function closure."""

    __slots__ = ("node", "mod", "frame", "cls", "qual", "kind")
    tag = "Fn"

    def __init__(self, node, mod, frame, cls, qual, kind="func"):
        self.node, self.mod, self.frame, self.cls, self.qual, self.kind = node, mod, frame, cls, qual, kind
        self._k = (qual, id(node), frame, kind)


class Bm(V):
    """Bound method (function value, self value)."""

    __slots__ = ("fn", "self")
    tag = "Bm"

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_
        self._k = (fn, self_)


class Nm(V):
    """Bound native method: name on a receiver value."""

    __slots__ = ("recv", "name")
    tag = "Nm"

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self._k = (recv, name)


class Prop(V):
    """Property object in a class body."""

    __slots__ = ("fget", "fset")
    tag = "Prop"

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset
        self._k = (fget, fset)


class C(V):
    """A class (project or builtin)."""

    __slots__ = ("info",)
    tag = "C"

    def __init__(self, info):
        self.info = info
        self._k = info.qual

    def __repr__(self):
        return "<class %s>" % self.info.qual


class M(V):
    """A project module."""

    __slots__ = ("name",)
    tag = "M"

    def __init__(self, name):
        self.name = name
        self._k = name


class Lib(V):
    """A library object known by its dotted name."""

    __slots__ = ("name",)
    tag = "Lib"

    def __init__(self, name):
        self.name = name
        self._k = name


class Q(V):
    """Structured opaque value, e.g. Q('content', token): equality by structure."""

    __slots__ = ("kind", "args")
    tag = "Q"

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self._k = (kind, args)


class X(V):
    """Unknown value (analysis gap); using it to decide taints the path."""

    __slots__ = ("why",)
    tag = "X"

    def __init__(self, why):
        self.why = why
        self._k = why


class ClassInfo:
    """Class description."""

    def __init__(self, name, qual, bases, mod=None, node=None, frame=None):
        self.name, self.qual, self.bases, self.mod, self.node, self.frame = name, qual, bases, mod, node, frame
        self._mro = None

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases:
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def issub(self, other):
        return other in self.mro()


# -- heap objects (immutable; replaced on write) -----------------------------

class HInst:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HFrame:
    __slots__ = ("vars", "up", "fn")

    def __init__(self, vars_, up, fn):
        self.vars, self.up, self.fn = vars_, up, fn


class HList:
    """segs: tuple of ('1', v) | ('*', template) | ('/', atom, sep)."""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)


class HSet:
    """segs as in HList (no order meaning); absent: frozenset of values known not in it."""

    __slots__ = ("segs", "absent", "frozen", "src")

    def __init__(self, segs, absent=frozenset(), frozen=False, src=()):
        self.segs, self.absent, self.frozen = tuple(segs), absent, frozen
        self.src = src      # ('/', atom, sep): with the individually known elements, exactly the elements


class HDict:
    """ents: tuple of ('1', k, v) | ('*', kt, vt); absent: known missing keys."""

    __slots__ = ("ents", "absent", "default")

    def __init__(self, ents, absent=frozenset(), default=None):
        self.ents, self.absent, self.default = tuple(ents), absent, default


class HJ:
    """JSON value of not yet determined kind."""

    __slots__ = ("kinds",)

    def __init__(self, kinds):
        self.kinds = kinds


class HFwd:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class HNat:
    """Native object; fields: tuple of (name, value) with hashable/V values."""

    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind, self.f = kind, f


class Raise:
    """Evaluation outcome: exception propagating (v is an exception value)."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Abort:
    """Evaluation outcome: leave the generator with frame address gen."""

    __slots__ = ("gen", "kind", "val")

    def __init__(self, gen, kind, val):
        self.gen, self.kind, self.val = gen, kind, val


class State:
    """One abstract state."""

    __slots__ = ("heap", "lang", "sub", "ne", "frame", "stack", "mon", "generic",
                 "blame", "taint", "nid", "trail", "dirty", "basemod")

    def __init__(self):
        self.heap = {}
        self.lang = {}
        self.sub = {}
        self.ne = frozenset()
        self.frame = None
        self.stack = ()
        self.mon = {}
        self.generic = 0
        self.blame = False
        self.taint = ()
        self.nid = 1
        self.trail = None
        self.dirty = frozenset()
        self.basemod = frozenset()

    def fork(self):
        s = object.__new__(State)
        s.heap = dict(self.heap)
        s.lang = dict(self.lang)
        s.sub = dict(self.sub)
        s.ne = self.ne
        s.frame = self.frame
        s.stack = self.stack
        s.mon = dict(self.mon)
        s.generic = self.generic
        s.blame = self.blame
        s.taint = self.taint
        s.nid = self.nid
        s.trail = self.trail
        s.dirty = self.dirty
        s.basemod = self.basemod
        return s

    def new_id(self):
        i = self.nid
        self.nid = i + 1
        return i

    def alloc(self, obj):
        a = self.new_id()
        self.heap[a] = obj
        return R(a)

    def wr(self, a, obj, base0=0):
        """Mutation of an object (as opposed to learning more about it)."""
        self.heap[a] = obj
        if a not in self.dirty:
            self.dirty = self.dirty | {a}
        if a < base0 and a not in self.basemod:
            self.basemod = self.basemod | {a}

    def atom(self, lang):
        """Fresh string in the language; a constant if there is only one."""
        w = lang.single()
        if w is not None:
            return K(w)
        i = self.new_id()
        self.lang[i] = lang
        return S((i,))

    def add_ne(self, i, j):
        self.ne = self.ne | {frozenset((i, j))}

    def add_taint(self, why):
        if why not in self.taint and len(self.taint) < 6:
            self.taint = self.taint + (why,)

    # -- ropes: parts are str, atom id or (function name, value) ---------
    def expand(self, parts):
        """Parts with substitutions and singleton languages resolved, literals merged."""
        out = []
        work = list(reversed(parts))
        while work:
            p = work.pop()
            if isinstance(p, int):
                if p in self.sub:
                    work.extend(reversed(self.sub[p]))
                    continue
                w = self.lang[p].single()
                if w is not None:
                    p = w
            elif isinstance(p, tuple):
                v = self.norm(p[1])
                r = DERIVED[p[0]].fold(self, v) if p[0] in DERIVED else None
                if r is not None:
                    work.extend(reversed(r))
                    continue
                if v is not p[1]:
                    p = (p[0], v)
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        return tuple(out)

    def norm(self, v):
        """Normal form of a string value: K or S with expanded parts."""
        if isinstance(v, S):
            parts = self.expand(v.parts)
            if not parts:
                return K("")
            if len(parts) == 1 and isinstance(parts[0], str):
                return K(parts[0])
            return S(parts)
        return v

    def part_lang(self, p):
        if isinstance(p, str):
            return D.const(p)
        if isinstance(p, tuple):
            f = DERIVED.get(p[0])
            return f.lang(self, p[1]) if f else hash_lang(p[0])
        L = self.lang[p]
        if p in self.sub:
            L = D.inter(L, self.parts_lang(self.sub[p]))
        return L

    def lang_of(self, v):
        if isinstance(v, K):
            return D.const(v.v)
        if len(v.parts) == 1:
            return self.part_lang(v.parts[0])
        return self.parts_lang(v.parts)

    def parts_lang(self, parts):
        return D.concat_all([self.part_lang(p) for p in parts])

    def refine_part(self, p, L):
        if isinstance(p, int):
            n = D.inter(self.lang[p], L)
            if n is D.EMPTY:
                return False
            if n is self.lang[p]:
                return True
            self.lang[p] = n
            if p in self.sub and not self.refine(S(self.sub[p]), L):
                return False
            # a string made of this part must still fit its own language
            for q in [q for q, ps in self.sub.items() if p in ps]:
                if not self.refine(S(self.sub[q]), self.lang[q]):
                    return False
            return True
        if isinstance(p, tuple):
            f = DERIVED.get(p[0])
            if f is not None:
                return f.refine(self, p[1], L)
            return not D.disjoint(self.part_lang(p), L)
        return L.accepts(p)

    def refine(self, v, L):
        """Constrain string v to language L; False if impossible."""
        if L is D.ALL:
            return True
        if isinstance(v, K):
            return L.accepts(v.v)
        if len(v.parts) == 1:
            return self.refine_part(v.parts[0], L)
        parts = self.expand(v.parts)
        if not parts:
            return L.accepts("")
        if len(parts) == 1:
            return self.refine_part(parts[0], L)
        langs = [self.part_lang(p) for p in parts]
        if D.disjoint(D.concat_all(langs), L):
            return False
        for i, p in enumerate(parts):
            if not isinstance(p, str):
                n = D.middle(L, D.concat_all(langs[:i]), langs[i], D.concat_all(langs[i + 1:]))
                if n is D.EMPTY or not self.refine_part(p, n):
                    return False
                langs[i] = n
        return True


class Derived:
    """A string function with known language behaviour."""

    def __init__(self, lang, fold, refine=None):
        self.lang, self.fold = lang, fold
        self.refine = refine or (lambda st, v, L: not D.disjoint(lang(st, v), L))


def _sym_lower(s):
    return ord(chr(s).lower()) if s < 128 else s


def _sym_upper(s):
    return ord(chr(s).upper()) if s < 128 else s


_UP = D.mask_range(65, 90)
_LOW = D.mask_range(97, 122)


def _case(fn, pyfn, img, moved):
    def fold(st, v):
        if isinstance(v, K):
            return (pyfn(v.v),)
        if not st.lang_of(v).symbols() & moved:
            return v.parts
        if len(v.parts) == 1 and isinstance(v.parts[0], tuple) and v.parts[0][0] in ("lower", "upper") \
                and not st.lang_of(v).symbols() >> 128:
            # case folding of ASCII text: the last one decides
            w = st.norm(v.parts[0][1])
            return fold(st, w) or ((fn.__name__[5:], w),)
        return None
    return Derived(lambda st, v: img(st.lang_of(v)), fold, lambda st, v, L: st.refine(v, D.premap(L, fn)))


DERIVED = {
    "lower": _case(_sym_lower, str.lower, D.lower, _UP),
    "upper": _case(_sym_upper, str.upper, D.upper, _LOW),
}

HASH_LEN = {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128, "blake2b-160": 40,
            "blake2b-256": 64, "blake2b-384": 96, "blake2b-512": 128}
HEX = D.mask_range(48, 57) | D.mask_range(97, 102)


def hash_lang(fname):
    if fname.startswith("hs:"):
        lo, hi = fname.split(":")[2:]
        return D.repeat(D.charset(HEX), int(hi) - int(lo), int(hi) - int(lo))
    alg = fname.split(":", 1)[1] if ":" in fname else ""
    if fname.startswith("h:"):
        if alg in HASH_LEN:
            n = HASH_LEN[alg]
            return D.repeat(D.charset(HEX), n, n)
        return D.repeat(D.charset(HEX), 1, None)
    return D.ALL


INJECTIVE = lambda f: f.startswith("h:") or f.startswith("inj:")


def mkstr(parts):
    """String value from parts without consulting a state."""
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return K("")
    if len(out) == 1 and isinstance(out[0], str):
        return K(out[0])
    return S(tuple(out))


def parts_of(v):
    return (v.v,) if isinstance(v, K) else v.parts


def is_str(v):
    return isinstance(v, S) or (isinstance(v, K) and isinstance(v.v, str))


def is_int(v):
    return isinstance(v, N) or (isinstance(v, K) and isinstance(v.v, int) and not isinstance(v.v, bool))
