"""Building abstract input values and running entry points on them."""
from . import dfa as D
from . import rx as RX
from .values import (K, S, N, U, R, T, C, V, NONE, HInst, HList, HSet, HDict, HJ, HNat, Raise, Abort)
from .canon import Tm, gc
from .interp import Interp, Budget, Gap
from .ops import JSET


class Spec:
    """Deferred construction of an abstract value."""

    def __init__(self, f):
        self.f = f


class Ref:
    """A placeholder for a value built earlier under a name."""

    def __init__(self, name, default=None):
        self.name, self.default = name, default


class Cat:
    """String concatenation of pieces (literals, languages, names)."""

    def __init__(self, *parts):
        self.parts = parts


class Let:
    """Build a value and remember it under a name."""

    def __init__(self, name, spec):
        self.name, self.spec = name, spec


class Builder:
    """Turns specifications into values of a state."""

    def __init__(self, st):
        self.st = st
        self.names = {}

    def __call__(self, spec):
        return self.mk(spec)

    def mk(self, x):
        st = self.st
        if isinstance(x, V):
            return x
        if isinstance(x, Spec):
            return x.f(self)
        if isinstance(x, Ref):
            if x.name not in self.names and x.default is not None:
                self.names[x.name] = self.mk(x.default)
            return self.names[x.name]
        if isinstance(x, Let):
            v = self.mk(x.spec)
            self.names[x.name] = v
            return v
        if isinstance(x, Cat):
            parts = []
            for p in x.parts:
                v = self.mk(p)
                parts.extend((v.v,) if isinstance(v, K) else v.parts)
            return st.norm(S(tuple(parts)))
        if isinstance(x, D.DFA):
            return st.atom(x)
        if x is None or isinstance(x, (bool, int, float, str, bytes)):
            return K(x)
        if isinstance(x, dict):
            return st.alloc(HDict([("1", self.mk(k), self.mk(v)) for k, v in x.items()]))
        if isinstance(x, list):
            vals = [self.item(v) for v in x]
            return st.alloc(HList(vals))
        if isinstance(x, tuple):
            return T([self.mk(v) for v in x])
        if isinstance(x, (set, frozenset)):
            return st.alloc(HSet([("1", self.mk(v)) for v in sorted(x, key=repr)]))
        raise TypeError("spec %r" % (x,))

    def item(self, v):
        if isinstance(v, Many):
            n0 = self.st.nid
            val = self.mk(v.spec)
            return ("*", Tm(val, frozenset(range(n0, self.st.nid))))
        return ("1", self.mk(v))


class Many:
    """Any number of list elements of this form."""

    def __init__(self, spec):
        self.spec = spec


def J(*kinds):
    """Any JSON value of the given kinds (all kinds if none given)."""
    ks = frozenset(kinds) if kinds else JSET

    def f(b):
        a = b.st.alloc(HJ(JSET))
        if ks == JSET:
            return a
        r = _narrow(b.st, a, ks)
        return r
    return Spec(f)


def _narrow(st, v, ks):
    return Interp.narrow(_NARROW, v, ks, st)[0]


class _N(Interp):
    def __init__(self):
        pass


_NARROW = _N()


def NotJ(*kinds):
    return J(*(JSET - set(kinds)))


def Rx(pattern):
    """Strings fully matching a regular expression."""
    L = RX.lang(r"(?:%s)\Z" % pattern) if not isinstance(pattern, D.DFA) else pattern
    return L


def NotRx(pattern):
    return D.compl(Rx(pattern))


def MapOf(key, val, *ones, absent=()):
    """Dictionary with any number of entries key -> val besides the listed pairs."""
    def f(b):
        ents = [("1", b.mk(k), b.mk(v)) for k, v in ones]
        n0 = b.st.nid
        t = T((b.mk(key), b.mk(val)))
        ents.append(("*", Tm(t, frozenset(range(n0, b.st.nid)))))
        return b.st.alloc(HDict(ents, frozenset(K(x) for x in absent)))
    return Spec(f)


def Pairs(*pairs, absent=()):
    """Dictionary with the listed pairs (keys may be abstract)."""
    def f(b):
        return b.st.alloc(HDict([("1", b.mk(k), b.mk(v)) for k, v in pairs], frozenset(K(x) for x in absent)))
    return Spec(f)


def ListOf(spec):
    return [Many(spec)]


def Inst(cls, **attrs):
    """Instance of a project class with given attributes."""
    return Spec(lambda b: b.st.alloc(HInst(cls, {k: b.mk(v) for k, v in attrs.items()})))
