"""Scenarios on inventories: abstract inventories handed to the inventory validator."""
from .engine import dfa as D
from .engine.values import (K, S, N, U, R, T, Q, C, X, NONE, TRUE, FALSE, HInst, HList, HSet, HDict, HJ, HNat,
                            HFwd, Raise, Abort)
from .engine.interp import Interp, Budget
from .engine.build import Builder, Inst, J, NotJ, Rx, NotRx, MapOf, Pairs, Many, ListOf, Let, Ref, Cat, Spec
from .engine.project import describe
from .engine.canon import Tm
from .check import Ob, Result

SHA512 = "[0-9a-f]{128}"
TYPE11 = "https://ocfl.io/1.1/spec/#inventory"


def sample(v, st, depth=0):
    """A concrete example of an abstract value (for reports)."""
    while isinstance(v, R) and isinstance(st.heap.get(v.a), HFwd):
        v = st.heap[v.a].v
    if depth > 8:
        return "..."
    if isinstance(v, K):
        return v.v
    if isinstance(v, S):
        w = st.lang_of(v).example()
        return w if w is None or len(w) < 60 else w[:8] + "..(%d)" % len(w)
    if isinstance(v, N):
        return v.lo if v.lo is not None else v.hi if v.hi is not None else 0
    if isinstance(v, T):
        return [sample(x, st, depth + 1) for x in v.items]
    if isinstance(v, R):
        o = st.heap.get(v.a)
        if isinstance(o, HList):
            return [sample(s[1], st, depth + 1) for s in o.segs if s[0] == "1"] + (["..."] if any(s[0] == "*" for s in o.segs) else [])
        if isinstance(o, HSet):
            return [sample(s[1], st, depth + 1) for s in o.segs if s[0] == "1"]
        if isinstance(o, HDict):
            d = {}
            for e in o.ents:
                if e[0] == "1":
                    d[str(sample(e[1], st, depth + 1))] = sample(e[2], st, depth + 1)
                else:
                    d["..."] = "..."
            return d
        if isinstance(o, HJ):
            return "<any of %s>" % ",".join(sorted(map(str, o.kinds)))
        if isinstance(o, HInst):
            return "<%s>" % o.cls.name
    return "<%s>" % type(v).__name__


def exc_name(r, st):
    o = st.heap.get(r.v.a) if isinstance(r.v, R) else None
    return o.cls.name if isinstance(o, HInst) else "exception"


class LogStub:
    """Abstract ValidationLogger.error/warning: counts, and records codes in the state."""

    def __init__(self, prune=False):
        self.prune = prune
        self.hits = 0
        self.codes = set()
        self.bad = []

    def error(self, I, f, args, kw, st, node):
        self.hits += 1
        code = args[1] if len(args) > 1 else kw.get("code")
        cv = code.v if isinstance(code, K) else "?"
        self.codes.add(cv)
        if self.prune:
            return []
        log = I.deref(args[0], st)
        o = st.heap[log.a]
        at = dict(o.attrs)
        at["num_errors"] = N(1, None)
        I.wr(st, log.a, HInst(o.cls, at))
        if not st.mon.get("err"):
            st.mon["err"] = (cv, getattr(I, "cur_mod", ""), bool(st.generic or st.blame))
        elif st.mon["err"][2] and not (st.generic or st.blame):
            st.mon["err"] = (cv, getattr(I, "cur_mod", ""), False)
        return [(NONE, st)]

    def warning(self, I, f, args, kw, st, node):
        return [(NONE, st)]

    def stubs(self):
        return {"ocfl.validation_logger.ValidationLogger.error": self.error,
                "ocfl.validation_logger.ValidationLogger.warning": self.warning}


def run_inventory(p, inv, ls, budget=100, track=False, ivkw=None, callkw=None):
    """Outcomes [(value, state, inventory value, validator value)] of validating an abstract inventory."""
    p.fn("ocfl.validation_logger.ValidationLogger.error")
    p.fn("ocfl.inventory_validator.InventoryValidator.validate")
    I = Interp(p, ls.stubs(), budget=budget)
    I.track_blame = track
    s = p.fresh()
    s.frame = p.modules["ocfl.inventory_validator"].frame
    I.cur_mod = "check"
    b = Builder(s)
    log = b(Inst(p.cls("ocfl.validation_logger.ValidationLogger"), num_errors=0, num_warnings=0, spec_version="1.1"))
    kw = {"log": log, "where": K("root")}
    kw.update({k: K(v) for k, v in (ivkw or {}).items()})
    res = []
    for iv, s1 in I.call(C(p.cls("ocfl.inventory_validator.InventoryValidator")), [], kw, s, None):
        v = Builder(s1)(inv)
        s1.stack = s1.stack + (iv, v)
        for f, s2 in I.getattr(iv, "validate", s1):
            for r, s3 in I.call(f, [v], {k: K(x) for k, x in (callkw or {}).items()}, s2, None):
                res.append((r, s3, v, iv))
    return I, res


def finish(r, I, ls=None):
    r.stats["steps"] = r.stats.get("steps", 0) + I.steps
    r.stats["loops"] = r.stats.get("loops", 0) + I.loops
    if ls is not None:
        r.stats["error reports reached"] = r.stats.get("error reports reached", 0) + ls.hits
    r.funcs |= {q for q in I.calls}
    return r


def must_reject(name, inv, rule, construct="inventory", lax=False, **kw):
    def fn(p, ob):
        r = Result()
        ls = LogStub(prune=True)
        kw2 = dict(kw)
        I, outs = run_inventory(p, inv() if callable(inv) else inv, ls, **kw2)
        for v, s, iv, val in outs:
            r.count("accepting paths examined")
            if isinstance(v, Raise):
                r.count("crash paths (left to the totality property)")
                continue
            if s.taint:
                r.undecided.append(s.taint[0])
                continue
            for b, s2 in I.truth(v, s):
                if b is True:
                    r.add(construct, "accepted without any error", where="ocfl/inventory_validator.py InventoryValidator.validate",
                          example=sample(iv, s2))
        if not ls.hits and not r.findings and not outs:
            r.undecided.append("no error report reached")
        return finish(r, I, ls)
    return Ob(name, rule, fn)


def must_accept(name, inv, rule, construct="inventory", **kw):
    def fn(p, ob):
        r = Result()
        ls = LogStub(prune=False)
        I, outs = run_inventory(p, inv() if callable(inv) else inv, ls, track=True, **kw)
        if not outs:
            r.undecided.append("no outcome")
        for v, s, iv, val in outs:
            r.count("outcomes examined")
            if s.taint:
                r.undecided.append(s.taint[0])
                continue
            err = s.mon.get("err")
            if isinstance(v, Raise):
                if not (s.generic or s.blame):
                    r.add(construct, "raises %s on a conforming inventory" % exc_name(v, s), example=sample(iv, s), detail=describe(v.v, s))
                continue
            if err and not err[2]:
                r.add(construct, "error %s reported for a conforming inventory" % err[0], example=sample(iv, s))
            elif not err:
                for b, s2 in I.truth(v, s):
                    if b is not True:
                        r.add(construct, "verdict is not True for a conforming inventory", example=sample(iv, s2))
        return finish(r, I, ls)
    return Ob(name, rule, fn)


def must_return(name, inv, rule, construct="inventory", thorough=False, **kw):
    """No exception for any value described by inv."""
    def fn(p, ob):
        r = Result()
        ls = LogStub(prune=False)
        I, outs = run_inventory(p, inv() if callable(inv) else inv, ls, **kw)
        if not outs:
            r.undecided.append("no outcome")
        for v, s, iv, val in outs:
            r.count("outcomes examined")
            if isinstance(v, Raise):
                if s.taint:
                    r.undecided.append(s.taint[0])
                    continue
                r.add(construct, "raises %s" % exc_name(v, s), detail=describe(v.v, s), example=sample(iv, s))
        return finish(r, I, ls)
    return Ob(name, rule, fn, thorough=thorough)


# -- building blocks ---------------------------------------------------------
def vblock(_state=None, **over):
    d = {"created": "2020-01-01T00:00:00Z", "state": {} if _state is None else _state, "message": "m",
         "user": {"name": "n", "address": "mailto:x"}}
    d.update(over)
    return {k: v for k, v in d.items() if v is not Ellipsis}


def inv1(**over):
    """One version, one file; values can be overridden, ... removes the key."""
    d = {"id": "info:a", "type": TYPE11, "digestAlgorithm": "sha512", "head": "v1",
         "manifest": Pairs((Let("d1", Rx(SHA512)), ["v1/content/f"])),
         "versions": {"v1": vblock(Pairs((Ref("d1", Rx(SHA512)), ["f"])))}}
    d.update(over)
    return {k: v for k, v in d.items() if v is not Ellipsis}


def inv2(**over):
    """Two versions: v1 has f, v2 has f and g with another digest."""
    d = {"id": "info:a", "type": TYPE11, "digestAlgorithm": "sha512", "head": "v2",
         "manifest": Pairs((Let("d1", Rx("0" + "[0-9a-f]{127}")), ["v1/content/f"]), (Let("d2", Rx("1" + "[0-9a-f]{127}")), ["v2/content/g"])),
         "versions": {"v1": vblock(Pairs((Ref("d1", Rx(SHA512)), ["f"]))),
                      "v2": vblock(Pairs((Ref("d1", Rx(SHA512)), ["f"]), (Ref("d2", Rx(SHA512)), ["g"])))}}
    d.update(over)
    return {k: v for k, v in d.items() if v is not Ellipsis}


def bad_elements():
    """Paths with an empty, '.' or '..' element, or a leading or trailing slash."""
    el = D.words(["", ".", ".."])
    slash = D.const("/")
    any_ = D.ALL
    return D.union(D.union(el, D.concat_all([el, slash, any_])),
                   D.union(D.concat_all([any_, slash, el]), D.concat_all([any_, slash, el, slash, any_])))
