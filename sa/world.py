"""Scenarios on stored objects: abstract OCFL objects in the abstract file storage."""
from .engine import dfa as D
from .engine import fsmodel as FM
from .engine.fsmodel import F, Dyn, chunk, digest, norm_chunks
from .engine.values import (K, S, N, U, R, T, Q, C, X, V, NONE, TRUE, FALSE, HInst, HList, HSet, HDict, HJ, HNat,
                            HFwd, Raise, Abort)
from .engine.interp import Interp, Budget
from .engine.build import Builder, Inst
from .engine.canon import Tm
from .engine.project import describe
from .engine.rx import lang
from .check import Ob, Result
from .inv import exc_name, finish

NAME = D.inter(lang(r"[^/\n]+\Z"), D.compl(lang(r"\.\.?\Z")))
TIME = "2024-01-%02dT00:00:00Z"


def val(st, x):
    """Value of a Python structure (keys and leaves may be abstract values)."""
    if isinstance(x, V):
        return x
    if isinstance(x, Dyn):
        return val(st, x.fn(st))
    if isinstance(x, dict):
        return st.alloc(HDict([("1", val(st, k), val(st, v)) for k, v in x.items()]))
    if isinstance(x, (list, tuple)):
        return st.alloc(HList([("1", val(st, v)) for v in x]))
    if isinstance(x, D.DFA):
        return st.atom(x)
    return K(x)


class Obj:
    """A valid object: content files per version and logical states, turned into documents and a tree.

    files: list (per version) of {path below content directory: chunks}
    states: list (per version) of {logical path: content path}
    """

    def __init__(self, st, files, states, alg="sha512", spec="1.1", oid="info:abc", cdir=None, prior_alg=None,
                 prior_spec=None, fixity=None, width=0, head_alg_from=None):
        self.st, self.alg, self.spec, self.oid, self.cdir = st, alg, spec, oid, cdir
        self.files, self.states = files, states
        self.n = len(states)
        self.prior_alg, self.prior_spec = prior_alg or alg, prior_spec or spec
        self.fixity = fixity
        self.width = width
        self.content = {}
        for i, fs in enumerate(files):
            for p, cs in fs.items():
                path = self.v(i + 1) + "/" + (cdir or "content") + "/" + p if isinstance(p, str) else \
                    FM.mkstr((self.v(i + 1) + "/" + (cdir or "content") + "/",) + FM.parts_of(p))
                self.content[path] = (i + 1, T([K(c) if isinstance(c, str) else c for c in cs]))
        self.docs = [self.doc(k) for k in range(1, self.n + 1)]
        self.fmt = K("indent=2,sort_keys=True")

    def v(self, k):
        return "v" + str(k).zfill(self.width)

    def alg_at(self, k):
        return self.alg if k == self.n else self.prior_alg

    def dg(self, path, k=None):
        return digest(self.alg_at(k or self.n), self.content[path][1])

    def doc(self, k):
        """The inventory as of version k."""
        man, ver = {}, {}
        for p, (i, c) in self.content.items():
            if i <= k:
                man.setdefault(self.dg(p, k), []).append(p)
        for i in range(1, k + 1):
            stt = {}
            for lp, cp in self.states[i - 1].items():
                stt.setdefault(self.dg(cp, k), []).append(lp)
            ver[self.v(i)] = {"created": TIME % i, "message": "m%d" % i, "state": stt,
                              "user": {"name": "N", "address": "mailto:n@example.org"}}
        spec = self.spec if k == self.n else self.prior_spec
        d = {"id": self.oid, "type": "https://ocfl.io/%s/spec/#inventory" % spec, "digestAlgorithm": self.alg_at(k),
             "head": self.v(k), "manifest": man, "versions": ver}
        if self.cdir:
            d["contentDirectory"] = self.cdir
        if self.fixity:
            blk = {}
            for alg, paths in self.fixity.items():
                for p in paths:
                    if self.content[p][0] <= k:
                        blk.setdefault(alg, {}).setdefault(digest(alg, self.content[p][1]), []).append(p)
            d["fixity"] = blk
        return d

    def jdoc(self, d):
        ver = d.get("versions")
        if isinstance(ver, dict) and all(isinstance(k, str) for k in ver):     # as real files have them: v1, v10, v11, v2
            d = dict(d, versions={k: ver[k] for k in sorted(ver)})
        return Q("json", val(self.st, d), self.fmt)

    def tree(self):
        """The directory of the object as a nested specification."""
        out = {"0=ocfl_object_%s" % self.spec: "ocfl_object_%s\n" % self.spec}
        for k in range(1, self.n + 1):
            j = self.jdoc(self.docs[k - 1])
            side = side_text(self.alg_at(k), j)
            vd = {"inventory.json": F(j), "inventory.json." + self.alg_at(k): side}
            cd = {}
            pre = self.v(k) + "/" + (self.cdir or "content") + "/"
            for p, (i, c) in self.content.items():
                if i == k:
                    place(cd, p, pre, F(*c.items))
            if cd:
                vd[self.cdir or "content"] = cd
            out[self.v(k)] = vd
            if k == self.n:
                out["inventory.json"] = F(j)
                out["inventory.json." + self.alg] = side
        return out


def side_text(alg, j, name="  inventory.json\n"):
    return F(digest(alg, T([j])), K(name))


def place(cd, p, pre, f):
    """Put file at path p (below prefix pre) in nested dictionaries."""
    if isinstance(p, str):
        parts = p[len(pre):].split("/")
    else:
        q = p.parts
        parts = [FM.mkstr((q[0][len(pre):],) + q[1:])]
    for x in parts[:-1]:
        cd = cd.setdefault(x, {})
    cd[parts[-1]] = f


def simple(st, n=2, **kw):
    """Object with n versions: two files of two chunks each in v1, one more file per version."""
    files = [{"a.txt": (chunk("a1"), chunk("a2")), "d/b.txt": (chunk("b1"), chunk("b2"))}]
    states = [{"a.txt": P(1, "a.txt", kw), "d/b.txt": P(1, "d/b.txt", kw)}]
    for k in range(2, n + 1):
        files.append({"c%d.txt" % k: (chunk("c%d.1" % k), chunk("c%d.2" % k))})
        s = dict(states[-1])
        s["c.txt"] = P(k, "c%d.txt" % k, kw)
        if k == 3:
            del s["d/b.txt"]
            s["e.txt"] = P(1, "a.txt", kw)
        states.append(s)
    return Obj(st, files, states, **kw)


def P(k, name, kw):
    return "v" + str(k).zfill(kw.get("width", 0)) + "/" + (kw.get("cdir") or "content") + "/" + name


class World:
    """A state with a file tree and an interpreter."""

    def __init__(self, p, stubs=None, budget=200, unroll=24):
        self.p = p
        self.I = Interp(p, stubs or {}, budget=budget)
        self.I.unroll = unroll
        self.I.cur_mod = "check"
        self.st = p.fresh()
        self.st.frame = p.modules["ocfl.object"].frame

    def install(self, spec):
        FM.setup(self.st, spec)

    def fs(self, *path, root=None, st=None):
        st = st or self.st
        return FM.new_fs(st, [K(x) for x in path], root if root is not None else len(path))

    def new(self, qual, *args, **kw):
        """[(instance, state)] of constructing a project class."""
        st = kw.pop("st", None) or self.st
        b = Builder(st)
        return self.I.call(C(self.p.cls(qual)), [b(x) for x in args], {k: b(v) for k, v in kw.items()}, st, None)

    def meth(self, obj, name, *args, **kw):
        st = kw.pop("st")
        b = Builder(st)
        av, kv = [b(x) for x in args], {k: b(v) for k, v in kw.items()}
        st.stack = st.stack + tuple(av) + tuple(kv.values()) + (obj,)
        return self.I.wrap_v(self.I.getattr(obj, name, st), lambda f, s: self.I.call(f, av, kv, s, None))

    def func(self, qual, *args, **kw):
        st = kw.pop("st", None) or self.st
        b = Builder(st)
        return self.I.call(self.p.fn(qual), [b(x) for x in args], {k: b(v) for k, v in kw.items()}, st, None)


class Log:
    """Stands for the validation log: codes reported are kept in the state."""

    def __init__(self):
        self.codes = set()

    def error(self, I, f, args, kw, st, node):
        code = args[1] if len(args) > 1 else kw.get("code")
        cv = code.v if isinstance(code, K) else "?"
        self.codes.add(cv)
        log = I.deref(args[0], st)
        o = st.heap[log.a]
        at = dict(o.attrs)
        n = at.get("num_errors")
        at["num_errors"] = K(n.v + 1) if isinstance(n, K) and n.v < 60 else N(1, None)
        I.wr(st, log.a, HInst(o.cls, at))
        got = st.mon.get("err", ())
        if cv not in got:
            st.mon["err"] = tuple(sorted(got + (cv,)))
        return [(NONE, st)]

    def warning(self, I, f, args, kw, st, node):
        code = args[1] if len(args) > 1 else kw.get("code")
        cv = code.v if isinstance(code, K) else "?"
        got = st.mon.get("warn", ())
        if cv not in got:
            st.mon["warn"] = tuple(sorted(got + (cv,)))
        return [(NONE, st)]

    def stubs(self):
        return {"ocfl.validation_logger.ValidationLogger.error": self.error,
                "ocfl.validation_logger.ValidationLogger.warning": self.warning}


DEFAULT_LOG = [Log]


def run_validator(p, make, budget=200, use_log_stub=True, vkw=None, where="o", log=None):
    """Outcomes of validating the tree make(st) at /w/o: [(value, state)]."""
    log = log or DEFAULT_LOG[0]()
    w = World(p, log.stubs() if use_log_stub else {}, budget)
    w.install({"w": {where: make(w.st)}})
    res = []
    for v, s in w.new("ocfl.validator.Validator", **(vkw or {})):
        if isinstance(v, Raise):
            res.append((v, s, None))
            continue
        for r, s2 in w.meth(v, "validate_object", K("/w/" + where), st=s):
            res.append((r, s2, v))
    return w, res


def valid(name, make, rule, vkw=None, thorough=False):
    """The object is accepted: every path returns True without an error report."""
    def fn(p, ob):
        r = Result()
        w, outs = run_validator(p, make, vkw=vkw)
        for v, s, _ in outs:
            r.count("paths")
            if isinstance(v, Raise):
                r.add("Validator.validate_object", "raises %s on a valid object" % describe(v.v, s))
            elif v != TRUE or s.mon.get("err"):
                if s.taint:
                    r.undecided.append(s.taint[0])
                else:
                    r.add("Validator.validate_object", "valid object rejected with %s" % ",".join(s.mon.get("err", ("no report",))))
            elif s.taint:
                r.undecided.append(s.taint[0])
        if not outs:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(name, rule, fn, thorough=thorough)


def invalid(name, make, rule, vkw=None, thorough=False, crash_ok=True, codes=None):
    """The object is rejected: no path returns without an error report, verdict False."""
    def fn(p, ob):
        r = Result()
        w, outs = run_validator(p, make, vkw=vkw)
        for v, s, _ in outs:
            r.count("paths")
            if isinstance(v, Raise):
                r.count("crash paths (left to the totality property)")
                if not crash_ok:
                    r.add("Validator.validate_object", "raises %s" % describe(v.v, s))
                continue
            ok = v == FALSE and s.mon.get("err")
            if not ok:
                if s.taint:
                    r.undecided.append(s.taint[0])
                else:
                    r.add("Validator.validate_object", "invalid object accepted" if not s.mon.get("err") else
                          "verdict %r in spite of %s" % (v, s.mon.get("err")))
            else:
                r.count("rejecting paths: " + ",".join(s.mon["err"])[:60])
        if not outs:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(name, rule, fn, thorough=thorough)


def obj(n=2, docs=None, tree=None, made=None, **kw):
    """Maker of an object tree with changes: made(o) before documents, docs(o) on documents, tree(o, t) on the tree."""
    def make(st):
        o = simple(st, n, **kw)
        if made:
            made(o)
            o.docs = [o.doc(k) for k in range(1, o.n + 1)]
        if docs:
            docs(o)
        t = o.tree()
        if tree:
            t = tree(o, t) or t
        return t
    return make


def dig(t, path):
    """The dictionary holding the last element of a path, and that element."""
    parts = path.split("/")
    for p in parts[:-1]:
        t = t[p]
    return t, parts[-1]


def remove(*paths):
    def f(o, t):
        for path in paths:
            d, x = dig(t, path)
            del d[x]
    return f


def put(path, what):
    def f(o, t):
        parts = path.split("/")
        d = t
        for x in parts[:-1]:
            d = d.setdefault(x, {})
        d[parts[-1]] = what(o) if callable(what) and not isinstance(what, type) else what
    return f


def put_any(path, what, avoid=(), lang_=None):
    """Entry with an arbitrary name in the directory at path."""
    def f(o, t):
        d = t
        for x in [y for y in path.split("/") if y]:
            d = d.setdefault(x, {})
        L = lang_ or NAME
        for x in list(d) + list(avoid):
            if isinstance(x, str):
                L = D.inter(L, D.compl(D.const(x)))
        d[o.st.atom(L)] = what
    return f


def both(*fs):
    def f(*a):
        for g in fs:
            g(*a)
    return f
