"""Abstract interpreter for Python source: sets of abstract states, joins and widening at loops.

The source of the analysed project is parsed on every run; nothing of it is
imported or executed.  A state maps variables to abstract values (constants,
strings described by regular languages, integer intervals, containers with
summarised elements).  Branches split states, loops are iterated to a fixpoint
in which elements of summarised containers are represented by templates.
"""
import ast
import sys
import time

from . import dfa as D
from .values import (K, S, N, U, R, T, Fn, Bm, Nm, Prop, C, M, Lib, Q, X, NONE, TRUE, FALSE, ClassInfo,
                     HInst, HFrame, HList, HSet, HDict, HJ, HFwd, HNat, Raise, Abort, State,
                     mkstr, is_str, is_int)
from .ops import Ops
from .lib import Lib_
from .canon import Tm, Canon, gc, copy_value, age, join_into, reach

sys.setrecursionlimit(20000)


class Budget(Exception):
    """The analysis exceeded its budget for a scenario."""


class Gap(Exception):
    """The analysis met a construct it cannot interpret at all."""


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "SystemExit": "BaseException",
    "KeyboardInterrupt": "BaseException", "GeneratorExit": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "EOFError": "Exception",
    "ImportError": "Exception", "LookupError": "Exception", "IndexError": "LookupError",
    "KeyError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "NotADirectoryError": "OSError", "IsADirectoryError": "OSError", "PermissionError": "OSError",
    "RuntimeError": "Exception", "RecursionError": "RuntimeError", "NotImplementedError": "RuntimeError",
    "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception",
    "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "json.JSONDecodeError": "ValueError", "re.error": "Exception",
}
BUILTIN_TYPES = ["object", "str", "int", "bool", "float", "bytes", "list", "dict", "set", "frozenset", "tuple",
                 "type", "NoneType", "range"]


class FnInfo:
    """Facts about a function node: local names, generator or not, liveness helper."""

    def __init__(self, node):
        self.node = node
        self.locals = set()
        self.is_gen = False
        self.globals = set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                self.locals.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            self._scan(st)
        self.locals -= self.globals

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for w in ast.walk(g.iter):
                    if isinstance(w, ast.NamedExpr):
                        self.locals.add(w.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            self.globals.update(n.names)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split(".")[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        for c in ast.iter_child_nodes(n):
            self._scan(c)


HARD = [float("inf")]   # no interpretation continues after this time


_JOINED = {}


def joined_chars(n):
    """For "".join(E for x in name): a function that appends each E to a string, for strings that are iterated by character."""
    f = n.func
    if not (isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and f.value.value == "" and len(n.args) == 1 and not n.keywords
            and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1):
        return None
    g = n.args[0].generators[0]
    if g.ifs or g.is_async or not isinstance(g.iter, ast.Name):
        return None
    if n not in _JOINED:
        fn = ast.parse("def joined(__it):\n    __acc = ''\n    for __x in __it:\n        __acc += ''\n    return __acc\n").body[0]
        loop = fn.body[1]
        loop.target = g.target
        loop.body[0].value = n.args[0].elt
        ast.copy_location(fn, n)
        for x in ast.walk(fn):
            ast.copy_location(x, n)
        ast.fix_missing_locations(fn)
        _JOINED[n] = fn
    return _JOINED[n]


class Interp(Ops, Lib_):
    """The interpreter; one instance per scenario run."""

    def __init__(self, project, stubs=None, budget=None):
        self.p = project
        self.stubs = dict(project.default_stubs)
        if stubs:
            self.stubs.update(stubs)
        self.gen_cb = {}
        self.deadline = min(time.time() + (budget or 120), HARD[0])
        self.steps = 0
        self.calls = set()
        self.lines = set()
        self.loops = 0
        self.depth = 0
        self.base = project.base or (1, {})
        self.cur_node = None
        self.cur_mod = None
        self.gaps = {}
        self.path_limit = 60000
        self.track_blame = False
        self.unroll = 0
        self.on_fs = None
        self.grow = {}

    # -- helpers ---------------------------------------------------------
    def gap(self, st, why, node=None):
        loc = "%s:%s" % (self.cur_mod, getattr(node or self.cur_node, "lineno", "?"))
        st.add_taint("%s: %s" % (loc, why))
        self.gaps.setdefault((loc, why), 0)
        self.gaps[(loc, why)] += 1
        return X(why)

    def tick(self):
        self.steps += 1
        if self.steps & 255 == 0 and time.time() > self.deadline:
            raise Budget("time")

    def wr(self, st, a, obj):
        st.wr(a, obj, self.base[0])

    def deref(self, v, st):
        while isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HFwd):
                v = o.v
            else:
                break
        return v

    def exc(self, st, name, *args):
        ci = self.p.exc(name)
        return Raise(st.alloc(HInst(ci, {"args": T([a if not isinstance(a, str) else K(a) for a in args])})))

    # -- statements ------------------------------------------------------
    def block(self, stmts, st):
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.ex(s, c):
                    if o[0] == "N":
                        nxt.append(o[2])
                    else:
                        outs.append(o)
            if not nxt:
                return outs
            if len(nxt) > 3:
                nxt = self.merge(nxt)
            cur = nxt
        outs.extend(("N", None, c) for c in cur)
        return outs

    def merge(self, states, vals=None):
        """Join states with equal skeletons (values in vals must be pinned by the caller)."""
        by = {}
        for s in states:
            gc(s, self.base)
            c = Canon(s, self.base)
            got = by.get(c.key)
            if got is None:
                by[c.key] = [s, c]
            else:
                if join_into(got[0], got[1], s, c):
                    got[1] = Canon(got[0], self.base)
        if len(by) > self.path_limit:
            raise Budget("states")
        return [x[0] for x in by.values()]

    def merge_outs(self, outs):
        """Join outcomes (value, state) whose states and values agree."""
        if len(outs) < 3:
            return outs
        by = {}
        res = []
        for v, s in outs:
            if isinstance(v, Abort):
                res.append((v, s))
                continue
            pin = v.v if isinstance(v, Raise) else v
            s.stack = s.stack + (pin,)
            gc(s, self.base)
            c = Canon(s, self.base)
            key = (isinstance(v, Raise), c.key)
            got = by.get(key)
            if got is None:
                by[key] = [s, c, v]
            elif join_into(got[0], got[1], s, c):
                got[1] = Canon(got[0], self.base)
        for s, c, v in by.values():
            s.stack = s.stack[:-1]
            res.append((v, s))
        return res

    def ex(self, n, st):
        self.tick()
        self.cur_node = n
        if hasattr(n, "lineno"):
            self.lines.add((self.cur_mod, n.lineno))
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.gap(st, "statement " + type(n).__name__, n)
            return [("N", None, st)]
        return m(n, st)

    def wrap(self, outs, f):
        """Continue normal expression outcomes with f(val, st) -> stmt outcomes."""
        res = []
        for v, s in outs:
            if isinstance(v, Raise):
                res.append(("E", v.v, s))
            elif isinstance(v, Abort):
                res.append(("A", v, s))
            else:
                res.extend(f(v, s))
        return res

    def ex_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [("N", None, st)]
        return self.wrap(self.ev(n.value, st), lambda v, s: [("N", None, s)])

    def ex_Pass(self, n, st):
        return [("N", None, st)]

    def ex_Global(self, n, st):
        return [("N", None, st)]

    ex_Nonlocal = ex_Global

    def ex_Break(self, n, st):
        return [("B", None, st)]

    def ex_Continue(self, n, st):
        return [("C", None, st)]

    def ex_Return(self, n, st):
        if n.value is None:
            return [("R", NONE, st)]
        return self.wrap(self.ev(n.value, st), lambda v, s: [("R", v, s)])

    def ex_Assign(self, n, st):
        def go(v, s):
            outs = [("N", None, s)]
            for t in n.targets:
                nxt = []
                for k, x, s2 in outs:
                    if k != "N":
                        nxt.append((k, x, s2))
                        continue
                    if len(n.targets) > 1 or not isinstance(t, ast.Name):
                        s2.stack = s2.stack + (v,)
                        for o in self.assign(t, v, s2):
                            o[2].stack = o[2].stack[:-1]
                            nxt.append(o)
                    else:
                        nxt.extend(self.assign(t, v, s2))
                outs = nxt
            return outs
        return self.wrap(self.ev(n.value, st), go)

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [("N", None, st)]
        return self.wrap(self.ev(n.value, st), lambda v, s: self.assign(n.target, v, s))

    def ex_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            outs = self.ev(load, st)

            def go(v, s):
                return self.wrap(self.pinned(s, [v], lambda s2: self.ev(n.value, s2)),
                                 lambda w, s2: self.wrap(self.aug(n.op, self.deref(v, s2), w, s2),
                                                         lambda r, s3: self.assign(t, r, s3)))
            return self.wrap(outs, go)
        if isinstance(t, ast.Attribute):
            def go(o, s):
                def g2(v, s2):
                    return self.wrap(self.pinned(s2, [o, v], lambda s3: self.ev(n.value, s3)),
                                     lambda w, s3: self.wrap(self.aug(n.op, self.deref(v, s3), w, s3),
                                                             lambda r, s4: self.stmt_none(self.setattr(o, self.mangle(t.attr, s4), r, s4))))
                return self.wrap(self.pinned(s, [o], lambda s1: self.getattr(o, self.mangle(t.attr, s1), s1)), g2)
            return self.wrap(self.ev(t.value, st), go)
        if isinstance(t, ast.Subscript):
            def go(vs, s):
                o, k = vs

                def g2(v, s2):
                    return self.wrap(self.pinned(s2, [o, k, v], lambda s3: self.ev(n.value, s3)),
                                     lambda w, s3: self.wrap(self.aug(n.op, self.deref(v, s3), w, s3),
                                                             lambda r, s4: self.stmt_none(self.setitem(o, k, r, s4))))
                return self.wrap(self.pinned(s, [o, k], lambda s1: self.getitem(o, k, s1)), g2)
            return self.wrap(self.evs([t.value, t.slice], st), go)
        self.gap(st, "augmented assignment", n)
        return [("N", None, st)]

    def aug(self, op, a, b, st):
        a = self.deref(a, st)
        if isinstance(op, ast.Add) and isinstance(a, R) and isinstance(st.heap[a.a], HList):
            return self.wrap_v(self.call_native(Nm(a, "extend"), [b], {}, st), lambda v, s: [(a, s)])
        if isinstance(a, R) and isinstance(st.heap[a.a], HSet):
            name = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update"}.get(type(op))
            if name:
                return self.wrap_v(self.call_native(Nm(a, name), [b], {}, st), lambda v, s: [(a, s)])
        return self.binop(op, a, b, st)

    def wrap_v(self, outs, f):
        res = []
        for v, s in outs:
            if isinstance(v, (Raise, Abort)):
                res.append((v, s))
            else:
                res.extend(f(v, s))
        return res

    def stmt_none(self, outs):
        return self.wrap(outs, lambda v, s: [("N", None, s)])

    def ex_Delete(self, n, st):
        outs = [("N", None, st)]
        for t in n.targets:
            nxt = []
            for k, x, s in outs:
                if k != "N":
                    nxt.append((k, x, s))
                elif isinstance(t, ast.Name):
                    f = s.heap[s.frame]
                    vs = dict(f.vars)
                    vs.pop(t.id, None)
                    s.heap[s.frame] = HFrame(vs, f.up, f.fn)
                    nxt.append(("N", None, s))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self.wrap(self.evs([t.value, t.slice], s),
                                         lambda vs, s2: self.stmt_none(self.delitem(vs[0], vs[1], s2))))
                else:
                    self.gap(s, "del", n)
                    nxt.append(("N", None, s))
            outs = nxt
        return outs

    def ex_If(self, n, st):
        outs = []
        for b, s in self.ev_cond(n.test, st):
            if isinstance(b, Raise):
                outs.append(("E", b.v, s))
            elif isinstance(b, Abort):
                outs.append(("A", b, s))
            elif b:
                outs.extend(self.block(n.body, s))
            elif n.orelse:
                outs.extend(self.block(n.orelse, s))
            else:
                outs.append(("N", None, s))
        return outs

    def ev_cond(self, e, st):
        """Evaluate as a condition: [(True|False|Raise|Abort, st)]."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [((not b) if isinstance(b, bool) else b, s) for b, s in self.ev_cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            res = []
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for b, s2 in self.ev_cond(x, s):
                        if not isinstance(b, bool):
                            res.append((b, s2))
                        elif b != isand:
                            res.append((b, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            res.extend((isand, s) for s in cur)
            return res
        res = []
        for v, s in self.ev(e, st):
            if isinstance(v, (Raise, Abort)):
                res.append((v, s))
            else:
                res.extend(self.truth(v, s))
        return res

    def ex_Raise(self, n, st):
        if n.exc is None:
            cur = st.mon.get("$exc")
            if cur:
                return [("E", cur[-1], st)]
            return [("E", self.exc(st, "RuntimeError").v, st)]

        def go(v, s):
            v = self.deref(v, s)
            if isinstance(v, C):
                return self.wrap(self.call(v, [], {}, s, n), lambda w, s2: [("E", w, s2)])
            if isinstance(v, R):
                return [("E", v, s)]
            self.gap(s, "raise of unknown value", n)
            return [("E", self.exc(s, "Exception").v, s)]
        return self.wrap(self.ev(n.exc, st), go)

    def ex_Assert(self, n, st):
        outs = []
        for b, s in self.ev_cond(n.test, st):
            if b is True:
                outs.append(("N", None, s))
            elif b is False:
                outs.append(("E", self.exc(s, "AssertionError").v, s))
            elif isinstance(b, Raise):
                outs.append(("E", b.v, s))
            else:
                outs.append(("A", b, s))
        return outs

    def ex_Import(self, n, st):
        outs = [("N", None, st)]
        for al in n.names:
            v = self.p.import_module(al.name)
            if al.asname:
                self.setvar(st, al.asname, v)
            else:
                self.setvar(st, al.name.split(".")[0], self.p.import_module(al.name.split(".")[0]))
        return outs

    def ex_ImportFrom(self, n, st):
        modname = self.p.resolve_from(self.frame_mod(st), n.module, n.level)
        for al in n.names:
            if al.name == "*":
                for k, v in self.p.star(modname, st):
                    self.setvar(st, k, v)
            else:
                self.setvar(st, al.asname or al.name, self.p.import_name(modname, al.name, st, self))
        return [("N", None, st)]

    def frame_mod(self, st):
        a = st.frame
        while True:
            f = st.heap[a]
            if f.up is None:
                return f.fn if isinstance(f.fn, str) else None
            a = f.up

    def ex_FunctionDef(self, n, st):
        f = self.mkfn(n, st, None)
        for d in reversed(n.decorator_list):
            f = self.decorate(d, f, st, n)
        self.setvar(st, self.mangle(n.name, st), f)
        return [("N", None, st)]

    def mkfn(self, n, st, cls):
        frame = st.heap[st.frame]
        up = st.frame
        qual = getattr(n, "name", "<lambda>")
        fi = frame.fn
        if isinstance(fi, tuple):      # class body frame: ("class", ClassInfo, outer)
            cls = fi[1]
            up = frame.up
            qual = cls.qual + "." + qual
        elif isinstance(fi, str):
            qual = fi + "." + qual
        else:
            qual = getattr(fi, "qual", "?") + ".<locals>." + qual
        f = Fn(n, self.frame_mod(st), up, cls, qual)
        a = n.args
        if a.defaults or any(d is not None for d in a.kw_defaults):
            vals = []
            for d in list(a.defaults) + list(a.kw_defaults):
                if d is None:
                    vals.append(None)
                    continue
                outs = self.ev(d, st)
                if len(outs) == 1 and outs[0][1] is st and not isinstance(outs[0][0], (Raise, Abort)):
                    vals.append(outs[0][0])
                else:
                    vals.append(self.gap(st, "default value", n))
            self.p.defaults[(id(n), up)] = vals
        return f

    def decorate(self, d, f, st, n):
        name = d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else None)
        if isinstance(d, ast.Name) and name == "property":
            return Prop(f)
        if isinstance(d, ast.Attribute) and name == "setter":
            old = self.getvar(st, d.value.id)
            return Prop(old.fget if isinstance(old, Prop) else None, f)
        if name == "staticmethod":
            return Fn(f.node, f.mod, f.frame, f.cls, f.qual, "static")
        if name == "classmethod":
            return Fn(f.node, f.mod, f.frame, f.cls, f.qual, "class")
        if name in ("lru_cache", "cache", "abstractmethod", "wraps"):
            return f
        return self.gap(st, "decorator", n)

    def ex_ClassDef(self, n, st):
        bases = []
        for b in n.bases:
            outs = self.ev(b, st)
            v = outs[0][0]
            bases.append(v.info if isinstance(v, C) else self.p.exc("Exception") if False else self.p.types["object"])
            if not isinstance(v, C):
                self.gap(st, "base class", n)
        if not bases:
            bases = [self.p.types["object"]]
        outer = st.heap[st.frame]
        prefix = outer.fn if isinstance(outer.fn, str) else "?"
        ci = ClassInfo(n.name, prefix + "." + n.name, bases, self.frame_mod(st), n)
        save = st.frame
        up = save
        fr = st.alloc(HFrame({}, up, ("class", ci)))
        ci.frame = fr.a
        st.frame = fr.a
        outs = self.block(n.body, st)
        res = []
        for k, v, s in outs:
            s.frame = save
            if k == "N":
                self.setvar(s, n.name, C(ci))
            res.append((k, v, s))
        self.p.classes[ci.qual] = ci
        return res

    def ex_Try(self, n, st):
        outs = []
        for k, v, s in self.block(n.body, st):
            if k == "E":
                outs.extend(self.handle(n, v, s))
            elif k == "N" and n.orelse:
                outs.extend(self.block(n.orelse, s))
            else:
                outs.append((k, v, s))
        if not n.finalbody:
            return outs
        res = []
        for k, v, s in outs:
            pin = v.val if isinstance(v, Abort) else v
            if pin is not None:
                s.stack = s.stack + (pin,)
            for k2, v2, s2 in self.block(n.finalbody, s):
                if pin is not None:
                    s2.stack = s2.stack[:-1]
                res.append((k, v, s2) if k2 == "N" else (k2, v2, s2))
        return res

    def handle(self, n, ev, st):
        ev = self.deref(ev, st)
        ci = st.heap[ev.a].cls if isinstance(ev, R) and isinstance(st.heap[ev.a], HInst) else None
        for h in n.handlers:
            if h.type is None:
                ok = True
            else:
                outs = self.ev(h.type, st)
                if len(outs) != 1:
                    self.gap(st, "except clause", h)
                    return [("E", ev, st)]
                t = self.deref(outs[0][0], st)
                st = outs[0][1]
                types = t.items if isinstance(t, T) else [t]
                ok = False
                for x in types:
                    x = self.deref(x, st)
                    if isinstance(x, C):
                        if ci is None or ci.issub(x.info):
                            ok = True
                    elif isinstance(x, Lib):
                        pass
                    else:
                        self.gap(st, "except type", h)
            if not ok:
                continue
            if h.name:
                self.setvar(st, h.name, ev)
            st.mon["$exc"] = st.mon.get("$exc", ()) + (ev,)
            res = []
            for k, v, s in self.block(h.body, st):
                ex = s.mon.get("$exc", ())[:-1]
                if ex:
                    s.mon["$exc"] = ex
                else:
                    s.mon.pop("$exc", None)
                if h.name:
                    self.delvar(s, h.name)
                res.append((k, v, s))
            return res
        return [("E", ev, st)]

    def ex_With(self, n, st):
        return self._with(n.items, n.body, st)

    def _with(self, items, body, st):
        if not items:
            return self.block(body, st)
        it = items[0]

        def go(v, s):
            def enter(w, s2):
                outs = []
                s2.stack = s2.stack + (v,)
                if it.optional_vars is not None:
                    pre = self.assign(it.optional_vars, w, s2)
                else:
                    pre = [("N", None, s2)]
                for k, x, s3 in pre:
                    if k != "N":
                        outs.append((k, x, s3))
                    else:
                        outs.extend(self._with(items[1:], body, s3))
                res = []
                for k, x, s3 in outs:
                    pin = x.val if isinstance(x, Abort) else x
                    if pin is not None:
                        s3.stack = s3.stack + (pin,)
                    for w2, s4 in self.ctx_exit(v, k, x, s3):
                        if pin is not None:
                            s4.stack = s4.stack[:-1]
                        s4.stack = s4.stack[:-1]
                        if isinstance(w2, Raise):
                            res.append(("E", w2.v, s4))
                        elif w2 is True:
                            res.append(("N", None, s4))
                        else:
                            res.append((k, x, s4))
                return res
            return self.wrap(self.ctx_enter(v, s), enter)
        return self.wrap(self.ev(it.context_expr, st), go)

    def ctx_enter(self, v, st):
        v = self.deref(v, st)
        if isinstance(v, R) and isinstance(st.heap[v.a], HInst):
            return self.wrap_v(self.getattr(v, "__enter__", st), lambda f, s: self.call(f, [], {}, s, self.cur_node))
        return [(v, st)]

    def ctx_exit(self, v, kind, val, st):
        v = self.deref(v, st)
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HInst):
                args = [NONE, NONE, NONE] if kind != "E" else [C(st.heap[val.a].cls), val, NONE]
                outs = []
                for w, s in self.wrap_v(self.getattr(v, "__exit__", st), lambda f, s: self.call(f, args, {}, s, self.cur_node)):
                    if isinstance(w, (Raise, Abort)):
                        outs.append((w, s))
                    else:
                        for b, s2 in self.truth(w, s):
                            outs.append((b and kind == "E", s2))
                return outs
            if isinstance(o, HNat):
                h = self.p.nat_exit.get(o.kind)
                if h:
                    return h(self, v, kind, st)
        return [(False, st)]

    def ex_While(self, n, st):
        return self.fix_loop(st, n, lambda s: self.ev_cond(n.test, s), n.body, n.orelse)

    def ex_For(self, n, st):
        def go(it, s):
            def body(elem, s2):
                outs = []
                for k, v, s3 in self.assign(n.target, elem, s2):
                    if k != "N":
                        outs.append((k, v, s3))
                    else:
                        outs.extend(self.block(n.body, s3))
                return outs
            live = self.p.live_at_loop(n)
            outs = []
            for k, v, s2 in self.iterate(it, s, body, live):
                if k == "N" and n.orelse:
                    outs.extend(self.block(n.orelse, s2))
                elif k == "B":
                    outs.append(("N", None, s2))
                else:
                    outs.append((k, v, s2))
            ns = [o for o in outs if o[0] == "N"]
            if len(ns) > 1:
                outs = [o for o in outs if o[0] != "N"] + [("N", None, s2) for s2 in self.merge([o[2] for o in ns])]
            return outs
        return self.wrap(self.ev(n.iter, st), go)

    # -- loop fixpoints ----------------------------------------------------
    def kill_dead(self, st, live, frame):
        if live is None:
            return
        f = st.heap[frame]
        if any(k not in live for k in f.vars):
            st.heap[frame] = HFrame({k: v for k, v in f.vars.items() if k in live}, f.up, f.fn)

    def fixpoint(self, st, step, live, generic):
        """Iterate step from st until no new loop-head states.

        step(state) -> list of (kind, val, state); 'N'/'C' go back to the head.
        generic: iterations stand for arbitrary elements, so a lasting effect on
        the skeleton presumes such an element exists (blame).
        Returns (head states, other outcomes).
        """
        self.loops += 1
        mark = st.nid
        before = st.heap
        frame = st.frame
        st0 = st.fork()
        self.kill_dead(st0, live, frame)
        gc(st0, self.base)
        c0 = Canon(st0, self.base)
        heads = {c0.key: [st0, c0]}
        work = [c0.key]
        outs = []
        rounds = {}
        while work:
            self.tick()
            key = work.pop()
            for k, v, s in step(heads[key][0].fork()):
                if k not in ("N", "C"):
                    outs.append((k, v, s))
                    continue
                s.frame = frame
                self.kill_dead(s, live, frame)
                gc(s, self.base)
                age(s, mark, before, self.base)
                gc(s, self.base)
                c = Canon(s, self.base)
                if generic and self.track_blame and c.key != key and not s.blame:
                    s.blame = True
                    c = Canon(s, self.base)
                got = heads.get(c.key)
                if got is None:
                    w = self.widen(heads, s, c)
                    if w is not None:
                        s, c = w
                        got = heads.get(c.key)
                if got is None:
                    heads[c.key] = [s, c]
                    work.append(c.key)
                    if len(heads) > 4000:
                        raise Budget("loop heads")
                elif join_into(got[0], got[1], s, c):
                    got[1] = Canon(got[0], self.base)
                    rounds[c.key] = rounds.get(c.key, 0) + 1
                    if rounds[c.key] > 200:
                        raise Budget("loop does not stabilise")
                    if c.key not in work:
                        work.append(c.key)
        return [h[0] for h in heads.values()], outs

    def unrolled(self, st, step, live, frame):
        """Outcomes of a loop followed iteration by iteration while it ends; the rest by fixpoint."""
        heads = [st]
        outs = []
        for _ in range(self.unroll):
            nxt = []
            for h in heads:
                for k, v, s in step(h):
                    if k in ("N", "C"):
                        s.frame = frame
                        nxt.append(s)
                    else:
                        outs.append((k, v, s))
            heads = self.merge(nxt) if len(nxt) > 3 else nxt
            if not heads:
                return outs
        for h in heads:
            outs.extend(self.fixpoint(h, step, live, generic=False)[1])
        return outs

    def decided(self, st, step, live, frame):
        """Outcomes of a loop, followed while its condition is decided; the rest by fixpoint."""
        heads = [st]
        outs = []
        for _ in range(self.UNROLL):
            nxt = []
            more = []
            for h in heads:
                res = step(h.fork())
                if any(k == "X" for k, _, _ in res) and any(k != "X" for k, _, _ in res):
                    more.append(h)
                    continue
                for k, v, s in res:
                    if k in ("N", "C"):
                        s.frame = frame
                        nxt.append(s)
                    else:
                        outs.append((k, v, s))
            for h in more:
                outs.extend(self.fixpoint(h, step, live, generic=False)[1])
            heads = self.merge(nxt) if len(nxt) > 3 else nxt
            if not heads:
                return outs
            if len(heads) > 8:
                break
        for h in heads:
            outs.extend(self.fixpoint(h, step, live, generic=False)[1])
        return outs

    def widen(self, heads, s, c):
        """Replace integers that keep growing by intervals."""
        w = grown(heads, s, c, self)
        if w is not None:
            return w
        blur = c.blurred()
        if blur is None:
            return None
        key, ints = blur
        same = [h for h in heads.values() if h[1].blurred() is not None and h[1].blurred()[0] == key]
        if len(same) < 14:
            return None
        changed = False
        for i, (loc, v) in enumerate(ints):
            others = [h[1].blurred()[1][i][1] for h in same]
            if all(o == v for o in others):
                continue
            lo, hi = _bounds(v)
            los = [_bounds(o)[0] for o in others]
            his = [_bounds(o)[1] for o in others]
            nlo = None if None in los or lo is None else min(los)
            if lo is None or (nlo is not None and lo < nlo):
                nlo = None
            nhi = None if hi is None or None in his else max(his)
            if hi is not None and nhi is not None and hi > nhi:
                nhi = None
            _store(s, loc, N(nlo, nhi))
            s.add_taint("integer widened at a loop head")
            changed = True
        if not changed:
            return None
        return s, Canon(s, self.base)

    def fix_loop(self, st, n, cond, body, orelse):
        live = self.p.live_at_loop(n)
        frame = st.frame

        def step(s):
            outs = []
            for b, s2 in cond(s):
                if isinstance(b, Raise):
                    outs.append(("E", b.v, s2))
                elif isinstance(b, Abort):
                    outs.append(("A", b, s2))
                elif b:
                    outs.extend(self.block(body, s2))
                else:
                    outs.append(("X", None, s2))
            return outs
        if self.unroll:
            outs = self.unrolled(st, step, live, frame)
        else:
            outs = self.decided(st, step, live, frame)
        res = []
        ex = []
        for k, v, s in outs:
            if k == "X":
                ex.append(s)
            elif k == "B":
                res.append(("N", None, s))
            else:
                res.append((k, v, s))
        for s in (self.merge(ex) if len(ex) > 1 else ex):
            if orelse:
                res.extend(self.block(orelse, s))
            else:
                res.append(("N", None, s))
        ns = [o for o in res if o[0] == "N"]
        if len(ns) > 1:
            res = [o for o in res if o[0] != "N"] + [("N", None, s) for s in self.merge([o[2] for o in ns])]
        return res

    def iterate(self, v, st, body, live=None):
        """Run body for every element of v.  body(elem, st) -> stmt outcomes."""
        v = self.deref(v, st)
        if isinstance(v, K) and isinstance(v.v, str):
            v = T([K(ch) for ch in v.v])
        if isinstance(v, K) and isinstance(v.v, bytes):
            v = T([K(b) for b in v.v])
        if isinstance(v, T):
            it = st.alloc(HList([("1", x) for x in v.items]))
            return self.iter_segs(it, st, body, live, None)
        if isinstance(v, C) and v.info.qual == "range":
            return [("E", self.exc(st, "TypeError").v, st)]
        if isinstance(v, S):
            n = st.norm(v)
            if isinstance(n, K):
                return self.iterate(n, st, body, live)
            s = char_loop(self, n, st, body, live)
            if s is not None:
                return [("N", None, s)]
            it = st.alloc(HList([("*", self.char_tm(st, v))]))
            return self.iter_segs(it, st, body, live, None)
        if isinstance(v, Q):
            if v.kind == "range":
                return self.iter_range(v, st, body, live)
            if v.kind in ("keys", "values", "items") and isinstance(v.args[0], R):
                a = v.args[0]
                if v.kind == "keys":
                    return self.iterate(a, st, body, live)

                def view(k, s):
                    outs = []
                    for x, s2 in self.find(self.deref(a, s).a, k, s):
                        if isinstance(x, Raise):
                            outs.append(("E", x.v, s2))
                        elif x is not None:
                            outs.extend(body(x if v.kind == "values" else T((k, x)), s2))
                    return outs
                st.stack = st.stack + (a,)
                return self.unpin(self.iter_keys(self.deref(a, st).a, st, view, live))
            h = self.p.q_iter.get(v.kind)
            if h:
                return h(self, v, st, body, live)
        if isinstance(v, R):
            o = st.heap[v.a]
            if isinstance(o, HJ):
                res = []
                for w, s in self.resolve(v, st):
                    res.extend(self.iterate(w, s, body, live))
                return res
            if isinstance(o, HList):
                if o.segs and all(x[0] == "1" for x in o.segs):
                    return self.iter_live(v, st, body, live)
                it = st.alloc(HList(o.segs))
                st.stack = st.stack + (v,)
                return self.unpin(self.iter_segs(it, st, body, live, None))
            if isinstance(o, HSet) and o.src:
                it = st.alloc(HList(self.set_segs(v, st)))
                return self.iter_segs(it, st, body, live, None)
            if isinstance(o, (HDict, HSet)):
                st.stack = st.stack + (v,)
                return self.unpin(self.iter_keys(v.a, st, body, live))
            if isinstance(o, HNat):
                if o.kind == "gen":
                    return self.iter_gen(v, st, body, live)
                h = self.p.nat_iter.get(o.kind)
                if h:
                    return h(self, v, st, body, live)
            if isinstance(o, HInst):
                outs = []
                for f, s in self.getattr(v, "__iter__", st):
                    if isinstance(f, Raise):
                        outs.append(("E", self.exc(s, "TypeError", "not iterable").v, s))
                    else:
                        for w, s2 in self.call(f, [], {}, s, self.cur_node):
                            if isinstance(w, Raise):
                                outs.append(("E", w.v, s2))
                            elif isinstance(w, Abort):
                                outs.append(("A", w, s2))
                            else:
                                outs.extend(self.iterate(w, s2, body, live))
                return outs
        if isinstance(v, X):
            self.gap(st, "iteration over unknown value")
            it = st.alloc(HList([("*", Tm(X("elem"), frozenset()))]))
            return self.iter_segs(it, st, body, live, None)
        if isinstance(v, Nm) and v.name == "$iter":
            return self.iterate(v.recv, st, body, live)
        return [("E", self.exc(st, "TypeError", "not iterable").v, st)]

    def unpin(self, outs, n=1):
        for k, v, s in outs:
            s.stack = s.stack[:-n]
        return outs

    def char_tm(self, st, v):
        a = st.atom(D.charset(st.lang_of(v).symbols() or D.FULL))
        if isinstance(a, K):
            return Tm(a, frozenset())
        return Tm(a, frozenset(a.parts))

    def run_body(self, body, elem, st):
        """One iteration; maps continue to normal."""
        return [("N" if k == "C" else k, v, s) for k, v, s in body(elem, st)]

    def iter_live(self, v, st, body, live):
        """Elements of a list with known elements, which the body may change on the way."""
        st.stack = st.stack + (v,)
        outs = []
        cur = [st]
        frame = st.frame
        i = 0
        while cur:
            nxt = []
            for s in cur:
                o = s.heap[v.a]
                if not isinstance(o, HList):
                    self.gap(s, "list replaced while iterated")
                    outs.append(("N", None, s))
                    continue
                segs = o.segs
                if i >= len(segs):
                    outs.append(("N", None, s))
                    continue
                if any(x[0] != "1" for x in segs[:i + 1]):
                    self.gap(s, "list of unknown length while iterated")
                    outs.append(("N", None, s))
                    continue
                self.tick()
                for k, w, s2 in self.run_body(body, segs[i][1], s):
                    if k == "N":
                        nxt.append(s2)
                    else:
                        outs.append((k, w, s2))
            if len(nxt) > 1:
                for s in nxt:
                    self.kill_dead(s, live, frame)
                nxt = self.merge(nxt)
            cur = nxt
            i += 1
        return self.unpin(outs)

    def iter_segs(self, it, st, body, live, conv):
        """Elements of the (private, pinned) list object it."""
        st.stack = st.stack + (it,)
        outs = []
        nseg = len(st.heap[it.a].segs)
        segs = st.heap[it.a].segs
        # group adjacent Many templates
        groups = []
        i = 0
        while i < nseg:
            if segs[i][0] == "*":
                j = i
                while j < nseg and segs[j][0] == "*":
                    j += 1
                groups.append(("*", i, j))
                i = j
            else:
                groups.append((segs[i][0], i, i + 1))
                i += 1
        cur = [st]
        frame = st.frame
        for gi, (kind, i, j) in enumerate(groups):
            nxt = []
            for s in cur:
                if kind == "1":
                    for k, v, s2 in self.run_body(body, s.heap[it.a].segs[i][1], s):
                        if k == "N":
                            nxt.append(s2)
                        else:
                            outs.append((k, v, s2))
                elif kind == "/":
                    atom, sep = s.heap[it.a].segs[i][1:3]
                    n2, o2 = self.iter_split(atom, sep, s, body, live)
                    nxt.extend(n2)
                    outs.extend(o2)
                else:
                    def step(hd, i=i, j=j):
                        res = []
                        tms = hd.heap[it.a].segs[i:j]
                        for tm in tms:
                            s2 = hd.fork()
                            e = copy_value(s2, tm[1].v, tm[1].ids)
                            s2.generic += 1
                            for k, v, s3 in self.run_body(body, e, s2):
                                s3.generic -= 1
                                res.append((k, v, s3))
                        return res
                    heads, o2 = self.fixpoint(s, step, live, True)
                    nxt.extend(heads)
                    outs.extend(o2)
            if len(nxt) > 1:
                for s in nxt:
                    self.kill_dead(s, live, frame)
                nxt = self.merge(nxt)
            cur = nxt
        for s in cur:
            outs.append(("N", None, s))
        return self.unpin(outs)

    def iter_keys(self, a, st, body, live):
        """Iterate over dict keys or set elements (snapshot of the Ones, then the Manys)."""
        o = st.heap[a]
        isd = isinstance(o, HDict)
        ones = [e[1] for e in (o.ents if isd else o.segs) if e[0] == "1"]
        manys = [e[1] for e in (o.ents if isd else o.segs) if e[0] == "*"]
        it = st.alloc(HList([("1", x) for x in ones] + [("*", t) for t in manys]))
        st.stack = st.stack + (it,)
        outs = []
        cur = [st]
        frame = st.frame
        for i in range(len(ones)):
            nxt = []
            for s in cur:
                for k, v, s2 in self.run_body(body, s.heap[it.a].segs[i][1], s):
                    (nxt if k == "N" else outs).append(s2 if k == "N" else (k, v, s2))
            if len(nxt) > 1:
                for s in nxt:
                    self.kill_dead(s, live, frame)
                nxt = self.merge(nxt)
            cur = nxt
        n1 = len(ones)
        if manys:
            def step(hd):
                res = []
                for seg in hd.heap[it.a].segs[n1:]:
                    s2 = hd.fork()
                    e = copy_value(s2, seg[1].v, seg[1].ids)
                    s2.generic += 1
                    key = e.items[0] if isd else e
                    # distinct from the individually known keys
                    oks = [s2]
                    for k1 in ones:
                        nn = []
                        for s3 in oks:
                            for b, s4 in self.eq(key, k1, s3):
                                if not b:
                                    nn.append(s4)
                        oks = nn
                    for s3 in oks:
                        o3 = s3.heap[a]
                        if isinstance(o3, HDict) and isd:
                            s3.heap[a] = HDict(o3.ents + (("1", key, e.items[1], True),), o3.absent, o3.default)
                        elif isinstance(o3, HSet) and not isd:
                            s3.heap[a] = HSet(o3.segs + (("1", key, True),), o3.absent, o3.frozen)
                        for k, v, s4 in self.run_body(body, key, s3):
                            s4.generic -= 1
                            res.append((k, v, s4))
                return res
            nxt = []
            for s in cur:
                heads, o2 = self.fixpoint(s, step, live, True)
                nxt.extend(heads)
                outs.extend(o2)
            if len(nxt) > 1:
                nxt = self.merge(nxt)
            cur = nxt
        for s in cur:
            outs.append(("N", None, s))
        return self.unpin(outs)

    def iter_split(self, atom, sep, st, body, live):
        """Elements of atom.split(sep): follow the automaton of the atom's language."""
        v0 = S((atom,))
        L = st.lang_of(st.norm(v0))
        nosep = D.without(sep)
        sepD = D.const(sep)
        sink = {}
        edges = {}          # (head, next head | class of end states) -> language of accepted elements
        st.stack = st.stack + (v0,)
        mark, before, frame = st.nid, st.heap, st.frame
        st0 = st.fork()
        self.kill_dead(st0, live, frame)
        gc(st0, self.base)
        c0 = Canon(st0, self.base)
        heads = {(0, c0.key): [st0, c0]}
        work = [(0, c0.key)]
        ends = []
        outs = []
        livestates = L.live()
        self.loops += 1
        count = 0
        while work:
            self.tick()
            hk = work.pop()
            q = hk[0]
            head = heads[hk][0]
            # element followed by a separator, grouped by state reached
            opts = []
            for q2 in sorted(livestates):
                E = D.between(L, frozenset([q]), frozenset(_sep_sources(L, q2, sep)))
                E = D.inter(E, nosep)
                if E is not D.EMPTY:
                    opts.append((E, q2))
            E = D.inter(D.from_state(L, q), nosep)
            if E is not D.EMPTY:
                opts.append((E, None))
            for E, q2 in opts:
                s = head.fork()
                e = s.atom(E)
                s.stack = s.stack + (e,)
                for k, v, s2 in self.run_body(body, e, s):
                    eL = s2.lang_of(s2.norm(e))
                    s2.stack = s2.stack[:-1]
                    if k != "N":
                        outs.append((k, v, s2))
                        continue
                    s2.frame = frame
                    self.kill_dead(s2, live, frame)
                    gc(s2, self.base)
                    age(s2, mark, before, self.base)
                    gc(s2, self.base)
                    c = Canon(s2, self.base)
                    ek = (hk, (q2, c.key))
                    edges[ek] = D.union(edges.get(ek, D.EMPTY), eL)
                    if q2 is None:
                        ends.append((s2, c))
                        continue
                    key = (q2, c.key)
                    got = heads.get(key)
                    if got is None:
                        heads[key] = [s2, c]
                        work.append(key)
                        count += 1
                        if count > 3000:
                            raise Budget("split loop")
                    elif join_into(got[0], got[1], s2, c):
                        got[1] = Canon(got[0], self.base)
                        if key not in work:
                            work.append(key)
        # language of the strings all of whose elements were accepted
        nfa = D.NFA()
        node = {}

        def nd(q):
            if q not in node:
                node[q] = nfa.new()
            return node[q]
        start = nd((0, c0.key))
        for (h1, h2), EL in edges.items():
            L2 = EL if h2[0] is None else D.concat(EL, sepD)
            s0, accs = nfa.add_dfa(L2)
            nfa.eps[nd(h1)].append(s0)
            for x in accs:
                nfa.eps[x].append(nd(h2))
        nxt = []
        by = {}
        for s, c in ends:
            got = by.get(c.key)
            if got is None:
                by[c.key] = [s, c]
            elif join_into(got[0], got[1], s, c):
                got[1] = Canon(got[0], self.base)
        for s, c in by.values():
            if s.refine(v0, nfa.to_dfa(start, [nd((None, c.key))])):
                nxt.append(s)
        for s in nxt:
            s.stack = s.stack[:-1]
        for k, v, s in outs:
            s.stack = s.stack[:-1]
        return nxt, outs

    UNROLL = 24
    UNROLL_ABS = 3
    CONCRETE = 32

    def iter_range(self, q, st, body, live):
        lo, hi, step = q.args
        outs = []
        if isinstance(lo, K) and isinstance(hi, K) and isinstance(step, K):
            r = range(lo.v, hi.v, step.v)
            n = len(r)
            if n <= max(self.CONCRETE, self.UNROLL):
                it = st.alloc(HList([("1", K(i)) for i in r]))
                return self.iter_segs(it, st, body, live, None)
            first = [K(r[i]) for i in range(self.UNROLL)]
            a, b = r[self.UNROLL], r[-1]
            rest = N(min(a, b), max(a, b))
            it = st.alloc(HList([("1", x) for x in first] + [("*", Tm(rest, frozenset()))]))

            def body2(e, s):
                if e == rest:
                    s.add_taint("integer range beyond the unrolled part")
                return body(e, s)
            return self.iter_segs(it, st, body2, live, None)
        l0 = _bounds(lo)[0]
        h1 = _bounds(hi)[1]
        if isinstance(step, K) and step.v == 1:
            rest = N(l0, None if h1 is None else h1 - 1)
            segs = [("*", Tm(rest, frozenset()))]
            if isinstance(lo, K):
                # unroll from the known lower end
                res = []
                cur = [st]
                i = lo.v
                for _ in range(self.UNROLL_ABS):
                    nxt = []
                    for s in cur:
                        for b, s2 in self.compare(ast.Lt(), K(i), hi, s):
                            if b is True:
                                for k, v, s3 in self.run_body(body, K(i), s2):
                                    (nxt if k == "N" else res).append(s3 if k == "N" else (k, v, s3))
                            else:
                                res.append(("N", None, s2))
                    cur = nxt
                    i += 1
                for s in cur:
                    it = s.alloc(HList([("*", Tm(N(i, rest.hi), frozenset()))]))
                    res.extend(self.iter_segs(it, s, body, live, None))
                return res
        else:
            segs = [("*", Tm(N(), frozenset()))]
        it = st.alloc(HList(segs))
        return self.iter_segs(it, st, body, live, None)

    # -- generators --------------------------------------------------------
    def iter_gen(self, v, st, body, live):
        o = st.heap[v.a]
        f = dict(o.f)
        fn, frame = f["fn"], f["frame"].a
        caller = st.frame
        mod = self.cur_mod

        def cb(val, s):
            """Consumer body; runs with the consumer's frame."""
            save = s.frame
            s.stack = s.stack + (R(save),)
            s.frame = caller
            smod, self.cur_mod = self.cur_mod, mod
            outs = []
            for k, x, s2 in self.run_body(body, val, s):
                if k == "N":
                    self.kill_dead(s2, live, caller)
                s2.stack = s2.stack[:-1]
                s2.frame = save
                outs.append((k, x, s2))
            self.cur_mod = smod
            return outs
        key = (frame,)
        old = self.gen_cb.get(frame)
        self.gen_cb[frame] = cb
        st.stack = st.stack + (R(caller),)
        st.frame = frame
        self.cur_mod = fn.mod
        res = []
        for k, x, s in self.block(fn.node.body, st):
            s.frame = caller
            s.stack = s.stack[:-1]
            if k == "A" and x.gen == frame:
                res.append((x.kind, x.val, s))
            elif k in ("N", "R"):
                res.append(("N", None, s))
            elif k == "E":
                res.append(("E", x, s))
            else:
                res.append((k, x, s))
        self.cur_mod = mod
        if old is None:
            del self.gen_cb[frame]
        else:
            self.gen_cb[frame] = old
        return res

    def ev_Yield(self, n, st):
        outs = self.ev(n.value, st) if n.value is not None else [(NONE, st)]

        def go(v, s):
            frame = s.frame
            cb = self.gen_cb.get(frame)
            if cb is None:
                return [(self.gap(s, "yield without consumer", n), s)]
            res = []
            for k, x, s2 in cb(v, s):
                if k == "N":
                    res.append((NONE, s2))
                elif k == "A":
                    res.append((x, s2))
                else:
                    res.append((Abort(frame, k, x), s2))
            return res
        return self.wrap_v(outs, go)

    def ev_YieldFrom(self, n, st):
        def go(v, s):
            frame = s.frame

            def body(e, s2):
                cb = self.gen_cb.get(frame)
                res = []
                for k, x, s3 in cb(e, s2):
                    if k in ("N", "A"):
                        res.append((k, x, s3))
                    else:
                        res.append(("A", Abort(frame, k, x), s3))
                return res
            res = []
            for k, x, s2 in self.iterate(v, s, body):
                res.append((NONE, s2) if k == "N" else (Raise(x), s2) if k == "E" else (x, s2))
            return res
        return self.wrap_v(self.ev(n.value, st), go)

    # -- assignment ----------------------------------------------------------
    def setvar(self, st, name, v):
        f = st.heap[st.frame]
        vs = dict(f.vars)
        vs[name] = v
        st.heap[st.frame] = HFrame(vs, f.up, f.fn)

    def delvar(self, st, name):
        f = st.heap[st.frame]
        if name in f.vars:
            vs = dict(f.vars)
            del vs[name]
            st.heap[st.frame] = HFrame(vs, f.up, f.fn)

    def getvar(self, st, name):
        a = st.frame
        while a is not None:
            f = st.heap[a]
            if name in f.vars:
                return f.vars[name]
            a = f.up
        return self.p.builtin(name)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fi = st.heap[st.frame].fn
            if isinstance(fi, Fn) and t.id in self.p.fninfo(fi.node).globals:
                self.gap(st, "global/nonlocal assignment", t)
            self.setvar(st, t.id, v)
            return [("N", None, st)]
        if isinstance(t, ast.Attribute):
            return self.wrap(self.pinned(st, [v], lambda s: self.ev(t.value, s)),
                             lambda o, s: self.stmt_none(self.setattr(o, self.mangle(t.attr, s), v, s)))
        if isinstance(t, ast.Subscript):
            return self.wrap(self.pinned(st, [v], lambda s: self.evs([t.value, t.slice], s)),
                             lambda vs, s: self.stmt_none(self.setitem(vs[0], vs[1], v, s)))
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = []
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for items, s in (self.unpack(v, len(t.elts), st) if star is None else self.unpack_star(v, star, len(t.elts) - star - 1, st)):
                if isinstance(items, Raise):
                    outs.append(("E", items.v, s))
                    continue
                if isinstance(items, Abort):
                    outs.append(("A", items, s))
                    continue
                cur = [("N", None, s)]
                s.stack = s.stack + (T(items),)
                for x, y in zip([e.value if isinstance(e, ast.Starred) else e for e in t.elts], items):
                    nxt = []
                    for k, w, s2 in cur:
                        if k != "N":
                            nxt.append((k, w, s2))
                        else:
                            nxt.extend(self.assign(x, y, s2))
                    cur = nxt
                for k, w, s2 in cur:
                    s2.stack = s2.stack[:-1]
                outs.extend(cur)
            return outs
        self.gap(st, "assignment target", t)
        return [("N", None, st)]

    def unpack_star(self, v, front, back, st):
        """[(values for the targets, the starred one a list | Raise, st)]"""
        res = []
        for sg, s in self.to_segs(v, st):
            if isinstance(sg, (Raise, Abort)):
                res.append((sg, s))
                continue
            work = [(tuple(sg), (), (), s)]
            while work:
                sg, fr, bk, s = work.pop()
                if len(fr) < front:
                    if not sg:
                        res.append((self.exc(s, "ValueError", "unpack"), s))
                    elif sg[0][0] == "1":
                        work.append((sg[1:], fr + (sg[0][1],), bk, s))
                    else:
                        work.extend((new, fr, bk, s2) for e, new, s2 in self.first(sg, s))
                elif len(bk) < back:
                    if not sg:
                        res.append((self.exc(s, "ValueError", "unpack"), s))
                    elif sg[-1][0] == "1":
                        work.append((sg[:-1], fr, (sg[-1][1],) + bk, s))
                    else:
                        work.extend((new, fr, bk, s2) for new, s2 in self.last(sg, s))
                else:
                    res.append((list(fr) + [s.alloc(HList(sg))] + list(bk), s))
        return res

    def unpack(self, v, n, st):
        v = self.deref(v, st)
        if isinstance(v, T):
            if len(v.items) == n:
                return [(v.items, st)]
            return [(self.exc(st, "ValueError", "unpack"), st)]
        if isinstance(v, R) and isinstance(st.heap[v.a], HJ):
            res = []
            for w, s in self.resolve(v, st):
                res.extend(self.unpack(w, n, s))
            return res
        if isinstance(v, R) and isinstance(st.heap[v.a], HList):
            res = []
            for segs, s in self.explode(st.heap[v.a].segs, n, st):
                if segs is None or len(segs) != n:
                    res.append((self.exc(s, "ValueError", "unpack"), s))
                else:
                    res.append((segs, s))
            return res
        if isinstance(v, X):
            return [([X("unpack")] * n, st)]
        if isinstance(v, (R, Q, S)):
            res = []
            for sg, s in self.to_segs(v, st):
                if isinstance(sg, (Raise, Abort)):
                    res.append((sg, s))
                elif isinstance(v, R) and isinstance(s.heap[v.a], (HSet, HDict)) and len(sg) > 1:
                    self.gap(s, "unpacking of a set")
                    res.append(([X("unpack")] * n, s))
                else:
                    for segs, s2 in self.explode(sg, n, s):
                        if segs is None or len(segs) != n:
                            res.append((self.exc(s2, "ValueError", "unpack"), s2))
                        else:
                            res.append((segs, s2))
            return res
        return [(self.exc(st, "TypeError", "unpack"), st)]

    def pinned(self, st, vals, f):
        st.stack = st.stack + (T(vals),)
        outs = f(st)
        for v, s in outs:
            s.stack = s.stack[:-1]
        return outs

    # -- expressions -----------------------------------------------------------
    def ev(self, n, st):
        self.steps += 1
        m = self._evd.get(type(n))
        if m is None:
            m = getattr(self, "ev_" + type(n).__name__, None)
            if m is None:
                return [(self.gap(st, "expression " + type(n).__name__, n), st)]
            m = getattr(type(self), "ev_" + type(n).__name__)
            self._evd[type(n)] = m
        return m(self, n, st)

    _evd = {}

    def evs(self, nodes, st):
        """Evaluate nodes in order: [(list | Raise | Abort, st)]."""
        outs = [([], st)]
        for n in nodes:
            simple = isinstance(n, (ast.Constant, ast.Name))
            nxt = []
            for vals, s in outs:
                if not isinstance(vals, list):
                    nxt.append((vals, s))
                    continue
                if simple or not vals:
                    rs = self.ev(n, s)
                else:
                    s.stack = s.stack + (T(vals),)
                    rs = self.ev(n, s)
                    for v, s2 in rs:
                        s2.stack = s2.stack[:-1]
                for v, s2 in rs:
                    nxt.append((v, s2) if isinstance(v, (Raise, Abort)) else (vals + [v], s2))
            outs = nxt
        return outs

    def ev_Constant(self, n, st):
        if n.value is Ellipsis:
            return [(NONE, st)]
        return [(K(n.value), st)]

    def ev_Name(self, n, st):
        a = st.frame
        first = True
        name = n.id
        while a is not None:
            f = st.heap[a]
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, R):
                    v = self.deref(v, st)
                return [(v, st)]
            if first and isinstance(f.fn, Fn) and name in self.p.fninfo(f.fn.node).locals:
                return [(self.exc(st, "UnboundLocalError", name), st)]
            first = False
            a = f.up
        b = self.p.builtin(name)
        if b is not None:
            return [(b, st)]
        return [(self.exc(st, "NameError", name), st)]

    def mangle(self, name, st):
        if name.startswith("__") and not name.endswith("__"):
            a = st.frame
            while a is not None:
                f = st.heap[a]
                if isinstance(f.fn, Fn) and f.fn.cls is not None:
                    return "_" + f.fn.cls.name.lstrip("_") + name
                if isinstance(f.fn, tuple) and f.fn[0] == "class":
                    return "_" + f.fn[1].name.lstrip("_") + name
                a = f.up
        return name

    def ev_Attribute(self, n, st):
        return self.wrap_v(self.ev(n.value, st), lambda v, s: self.getattr(v, self.mangle(n.attr, s), s))

    def ev_Subscript(self, n, st):
        if isinstance(n.slice, ast.Slice):
            parts = [n.slice.lower, n.slice.upper, n.slice.step]
            nodes = [p if p is not None else ast.Constant(value=None) for p in parts]
            return self.wrap_v(self.evs([n.value] + nodes, st), lambda vs, s: self.getslice(vs[0], vs[1], vs[2], vs[3], s))
        return self.wrap_v(self.evs([n.value, n.slice], st), lambda vs, s: self.getitem(vs[0], vs[1], s))

    def ev_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self.wrap_v(self.ev_List(n, st), lambda v, s: self.to_tuple(v, s))
        return self.wrap_v(self.evs(n.elts, st), lambda vs, s: [(T(vs), s)])

    def to_tuple(self, v, st):
        o = st.heap[v.a]
        if all(s[0] == "1" for s in o.segs):
            return [(T([s[1] for s in o.segs]), st)]
        return [(v, st)]

    def ev_List(self, n, st):
        if not any(isinstance(e, ast.Starred) for e in n.elts):
            return self.wrap_v(self.evs(n.elts, st), lambda vs, s: [(s.alloc(HList([("1", v) for v in vs])), s)])
        lst = st.alloc(HList([]))
        outs = [(lst, st)]
        for e in n.elts:
            nxt = []
            for v, s in outs:
                if isinstance(v, (Raise, Abort)):
                    nxt.append((v, s))
                    continue
                star = isinstance(e, ast.Starred)
                rs = self.pinned(s, [lst], lambda s2: self.ev(e.value if star else e, s2))
                for w, s2 in rs:
                    if isinstance(w, (Raise, Abort)):
                        nxt.append((w, s2))
                    else:
                        for w2, s3 in self.call_native(Nm(lst, "extend" if star else "append"), [w], {}, s2):
                            nxt.append((w2 if isinstance(w2, (Raise, Abort)) else lst, s3))
            outs = nxt
        return outs

    def ev_Set(self, n, st):
        return self.wrap_v(self.ev_List(n, st), lambda v, s: self.call_lib("set", [v], {}, s, n))

    def ev_Dict(self, n, st):
        d = st.alloc(HDict(()))
        outs = [(d, st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for r, s in outs:
                if isinstance(r, (Raise, Abort)):
                    nxt.append((r, s))
                    continue
                if k is None:
                    rs = self.pinned(s, [d], lambda s2: self.ev(v, s2))
                    for w, s2 in rs:
                        if isinstance(w, (Raise, Abort)):
                            nxt.append((w, s2))
                        else:
                            for w2, s3 in self.call_native(Nm(d, "update"), [w], {}, s2):
                                nxt.append((w2 if isinstance(w2, (Raise, Abort)) else d, s3))
                    continue
                rs = self.pinned(s, [d], lambda s2: self.evs([k, v], s2))
                for w, s2 in rs:
                    if isinstance(w, (Raise, Abort)):
                        nxt.append((w, s2))
                    else:
                        for w2, s3 in self.setitem(d, w[0], w[1], s2):
                            nxt.append((w2 if isinstance(w2, (Raise, Abort)) else d, s3))
            outs = nxt
        return outs

    def ev_JoinedStr(self, n, st):
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]

        def go(vs, s):
            outs = [([], s)]
            for node, v in zip(n.values, vs):
                nxt = []
                for acc, s2 in outs:
                    if isinstance(acc, Raise):
                        nxt.append((acc, s2))
                    elif isinstance(node, ast.FormattedValue) and (node.format_spec is not None or node.conversion != -1):
                        spec = None
                        if node.conversion == -1 and isinstance(node.format_spec, ast.JoinedStr) \
                                and len(node.format_spec.values) == 1 and isinstance(node.format_spec.values[0], ast.Constant):
                            spec = node.format_spec.values[0].value
                        for w, s3 in self.fmt_spec(v, spec, s2):
                            nxt.append((w, s3) if isinstance(w, Raise) else (acc + [w], s3))
                    else:
                        for w, s3 in self.to_str(v, s2):
                            nxt.append((w, s3) if isinstance(w, Raise) else (acc + [w], s3))
                outs = nxt
            return [(a if isinstance(a, Raise) else self.cat(a), s2) for a, s2 in outs]
        return self.wrap_v(self.evs(nodes, st), go)

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = [st]
        res = []
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for v, s2 in self.ev(e, s):
                    if isinstance(v, (Raise, Abort)) or last:
                        res.append((v, s2))
                        continue
                    for b, s3 in self.truth(v, s2):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            res.append((self.deref(v, s3), s3))
            cur = nxt
        return res

    def ev_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return [(K(not b) if isinstance(b, bool) else b, s) for b, s in self.ev_cond(n.operand, st)]

        def go(v, s):
            v = self.deref(v, s)
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                return [(K(-v.v if isinstance(n.op, ast.USub) else +v.v if isinstance(n.op, ast.UAdd) else ~v.v), s)]
            if isinstance(v, N) and isinstance(n.op, ast.USub):
                return [(N(None if v.hi is None else -v.hi, None if v.lo is None else -v.lo), s)]
            return [(self.gap(s, "unary operator", n), s)]
        return self.wrap_v(self.ev(n.operand, st), go)

    def ev_BinOp(self, n, st):
        return self.wrap_v(self.evs([n.left, n.right], st), lambda vs, s: self.binop(n.op, vs[0], vs[1], s))

    def ev_Compare(self, n, st):
        if len(n.ops) == 1:
            return self.wrap_v(self.evs([n.left, n.comparators[0]], st),
                               lambda vs, s: [(K(b) if isinstance(b, bool) else b, s2)
                                              for b, s2 in self.compare(n.ops[0], vs[0], vs[1], s)])

        def chain(vs, s):
            cur = [s]
            res = []
            for i, op in enumerate(n.ops):
                nxt = []
                for s2 in cur:
                    for b, s3 in self.compare(op, vs[i], vs[i + 1], s2):
                        if b is True:
                            nxt.append(s3)
                        else:
                            res.append((K(b) if isinstance(b, bool) else b, s3))
                cur = nxt
            res.extend((TRUE, s2) for s2 in cur)
            return res
        return self.wrap_v(self.evs([n.left] + n.comparators, st), chain)

    def ev_IfExp(self, n, st):
        res = []
        for b, s in self.ev_cond(n.test, st):
            if not isinstance(b, bool):
                res.append((b, s))
            else:
                res.extend(self.ev(n.body if b else n.orelse, s))
        return res

    def ev_NamedExpr(self, n, st):
        def go(v, s):
            # bind in the nearest function frame (comprehension frames are transparent)
            a = s.frame
            while isinstance(s.heap[a].fn, tuple) and s.heap[a].fn[0] == "comp":
                a = s.heap[a].up
            save, s.frame = s.frame, a
            self.setvar(s, n.target.id, v)
            s.frame = save
            return [(v, s)]
        return self.wrap_v(self.ev(n.value, st), go)

    def ev_Lambda(self, n, st):
        return [(self.mkfn(n, st, None), st)]

    def ev_Starred(self, n, st):
        return self.ev(n.value, st)

    def ev_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def ev_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def ev_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def scan(self, n, st, stop, it=None):
        """Evaluate the elements of a comprehension up to the first for which stop(value, state) is True.

        [("B", value, st) stopped | ("N", None, st) went through | ("E" | "A", ...)]; stop gives [(bool | Raise | Abort, st)].
        """
        save = st.frame
        st.stack = st.stack + (R(save),)
        fr = st.alloc(HFrame({}, save, ("comp", n)))
        st.frame = fr.a

        def leaf(s):
            def go(v, s2):
                s2.stack = s2.stack + (v,)
                outs = []
                for b, s3 in stop(v, s2):
                    s3.stack = s3.stack[:-1]
                    outs.append(("E", b.v, s3) if isinstance(b, Raise) else ("A", b, s3) if isinstance(b, Abort) else
                                ("R", v, s3) if b else ("N", None, s3))
                return outs
            return self.wrap(self.ev(n.elt, s), go)
        res = []
        for k, v, s in self.comp_loops(n, st, leaf, it):
            s.frame = save
            s.stack = s.stack[:-1]
            res.append(("B" if k == "R" else k, v, s))
        return res

    def comp_loops(self, n, st, leaf, it=None):
        """Run leaf for every combination of elements that passes the conditions of the comprehension."""
        def inner(gi, s):
            if gi == len(n.generators):
                return leaf(s)
            g = n.generators[gi]

            def body(e, s2):
                outs = []
                for k, v, s3 in self.assign(g.target, e, s2):
                    if k != "N":
                        outs.append((k, v, s3))
                        continue
                    cur = [s3]
                    for cond in g.ifs:
                        nxt = []
                        for s4 in cur:
                            for b, s5 in self.ev_cond(cond, s4):
                                if isinstance(b, Raise):
                                    outs.append(("E", b.v, s5))
                                elif isinstance(b, Abort):
                                    outs.append(("A", b, s5))
                                elif b:
                                    nxt.append(s5)
                                else:
                                    outs.append(("N", None, s5))
                        cur = nxt
                    for s4 in cur:
                        outs.extend(inner(gi + 1, s4))
                return outs
            live = self.p.comp_live(n, gi)
            if gi == 0 and it is not None:
                return self.iterate(it, s, body, live)
            return self.wrap(self.ev(g.iter, s), lambda v, s2: self.iterate(v, s2, body, live))
        return inner(0, st)

    def arbitrary(self, v, st):
        """Is v a container of which no element is known individually?"""
        v = self.deref(v, st)
        if isinstance(v, R) and isinstance(st.heap[v.a], HSet):
            sg = self.set_segs(v, st)
        elif isinstance(v, R) and isinstance(st.heap[v.a], (HList, HDict)) or isinstance(v, Q) and v.kind in ("keys", "values", "items"):
            sg = self.segs_of(v, st)
        else:
            return False
        return bool(sg) and all(g[0] != "1" for g in sg)

    def ev_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind, it=None):
        if kind in ("list", "set") and it is None and len(n.generators) == 1 and n.generators[0].ifs:
            return self.wrap_v(self.ev(n.generators[0].iter, st), lambda v, s: self.filtered(n, s, kind, v))
        acc = st.alloc(HList([]) if kind == "list" else HSet([]) if kind == "set" else HDict(()))
        save = st.frame
        st.stack = st.stack + (acc, R(save))
        fr = st.alloc(HFrame({}, save, ("comp", n)))
        st.frame = fr.a

        def leaf(s):
            if kind == "dict":
                return self.wrap(self.evs([n.key, n.value], s),
                                 lambda vs, s2: self.stmt_none(self.setitem(acc, vs[0], vs[1], s2)))
            return self.wrap(self.ev(n.elt, s),
                             lambda v, s2: self.stmt_none(self.call_native(Nm(acc, "append" if kind == "list" else "add"), [v], {}, s2)))
        res = []
        for k, v, s in self.comp_loops(n, st, leaf, it):
            s.frame = save
            s.stack = s.stack[:-2]
            res.append((acc, s) if k == "N" else (Raise(v), s) if k == "E" else (v, s))
        return res

    def filtered(self, n, st, kind, it):
        """Comprehension with conditions: over arbitrary elements, apart whether any element passes."""
        if not self.arbitrary(it, st):
            return self.comp(n, st, kind, it)
        res = []
        st.stack = st.stack + (it,)
        s1 = st.fork()
        for k, v, s in self.scan(n, s1, lambda v, s: [(True, s)], it):
            if k == "N":
                s.stack = s.stack[:-1]
                res.append((s.alloc(HList([]) if kind == "list" else HSet([])), s))
            elif k in ("E", "A"):
                s.stack = s.stack[:-1]
                res.append((Raise(v) if k == "E" else v, s))
            else:
                s.stack = s.stack + (v,)
                for w, s2 in self.comp(n, s, kind, it):
                    s2.stack = s2.stack[:-2]
                    if isinstance(w, R):
                        o = s2.heap[w.a]
                        if isinstance(o, HList):
                            s2.heap[w.a] = HList((("1", v),) + o.segs)
                        else:
                            s2.heap[w.a] = HSet((("1", v),) + tuple(g for g in o.segs if not (g[0] == "1" and g[1] == v)), frozenset(), o.frozen)
                    res.append((w, s2))
        return res

    # -- calls -------------------------------------------------------------------
    def ev_Call(self, n, st):
        # super() needs the enclosing method
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            a = st.frame
            while a is not None:
                f = st.heap[a]
                if isinstance(f.fn, Fn) and f.fn.cls is not None:
                    first = f.fn.node.args.args[0].arg
                    return [(Q("super", C(f.fn.cls), f.vars[first]), st)]
                a = f.up
        if n.args and isinstance(n.args[0], ast.GeneratorExp) and isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "next") and not n.keywords:
            return self.wrap_v(self.ev(n.func, st), lambda f, s: self.first_of(f, n, s))
        body = joined_chars(n)
        if body is not None:
            res = []
            for v, s in self.ev(n.args[0].generators[0].iter, st):
                v = v if isinstance(v, (Raise, Abort)) else self.deref(v, s)
                if isinstance(v, S):
                    res.extend(self.call(self.mkfn(body, s, None), [v], {}, s, n))
                else:
                    break
            else:
                return res
        plain = not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords)
        nodes = [n.func] + [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        res = []
        for vs, s in self.evs(nodes, st):
            if not isinstance(vs, list):
                res.append((vs, s))
                continue
            f = vs[0]
            args = vs[1:1 + len(n.args)]
            kvals = vs[1 + len(n.args):]
            if plain:
                res.extend(self.call(f, args, {k.arg: v for k, v in zip(n.keywords, kvals)}, s, n))
            else:
                pos = []
                ok = True
                for a, v in zip(n.args, args):
                    if isinstance(a, ast.Starred):
                        v = self.deref(v, s)
                        if isinstance(v, T):
                            pos.extend(v.items)
                        elif isinstance(v, R) and isinstance(s.heap[v.a], HList) and all(x[0] == "1" for x in s.heap[v.a].segs):
                            pos.extend(x[1] for x in s.heap[v.a].segs)
                        elif isinstance(v, R) and isinstance(s.heap[v.a], HList) and isinstance(self.deref(f, s), Lib) \
                                and self.deref(f, s).name in ("os.path.join", "posixpath.join") and len(n.args) == 1:
                            whole = join_list(self, s.heap[v.a].segs, s)
                            ok = whole is not None
                            pos.append(whole)
                        else:
                            ok = False
                    else:
                        pos.append(v)
                kw = {}
                for k, v in zip(n.keywords, kvals):
                    if k.arg:
                        kw[k.arg] = v
                        continue
                    v = self.deref(v, s)
                    if isinstance(v, R) and isinstance(s.heap[v.a], HDict) and all(e[0] == "1" and isinstance(e[1], K) for e in s.heap[v.a].ents):
                        for e in s.heap[v.a].ents:
                            kw[e[1].v] = e[2]
                    elif isinstance(v, R) and isinstance(s.heap[v.a], HDict):
                        kw["$more"] = v
                    else:
                        ok = False
                if not ok:
                    res.append((self.gap(s, "star arguments", n), s))
                else:
                    res.extend(self.call(f, pos, kw, s, n))
        return res

    def first_of(self, f, n, st):
        """any, all or next of a generator expression: elements are evaluated only up to the deciding one."""
        if not isinstance(f, Lib) or f.name not in ("any", "all", "next") or f.name != "next" and len(n.args) != 1:
            return self.wrap_v(self.evs_v(n.args, st), lambda vs, s: self.call(f, list(vs.items), {}, s, n))

        def stop(v, s):
            if f.name == "next":
                return [(True, s)]
            return [(b if isinstance(b, (Raise, Abort)) else b == (f.name == "any"), s2) for b, s2 in self.truth(v, s)]

        def go(dflt, s):
            res = []
            s.stack = s.stack + (dflt,)
            for k, v, s2 in self.scan(n.args[0], s, stop):
                s2.stack = s2.stack[:-1]
                if k == "B":
                    res.append((v if f.name == "next" else K(f.name == "any"), s2))
                elif k == "N" and f.name == "next":
                    res.append((dflt, s2) if len(n.args) > 1 else (self.exc(s2, "StopIteration"), s2))
                elif k == "N":
                    res.append((K(f.name == "all"), s2))
                else:
                    res.append((Raise(v), s2) if k == "E" else (v, s2))
            return res
        if len(n.args) > 1:
            return self.wrap_v(self.ev(n.args[1], st), go)
        return go(NONE, st)

    def evs_v(self, nodes, st):
        return [(T(vs) if isinstance(vs, list) else vs, s) for vs, s in self.evs(nodes, st)]

    def call(self, f, args, kw, st, node):
        f = self.deref(f, st)
        if isinstance(f, Bm):
            return self.call_fn(f.fn, [f.self] + list(args), kw, st, node)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw, st, node)
        if isinstance(f, C):
            return self.instantiate(f.info, args, kw, st, node)
        if isinstance(f, Nm):
            return self.call_native(f, list(args), kw, st)
        if isinstance(f, Lib):
            return self.call_lib(f.name, list(args), kw, st, node)
        if isinstance(f, X):
            for a in list(args) + list(kw.values()):
                pass
            return [(self.gap(st, "call of unknown value (%s)" % f.why, node), st)]
        if isinstance(f, R) and isinstance(st.heap[f.a], HInst):
            return self.wrap_v(self.getattr(f, "__call__", st), lambda g, s: self.call(g, args, kw, s, node))
        if isinstance(f, R) and isinstance(st.heap[f.a], HNat):
            h = self.p.nat_call.get(st.heap[f.a].kind)
            if h:
                return h(self, f, args, kw, st)
        return [(self.exc(st, "TypeError", "not callable"), st)]

    def bind(self, f, args, kw, st):
        """Parameter binding: dict of vars or Raise."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dfl = self.p.defaults.get((id(f.node), f.frame), [])
        nd = len(a.defaults)
        vars_ = {}
        if len(args) > len(names) and not a.vararg:
            return self.exc(st, "TypeError", "too many arguments")
        for nm, v in zip(names, args):
            vars_[nm] = v
        if a.vararg:
            vars_[a.vararg.arg] = T(args[len(names):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k == "$more":
                continue
            if k in names or k in kwonly:
                if k in vars_:
                    return self.exc(st, "TypeError", "multiple values")
                vars_[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return self.exc(st, "TypeError", "unexpected keyword")
        for i, nm in enumerate(names):
            if nm not in vars_:
                j = i - (len(names) - nd)
                if j < 0:
                    return self.exc(st, "TypeError", "missing argument " + nm)
                vars_[nm] = dfl[j]
        for i, nm in enumerate(kwonly):
            if nm not in vars_:
                if a.kw_defaults[i] is None:
                    return self.exc(st, "TypeError", "missing argument " + nm)
                vars_[nm] = dfl[nd + i]
        if a.kwarg:
            ents = [("1", K(k), v) for k, v in extra.items()]
            if "$more" in kw:
                src = st.heap[kw["$more"].a]
                have = set(extra)
                ents += [e for e in src.ents if not (e[0] == "1" and isinstance(e[1], K) and e[1].v in have)]
            vars_[a.kwarg.arg] = st.alloc(HDict(tuple(ents)))
        elif "$more" in kw:
            self.gap(st, "unknown keyword arguments")
        return vars_

    def call_fn(self, f, args, kw, st, node):
        stub = self.stubs.get(f.qual)
        if stub is not None:
            r = stub(self, f, args, kw, st, node)
            if r is not None:
                return r
        vars_ = self.bind(f, args, kw, st)
        if isinstance(vars_, Raise):
            return [(vars_, st)]
        self.calls.add(f.qual)
        info = self.p.fninfo(f.node)
        fr = st.alloc(HFrame(vars_, f.frame, f))
        if info.is_gen:
            return [(st.alloc(HNat("gen", {"fn": f, "frame": fr})), st)]
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Budget("recursion depth")
        save = st.frame
        smod, self.cur_mod = self.cur_mod, f.mod
        st.stack = st.stack + (R(save),)
        st.frame = fr.a
        outs = []
        if isinstance(f.node, ast.Lambda):
            rs = self.ev(f.node.body, st)
        else:
            rs = []
            for k, v, s in self.block(f.node.body, st):
                if k == "R":
                    rs.append((v, s))
                elif k == "N":
                    rs.append((NONE, s))
                elif k == "E":
                    rs.append((Raise(v), s))
                elif k == "A":
                    rs.append((v, s))
                else:
                    raise Gap("loop control outside loop")
        self.depth -= 1
        for v, s in rs:
            s.frame = save
            s.stack = s.stack[:-1]
            outs.append((v, s))
        self.cur_mod = smod
        if len(outs) > 2:
            outs = self.merge_outs(outs)
        return outs

    def instantiate(self, ci, args, kw, st, node):
        stub = self.stubs.get(ci.qual)
        if stub is not None:
            r = stub(self, C(ci), args, kw, st, node)
            if r is not None:
                return r
        if ci.node is None and not ci.issub(self.p.exc("BaseException")):
            return self.call_lib("type:" + ci.qual, list(args), kw, st, node)
        isexc = ci.issub(self.p.exc("BaseException"))
        obj = st.alloc(HInst(ci, {"args": T(args)} if isexc else {}))
        init = self.p.lookup(ci, "__init__", st)
        if init is None or not isinstance(init, Fn):
            if args and not isexc:
                return [(self.exc(st, "TypeError", "takes no arguments"), st)]
            return [(obj, st)]
        return self.wrap_v(self.pinned(st, [obj], lambda s: self.call_fn(init, [obj] + list(args), kw, s, node)),
                           lambda v, s: [(obj, s)])


def _sep_sources(L, q2, sep):
    """States from which the separator leads to q2."""
    out = []
    for q in range(L.n):
        if L.step(q, sep) == q2:
            out.append(q)
    return out


def _bounds(v):
    if isinstance(v, K):
        return v.v, v.v
    if isinstance(v, N):
        return v.lo, v.hi
    return None, None


def _store(st, loc, v):
    kind, a, name = loc
    if kind == "f":
        f = st.heap[a]
        vs = dict(f.vars)
        vs[name] = v
        st.heap[a] = HFrame(vs, f.up, f.fn)
    elif kind == "i":
        o = st.heap[a]
        at = dict(o.attrs)
        at[name] = v
        st.heap[a] = HInst(o.cls, at)
    else:
        st.mon[name] = v


from .lib import join_list       # noqa: E402
from .chars import char_loop, grown      # noqa: E402
