"""The analysed project: parsed source, abstract module state, name resolution."""
import ast
import logging
import os
import re

from .values import (K, S, N, U, R, T, Fn, M, C, Lib, Prop, X, NONE, ClassInfo, HFrame, State, Raise, Abort)
from .interp import Interp, FnInfo, BUILTIN_EXC, BUILTIN_TYPES, Gap
from .lib import LIB, NATM, match_item
from .live import Live

EXTRA_EXC = {
    "bagit.BagError": "Exception", "bagit.BagValidationError": "bagit.BagError",
    "argparse.ArgumentError": "Exception", "dateutil.parser.ParserError": "ValueError",
}
ALIASES = {
    "json.decoder.JSONDecodeError": "json.JSONDecodeError", "IOError": "OSError", "EnvironmentError": "OSError",
    "dateutil_parser.ParserError": "dateutil.parser.ParserError",
}
CONSTS = {
    "os.sep": "/", "os.path.sep": "/", "os.linesep": "\n", "os.curdir": ".", "os.pardir": "..",
    "re.DOTALL": int(re.DOTALL), "re.S": int(re.DOTALL), "re.ASCII": int(re.ASCII), "re.A": int(re.ASCII),
    "re.IGNORECASE": int(re.IGNORECASE), "re.I": int(re.IGNORECASE), "re.MULTILINE": int(re.MULTILINE),
    "re.M": int(re.MULTILINE), "re.VERBOSE": int(re.VERBOSE), "re.X": int(re.VERBOSE),
    "logging.DEBUG": 10, "logging.INFO": 20, "logging.WARNING": 30, "logging.WARN": 30, "logging.ERROR": 40,
    "logging.CRITICAL": 50, "string.ascii_lowercase": "abcdefghijklmnopqrstuvwxyz", "string.digits": "0123456789",
    "string.hexdigits": "0123456789abcdefABCDEF",
}
SPECIAL_LIB_BUILTINS = ("open", "vars", "globals", "locals", "exec", "eval", "compile", "delattr", "property",
                        "staticmethod", "classmethod", "memoryview", "bytearray", "complex", "divmod", "pow",
                        "slice", "input", "breakpoint", "dir", "help", "__import__")


class Module:
    """A parsed module."""

    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src, self.frame = name, path, tree, src, None


def describe(v, st):
    """Short text for a value (exceptions with their class and arguments)."""
    if isinstance(v, R) and type(st.heap.get(v.a)).__name__ == "HInst":
        o = st.heap[v.a]
        return "%s%s" % (o.cls.name, o.attrs.get("args", ""))
    return repr(v)


class Missing(Exception):
    """Something the check relies on is not in the source any more."""


class Project:
    """The source of one repository."""

    def __init__(self, repo="/repo", package="ocfl"):
        self.repo = repo
        self.package = package
        self.default_stubs = {}
        self.base = None
        self.types = {}
        self.excs = {}
        self.defaults = {}
        self.classes = {}
        self.modules = {}
        self.lib = {}
        self.nat_exit, self.nat_iter, self.nat_call, self.nat_eq = {}, {}, {}, {}
        self.nat_item, self.nat_len, self.nat_method = {}, {}, dict(NATM)
        self.nat_item["match"] = match_item
        self.q_iter, self.q_truth, self.q_eq, self.q_attr, self.q_contains = {}, {}, {}, {}, {}
        self.q_item, self.q_binop, self.q_method, self.q_len, self.q_slice, self.nat_slice = {}, {}, {}, {}, {}, {}
        self.q_eqk = {}
        self.inst_attr = {}
        self.lib_consts = {"sys.version_info": T([K(3), K(12), K(3), K("final"), K(0)])}
        self.isinst = None
        self._info = {}
        self._live = {}
        self._parent_fn = {}
        for t in BUILTIN_TYPES:
            if t == "object":
                self.types[t] = ClassInfo(t, t, [])
            else:
                self.types[t] = ClassInfo(t, t, [self.types["object"]])
        for nm, base in list(BUILTIN_EXC.items()) + list(EXTRA_EXC.items()):
            b = self.excs[base] if base else self.types["object"]
            self.excs[nm] = ClassInfo(nm.split(".")[-1], nm, [b])
        self.state = State()
        self.interp = None
        self.load_gaps = {}

    # -- loading -----------------------------------------------------------
    def parse(self, name):
        """Parse a project module by dotted name (or script:FILE)."""
        if name in self.modules:
            return self.modules[name]
        if name.startswith("script:"):
            path = os.path.join(self.repo, name[7:] + ".py")
        else:
            rel = name.split(".")
            path = os.path.join(self.repo, *rel) + ".py"
            if not os.path.exists(path):
                path = os.path.join(self.repo, *rel, "__init__.py")
        if not os.path.exists(path):
            raise Missing("module %s (%s)" % (name, path))
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree, src)
        self.modules[name] = m
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                for w in ast.walk(fn):
                    if isinstance(w, (ast.For, ast.While)):
                        self._parent_fn[w] = fn      # innermost wins: ast.walk is outer first
        return m

    def is_project(self, name):
        if name in self.modules:
            return True
        if name.split(".")[0] != self.package:
            return False
        p = os.path.join(self.repo, *name.split("."))
        return os.path.exists(p + ".py") or os.path.isdir(p)

    def load(self, name):
        """Execute the module top level abstractly in the base state."""
        m = self.parse(name)
        if m.frame is not None:
            return m
        if self.base is not None:
            raise Missing("module %s is imported after the base state was built" % name)
        if "." in name and not name.startswith("script:"):
            self.load(name.rsplit(".", 1)[0])
            if m.frame is not None:
                return m
        st = self.state
        I = self.interp
        save, smod = st.frame, I.cur_mod
        fr = st.alloc(HFrame({"__name__": K(name), "__file__": K(m.path), "__doc__": NONE}, None, name))
        m.frame = fr.a
        st.frame = fr.a
        I.cur_mod = name
        for s in m.tree.body:
            outs = I.ex(s, st)
            if len(outs) != 1 or outs[0][0] != "N" or outs[0][2] is not st:
                raise Missing("module %s line %d: the module level could not be interpreted (%s; %s)"
                              % (name, s.lineno, [(o[0], describe(o[1], o[2])) for o in outs], list(I.gaps)))
        st.frame, I.cur_mod = save, smod
        if "." in name and not name.startswith("script:"):
            parent, sub = name.rsplit(".", 1)
            pm = self.modules.get(parent)
            if pm is not None and pm.frame is not None:
                f = st.heap[pm.frame]
                vs = dict(f.vars)
                vs.setdefault(sub, M(name))
                st.heap[pm.frame] = HFrame(vs, f.up, f.fn)
        return m

    def load_all(self, names):
        self.interp = Interp(self)
        for n in names:
            self.load(n)
        self.load_gaps = dict(self.interp.gaps)
        self.state.taint = ()
        self.state.dirty = frozenset()
        self.state.basemod = frozenset()
        self.base = (self.state.nid, self.state.heap)
        return self

    def fresh(self):
        """A new state on top of the loaded modules."""
        s = self.state.fork()
        s.frame = None
        return s

    # -- names -----------------------------------------------------------------
    def exc(self, name):
        name = ALIASES.get(name, name)
        if name in self.excs:
            return self.excs[name]
        raise Gap("exception class " + name)

    def builtin(self, name):
        if name in self.types and name != "NoneType":
            return C(self.types[name])
        n2 = ALIASES.get(name, name)
        if n2 in self.excs:
            return C(self.excs[n2])
        if name in LIB and "." not in name and ":" not in name or name in SPECIAL_LIB_BUILTINS or name in self.lib:
            return Lib(name)
        return None

    def import_module(self, name):
        if self.is_project(name):
            if self.base is None:
                self.load(name)
            return M(name)
        return Lib(name)

    def resolve_from(self, mod, module, level):
        if not level:
            return module
        if mod in self.modules and self.modules[mod].path.endswith("__init__.py"):
            pkg = mod.split(".")
            level -= 1
        else:
            pkg = mod.split(".")[:-1]
            level -= 1
        if level:
            pkg = pkg[:-level]
        return ".".join(pkg + ([module] if module else []))

    def import_name(self, modname, name, st, I):
        if self.is_project(modname):
            if self.base is None:
                self.load(modname)
            fr = self.modules[modname].frame if modname in self.modules else None
            if fr is not None and name in st.heap[fr].vars:
                return st.heap[fr].vars[name]
            if self.is_project(modname + "." + name):
                return self.import_module(modname + "." + name)
            return I.gap(st, "import of %s from %s" % (name, modname))
        return self.lib_attr(modname, name)

    def star(self, modname, st):
        if self.is_project(modname):
            if self.base is None:
                self.load(modname)
            f = st.heap[self.modules[modname].frame]
            return [(k, v) for k, v in f.vars.items() if not k.startswith("_")]
        return []

    def module_attr(self, modname, name, st):
        fr = self.modules[modname].frame if modname in self.modules else None
        if fr is None:
            return None
        v = st.heap[fr].vars.get(name)
        if v is None and self.is_project(modname + "." + name) and (modname + "." + name) in self.modules:
            return M(modname + "." + name)
        return v

    def lib_attr(self, libname, name):
        full = libname + "." + name
        full = ALIASES.get(full, full)
        if full in self.excs:
            return C(self.excs[full])
        if full in self.lib_consts:
            return self.lib_consts[full]
        if full in CONSTS:
            return K(CONSTS[full])
        return Lib(full)

    # -- classes -----------------------------------------------------------------
    def own(self, ci, name, st):
        if ci.frame is None:
            return None
        return st.heap[ci.frame].vars.get(name)

    def lookup(self, ci, name, st):
        for c in ci.mro():
            v = self.own(c, name, st)
            if v is not None:
                return v
        return None

    def cls(self, qual):
        """Class by qualified name; the check cannot run without it."""
        ci = self.classes.get(qual)
        if ci is None:
            raise Missing("class " + qual)
        return ci

    def fn(self, qual):
        """Function or method by qualified name in the loaded state."""
        mod, name = qual.rsplit(".", 1)
        if mod in self.modules:
            v = self.state.heap[self.modules[mod].frame].vars.get(name)
        else:
            v = self.lookup(self.cls(mod), name, self.state)
        if v is None:
            raise Missing("function " + qual)
        return v

    def isinstance_lib(self, v, x, st):
        if self.isinst:
            return self.isinst(v, x, st)
        return None

    # -- facts about nodes ---------------------------------------------------------
    def fninfo(self, node):
        i = self._info.get(node)
        if i is None:
            i = self._info[node] = FnInfo(node)
        return i

    def live_at_loop(self, node):
        fn = self._parent_fn.get(node)
        if fn is None or isinstance(fn, ast.Lambda):
            return None
        lv = self._live.get(fn)
        if lv is None:
            lv = self._live[fn] = Live(fn)
        return lv.head.get(node)

    def comp_live(self, node, gi):
        out = set()
        for g in node.generators[:gi]:
            out |= {w.id for w in ast.walk(g.target) if isinstance(w, ast.Name)}
        return out
