"""V15: reported codes, the table of descriptions, and messages."""
import ast
import json
import os
import re

from ..world import *
from .. import world
from . import v01, v09, v10, v11, v12, v14

EXPLAIN = ("(1) Agreement of the message table with the source: every code named anywhere in the package is in the table, "
           "has an English description, and the number of placeholders equals the number of parameters. (2) At every "
           "call that reports a code, directly or through functions that forward keyword arguments, all parameters are "
           "supplied and the code's letter matches the severity. (3) Abstract interpretation of damaged objects and "
           "storage roots observes each report with the same rule. (4) Abstract interpretation of the message log for "
           "every code of the table with arbitrary parameter values: the message is the code, the description with the "
           "values filled in, and the link to the section of the specification.")
ASSUME = []
FLOOR = 100
CODE = re.compile(r"[EW]\d{3}[a-z]?\Z")


def table(p):
    with open(os.path.join(p.repo, "ocfl/data/validation-errors.json"), encoding="utf-8") as f:
        return json.load(f)


def holes(text):
    return len(re.findall(r"%s", text.replace("%%", "")))


def sources(p):
    for f in sorted(os.listdir(os.path.join(p.repo, "ocfl"))):
        if f.endswith(".py"):
            with open(os.path.join(p.repo, "ocfl", f), encoding="utf-8") as h:
                yield "ocfl/" + f, ast.parse(h.read())


def entries(p, ob):
    r = Result()
    for code, e in table(p).items():
        r.count("table entries")
        if not CODE.match(code):
            r.add("validation-errors.json", "%s is not a code" % code)
        ds = e.get("description", {})
        if not isinstance(ds.get("en"), str) or not ds.get("en"):
            r.add("validation-errors.json", "%s has no English description" % code)
        for lang_, t in ds.items():
            if holes(t) != len(e.get("params", [])) or re.search(r"%(?!s)", t.replace("%%", "")):
                r.add("validation-errors.json", "%s (%s): %d places for %d parameters" % (code, lang_, holes(t), len(e.get("params", []))))
        if len(set(e.get("params", []))) != len(e.get("params", [])):
            r.add("validation-errors.json", "%s: repeated parameter" % code)
    return r


def used(p, ob):
    r = Result()
    t = table(p)
    for f, tree in sources(p):
        docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and CODE.match(n.value) and id(n) not in docs:
                r.count("codes in the source")
                if not t.get(n.value, {}).get("description", {}).get("en"):
                    r.add("%s:%d" % (f, n.lineno), "code %s has no description" % n.value)
    return r


def forwarders(trees):
    """{name: set of severities and extra keywords} of functions that pass their first argument and **keywords on."""
    out = {"error": [("E", frozenset())], "warning": [("W", frozenset())]}
    for _ in range(4):
        for f, tree in trees:
            for d in ast.walk(tree):
                if not isinstance(d, ast.FunctionDef) or not d.args.kwarg or d.name in ("error", "warning", "log"):
                    continue
                names = [a.arg for a in d.args.args if a.arg not in ("self", "cls")]
                if not names:
                    continue
                got = []
                for c in ast.walk(d):
                    if (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in out and c.args
                            and isinstance(c.args[0], ast.Name) and c.args[0].id == names[0]
                            and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == d.args.kwarg.arg for k in c.keywords)):
                        extra = frozenset(k.arg for k in c.keywords if k.arg)
                        got += [(s, x | extra) for s, x in out[c.func.attr]]
                if got:
                    out[d.name] = got
    return out


def calls(p, ob):
    r = Result()
    t = table(p)
    trees = list(sources(p))
    fw = forwarders(trees)
    for f, tree in trees:
        for c in ast.walk(tree):
            if not isinstance(c, ast.Call) or not c.args or not isinstance(c.args[0], ast.Constant):
                continue
            code = c.args[0].value
            if not isinstance(code, str) or not CODE.match(code):
                continue
            nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)
            kws = {k.arg for k in c.keywords}
            if nm not in fw or None in kws or len(c.args) > 1:
                r.count("calls left to the interpretation")
                continue
            r.count("calls")
            need = set(t.get(code, {}).get("params", []))
            for sev, extra in fw[nm]:
                if sev != code[0]:
                    r.add("%s:%d" % (f, c.lineno), "%s reported as %s" % (code, "an error" if sev == "E" else "a warning"))
                if need - kws - extra:
                    r.add("%s:%d" % (f, c.lineno), "%s without %s" % (code, ", ".join(sorted(need - kws - extra))))
    return r


class Check(Log):
    """Log that compares each report with the table."""

    def __init__(self, t):
        super().__init__()
        self.t, self.bad, self.seen = t, {}, set()

    def look(self, sev, args, kw):
        c = args[1] if len(args) > 1 else kw.get("code")
        if not isinstance(c, K):
            return
        self.seen.add(c.v)
        e = self.t.get(c.v)
        if c.v[:1] != sev:
            self.bad[c.v] = "reported as %s" % ("an error" if sev == "E" else "a warning")
        elif not e or not e.get("description", {}).get("en"):
            self.bad[c.v] = "has no description"
        elif set(e.get("params", [])) - set(kw):
            self.bad[c.v] = "without %s" % ", ".join(sorted(set(e["params"]) - set(kw)))

    def error(self, I, f, args, kw, st, node):
        self.look("E", args, kw)
        return super().error(I, f, args, kw, st, node)

    def warning(self, I, f, args, kw, st, node):
        self.look("W", args, kw)
        return super().warning(I, f, args, kw, st, node)


def observed(name, tree, how):
    def fn(p, ob):
        r = Result()
        log = Check(table(p))
        w = World(p, log.stubs())
        w.install({"w": tree(w.st)})
        n = sum(1 for _ in how(w))
        r.count("paths", n)
        r.count("codes", len(log.seen))
        for c, t in sorted(log.bad.items()):
            r.add("report of " + c, t)
        if not n:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob("reports: " + name, "reports agree with the table", fn)


def again(mod, obs):
    """The scenarios of another property, with reports compared with the table."""
    def fn(p, ob):
        r = Result()
        t = table(p)
        for o in obs:
            log = Check(t)
            world.DEFAULT_LOG[0] = lambda: log
            try:
                o.fn(p, o)
            finally:
                world.DEFAULT_LOG[0] = Log
            r.count("scenarios")
            for c in log.seen:
                r.count("reports of " + c)
            for c, m in sorted(log.bad.items()):
                r.add("report of " + c, m)
        return r
    return Ob("reports: %s from %s" % (mod.__name__.split(".")[-1], obs[0].name), "reports agree with the table", fn)


def message(code, sev):
    def fn(p, ob):
        r = Result()
        t = table(p)
        e = t.get(code, {})
        for ver in ("1.0", "1.1"):
            w = World(p)
            vals = {x: w.st.atom(D.ALL) for x in e.get("params", [])}
            parts = re.split(r"%s", e.get("description", {}).get("en", "?").replace("%%", "\0"))
            exp = ["[" + code + "] "]
            for i, x in enumerate(parts):
                if i:
                    exp += FM.parts_of(vals[e["params"][i - 1]])
                exp.append(x.replace("\0", "%"))
            if int(code[1:4]) < 200:
                exp.append(" (see https://ocfl.io/%s/spec/#%s)" % (ver, code[:4]))
            want = FM.mkstr(tuple(exp))
            n = 0
            for lg, s in w.new("ocfl.validation_logger.ValidationLogger", log_warnings=True, spec_version=K(ver)):
                for v, s2 in w.meth(lg, "error" if sev == "E" else "warning", K(code), st=s, **vals):
                    n += 1
                    if s2.taint:
                        r.undecided.append(s2.taint[0])
                        continue
                    if isinstance(v, Raise):
                        r.add("ValidationLogger", "reporting %s raises %s" % (code, describe(v.v, s2)))
                        continue
                    ms = v01.items(s2, v01.attr(s2, lg, "messages"))
                    if ms is None or len(ms) != 1 or s2.norm(ms[0]) != s2.norm(want):
                        r.add("ValidationLogger", "message of %s is %s" % (code, ms and repr(ms[0])[:150]))
            r.count("paths", n)
            if not n:
                r.undecided.append("no path")
        return finish(r, w.I)
    return Ob("message of %s" % code, "the message is the code, the description and the link", fn)


LANGS = {
    "chosen": ({"en": "A %s", "de": "B %s"}, "de", "B x"),
    "English otherwise": ({"aa": "Z %s", "en": "A %s"}, "de", "A x"),
    "first otherwise": ({"fr": "C %s", "es": "D %s"}, "de", "D x"),
    "chosen without English": ({"fr": "C %s", "es": "D %s"}, "fr", "C x"),
}


def language(nm):
    def fn(p, ob):
        r = Result()
        w = World(p)
        desc, lang_, want = LANGS[nm]
        tb = val(w.st, {"E101a": {"params": ["q"], "description": desc}})
        for lg, s in w.new("ocfl.validation_logger.ValidationLogger", validation_codes=tb, lang=K(lang_)):
            for v, s2 in w.meth(lg, "error", K("E101a"), st=s, q=K("x")):
                r.count("paths")
                ms = v01.items(s2, v01.attr(s2, lg, "messages")) if not isinstance(v, Raise) else None
                if s2.taint:
                    r.undecided.append(s2.taint[0])
                elif not ms or ms[0] != K("[E101a] %s (see https://ocfl.io/1.1/spec/#E101)" % want):
                    r.add("ValidationLogger", "message %r" % (ms,))
        return finish(r, w.I)
    return Ob("language: " + nm, "the description is in the language asked for, else English", fn)


def obligations(p):
    obs = [Ob("table", "every entry is complete", entries), Ob("codes", "every code named is in the table", used),
           Ob("calls", "every report supplies the parameters of its description", calls)]
    t = table(p)
    for code in t:
        if CODE.match(code):
            obs.append(message(code, code[0]))
    obs += [language(nm) for nm in LANGS]
    V = "ocfl.validator.Validator"
    for case, (make, good) in v01.CASES.items():
        obs.append(observed(case, lambda st, make=make: {"o": make(st)}, v14.method(V, {}, "validate_object", K("/w/o"))))
    for nm, mk in v14.ROOTS.items():
        obs.append(observed("root, " + nm, lambda st, mk=mk: {"r": mk(st)}, v14.method("ocfl.storage_root.StorageRoot", {"root": K("/w/r")}, "validate")))
    for mod in (v09, v10, v11, v12):
        o = mod.obligations(p)
        obs += [again(mod, o[i:i + 25]) for i in range(0, len(o), 25)]
    return obs
