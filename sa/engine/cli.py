"""Command line tools: a model of argparse, of the exit status, and running a script as the main program.

The options a script declares are collected while it is interpreted; reading the command line is then left to the
rules of argparse itself, applied to the declared options and the (constant) words of the command line.
"""
import argparse
import contextlib
import io

from .values import K, T, Q, C, R, V, NONE, TRUE, FALSE, HInst, HList, HNat, HFrame, ClassInfo, Raise

KEEP = {"action", "default", "nargs", "type", "choices", "dest", "required", "const"}
ARGV = ("program",)


def parser(I, a, kw, st):
    return [(st.alloc(HNat("argparser", {"_a": T(()), "_s": T(()), "_d": T(())})), st)]


def m_parser(I, r, name, a, kw, st):
    o = st.heap[r.a]
    if name == "add_argument":
        q = T((T(a), T(tuple(T((K(k), v)) for k, v in kw.items() if k in KEEP))))
        I.wr(st, r.a, HNat("argparser", dict(o.f, _a=T(o.f["_a"].items + (q,)))))
        return [(NONE, st)]
    if name == "set_defaults":
        I.wr(st, r.a, HNat("argparser", dict(o.f, _d=T(o.f["_d"].items + tuple(T((K(k), v)) for k, v in kw.items())))))
        return [(NONE, st)]
    if name in ("add_argument_group", "add_mutually_exclusive_group"):
        return [(r, st)]
    if name == "add_subparsers":
        sub = st.alloc(HNat("subparsers", {"_p": T(()), "_k": T(tuple(T((K(k), v)) for k, v in kw.items() if k in ("dest", "required")))}))
        I.wr(st, r.a, HNat("argparser", dict(o.f, _s=T((sub,)))))
        return [(sub, st)]
    if name == "parse_args":
        return parse(I, r, a, kw, st)
    if name in ("print_help", "print_usage"):
        return [(NONE, st)]
    if name in ("error", "exit"):
        return [(I.exc(st, "SystemExit", K(2) if name == "error" else (a[0] if a else K(0))), st)]
    return [(I.gap(st, "argument parser method " + name), st)]


def m_sub(I, r, name, a, kw, st):
    o = st.heap[r.a]
    if name == "add_parser":
        p = st.alloc(HNat("argparser", {"_a": T(()), "_s": T(()), "_d": T(())}))
        I.wr(st, r.a, HNat("subparsers", dict(o.f, _p=T(o.f["_p"].items + (T((a[0], p)),)))))
        return [(p, st)]
    return [(I.gap(st, "method %s of subparsers" % name), st)]


def plain(st, v):
    """Python value of a constant structure."""
    if isinstance(v, K):
        return v.v
    if isinstance(v, T):
        return tuple(plain(st, x) for x in v.items)
    if isinstance(v, C):
        return {"str": str, "int": int, "float": float, "bool": bool}[v.info.qual]
    if isinstance(v, R) and isinstance(st.heap[v.a], HList):
        return [plain(st, e[1]) for e in st.heap[v.a].segs if e[0] == "1" or 1 / 0]
    raise KeyError(v)


def fill(st, real, r):
    o = st.heap[r.a]
    for q in o.f["_a"].items:
        kw = {}
        for e in q.items[1].items:
            try:
                kw[e.items[0].v] = plain(st, e.items[1])
            except KeyError:
                if e.items[0].v != "type":
                    raise
        real.add_argument(*plain(st, q.items[0]), **kw)
    real.set_defaults(**{e.items[0].v: plain(st, e.items[1]) for e in o.f["_d"].items})
    for s in o.f["_s"].items:
        so = st.heap[s.a]
        subs = real.add_subparsers(**{e.items[0].v: plain(st, e.items[1]) for e in so.f["_k"].items})
        for e in so.f["_p"].items:
            fill(st, subs.add_parser(plain(st, e.items[0])), e.items[1])


def value(st, x):
    if isinstance(x, (list, tuple)):
        return st.alloc(HList([("1", value(st, y)) for y in x]))
    return K(x)


def parse(I, r, a, kw, st):
    try:
        real = argparse.ArgumentParser()
        fill(st, real, r)
        words = plain(st, a[0]) if a and a[0] != NONE else list(I.argv)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ns = real.parse_args(words)
    except SystemExit as e:
        return [(I.exc(st, "SystemExit", K(e.code)), st)]
    except Exception as e:
        return [(I.gap(st, "command line options: %r" % (e,)), st)]
    return [(st.alloc(HInst(I.p.types["argparse.Namespace"], {k: value(st, v) for k, v in vars(ns).items()})), st)]


def sys_exit(I, a, kw, st):
    return [(I.exc(st, "SystemExit", *(a[:1] or [NONE])), st)]


def b_exit(I, a, kw, st):
    return sys_exit(I, a, kw, st)


def getenv(I, a, kw, st):
    """Environment variables are those of the state's monitor."""
    if not isinstance(a[0], K):
        return [(I.gap(st, "environment variable"), st)]
    have = dict(st.mon.get("$env", ()))
    return [(K(have[a[0].v]) if a[0].v in have else a[1] if len(a) > 1 else kw.get("default", NONE), st)]


def install(p):
    p.types["argparse.Namespace"] = ClassInfo("Namespace", "argparse.Namespace", [p.types["object"]])
    p.nat_method[("argparser", "*")] = m_parser
    p.nat_method[("subparsers", "*")] = m_sub
    L = p.lib
    L["argparse.ArgumentParser"] = parser
    L["sys.exit"] = L["exit"] = L["quit"] = L["os._exit"] = sys_exit
    L["os.getenv"] = getenv
    return p


def run_main(I, p, script, argv, st):
    """[(exit status or a text, state)] of running the script as the main program with these words."""
    m = p.parse("script:" + script)
    I.argv = tuple(argv)
    fr = st.alloc(HFrame({"__name__": K("__main__"), "__file__": K(m.path), "__doc__": NONE}, None, "script:" + script))
    st.frame = fr.a
    save = I.cur_mod
    I.cur_mod = "script:" + script
    st.stack = st.stack + (fr,)
    outs = I.block(m.tree.body, st)
    I.cur_mod = save
    res = []
    for k, v, s in outs:
        if k == "N":
            res.append((0, s))
        elif k == "E":
            o = s.heap[v.a]
            if o.cls.name == "SystemExit":
                at = o.attrs.get("args")
                c = at.items[0] if isinstance(at, T) and at.items else NONE
                c = s.norm(c) if isinstance(c, V) else c
                res.append((0 if c == NONE else int(c.v) if isinstance(c, K) and isinstance(c.v, (int, bool)) else 1 if isinstance(c, K) else "?", s))
            else:
                res.append(("raises " + o.cls.name, s))
        else:
            res.append(("?", s))
    return res
