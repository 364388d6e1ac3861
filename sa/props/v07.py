"""Fixity block requirements are enforced."""
from ..inv import *
from ..engine.lib import LIB

EXPLAIN = ("Abstract interpretation of InventoryValidator.validate on inventories with a fixity block that is not an object, "
           "names an unknown algorithm, holds a non-object block, a digest of the wrong form for its algorithm, a non-array of "
           "paths, a path that is not in the manifest, or one digest in two letter cases; strings are regular languages. "
           "Paths that report an error are cut and no remaining path may return True.")
ASSUME = ["Python builtins, re and the other modelled library functions behave as their models in sa/engine/lib.py"]
FLOOR = 30
RULE = "no accepting path for a non-conforming fixity block"
ALGS = {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128, "blake2b-512": 128, "blake2b-160": 40, "blake2b-256": 64,
        "blake2b-384": 96}


def fn(name, ref):
    return Spec(lambda b: b.st.norm(S(((name, b.names[ref]),))))


def known_algorithms(p):
    """Keys of the module level tables of ocfl.digest whose keys are algorithm names."""
    out = set()
    f = p.state.heap[p.modules["ocfl.digest"].frame]
    for v in f.vars.values():
        o = p.state.heap.get(v.a) if isinstance(v, R) else None
        if isinstance(o, HDict):
            ks = {e[1].v for e in o.ents if isinstance(e[1], K)}
            if "sha512" in ks:
                out |= ks
    return out


def obligations(p):
    out = []
    algs = known_algorithms(p) | set(ALGS)
    for typ in ("1.1", "1.0"):
        t = {"type": "https://ocfl.io/%s/spec/#inventory" % typ}
        mk = lambda fx, t=t: lambda: inv1(fixity=fx, **t)
        sc = [("not an object", mk(NotJ("dict"))),
              ("unknown algorithm", mk(Pairs((D.minus(D.ALL, D.words(sorted(algs))), {"aa": ["v1/content/f"]})))),
              ("unknown algorithm, empty block", mk(Pairs((D.minus(D.ALL, D.words(sorted(algs))), {})))),
              ("unknown algorithm after a known one", mk(Pairs(("md5", {}), (D.minus(D.ALL, D.words(sorted(algs))), {})))),
              ("unknown algorithm before a known one", mk(Pairs((D.minus(D.ALL, D.words(sorted(algs))), {}), ("md5", {})))),
              ("second block not an object", mk(Pairs(("md5", {}), ("sha1", NotJ("dict")))))]
        for alg, n in sorted(ALGS.items()):
            hx = Rx("[0-9a-f]{%d}" % n)
            sc += [
                ("%s block not an object" % alg, mk({alg: NotJ("dict")})),
                ("%s digest of wrong form" % alg, mk({alg: Pairs((D.minus(D.ALL, Rx("[0-9a-fA-F]{%d}" % n)), ["v1/content/f"]))})),
                ("%s paths not an array" % alg, mk({alg: Pairs((hx, NotJ("list")))})),
                ("%s path not in manifest" % alg, mk({alg: Pairs((hx, [NotRx("v1/content/f")]))})),
                ("%s second path not in manifest" % alg, mk({alg: Pairs((hx, ["v1/content/f", NotRx("v1/content/f")]))})),
                ("%s digest in two letter cases" % alg, mk({alg: Pairs((Let("x", D.inter(hx, D.concat_all([D.ALL, Rx("[a-f]"), D.ALL]))), ["v1/content/f"]),
                                                                       (fn("upper", "x"), ["v1/content/f"]))})),
            ]
        for n, f in sc:
            out.append(must_reject("%s (%s)" % (n, typ), f, RULE, "fixity"))
    return out
