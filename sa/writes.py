"""Scenarios that store objects: what is written, compared with what was asked for."""
from .world import *

WR = ("create", "truncate", "write", "written", "mkdir", "rm")


def elems(el):
    return tuple(e.v if isinstance(e, K) else e for e in el)


def name(path):
    return "/".join(x if isinstance(x, str) else "<name>" for x in path)


def record(w):
    """Record every change of the storage, in order, in the state."""
    def on(I, st, op, el, extra):
        if op in WR:
            st.mon["$ev"] = st.mon.get("$ev", ()) + ((op, elems(el)),)
        elif op == "escape":
            st.mon["$esc"] = st.mon.get("$esc", ()) + (elems(el),)
    w.I.on_fs = on


def events(s, *pre):
    n = len(pre)
    return [(op, p[n:]) for op, p in s.mon.get("$ev", ()) if p[:n] == pre]


def deref(s, v):
    while isinstance(v, R) and isinstance(s.heap.get(v.a), HFwd):
        v = s.heap[v.a].v
    return s.norm(v) if isinstance(v, (S, K)) else v


class Unclear(Exception):
    """The analysis does not know the value precisely enough."""


def plain(s, v, depth=0):
    """An abstract JSON value as Python data; strings that are not constant stay abstract values."""
    v = deref(s, v)
    if depth > 12:
        raise Unclear("deep value")
    if isinstance(v, K):
        return v.v
    if isinstance(v, S):
        return v
    if isinstance(v, T):
        return [plain(s, x, depth + 1) for x in v.items]
    if isinstance(v, R):
        o = s.heap.get(v.a)
        if isinstance(o, HDict):
            d = {}
            for e in o.ents:
                if e[0] != "1":
                    raise Unclear("dictionary of unknown keys")
                d[plain(s, e[1], depth + 1)] = plain(s, e[2], depth + 1)
            return d
        if isinstance(o, (HList, HSet)):
            if any(e[0] != "1" for e in o.segs):
                raise Unclear("list of unknown length")
            return [plain(s, e[1], depth + 1) for e in o.segs]
    raise Unclear("value %s" % type(v).__name__)


def chunks_at(s, *path):
    n = FM.at(s, s.mon["$fs"], *path)
    if n is None:
        return None
    o = s.heap[n.a]
    return o.f["c"] if o.kind == "file" else None


def files(s, *path):
    """{path below: chunks} of all files, and the list of empty directories."""
    n = FM.at(s, s.mon["$fs"], *path)
    if n is None or s.heap[n.a].kind != "dir":
        return {}, []
    fl = FM.flat(s, n)
    fs = {elems(p): c for p, k, c in fl if k == "file"}
    ds = [elems(p) for p, k, c in fl if k == "dir"]
    return fs, [d for d in ds if not any(q[:len(d)] == d for q in list(fs) + [x for x in ds if x != d])]


def norm(s, c):
    return norm_chunks(s, c.items) if c is not None else None


def inventory_at(s, *path):
    """The inventory stored at a path, as Python data."""
    c = chunks_at(s, *path)
    if c is None:
        return None
    if len(c.items) == 1 and isinstance(c.items[0], Q) and c.items[0].kind == "json":
        return plain(s, c.items[0].args[0])
    raise Unclear("inventory text %r" % (c,))


def joined(s, p):
    """Text of a path: a Python string, or an abstract value if an element is one."""
    if all(isinstance(x, str) for x in p):
        return "/".join(p)
    parts = []
    for i, x in enumerate(p):
        parts += (["/"] if i else []) + ([x] if isinstance(x, str) else list(FM.parts_of(x)))
    v = s.norm(FM.mkstr(parts))
    return v.v if isinstance(v, K) else v


def lead(x):
    """First constant text of a path."""
    return x if isinstance(x, str) else x.parts[0] if isinstance(x.parts[0], str) else ""


def validates(p, s, *path):
    """Outcomes of validating the object stored at a path in state s: list of problems."""
    w = World(p, Log().stubs())
    st = s.fork()
    st.taint = ()
    st.mon["err"] = ()
    w.st = st
    bad = []
    n = 0
    for v, s1 in w.new("ocfl.validator.Validator", st=st):
        if isinstance(v, Raise):
            bad.append("validator raises")
            continue
        for x, s2 in w.meth(v, "validate_object", K("/" + "/".join(path)), st=s1):
            n += 1
            if isinstance(x, Raise):
                bad.append("validating it raises %s" % describe(x.v, s2))
            elif x != TRUE or s2.mon.get("err"):
                if s2.taint:
                    raise Unclear(s2.taint[0])
                bad.append("it is not valid: %s" % ",".join(s2.mon.get("err", ())))
            elif s2.taint:
                raise Unclear(s2.taint[0])
    if not n:
        bad.append("validation has no outcome")
    return bad


def flip(state):
    """{digest: [paths]} as {path: digest}; raises ValueError on a repeated path."""
    out = {}
    for d, ps in state.items():
        for q in ps:
            if q in out:
                raise ValueError(q)
            out[q] = d
    return out


def contents(s, inv, ver, *path):
    """{logical path: chunks} of a version, read through the inventory and the files; problems."""
    bad, out = [], {}
    fs, _ = files(s, *path)
    fs = {joined(s, f): c for f, c in fs.items()}
    man = inv.get("manifest", {})
    st = inv.get("versions", {}).get(ver, {}).get("state", None)
    if st is None:
        return {}, ["version %s has no state" % ver]
    try:
        fl = flip(st)
    except ValueError:
        return {}, ["state of %s lists a path twice" % ver]
    for lp, d in fl.items():
        cps = man.get(d)
        if not cps:
            bad.append("logical file %s of %s has no content" % (lp, ver))
            continue
        c = [norm(s, fs.get(cp)) for cp in cps]
        if any(x is None for x in c):
            bad.append("content file of %s of %s is not stored" % (lp, ver))
            continue
        if any(x != c[0] for x in c):
            bad.append("copies of %s differ" % lp)
        out[lp] = c[0]
    return out, bad


class Want:
    """What a stored object must be."""

    def __init__(self, states, alg="sha512", spec="1.1", oid="info:abc", cdir="content", meta=None, width=0, **kw):
        self.states = states   # per version: {logical path: chunks T or None (do not care)}
        self.alg, self.spec, self.oid, self.cdir, self.meta = alg, spec, oid, cdir, meta or {}
        self.width = width
        self.n = len(states)
        self.kw = kw

    def v(self, k):
        return "v" + str(k).zfill(self.width)


def copies(s, want, path, fd, dd, first=None, added=None):
    """Problems of how often content is stored, given the settings of forward delta and deduplication, in versions from the first one given on."""
    bad = []
    fs, _ = files(s, *path)
    have = {}
    for f, c in fs.items():
        if len(f) > 2 and f[1] == want.cdir:
            have.setdefault(f[0], []).append(norm(s, c))
    for k in range(first or want.n, want.n + 1):
        here = have.get(want.v(k), [])
        older = [c for j in range(1, k) for c in have.get(want.v(j), [])]
        what = want.states[k - 1] if added is None else added
        state = [norm(s, c) for c in what.values()]
        for lp, c in what.items():
            c = norm(s, c)
            n = (0 if fd else 1 if dd else state.count(c)) if c in older else 1 if dd else state.count(c)
            if here.count(c) != n:
                bad.append("content of %s is stored %d times in %s, not %d times" % (lp, here.count(c), want.v(k), n))
        bad += ["content that is not of the version is stored in %s" % want.v(k)] * any(c not in state for c in here)
    return bad


def check_stored(p, s, want, path, fd=None, dd=None, first=None):
    """Problems of the object stored at a path against what was asked for."""
    bad = []
    inv = inventory_at(s, *path, "inventory.json")
    if inv is None:
        return ["no root inventory"]
    head = want.v(want.n)
    hd = inventory_at(s, *path, head, "inventory.json")
    if hd != inv:
        bad.append("inventory of the latest version differs from the root inventory")
    for k, x in (("id", want.oid), ("head", head), ("digestAlgorithm", want.alg),
                 ("type", "https://ocfl.io/%s/spec/#inventory" % want.spec)):
        if inv.get(k) != x:
            bad.append("%s is %s, not %s" % (k, inv.get(k), x))
    if inv.get("contentDirectory", "content") != want.cdir:
        bad.append("content directory is %s" % inv.get("contentDirectory"))
    if sorted(inv.get("versions", {})) != sorted(want.v(k) for k in range(1, want.n + 1)):
        bad.append("versions are %s" % ",".join(map(str, inv.get("versions", {}))))
        return bad
    fs, empties = files(s, *path)
    decl = ("0=ocfl_object_" + want.spec,)
    if norm(s, fs.get(decl)) != T([K("ocfl_object_%s\n" % want.spec)]):
        bad.append("declaration of version %s missing or wrong" % want.spec)
    others = [f for f in fs if len(f) == 1 and isinstance(f[0], str) and f[0].startswith("0=") and f != decl]
    if others:
        bad.append("other declarations %s" % others)
    for d in ((), (head,)):
        c = fs.get(d + ("inventory.json",))
        side = fs.get(d + ("inventory.json." + want.alg,))
        if side is None:
            bad.append("no digest file for %s" % name(d + ("inventory.json",)))
        else:
            it = norm(s, side).items
            dg = norm(s, T([digest(want.alg, c)])).items[0]
            ok = len(it) == 1 and any(it[0] == s.norm(FM.mkstr(FM.parts_of(dg) + (sep + "inventory.json" + nl,)))
                                      for sep in (" ", "  ", "\t") for nl in ("\n", ""))
            if not ok:
                bad.append("digest file of %s is not that of the inventory" % name(d + ("inventory.json",)))
        more = [f for f in fs if len(f) == len(d) + 1 and f[:len(d)] == d and isinstance(f[-1], str)
                and f[-1].startswith("inventory.json.") and f[-1] != "inventory.json." + want.alg]
        if more:
            bad.append("stale digest file %s" % name(more[0]))
    # states
    for k in range(1, want.n + 1):
        got, pr = contents(s, inv, want.v(k), *path)
        bad += pr
        exp = {plain(s, lp) if isinstance(lp, V) else lp: norm(s, c) for lp, c in want.states[k - 1].items()}
        if not pr and got != exp:
            mis = [lp for lp in exp if got.get(lp) != exp[lp]]
            ext = [lp for lp in got if lp not in exp]
            bad.append("%s differs from what was asked for: %s" % (want.v(k), "; ".join(
                ["%s %s" % (lp, "has other content" if lp in got else "missing") for lp in mis] + ["%s not asked for" % lp for lp in ext])))
    for k, m in want.meta.items():
        ver = inv["versions"][want.v(k)]
        for a, x in m.items():
            if a == "created" and x is True:
                if "created" not in ver:
                    bad.append("%s has no created time" % want.v(k))
                continue
            if ver.get(a) != x:
                bad.append("%s of %s is %s, not %s" % (a, want.v(k), ver.get(a), x))
    # manifest and files
    man = inv.get("manifest", {})
    byname = {joined(s, f): c for f, c in fs.items()}
    try:
        fl = flip(man)
    except ValueError as e:
        return bad + ["manifest lists %s twice" % e]
    for cp, d in fl.items():
        c = byname.get(cp)
        if c is None:
            bad.append("manifest file %s is not stored" % cp)
        elif norm(s, T([digest(want.alg, c)])).items[0] != d:
            bad.append("manifest digest of %s is not that of its content" % cp)
        pre = lead(cp).split("/")[:2]
        if len(pre) < 2 or pre[1] != want.cdir or pre[0] not in [want.v(k) for k in range(1, want.n + 1)]:
            bad.append("content path %s is outside the content directories" % cp)
    for d, ps in man.items():
        if not ps:
            bad.append("manifest entry without files")
    for f in fs:
        if len(f) > 2 and f[1] == want.cdir and joined(s, f) not in fl:
            bad.append("file %s is not in the manifest" % name(f))
    if empties:
        bad.append("empty directory %s" % name(empties[0]))
    if fd is not None:
        bad += copies(s, want, path, fd, dd, first)
    if not bad and not want.kw.get("light"):
        bad += validates(p, s, *path)
    return bad


def untouched(s, path, keep, before):
    """Problems if anything below the given entries of the object was changed, or touched on the way."""
    bad = []
    fs, _ = files(s, *path)
    for f, c in before.items():
        if f[0] in keep and fs.get(f) != c:
            bad.append("stored file %s was changed" % name(f) if f in fs else "stored file %s was removed" % name(f))
    for f in fs:
        if f[0] in keep and f not in before:
            bad.append("file %s was added to an existing version" % name(f))
    for op, q in events(s, *path):
        if q and q[0] in keep:
            bad.append("%s of %s" % (op, name(q)))
    return list(dict.fromkeys(bad))


# -- scenarios -------------------------------------------------------------------

def ct(*names):
    return T([chunk(n) for n in names])


def ff(t):
    return F(*t.items)


A, B, C2, C3 = ct("a1", "a2"), ct("b1", "b2"), ct("c2.1", "c2.2"), ct("c3.1", "c3.2")
CN, CM, CH, CE = ct("n1", "n2"), ct("m"), ct("h1", "h2", "h3"), T([])


def before_states(n):
    """Logical states of world.simple(st, n)."""
    out = [{"a.txt": A, "d/b.txt": B}]
    for k in range(2, n + 1):
        s = dict(out[-1])
        s["c.txt"] = (None, None, C2, C3)[k] if k < 4 else ct("c%d.1" % k, "c%d.2" % k)
        if k == 3:
            del s["d/b.txt"]
            s["e.txt"] = A
        out.append(s)
    return out


SRC = {"a.txt": A, "n.txt": CN, "sub/m.txt": CM, "sub/deep/dup.txt": CN, ".hid": CH, "a b%.txt": CM, "empty": CE, "sub/.x/..y": CH}
SRC2 = {"a.txt": CM, "n.txt": CN, "z": A, "é/ñ": B}


def nest(fs):
    d = {}
    for p, c in fs.items():
        e = d
        *pre, last = p.split("/") if isinstance(p, str) else [p]
        for x in pre:
            e = e.setdefault(x, {})
        e[last] = ff(c) if isinstance(c, T) else c
    return d


class Scen:
    """A request on stored objects: tree before, act, what is wanted afterwards."""

    def __init__(self, obj=None, n=2, src=None, okw=None, act=None, want=None, new=None, states=None, tree=None, wkw=None,
                 path=("w", "o"), change=None, cls="ocfl.object.Object", loops=None):
        self.cls, self.loops = cls, loops
        self.obj, self.n, self.src, self.okw, self.act = obj, n, src, okw or {}, act
        self.new, self.states, self.more, self.wkw, self.path = new, states, tree, wkw or {}, path
        self.change = change

    def setup(self, w):
        t = {}
        if self.obj is not None:
            o = simple(w.st, self.n, **self.obj)
            if self.change:
                self.change(o)
            t["o"] = o.tree()
        if self.src is not None:
            t["src"] = self.src(w.st) if callable(self.src) else nest(self.src)
        if self.more:
            x = self.more(w.st) if callable(self.more) else self.more
            t.update(x)
        w.install({"w": t})
        record(w)

    def run(self, p, budget=200):
        w = World(p, Log().stubs(), budget)
        if self.loops:
            w.I.UNROLL = self.loops
        self.setup(w)
        w.before, _ = files(w.st, *self.path)
        w.all_before, _ = files(w.st, "w")
        outs = []
        for o, s in w.new(self.cls, **{k: K(v) if not isinstance(v, (list, V)) else (v if isinstance(v, V) else val(w.st, v)) for k, v in self.okw.items()}):
            if isinstance(o, Raise):
                outs.append((o, s))
                continue
            outs.extend(self.act(w, o, s))
        return w, outs

    def want(self):
        if self.new is None and self.states is None:
            return None
        kw = {}
        if self.obj is not None:
            kw = {k: self.obj[k] for k in ("alg", "spec", "cdir", "width") if k in self.obj}
        if kw.get("cdir", "") is None:
            kw.pop("cdir")
        kw.update(self.wkw)
        st = self.states if self.states is not None else before_states(self.n) + [self.new]
        return Want(st, **kw)


def meta(w, s, **kw):
    """A VersionMetadata object with given settings."""
    for v, s1 in w.new("ocfl.version_metadata.VersionMetadata", st=s, **{k: K(x) for k, x in kw.items()}):
        yield v, s1


META = dict(created="2024-05-06T07:08:09Z", message="msg", name="Someone", address="mailto:s@example.org")
MD = dict(created="2024-05-06T07:08:09Z", message="msg", user={"name": "Someone", "address": "mailto:s@example.org"})


def call(name, *args, md=None, **kw):
    """Act that calls a method of the Object, with metadata md."""
    def act(w, o, s):
        for m, s1 in (meta(w, s, **md) if md is not None else [(None, s)]):
            k = {a: K(x) if not isinstance(x, V) else x for a, x in kw.items()}
            if m is not None:
                k["metadata"] = m
            yield from w.meth(o, name, *[K(a) for a in args], st=s1, **k)
    return act


def update(**kw):
    kw.setdefault("objdir", "/w/o")
    kw.setdefault("srcdir", "/w/src")
    kw.setdefault("md", META)
    return call("add_version_with_content", **kw)


def create(**kw):
    kw.setdefault("objdir", "/w/o")
    kw.setdefault("srcdir", "/w/src")
    kw.setdefault("md", META)
    return call("create", **kw)


def steps(*ops, start=None, md=META, objdir="/w/o", srcdir="/w/src", fail=False):
    """Act: start a version, apply add/delete/rename operations, write it."""
    def act(w, o, s):
        for m, s1 in meta(w, s, **md):
            kw = {"objdir": K(objdir), "srcdir": K(srcdir), "metadata": m}
            if objdir is None:
                kw.pop("objdir")
            kw.update({k: K(x) for k, x in (start or {}).items()})
            for nv, s2 in w.meth(o, "start_new_version", st=s1, **kw):
                if isinstance(nv, Raise):
                    yield nv, s2
                    continue
                yield from run_ops(w, o, nv, ops, s2, fail)
    return act


def run_ops(w, o, nv, ops, s, fail):
    todo = [(0, s)]
    while todo:
        i, s = todo.pop()
        if i == len(ops):
            yield from w.meth(o, "write_new_version", nv, st=s)
            continue
        op = ops[i]
        s.stack = s.stack + (o, nv)
        for v, s1 in w.meth(nv, op[0], *[K(x) if not isinstance(x, V) else x for x in op[1:]], st=s):
            if isinstance(v, Raise):
                s1.mon["$refused"] = s1.mon.get("$refused", ()) + ((i, exc_name(v, s1)),)
                if not fail:
                    yield v, s1
                    continue
            todo.append((i + 1, s1))


def after(name, rule, scen, judge, thorough=False, ok=True):
    """Obligation: on every path the outcome is judged; judge(p, w, scen, v, s) -> problems."""
    def fn(p, ob):
        r = Result()
        w, outs = scen.run(p)
        for v, s in outs:
            r.count("paths")
            r.count("storage effects", len(s.mon.get("$ev", ())))
            if isinstance(v, Raise) and ok and s.taint:
                r.undecided.append(s.taint[0])
                continue
            if isinstance(v, Raise) and ok:
                r.add(name.split(":")[0], "raises %s" % describe(v.v, s))
                continue
            try:
                bad = judge(p, w, scen, v, s)
            except Unclear as e:
                r.undecided.append(str(e))
                continue
            if bad and s.taint:
                r.undecided.append(s.taint[0])
                continue
            for b in bad[:6]:
                r.add(name.split(":")[0], b)
            if not bad and s.taint:
                r.undecided.append(s.taint[0])
        if not outs:
            r.undecided.append("no path")
        return finish(r, w.I)
    return Ob(name, rule, fn, thorough=thorough)


def faulty(name, rule, scen, k, judge, thorough=False):
    """As after, with the k-th writing operation of the storage failing."""
    def fn(p, ob):
        r = Result()
        w = World(p, Log().stubs())
        scen.setup(w)
        w.before, _ = files(w.st, *scen.path)
        w.all_before, _ = files(w.st, "w")

        def fault(I, st, op, el):
            if op == "read":
                return False
            n = st.mon.get("$k", 0)
            st.mon["$k"] = n + 1
            if n == k:
                st.mon["$hit"] = True
                return True
            return False
        w.I.fault = fault
        for o, s in w.new(scen.cls, **{a: K(v) if not isinstance(v, list) else val(w.st, v) for a, v in scen.okw.items()}):
            for v, s2 in ([(o, s)] if isinstance(o, Raise) else scen.act(w, o, s)):
                r.count("paths")
                if not s2.mon.get("$hit"):
                    r.count("paths without the fault")
                    continue
                try:
                    bad = judge(p, w, scen, v, s2)
                except Unclear as e:
                    r.undecided.append(str(e))
                    continue
                if s2.taint:
                    r.undecided.append(s2.taint[0])
                    continue
                for b in bad[:6]:
                    r.add(name.split(":")[0], b)
        return finish(r, w.I)
    return Ob(name, rule, fn, thorough=thorough)
