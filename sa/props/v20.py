"""V20: a version assembled by single operations is exactly what the operations say."""
import itertools
from ..scen import *

EXPLAIN = ("Abstract interpretation of all sequences of up to two (thorough: three) add, delete and rename operations over four sources (new, "
           "the same new content twice, content already stored, empty) and logical paths that are free, taken, below or above another, with deduplication "
           "and forward delta on and off, followed by writing the version. A reference semantics of the operations on a mapping from "
           "logical path to content says which operations are refused and what the state is; the stored object must be valid, have exactly that state, "
           "keep the states of earlier versions, store content once or repeatedly as the settings say, and a refused operation must change nothing.")
ASSUME = ["file systems behave like a local directory tree", "digest functions are treated as collision free"]
FLOOR = 100

SOURCES = {"n.txt": CN, "n2.txt": CN, "old.txt": A, "e": CE, "m/x": CM}
OPS = [("add", "n.txt", "x"), ("add", "n.txt", "y"), ("add", "n2.txt", "y"), ("add", "old.txt", "x"), ("add", "e", "a.txt"),
       ("add", "m/x", "d/z"), ("add", "n2.txt", "z/w", "v3/content/own/path"), ("add", "old.txt", "d/b.txt"),
       ("delete", "x"), ("delete", "a.txt"), ("delete", "d/b.txt"), ("delete", "y"),
       ("rename", "x", "y"), ("rename", "a.txt", "x"), ("rename", "d/b.txt", "a.txt"), ("rename", "y", "z/q"), ("rename", "a.txt", "a.txt"),
       ("rename", "c.txt", "d/c.txt")]
SETTINGS = [(True, True), (True, False), (False, True), (False, False)]

MANY = [(a,) for a in OPS if len(a) < 4] + [(("delete", "c.txt"), ("delete", "a.txt")), (("delete", "c.txt"), ("add", "n.txt", "c.txt")), (("add", "old.txt", "x"), ("delete", "x")),
                                            (("delete", "a.txt"), ("add", "old.txt", "q")), (("delete", "a.txt"), ("delete", "e.txt"), ("add", "old.txt", "q")),
                                            (("rename", "c.txt", "y"), ("delete", "y"), ("add", "n2.txt", "z"))]


def clash(p, paths):
    return any(q.startswith(p + "/") or p.startswith(q + "/") for q in paths)


def reference(state, ops):
    """(final state, refused operation indexes, sources copied logically)"""
    st, no = dict(state), []
    for i, op in enumerate(ops):
        if op[0] == "add":
            if op[2] in st or clash(op[2], st):
                no.append(i)
                continue
            st[op[2]] = SOURCES[op[1]]
        elif op[0] == "delete":
            if op[1] not in st:
                no.append(i)
                continue
            del st[op[1]]
        else:
            rest = [q for q in st if q != op[1]]
            if op[1] not in st or op[2] in st or clash(op[2], rest):
                no.append(i)
                continue
            st[op[2]] = st.pop(op[1])
    return st, no


def judge_for(ops, fd, dd, n=2, width=0):
    before = before_states(n)
    final, no = reference(before[-1], ops)
    head = "v" + str(n + 1).zfill(width)

    def judge(p, w, scen, v, s):
        got = [i for i, _ in s.mon.get("$refused", ())]
        if got != no:
            return ["operation %s is %s" % (" ".join(ops[i]), "refused" if i in got else "not refused") for i in sorted(set(got) ^ set(no))]
        if isinstance(v, Raise):
            return ["writing the version raises %s" % exc_name(v, s)]
        want = Want(before + [final], meta={n + 1: MD}, width=width)
        bad = check_stored(p, s, want, scen.path)
        if not bad:
            fs, _ = files(s, *scen.path)
            stored = [norm(s, c) for f, c in fs.items() if len(f) > 2 and f[0] == head]
            earlier = [norm(s, c) for f, c in fs.items() if len(f) > 2 and f[0] != head]
            for c in stored:
                if dd and stored.count(c) > 1:
                    bad.append("content stored twice in the version in spite of deduplication")
                if fd and c in earlier and dd:
                    bad.append("content of an earlier version stored again")
            new = [c for c in {T(x.items) for x in final.values()} if norm(s, c) not in earlier]
            for c in new:
                if norm(s, c) not in stored:
                    bad.append("new content is not stored in the new version")
        return bad
    return judge


def obligations(p):
    obs = []
    for n in (1, 2, 3):
        for i, ops in enumerate(itertools.product(OPS, repeat=n)):
            if n == 3 and i % 7:
                continue
            for j, (fd, dd) in enumerate(SETTINGS):
                if n >= 2 and (i + j) % 4 and not any(a[0] == "add" for a in ops[:1]):
                    continue
                sc = Scen(obj={}, src=SOURCES, okw={"forward_delta": fd, "dedupe": dd}, act=steps(*ops, fail=True))
                obs.append(after("%s%s%s" % ("; ".join(" ".join(a) for a in ops), "" if fd else ", no forward delta", "" if dd else ", no deduplication"),
                                 "the version is what the operations say", sc, judge_for(ops, fd, dd), ok=False, thorough=n == 3))
    for n, width in ((1, 0), (9, 0), (10, 0), (9, 3), (2, 2)):
        for i, ops in enumerate(MANY):
            fd, dd = SETTINGS[i % 4]
            sc = Scen(obj={"width": width}, n=n, src=SOURCES, okw={"forward_delta": fd, "dedupe": dd}, act=steps(*ops, fail=True))
            obs.append(after("%d versions%s: %s%s%s" % (n, ", padded" if width else "", "; ".join(" ".join(a) for a in ops), "" if fd else ", no forward delta", "" if dd else ", no deduplication"),
                             "the version is what the operations say", sc, judge_for(ops, fd, dd, n, width), ok=False))
    return obs
