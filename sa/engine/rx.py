"""Python regular expressions as regular languages (match/search/fullmatch)."""
import re
from functools import lru_cache
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

from . import dfa as D


class Unsupported(Exception):
    """The pattern uses a feature outside the regular fragment handled here."""


DIGITS = D.mask_range(48, 57)
SPACE_ASCII = D.mask_of(" \t\n\r\f\v\x1c\x1d\x1e\x1f")
WORD_ASCII = DIGITS | D.mask_range(65, 90) | D.mask_range(97, 122) | D.mask_of("_")


def _category(cat, ascii_only):
    d = DIGITS | (0 if ascii_only else 1 << D.S_DIGIT)
    s = SPACE_ASCII | (0 if ascii_only else 1 << D.S_SPACE)
    if ascii_only:
        s &= ~D.mask_of("\x1c\x1d\x1e\x1f")
    w = WORD_ASCII | (0 if ascii_only else (1 << D.S_WORD) | (1 << D.S_DIGIT))
    table = {sc.CATEGORY_DIGIT: d, sc.CATEGORY_NOT_DIGIT: D.FULL & ~d,
             sc.CATEGORY_SPACE: s, sc.CATEGORY_NOT_SPACE: D.FULL & ~s,
             sc.CATEGORY_WORD: w, sc.CATEGORY_NOT_WORD: D.FULL & ~w}
    if cat not in table:
        raise Unsupported(str(cat))
    return table[cat]


def _fold(mask):
    out = mask
    for o in range(65, 91):
        if mask >> o & 1 or mask >> (o + 32) & 1:
            out |= (1 << o) | (1 << (o + 32))
    return out


def _lit_mask(o):
    return 1 << D.sym_of(chr(o))


class Seq:
    """One alternative of a pattern: leaves with group spans and anchors."""

    def __init__(self, leaves, groups, start, end, greedy=0):
        self.leaves = leaves      # list of DFA
        self.groups = groups      # group index -> (first leaf, last leaf + 1) | ('loose', DFA, optional)
        self.start = start        # anchored at start
        self.end = end            # None | "$" | "Z"
        self.greedy = greedy      # symbols the last leaf swallows greedily


def _charset_mask(items, flags):
    neg = False
    mask = 0
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            mask |= _lit_mask(av)
        elif op is sc.RANGE:
            mask |= D.mask_range(av[0], av[1])
        elif op is sc.CATEGORY:
            mask |= _category(av, bool(flags & re.ASCII))
        else:
            raise Unsupported("set item %s" % op)
    if flags & re.IGNORECASE:
        mask = _fold(mask)
    return D.FULL & ~mask if neg else mask


def _lang(tree, flags, groups):
    """Language of a subtree without anchors; collects loose groups."""
    parts = []
    for op, av in tree:
        parts.append(_item(op, av, flags, groups))
    return D.concat_all(parts)


def _item(op, av, flags, groups):
    if op is sc.LITERAL:
        m = _lit_mask(av)
        return D.charset(_fold(m) if flags & re.IGNORECASE else m)
    if op is sc.NOT_LITERAL:
        m = _lit_mask(av)
        return D.charset(D.FULL & ~(_fold(m) if flags & re.IGNORECASE else m))
    if op is sc.ANY:
        return D.charset(D.FULL if flags & re.DOTALL else D.FULL & ~D.mask_of("\n"))
    if op is sc.IN:
        return D.charset(_charset_mask(av, flags))
    if op is sc.BRANCH:
        r = D.EMPTY
        for alt in av[1]:
            r = D.union(r, _lang(alt, flags, groups))
        return r
    if op is sc.SUBPATTERN:
        gid, add, rem, sub = av
        L = _lang(sub, (flags | add) & ~rem, groups)
        if gid is not None:
            old = groups.get(gid)
            groups[gid] = ("loose", L if old is None else D.union(old[1], L))
        return L
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        L = _lang(sub, flags, groups)
        hi = None if hi is sc.MAXREPEAT else hi
        if lo == 0 and hi is None:
            return D.star(L)
        return D.repeat(L, lo, hi)
    raise Unsupported("regex construct %s" % op)


def _has_anchor(tree):
    for op, av in tree:
        if op is sc.AT:
            return True
        if op is sc.SUBPATTERN and _has_anchor(av[3]):
            return True
        if op is sc.BRANCH and any(_has_anchor(a) for a in av[1]):
            return True
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and _has_anchor(av[2]):
            return True
    return False


def _expand(tree, flags):
    """Alternatives of a sequence: list of lists of tokens.

    Tokens: ('leaf', dfa, loosegroups) | ('open', g) | ('close', g) | ('at', kind)
    """
    alts = [[]]
    for op, av in tree:
        if op is sc.AT:
            kind = {sc.AT_BEGINNING: "^", sc.AT_BEGINNING_STRING: "^",
                    sc.AT_END: "$", sc.AT_END_STRING: "Z"}.get(av)
            if kind is None or flags & re.MULTILINE:
                raise Unsupported("anchor %s" % av)
            alts = [a + [("at", kind)] for a in alts]
        elif op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            subs = _expand(sub, (flags | add) & ~rem)
            if gid is not None:
                subs = [[("open", gid)] + s + [("close", gid)] for s in subs]
            alts = [a + s for a in alts for s in subs]
        elif op is sc.BRANCH:
            has_groups = str(av).find("SUBPATTERN") >= 0
            if has_groups or any(_has_anchor(x) for x in av[1]):
                alts = [a + s for a in alts for x in av[1] for s in _expand(x, flags)]
            else:
                g = {}
                L = _item(op, av, flags, g)
                alts = [a + [("leaf", L, g)] for a in alts]
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] == 0 and av[1] == 1 \
                and (_has_anchor(av[2]) or "SUBPATTERN" in str(av[2])):
            subs = _expand(av[2], flags)
            alts = [a + s for a in alts for s in (subs + [[]])]
        else:
            g = {}
            L = _item(op, av, flags, g)
            greedy = 0
            if op is sc.MAX_REPEAT and av[1] is sc.MAXREPEAT and len(av[2]) == 1 \
                    and av[2][0][0] in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                greedy = _item(av[2][0][0], av[2][0][1], flags, {}).symbols()
            alts = [a + [("leaf", L, g, greedy)] for a in alts]
        if len(alts) > 64:
            raise Unsupported("too many alternatives")
    return alts


class Rx:
    """A compiled pattern."""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        try:
            tree = sp.parse(pattern, flags)
        except re.error as e:
            raise Unsupported("bad regex: %s" % e)
        flags = tree.state.flags | flags
        self.ngroups = tree.state.groups - 1
        self.alts = []
        for toks in _expand(tree, flags):
            leaves, groups, opens = [], {}, {}
            start, end = False, None
            greedy = 0
            dead = False
            for t in toks:
                if t[0] == "at":
                    if t[1] == "^":
                        if leaves and not all(L is D.EPS for L in leaves):
                            if all(not L.accepts("") for L in leaves):
                                dead = True
                            else:
                                raise Unsupported("^ inside pattern")
                        start = True
                    else:
                        end = t[1]
                else:
                    if end is not None and t[0] == "leaf":
                        raise Unsupported("$ inside pattern")
                    if t[0] == "open":
                        opens[t[1]] = len(leaves)
                    elif t[0] == "close":
                        groups[t[1]] = (opens[t[1]], len(leaves))
                    else:
                        for g, v in t[2].items():
                            groups[g] = v
                        leaves.append(t[1])
                        greedy = t[3] if len(t) > 3 else 0
            if not dead:
                # merge adjacent leaves when no group boundary intervenes
                cuts = sorted({0, len(leaves)} | {x for v in groups.values() if v[0] != "loose" for x in v})
                new, at = [], {}
                for a, b in zip(cuts, cuts[1:]):
                    at[a] = len(new)
                    new.append(D.concat_all(leaves[a:b]))
                at[cuts[-1]] = len(new)
                groups = {g: v if v[0] == "loose" else (at[v[0]], at[v[1]]) for g, v in groups.items()}
                self.alts.append(Seq(new, groups, start, end, greedy if leaves else 0))

    def _tail(self, alt, mode):
        if mode == "full":
            return D.EPS
        if alt.end == "$":
            return D.union(D.EPS, D.const("\n"))
        if alt.end == "Z":
            return D.EPS
        if alt.greedy:
            # a greedy final repeat stops only at the end or at a symbol outside its set
            return D.union(D.EPS, D.concat(D.charset(D.FULL & ~alt.greedy), D.ALL))
        return D.ALL

    def alt_parts(self, alt, mode):
        """(head, leaves, tail) languages whose concatenation is the match language."""
        head = D.ALL if (mode == "search" and not alt.start) else D.EPS
        tail = self._tail(alt, mode)
        return head, alt.leaves, tail

    def lang(self, mode):
        memo = self.__dict__.setdefault("_lang", {})
        if mode not in memo:
            r = D.EMPTY
            for alt in self.alts:
                h, ls, t = self.alt_parts(alt, mode)
                r = D.union(r, D.concat_all([h] + list(ls) + [t]))
            memo[mode] = r
        return memo[mode]


@lru_cache(maxsize=None)
def compile(pattern, flags=0):
    return Rx(pattern, flags)


@lru_cache(maxsize=None)
def lang(pattern, flags=0):
    """Full-match language of a pattern; the notation scenarios use for inputs."""
    return compile(pattern, flags | re.DOTALL).lang("full")
