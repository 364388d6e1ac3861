"""Live variables at loop heads (backward dataflow over the syntax tree)."""
import ast

_EMPTY = frozenset()


def uses(*nodes):
    out = set()
    for n in nodes:
        if n is None:
            continue
        for w in ast.walk(n):
            if isinstance(w, ast.Name) and not isinstance(w.ctx, ast.Store):
                out.add(w.id)
    return frozenset(out)


def _names(t):
    return frozenset(w.id for w in ast.walk(t) if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store))


def _simple(t):
    """Names surely bound by assigning to the target."""
    return _names(t)


class Live:
    """Liveness of one function; head maps loop nodes to live names."""

    def __init__(self, fn):
        self.head = {}
        pinned = set()
        for w in ast.walk(fn):
            if w is not fn and isinstance(w, (ast.FunctionDef, ast.Lambda)):
                pinned |= uses(*(w.body if isinstance(w.body, list) else [w.body]))
        self.pinned = frozenset(pinned)
        self.block(fn.body, _EMPTY, _EMPTY, _EMPTY, _EMPTY, _EMPTY)
        for k in self.head:
            self.head[k] = self.head[k] | self.pinned

    def block(self, stmts, out, brk, cont, exc, fin):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont, exc, fin)
        return out

    def stmt(self, s, out, brk, cont, exc, fin):
        if isinstance(s, ast.Assign):
            kill = frozenset().union(*[_simple(t) for t in s.targets])
            return (out - kill) | uses(s.value, *s.targets) | exc
        if isinstance(s, ast.AnnAssign):
            return ((out - _simple(s.target)) if s.value is not None else out) | uses(s.value, s.target) | exc
        if isinstance(s, ast.AugAssign):
            return out | uses(s.value, s.target) | _names(s.target) | exc
        if isinstance(s, ast.If):
            return uses(s.test) | self.block(s.body, out, brk, cont, exc, fin) \
                | self.block(s.orelse, out, brk, cont, exc, fin) | exc
        if isinstance(s, ast.While):
            after = self.block(s.orelse, out, brk, cont, exc, fin)
            head = after | uses(s.test) | exc
            while True:
                new = head | self.block(s.body, head, out, head, exc, fin)
                if new == head:
                    break
                head = new
            self.head[s] = self.head.get(s, _EMPTY) | head
            return head
        if isinstance(s, ast.For):
            after = self.block(s.orelse, out, brk, cont, exc, fin)
            kill = _simple(s.target)
            head = after | exc | uses(s.target)
            while True:
                new = head | (self.block(s.body, head, out, head, exc, fin) - kill)
                if new == head:
                    break
                head = new
            self.head[s] = self.head.get(s, _EMPTY) | head
            return head | uses(s.iter)
        if isinstance(s, ast.Try):
            fu = uses(*s.finalbody) if s.finalbody else _EMPTY
            out2 = self.block(s.finalbody, out, brk, cont, exc, fin) | fu
            brk, cont, exc2, fin = brk | fu, cont | fu, exc | fu, fin | fu
            h = exc2
            for x in s.handlers:
                b = self.block(x.body, out2, brk, cont, exc2, fin)
                h = h | uses(x.type) | (b - ({x.name} if x.name else _EMPTY))
            after = self.block(s.orelse, out2, brk, cont, exc2, fin)
            return self.block(s.body, after, brk, cont, h, fin) | h
        if isinstance(s, ast.With):
            b = self.block(s.body, out, brk, cont, exc, fin)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    b = b - _simple(it.optional_vars)
                b = b | uses(it.context_expr, it.optional_vars)
            return b | exc
        if isinstance(s, ast.Return):
            return uses(s.value) | fin | exc
        if isinstance(s, ast.Raise):
            return uses(s.exc, s.cause) | exc | fin
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (out - {s.name}) | uses(s) | exc
        return out | uses(s) | exc
