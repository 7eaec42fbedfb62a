"""Hash-consed value terms: the abstract values of the value-dependence analysis."""
from __future__ import annotations

_TABLE: dict = {}


class T:
    __slots__ = ("op", "a", "n", "_size")

    def __init__(self, op, a, n):
        self.op, self.a, self.n, self._size = op, a, n, None

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n

    def __deepcopy__(self, memo):
        return self

    @property
    def size(self):
        if self._size is None:
            self._size = 1 + sum(c.size for c in children(self))
        return self._size


def mk(op, *a) -> T:
    if op == "set" and a[0] and all(x.op == "const" and type(x.a[1]) is int for x in a[0]):
        # the order in which CPython iterates a set of integers does not depend on the run
        a = (tuple(const(v) for v in {x.a[1] for x in a[0]}),)
    key = (op,) + a
    t = _TABLE.get(key)
    if t is None:
        t = T(op, a, len(_TABLE))
        _TABLE[key] = t
    return t


def const(v) -> T:
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
FALL = mk("fall")
TOP = mk("top")


def children(t: T):
    for x in t.a:
        yield from _ch(x)


def _ch(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _ch(y)


def walk(t: T, seen=None):
    """All distinct subterms (DAG walk)."""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def contains(t: T, sub: T) -> bool:
    return any(x is sub for x in walk(t))


def contains_any(t: T, subs) -> bool:
    return any(x in subs for x in walk(t))


def has_op(t: T, op: str) -> bool:
    return any(x.op == op for x in walk(t))


def rebuild(t: T, f):
    """Bottom-up rebuild with memo; f(term)->term applied after children."""
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x in memo:
                return memo[x]
            na = tuple(go(y) for y in x.a)
            r = f(mk(x.op, *na) if na != x.a else x)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(t)


def subst(t: T, m: dict) -> T:
    return rebuild(t, lambda x: m.get(x, x))


def subst_top(t: T, m: dict) -> T:
    """Substitution that replaces largest matching terms first."""
    memo = {}

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            if x in memo:
                return memo[x]
            na = tuple(go(y) for y in x.a)
            r = mk(x.op, *na) if na != x.a else x
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return go(t)


def is_const(t: T) -> bool:
    return t.op == "const"


def cval(t: T):
    return t.a[1]


def ite(c: T, a: T, b: T) -> T:
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.a[0], b, a)
    # nested same condition
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return mk("ite", c, a, b)


def not_(c: T) -> T:
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "and":
        return or_([not_(x) for x in c.a])
    if c.op == "or":
        return and_([not_(x) for x in c.a])
    return mk("not", c)


def and_(xs) -> T:
    out = []
    for x in xs:
        if x.op == "and":
            ys = x.a
        else:
            ys = (x,)
        for y in ys:
            if y is FALSE:
                return FALSE
            if y is TRUE or y in out:
                continue
            if not_(y) in out:
                return FALSE
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out))


def or_(xs) -> T:
    out = []
    for x in xs:
        ys = x.a if x.op == "or" else (x,)
        for y in ys:
            if y is TRUE:
                return TRUE
            if y is FALSE or y in out:
                continue
            if y.op in ("not",) and y.a[0] in out:
                return TRUE
            if mk("not", y) in out:
                return TRUE
            out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out))


def leaves(t: T, guards=()):
    """Leaves of an ite tree with the (cond, polarity) path leading to each."""
    if t.op == "ite":
        yield from leaves(t.a[1], guards + ((t.a[0], True),))
        yield from leaves(t.a[2], guards + ((t.a[0], False),))
    else:
        yield t, guards


def n_leaves(t: T, lim=64) -> int:
    if t.op != "ite":
        return 1
    a = n_leaves(t.a[1], lim)
    if a >= lim:
        return a
    return a + n_leaves(t.a[2], lim)


def map_leaves(t: T, f) -> T:
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = ite(x.a[0], go(x.a[1]), go(x.a[2])) if x.op == "ite" else f(x)
        memo[x] = r
        return r

    return go(t)


def show(t, depth=8) -> str:
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o, a = t.op, t.a
    if o == "const":
        return repr(a[1])
    if o == "param":
        return f"${a[0]}"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o in ("fn", "cls"):
        return a[0].split(".")[-1] if o == "cls" else a[0].replace("qadence.", "")
    if o == "ext":
        return a[0]
    if o == "enum":
        return f"{a[0].split('.')[-1]}.{a[1]}"
    if o in ("call", "new"):
        h = show(a[0], d) if isinstance(a[0], T) else a[0].split(".")[-1]
        return f"{h}(" + ", ".join(
            (f"{k}=" if isinstance(k, str) else "") + show(v, d) for k, v in a[1]
        ) + ")"
    if o == "bin":
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if o == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if o == "map":
        s = f"[{show(a[1], d)} for {show(a[2], d)}"
        return s + (f" if {show(a[3], d)}]" if a[3] is not TRUE else "]")
    if o == "elem":
        return f"∈{show(a[0], d)}"
    if o in ("list", "tuple", "set"):
        return f"{o[0]}[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if o == "dict":
        return "{" + ", ".join(f"{show(k, d)}: {show(v, d)}" for k, v in a[0]) + "}"
    if o == "clo":
        return f"<closure {a[0]}>"
    return f"{o}(" + ", ".join(show(x, d) for x in a) + ")"
