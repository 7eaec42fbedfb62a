"""Client programs: small source fragments using the analysed package, evaluated by the abstract interpreter."""
from __future__ import annotations

from .absint import AbsRaise
from .model import Module
from .util import *


PARAM = "qadence.parameters.Parameter"


def arith(t):
    """arithmetic on parameters and numbers: no block, no parameter map"""
    if t.op == "bin":
        return arith(t.a[1]) and arith(t.a[2])
    if t.op == "un":
        return arith(t.a[1])
    if t.op == "ite":
        return arith(t.a[1]) and arith(t.a[2])
    if t.op == "call":
        return (t.a[0].op == "ext" and t.a[0].a[0].split(".")[0] in ("sympy", "builtins", "abs", "sum", "numpy", "math")) and all(arith(x) for x in args_of(t).values())
    return is_const(t) or t.op == "new" and t.a[0] == PARAM or t.op in ("list", "tuple") and all(arith(x) for x in t.a[0])


def symbolic(t):
    if t.op in ("bin", "un"):
        return any(symbolic(x) for x in t.a[1:])
    if t.op == "call":
        return t.a[0].op == "ext" and t.a[0].a[0].startswith("sympy.") or callee_name(t) in ("abs", "sum") and any(symbolic(x) for x in args_of(t).values())
    return t.op == "new" and t.a[0] == PARAM or t.op in ("list", "tuple") and any(symbolic(x) for x in t.a[0])


def free_names(t):
    """names of the parameters of an arithmetic term (None for an unknown one)"""
    if t.op == "new" and t.a[0] == PARAM:
        v = [x for k, x in t.a[1] if k != "#"]
        if not v or not is_const(v[0]):
            yield None
        elif isinstance(cval(v[0]), str):
            yield cval(v[0])
    elif t.op in ("bin", "un"):
        for x in t.a[1:]:
            yield from free_names(x)
    elif t.op == "ite":
        yield None
    elif t.op == "call":
        for x in args_of(t).values():
            yield from free_names(x)
    elif t.op in ("list", "tuple"):
        for x in t.a[0]:
            yield from free_names(x)


def numeric_oracle(c, st=None):
    """isinstance(<arithmetic>, <block class>) is False; Parameter.is_number of a constant"""
    if c.op == "eq" and {x.op for x in c.a} == {"typeof", "ext"}:
        # type(<literal>) == <class>
        x, k = (c.a[0].a[0], c.a[1].a[0]) if c.a[0].op == "typeof" else (c.a[1].a[0], c.a[0].a[0])
        if is_const(x):
            return type(cval(x)).__name__ == k.removeprefix("builtins.") if k.startswith("builtins.") else False
        if x.op == "new":
            return False
    if c.op == "hasattr" and c.a[1] in ("is_time", "trainable", "value") and c.a[0].op == "new" and c.a[0].a[0] == PARAM:
        v = [x for k, x in c.a[0].a[1] if k != "#"]
        return isinstance(cval(v[0]), str) if v and is_const(v[0]) else None
    if c.op == "isinst" and {x.a[0].split(".")[-1] for x in c.a[1] if x.op in ("ext", "cls")} == {"Generator"}:
        return c.a[0].op in ("list", "map", "flat")
    if c.op == "isinst" and {x.a[0].split(".")[-1] for x in c.a[1] if x.op in ("ext", "cls")} == {"Iterable"} and (is_const(c.a[0]) or c.a[0].op in ("list", "tuple", "dict", "set")):
        return not is_const(c.a[0]) or isinstance(cval(c.a[0]), str)
    if c.op == "isinst" and c.a[0].op in ("bin", "un", "call", "ite", "new") and arith(c.a[0]) and all(x.op == "cls" and (x.a[0].startswith("qadence.blocks") or x.a[0] == "qadence.parameters.ParamMap") for x in c.a[1]):
        return False
    if c.op == "isinst" and c.a[0].op in ("bin", "un", "call", "new") and arith(c.a[0]) and all(x.op == "ext" and x.a[0] in ("sympy.Basic", "sympy.Expr", "sympy.core.basic.Basic") for x in c.a[1]):
        return True if symbolic(c.a[0]) else None
    if c.op == "isinst" and c.a[0].op == "new" and c.a[0].a[0] == PARAM and all(x.op == "cls" and x.a[0] == PARAM for x in c.a[1]):
        # Parameter(<number>) is a sympy number
        v = [x for k, x in c.a[0].a[1] if k != "#"]
        return False if v and is_const(v[0]) and isinstance(cval(v[0]), (int, float, complex)) else None
    if c.op == "isinst" and c.a[0].op in ("bin", "un") and all(x.op == "cls" and x.a[0] == PARAM for x in c.a[1]):
        # a product or sum is no Parameter, unless it is with a neutral element
        neutral = any(is_const(x) and (cval(x) == 0 or type(cval(x)) is int and cval(x) == 1) for x in c.a[0].a[1:])
        return False if arith(c.a[0]) and (c.a[0].op == "un" or not neutral) else None
    if c.op == "truthy" and c.a[0].op == "attr" and c.a[0].a[1] == "is_number" and c.a[0].a[0].op in ("bin", "un", "call", "ite") and arith(c.a[0].a[0]):
        ns = list(free_names(c.a[0].a[0]))
        return True if not ns else False if all(n is not None for n in ns) else None
    if c.op == "truthy" and c.a[0].op == "attr" and c.a[0].a[1] in ("is_number", "is_symbol") and c.a[0].a[0].op == "new" and c.a[0].a[0].a[0] == PARAM:
        v = [x for k, x in c.a[0].a[0].a[1] if k != "#"]
        if v and is_const(v[0]):
            return isinstance(cval(v[0]), (int, float, complex)) == (c.a[0].a[1] == "is_number")
    return None


class Probe:
    """a synthetic client module of the analysed program; its functions are evaluated abstractly with opaque arguments"""

    def __init__(self, ctx, src, name="qadence._client", world=None, **policy):
        self.ctx, self.prog = ctx, ctx.prog
        self.mod = self.prog.modules[name] = Module(self.prog, name, name, "client program", src)
        policy.setdefault("rec", 12)
        policy.setdefault("obj", True)
        policy.setdefault("depth", 60)
        policy.setdefault("strict", True)
        policy.setdefault("unroll", 40)
        self.I = world.I if world is not None else ctx.interp(**policy)
        self.world = world
        self.I.value_classes.add(PARAM)
        self.I.models.setdefault("uuid.uuid4", lambda a, k, st: const(f"uuid-{self._fresh()}"))
        self.I.models.setdefault(".equals", self._equals)
        self.I.models.setdefault(PARAM, self._param)
        self.heap, self.facts, self.maybe = {}, [], False

    def _fresh(self):
        self._n = getattr(self, "_n", 0) + 1
        return self._n

    def _param(self, a, k, st):
        """Parameter(p) of a parameter is that parameter"""
        if len(a) == 1 and not k and (a[0].op == "new" and a[0].a[0] == PARAM or a[0].op == "atom"):
            return a[0]
        return None

    def _equals(self, a, k, st):
        if len(a) == 2 and all(x.op in ("new", "atom", "const") for x in a):
            if a[0] is a[1]:
                return TRUE
            if {x.op for x in a} == {"atom"}:
                return FALSE
            if all(x.op == "new" and x.a[0] == PARAM for x in a):
                va, vb = ([x for k, x in y.a[1] if k != "#"] for y in a)
                return TRUE if va == vb else FALSE if all(is_const(x) for x in va + vb) else None
        return None

    def rejects(self, ret):
        """does the last program evaluated raise: True, False, or None if that depends on something undecided"""
        rs = [is_raise(l) for l, _ in ret]
        return True if rs and all(rs) else None if any(rs) or self.maybe else False

    def run(self, fname, bindings=None, heap=None, facts=None):
        f = next(x for x in self.mod.functions if x.name == fname)
        h = dict(self.world.heap) if self.world is not None else {}
        h.update(self.heap)
        h.update(heap or {})
        fs = list(self.world.facts) if self.world is not None else []
        n = len(self.I.events)
        ret, st = self.I.run(f, bindings=bindings or {}, heap=h, facts=fs + self.facts + list(facts or []))
        self.maybe = any(e.kind == "raise" for e in self.I.events[n:])
        return [(l, g) for l, g in leaves(ret)], st

    def expr(self, text, bindings=None, **kw):
        """evaluate an expression over the module's names; free names listed in `bindings`"""
        self.I.steps = 0
        src = f"def _e({', '.join(bindings or {})}):\n    return {text}"
        node = ast.parse(src).body[0]
        # distinct positions: closures of one client expression are not those of another
        self._line = getattr(self, "_line", 100_000) + 10
        ast.increment_lineno(node, self._line)
        f = Func(self.mod.name + "._e", "_e", node, self.mod, None)
        h = dict(self.world.heap) if self.world is not None else {}
        h.update(self.heap)
        fs = list(self.world.facts) if self.world is not None else []
        n = len(self.I.events)
        ret, st = self.I.run(f, bindings=bindings or {}, heap=h, facts=fs + self.facts)
        # a raise on a path that could not be decided
        self.maybe = any(e.kind == "raise" for e in self.I.events[n:])
        return [(l, g) for l, g in leaves(ret)], st


def value(t):
    """python value of a fully constant term; raises ValueError otherwise"""
    if is_const(t):
        return cval(t)
    if t.op in ("tuple", "list"):
        if any(x.op == "star" for x in t.a[0]):
            raise ValueError(show(t, 3))
        v = [value(x) for x in t.a[0]]
        return tuple(v) if t.op == "tuple" else v
    if t.op == "set":
        return {value(x) for x in t.a[0]}
    if t.op == "dict":
        return {value(k): value(v) for k, v in t.a[0]}
    if t.op == "enum":
        return f"{t.a[0].split('.')[-1]}.{t.a[1]}"
    raise ValueError(show(t, 4))
