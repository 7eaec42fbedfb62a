"""Gated value-dependence analysis (abstract interpretation over hash-consed terms).

Every function is evaluated over *symbolic* inputs into a term that records what the result (and every
call, attribute write and raise on the way) depends on and under which guards.  Helpers are inlined,
loops become maps/folds over a generic element, branches become `ite` joins, so that two spellings of the
same data flow normalise to the same term.  Nothing of the analysed program is imported or executed, and no
path condition is handed to a solver.
"""
from __future__ import annotations

import ast
import math
from dataclasses import dataclass, field

from .model import Class, Func, Module, Program, _types
from .terms import (
    FALL, FALSE, NONE, TOP, TRUE, T, and_, children, const, contains, cval, has_op, is_const, ite, leaves,
    map_leaves, mk, n_leaves, not_, or_, subst, subst_top, walk,
)


class Budget(Exception):
    pass


class AbsRaise(Exception):
    """the evaluated program definitely raises here (only signalled under a policy with `rec`)"""

    def __init__(self, term, heap=None):
        self.term = term
        self.heap = heap


@dataclass
class Event:
    kind: str  # call | raise | setattr | setitem | mutcall | return | with | expr | aug | del
    term: T
    data: tuple
    guards: tuple
    stack: tuple  # quals, outermost first
    node: ast.AST
    module: Module

    @property
    def loc(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    @property
    def func(self):
        return self.stack[-1] if self.stack else ""


class State:
    __slots__ = ("env", "heap", "facts", "guards")

    def __init__(self, env=None, heap=None, facts=None, guards=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.guards = guards

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.guards)

    def assume(self, c: T, v: bool):
        if c is TRUE or c is FALSE:
            return self
        if not v and c.op == "not":
            return self.assume(c.a[0], True)
        if v and c.op == "not":
            return self.assume(c.a[0], False)
        self.guards = self.guards + ((c, v),)
        add_fact(self.facts, c, v)
        return self


def add_fact(facts, c, v):
    if c.op == "not":
        return add_fact(facts, c.a[0], not v)
    facts[c] = v
    if c.op == "and" and v:
        for x in c.a:
            add_fact(facts, x, True)
    elif c.op == "or" and not v:
        for x in c.a:
            add_fact(facts, x, False)
    elif c.op == "truthy" and v:
        facts[mk("isnone", c.a[0])] = False
    elif c.op == "isnone" and v:
        facts[mk("truthy", c.a[0])] = False
    elif c.op == "eq" and v:
        a, b = c.a
        if b.op in ("const", "enum"):
            facts[("=", a)] = b
        elif a.op in ("const", "enum"):
            facts[("=", b)] = a


@dataclass
class Out:
    st: State | None
    ret: T | None = None
    conts: list = field(default_factory=list)
    brks: list = field(default_factory=list)


class Policy:
    """What to inline.  `opaque` quals stay as calls (anchors)."""

    def __init__(self, opaque=(), depth=8, inline=True, only=None, ctor_fields=True, max_loops=8, rec=0, obj=False, strict=False, unroll=10):
        self.unroll = unroll
        self.strict = strict  # client programs: calls outside the program do not raise; missing keys, indices and arguments do
        self.obj = obj  # object semantics: constructors run when called, operators and == dispatch to the class
        self.rec = rec  # how often a function may reappear on the call stack
        self.opaque = set(opaque)
        self.depth = depth
        self.inline_on = inline
        self.only = only
        self.ctor_fields = ctor_fields

    def inline(self, f: Func, stack) -> bool:
        if not self.inline_on or f.is_abstract:
            return False
        if f.is_generator and (not self.rec or f.eager is None):
            return False
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if len(stack) > self.depth or stack.count(f.qual) > self.rec:
            return False
        if self.only is not None and not self.only(f):
            return False
        return True


BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>",
}
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "popitem", "add",
    "discard", "sort", "reverse", "__setitem__", "appendleft",
}
NOT_PLAIN = {"builtins", "numpy", "torch", "sympy", "jax", "networkx", "pyqtorch", "pulser", "horqrux"}  # no plain Python constant is an instance of their classes
UNROLL = 10
BUILTIN_NAMES = set(dir(__import__("builtins")))
NUMFUN = {"numpy.floor": lambda x: float(math.floor(x)), "numpy.ceil": lambda x: float(math.ceil(x)), "math.floor": math.floor, "math.ceil": math.ceil,
          **{f"{m}.{f}": getattr(math, f) for m in ("math", "numpy") for f in ("sqrt", "sin", "cos", "tan", "exp", "log", "log2", "log10")}}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "@": "matmul", "**": "pow", "//": "floordiv", "^": "xor", "|": "or", "&": "and"}
BOOL_OPS = {"isnone", "eq", "lt", "le", "in", "isinst", "truthy", "and", "or", "not", "hasattr", "exc",
            "exists", "issub", "callable"}


class Interp:
    def __init__(self, prog: Program, policy: Policy | None = None, oracle=None, max_steps=400_000):
        self.p = prog
        self.policy = policy or Policy()
        self.events: list[Event] = []
        self.stack: tuple = ()
        self.oracle = oracle
        self.types: dict[T, tuple] = {}  # term -> (ast annotation, Module)
        self.exact: dict[T, Class] = {}  # term -> exact class
        self.steps = 0
        self.max_steps = max_steps
        self._const_memo: dict = {}
        self._fields_memo: dict = {}
        self._fields_busy: set = set()
        self._clo: dict = {}
        self._n = 0
        self.dispatch = prog.dispatch()
        self.quiet = 0
        self.visited: set = set()
        self.method_types: dict = {}
        self.isinst_hook = None  # f(value, type terms) -> T | None
        self.attr_hook = None  # f(object, attribute name, state) -> T | None: computed attributes supplied by a check
        self.value_classes: set = set()  # classes whose instances are equal exactly if built from equal arguments
        self.ident: set = set()  # objects compared by identity (opaque operands)
        self.models: dict = {}  # callee name -> f(args, kw, st) -> T | None (stands in for a call)

    # ------------------------------------------------------------------ utils
    def ev(self, kind, term, data, st, node, module):
        if not self.quiet:
            self.events.append(Event(kind, term, data, st.guards, self.stack, node, module))

    def fresh(self, tag="u"):
        self._n += 1
        return mk("unk", tag, self._n)

    # ------------------------------------------------------------------ deciding conditions
    def decide(self, c: T, st: State):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        f = st.facts
        if c in f:
            return f[c]
        if c.op == "not":
            d = self.decide(c.a[0], st)
            return None if d is None else not d
        if c.op == "and":
            ds = [self.decide(x, st) for x in c.a]
            if any(d is False for d in ds):
                return False
            return True if all(d is True for d in ds) else None
        if c.op == "or":
            ds = [self.decide(x, st) for x in c.a]
            if any(d is True for d in ds):
                return True
            return False if all(d is False for d in ds) else None
        if c.op == "ite":
            d = self.decide(c.a[0], st)
            if d is not None:
                return self.decide(c.a[1] if d else c.a[2], st)
            a, b = self.decide(c.a[1], st), self.decide(c.a[2], st)
            return a if a == b else None
        if c.op == "eq":
            a, b = c.a
            a = f.get(("=", a), a)
            b = f.get(("=", b), b)
            r = self.cmp_eq(a, b)
            if r is TRUE:
                return True
            if r is FALSE:
                return False
        if c.op == "truthy":
            x = f.get(("=", c.a[0]))
            if x is not None:
                t = self.truth(x)
                if is_const(t):
                    return bool(cval(t))
        if c.op == "in":
            x = f.get(("=", c.a[0]))
            if x is not None:
                r = self.cmp_in(x, c.a[1])
                if is_const(r):
                    return bool(cval(r))
        if c.op == "isnone":
            x = f.get(("=", c.a[0]))
            if x is not None:
                return x is NONE
            if f.get(mk("truthy", c.a[0])):
                return False
            for k, v in f.items():
                if v is True and isinstance(k, T) and k.op == "isinst" and k.a[0] is c.a[0]:
                    return False
        if c.op == "isinst":
            for k, v in f.items():
                if isinstance(k, T) and k.op == "isinst" and k.a[0] is c.a[0]:
                    if v and self._types_within(k.a[1], c.a[1]):
                        return True
                    if not v and self._types_within(c.a[1], k.a[1]):
                        return False
        if self.oracle is not None:
            d = self.oracle(c, st)
            if d is not None:
                return d
        return None

    def _types_within(self, inner, outer) -> bool:
        for t in inner:
            ok = False
            for o in outer:
                if t is o:
                    ok = True
                elif t.op == "cls" and o.op == "cls":
                    c = self.p.cls(t.a[0])
                    if c is not None and c.is_subclass(o.a[0]):
                        ok = True
            if not ok:
                return False
        return bool(inner)

    # ------------------------------------------------------------------ types
    def typexpr(self, t: T, depth=0):
        """-> (annotation ast, Module) or None"""
        if depth > 8:
            return None
        if t in self.types:
            return self.types[t]
        if t.op == "attr":
            c = self.typeof(t.a[0], depth + 1)
            if c:
                return self.field_ann(c[0], t.a[1])
        elif t.op == "call" and t.a[0].op in ("fn", "bound"):
            f = self.func_of(t.a[0])
            if f is not None and getattr(f.node, "returns", None) is not None:
                return (f.node.returns, f.module)
        elif t.op == "call" and t.a[0].op == "attr":
            c = self.typeof(t.a[0].a[0], depth + 1)
            if c:
                f = c[0].method(t.a[0].a[1])
                if f is not None and getattr(f.node, "returns", None) is not None:
                    return (f.node.returns, f.module)
        elif t.op == "mutated":
            return self.typexpr(t.a[0], depth + 1)
        elif t.op in ("elem", "sub", "val"):
            r = self.typexpr(t.a[0], depth + 1)
            if r:
                return elem_ann(r)
        elif t.op == "ite":
            a = self.typexpr(t.a[1], depth + 1)
            b = self.typexpr(t.a[2], depth + 1)
            if a and b and ast.dump(a[0]) == ast.dump(b[0]):
                return a
            if a and t.a[2] is NONE:
                return a
            if b and t.a[1] is NONE:
                return b
        return None

    def typeof(self, t: T, depth=0):
        """-> (Class, exact) or None"""
        if t in self.exact:
            return (self.exact[t], True)
        if t.op == "new":
            c = self.p.cls(t.a[0])
            return (c, True) if c else None
        if t.op == "enum":
            c = self.p.cls(t.a[0])
            return (c, True) if c else None
        if t.op == "super":
            return None
        if t.op == "ite" and depth < 6:
            a, b = self.typeof(t.a[1], depth + 1), self.typeof(t.a[2], depth + 1)
            if a and b and a[0] is b[0]:
                return (a[0], a[1] and b[1])
        r = self.typexpr(t, depth)
        if r is None:
            return None
        cs = [x for x in _types(r[1], r[0]) if isinstance(x, Class)]
        al = _types(r[1], r[0])
        if len(cs) == 1 and len(al) == 1:
            return (cs[0], False)
        return None

    def field_ann(self, c: Class, name: str):
        for k in c.mro:
            if isinstance(k, Class):
                if name in k.methods and k.methods[name].kind == "property":
                    r = getattr(k.methods[name].node, "returns", None)
                    return (r, k.module) if r is not None else None
                if name in k.anns:
                    return (k.anns[name], k.module)
                init = k.methods.get("__init__")
                if init is not None:
                    for n in ast.walk(init.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                            return (n.annotation, k.module)
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tg = n.targets[0]
                            if isinstance(tg, ast.Attribute) and tg.attr == name and isinstance(n.value, ast.Name):
                                a = init.annotation(n.value.id)
                                if a is not None:
                                    return (a, k.module)
        return None

    def func_of(self, t: T) -> Func | None:
        if t.op == "fn":
            return self.fn_by_qual(t.a[0])
        if t.op == "bound":
            return self.fn_by_qual(t.a[0])
        return None

    def fn_by_qual(self, q) -> Func | None:
        if not hasattr(self.p, "_fq"):
            self.p._fq = {f.qual: f for f in self.p.functions()}
        return self.p._fq.get(q)

    # ------------------------------------------------------------------ primitive ops on terms
    def truth(self, t: T) -> T:
        if is_const(t):
            try:
                return const(bool(cval(t)))
            except Exception:
                return mk("truthy", t)
        if t.op in BOOL_OPS:
            return t
        if t.op == "ite":
            a, b = self.truth(t.a[1]), self.truth(t.a[2])
            return ite_bool(t.a[0], a, b)
        if t.op in ("fn", "cls", "clo", "enum", "bound", "mod", "partial", "joined", "atom"):
            return TRUE
        if t.op in ("list", "tuple", "set", "dict"):
            if not t.a[0]:
                return FALSE
            if any(not (isinstance(x, T) and x.op == "star") and not (isinstance(x, tuple) and x[0].op == "spread") for x in t.a[0]):
                return TRUE
        if t.op == "new":
            tv = tupval(self, t)
            if tv is not None:
                return self.truth(tv)
            c = self.p.cls(t.a[0])
            if c is not None and c.lookup("__bool__") is None and c.lookup("__len__") is None and not any(
                isinstance(b, str) and b not in ("abc.ABC", "object", "builtins.object", "dataclasses.dataclass") for b in c.mro
            ):
                return TRUE
        return mk("truthy", t)

    def isnone(self, t: T) -> T:
        if t is NONE:
            return TRUE
        if t.op == "ite":
            return ite_bool(t.a[0], self.isnone(t.a[1]), self.isnone(t.a[2]))
        if t.op in ("const", "list", "tuple", "dict", "set", "new", "fn", "cls", "clo", "enum", "map", "joined",
                    "partial", "bound", "bin", "mod", "atom"):
            return FALSE
        return mk("isnone", t)

    def cmp_eq(self, a: T, b: T) -> T:
        if a is b:
            return TRUE
        if a.op == "atom" and b.op in ("atom", "const", "enum", "list", "tuple", "dict") or b.op == "atom" and a.op in ("const", "enum", "list", "tuple", "dict"):
            return FALSE
        if a.op == "enum" and b.op == "enum":
            if a.a[0] == b.a[0]:
                return FALSE
            va, vb = self.enum_value(a), self.enum_value(b)
            if va is not None and vb is not None and is_const(va) and is_const(vb):
                return const(cval(va) == cval(vb))
            return mk("eq", *sorted((a, b)))
        if a.op == "enum" and b.op == "const":
            v = self.enum_value(a)
            if v is not None and is_const(v):
                return const(cval(v) == cval(b))
        if b.op == "enum" and a.op == "const":
            return self.cmp_eq(b, a)
        if is_const(a) and is_const(b):
            return const(cval(a) == cval(b))
        if a.op in ("cls", "fn") and b.op in ("cls", "fn", "const"):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op in ("cls", "fn", "clo", "partial", "bound") and y.op in ("enum", "const", "list", "tuple", "dict", "set", "atom"):
                return FALSE
            if x.op == "ext" and y.op in ("enum", "const") and self.policy.strict and not extenum(x) and x.a[0].split(".")[0] in ("sympy", "builtins") and x.a[0].split(".")[-1] not in ("pi", "E", "I", "oo", "nan"):
                return FALSE
        if self.policy.strict:
            if extenum(a) and extenum(b):
                return FALSE if a.a[0].rsplit(".", 1)[0] == b.a[0].rsplit(".", 1)[0] else mk("eq", *sorted((a, b)))
            for x, y in ((a, b), (b, a)):
                if x.op == "cls" and y.op == "ext" and y.a[0].split(".")[-1][:1].isupper() and not extenum(y):
                    return FALSE
            if a.op == b.op == "ext" and all(x.a[0].split(".")[-1][:1].isupper() and not extenum(x) and x.a[0].split(".")[0] == a.a[0].split(".")[0] for x in (a, b)):
                return FALSE
        if a is NONE:
            return self.isnone(b) if b.op != "const" else FALSE
        if b is NONE:
            return self.isnone(a)
        if a is TRUE or a is FALSE:
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and y.op in ("const", "enum"):
                return ite_bool(x.a[0], self.cmp_eq(x.a[1], y), self.cmp_eq(x.a[2], y))
        if {a.op, b.op} <= {"tuple", "list", "const", "dict", "enum"} and a.op != b.op:
            return FALSE
        if a.op in ("tuple", "list") and a.op == b.op:
            pa, pb = plain(a), plain(b)
            if pa is not None and pb is not None:
                return const(pa == pb)
            if not any(x.op == "star" for x in a.a[0] + b.a[0]) and len(a.a[0]) != len(b.a[0]):
                return FALSE
            if self.policy.obj and not any(x.op == "star" for x in a.a[0] + b.a[0]):
                es = [self.cmp_eq(x, y) for x, y in zip(a.a[0], b.a[0])]
                if FALSE in es:
                    return FALSE
                if all(x is TRUE for x in es):
                    return TRUE
        if a.op == b.op == "dict" and self.policy.obj and all(ckey(k) for k, _ in a.a[0] + b.a[0]):
            da, db = dict(a.a[0]), dict(b.a[0])
            if set(da) != set(db):
                return FALSE
            es = [self.cmp_eq(da[k], db[k]) for k in da]
            if FALSE in es:
                return FALSE
            if all(x is TRUE for x in es):
                return TRUE
        return mk("eq", *sorted((a, b)))

    def cmp_in(self, a: T, b: T) -> T:
        if b.op in ("tuple", "list", "set"):
            items = b.a[0]
            if all(ckey(x) for x in items):
                return or_([self.cmp_eq(a, x) for x in items])
            if self.policy.strict and items:
                es = [self.cmp_eq(a, x) for x in items if x.op != "star"]
                if TRUE in es:
                    return TRUE
                if all(x is FALSE for x in es) and len(es) == len(items):
                    return FALSE
        if b.op == "dict" and all(ckey(k) for k, _ in b.a[0]):
            return or_([self.cmp_eq(a, k) for k, _ in b.a[0]])
        if b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] == "keys":
            return self.cmp_in(a, b.a[0].a[0])
        sa, sb = self.strval(a), self.strval(b)
        if sa is not None and sb is not None:
            return const(sa in sb)
        return mk("in", a, b)

    def strval(self, t: T):
        """Python string of a constant or of a string-valued enum member, else None"""
        if t.op == "enum":
            c = self.p.cls(t.a[0])
            if c is None or not any(str(b).split(".")[-1] in ("StrEnum", "str") for b in c.mro):
                return None
            v = self.enum_value(t)
            if v is None:
                return None
            t = v
        return cval(t) if is_const(t) and isinstance(cval(t), str) else None

    def enum_value(self, t: T):
        c = self.p.cls(t.a[0])
        if c is None:
            return None
        e = c.attrs.get(t.a[1])
        if e is None:
            return None
        return self.eval_module_expr(e, c.module, ("enumv", t))

    def eval_module_expr(self, e, module: Module, key):
        if key in self._const_memo:
            r = self._const_memo[key]
            return r
        self._const_memo[key] = self.fresh("rec")
        self.quiet += 1
        try:
            saved, self.stack = self.stack, ()
            r = Frame(self, None, module, None).ev(e, State())
            self.stack = saved
        finally:
            self.quiet -= 1
        self._const_memo[key] = r
        return r

    def binop(self, op, a: T, b: T) -> T:
        if op == "/" and a.op == "path" and (b.op == "path" or is_const(b) and isinstance(cval(b), str)):
            return mk("path", f"{a.a[0]}/{b.a[0] if b.op == 'path' else cval(b)}")
        if is_const(a) and is_const(b):
            va, vb = cval(a), cval(b)
            try:
                if isinstance(va, (int, float, complex, str, bool)) and isinstance(vb, (int, float, complex, str, bool)):
                    r = {
                        "+": lambda: va + vb, "-": lambda: va - vb, "*": lambda: va * vb, "/": lambda: va / vb,
                        "//": lambda: va // vb, "%": lambda: va % vb, "**": lambda: va**vb,
                    }.get(op)
                    if r:
                        v = r()
                        if not (isinstance(v, str) and len(v) > 1000):
                            return const(v)
            except Exception:
                pass
        if op == "+" and a.op in ("list", "tuple") and b.op in ("list", "tuple", "map"):
            return self.cat(a, b)
        if op == "+" and b.op in ("list",) and a.op in ("list", "map"):
            return self.cat(a, b)
        if op == "*" and self.policy.rec:
            for x, y in ((a, b), (b, a)):
                if x.op in ("list", "tuple") and is_const(y) and isinstance(cval(y), int) and len(x.a[0]) * cval(y) <= 6000 and not any(z.op == "star" for z in x.a[0]):
                    return mk(x.op, x.a[0] * cval(y))
        if op == "|" and a.op == "dict":
            return self.dict_merge(a, b)
        if op == "+" and a.op == "dict" and b.op == "dict" and all(ckey(k) for k, _ in a.a[0] + b.a[0]):
            r = a  # only counters can be added
            for k, v in b.a[0]:
                o = self.dict_get(r, k)
                r = self.dict_set(r, k, self.binop("+", o, v) if isinstance(o, T) else v)
            return r
        if op in ("-", "|", "&", "^") and a.op == "set" and b.op == "set" and all(is_const(x) for x in a.a[0] + b.a[0]):
            xs, ys = dict.fromkeys(a.a[0]), dict.fromkeys(b.a[0])
            r = {"-": [x for x in xs if x not in ys], "|": list({**xs, **ys}), "&": [x for x in xs if x in ys], "^": [x for x in xs if x not in ys] + [y for y in ys if y not in xs]}[op]
            return mk("set", tuple(r))
        return mk("bin", op, a, b)

    def dict_merge(self, a: T, b: T) -> T:
        if b.op == "dict":
            for k, v in b.a[0]:
                a = mk("dict", a.a[0] + ((k, v),)) if k.op == "spread" else self.dict_set(a, k, v)
            return a
        return mk("dict", a.a[0] + ((mk("spread"), b),))

    def cat(self, a: T, b: T) -> T:
        def items(x):
            if x.op in ("list", "tuple"):
                return x.a[0]
            return (mk("star", x),)

        k = a.op if a.op in ("list", "tuple") else "list"
        return mk(k, items(a) + items(b))

    def dict_set(self, d: T, k: T, v: T) -> T:
        if d.op == "dict":
            items = list(d.a[0])
            if ckey(k):
                if any(kk is k for kk, _ in items):
                    if all(ckey(kk) for kk, _ in items):
                        return mk("dict", tuple((kk, v if kk is k else vv) for kk, vv in items))
                    items = [(kk, vv) for kk, vv in items if kk is not k]
            return mk("dict", tuple(items + [(k, v)]))
        return mk("upd", d, k, v)

    def dict_get(self, d: T, k: T):
        """-> value term, None (unknown), or 'missing'"""
        if d.op == "ite":
            a, b = self.dict_get(d.a[1], k), self.dict_get(d.a[2], k)
            if isinstance(a, T) and isinstance(b, T):
                return ite(d.a[0], a, b)
            return None
        if d.op == "upd":
            e = self.cmp_eq(d.a[1], k)
            if e is TRUE:
                return d.a[2]
            if e is FALSE:
                return self.dict_get(d.a[0], k)
            return None
        if d.op != "dict":
            return None
        for kk, vv in reversed(d.a[0]):
            if kk.op == "spread":
                r = self.dict_get(vv, k)
                if r == "missing":
                    continue
                return r
            e = self.cmp_eq(kk, k)
            if e is TRUE:
                return vv
            if e is not FALSE and not (kk.op == "ext" and k.op == "ext" and "." in kk.a[0] and "." in k.a[0]):
                return None
        return "missing"

    def sub(self, b: T, i: T, st: State | None = None) -> T:
        if st is not None and ("=", i) in st.facts:
            i2 = st.facts[("=", i)]
        else:
            i2 = i
        b = tupval(self, b) or b
        if b.op in ("dict", "upd"):
            r = self.dict_get(b, i2)
            if isinstance(r, T):
                return r
            if r == "missing" and self.policy.strict:
                raise AbsRaise(abs_error("KeyError", i2))
        if b.op in ("tuple", "list") and is_const(i) and isinstance(cval(i), int):
            items = b.a[0]
            if not any(x.op == "star" for x in items):
                if -len(items) <= cval(i) < len(items):
                    return items[cval(i)]
                if self.policy.strict:
                    raise AbsRaise(abs_error("IndexError", i))
            elif cval(i) >= 0 and all(x.op != "star" for x in items[: cval(i) + 1]):
                return items[cval(i)]
        if b.op == "cls" and i2.op in ("const", "enum", "ite"):
            c = self.p.cls(b.a[0])
            if c is not None and c.is_enum:
                if i2.op == "ite":
                    return ite(i2.a[0], self.sub(b, i2.a[1], st), self.sub(b, i2.a[2], st))
                sv = self.strval(i2)
                if sv in c.attrs:
                    return mk("enum", b.a[0], sv)
        if b.op in ("const", "enum"):
            sv = self.strval(b)
            if sv is not None:
                try:
                    if i.op == "slice" and all(is_const(x) for x in i.a):
                        return const(sv[slice(*[cval(x) for x in i.a])])
                    if is_const(i):
                        return const(sv[cval(i)])
                except (TypeError, ValueError, IndexError):
                    pass
        if b.op in ("tuple", "list") and i.op == "slice" and all(is_const(x) for x in i.a) and not any(x.op == "star" for x in b.a[0]):
            try:
                return mk(b.op, b.a[0][slice(*[cval(x) for x in i.a])])
            except (TypeError, ValueError):
                pass
        if b.op == "ite" and n_leaves(b) <= 4:
            return ite(b.a[0], self.sub(b.a[1], i, st), self.sub(b.a[2], i, st))
        if b.op == "elem" and is_const(i):
            c = b.a[0]
            r = self.elem_item(c, cval(i))
            if r is not None:
                return r
        if i.op == "elem" and i.a[0].op == "call":
            # xs[i] for i in range(len(xs))  ->  elem(xs)
            rc = i.a[0]
            if rc.a[0] is mk("ext", "builtins.range") and len(rc.a[1]) == 1:
                ln = rc.a[1][0][1]
                if ln.op == "call" and ln.a[0] is mk("ext", "builtins.len") and ln.a[1][0][1] is b:
                    return self.elem(b)
        if i.op == "idx" and i.a[0] is b:
            return self.elem(b)
        if i.op == "elem" and i.a[0] is b:
            return mk("val", b)
        return mk("sub", b, i)

    # generic element of a collection
    def elem(self, coll: T) -> T:
        if coll.op in ("list", "tuple", "set"):
            items = coll.a[0]
            if len(items) == 1:
                return self.elem(items[0].a[0]) if items[0].op == "star" else items[0]
        if coll.op == "map" and coll.a[0] in ("list", "tuple", "set", "gen"):
            if coll.a[3] is TRUE:
                return coll.a[1]
        if coll.op == "call" and coll.a[0].op == "attr" and not coll.a[1]:
            m = coll.a[0].a[1]
            d = coll.a[0].a[0]
            if m == "items":
                return mk("tuple", (mk("elem", d), mk("val", d)))
            if m == "values":
                return mk("val", d)
            if m == "keys":
                return mk("elem", d)
        if coll.op == "call" and coll.a[0].op == "ext":
            q = coll.a[0].a[0]
            args = [v for _, v in coll.a[1]]
            if q == "builtins.enumerate" and args:
                return mk("tuple", (mk("idx", args[0]), self.elem(args[0])))
            if q == "builtins.zip" and args and all(k != "*" for k, _ in coll.a[1]):
                return mk("tuple", tuple(self.elem(a) for a in args))
            if q in ("builtins.reversed", "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.iter") and args:
                if args[0].op in ("list", "tuple", "map"):
                    return self.elem(args[0]) if q != "builtins.sorted" or args[0].op == "map" else mk("elem", coll)
        return mk("elem", coll)

    def elem_item(self, coll: T, i):
        e = self.elem(coll)
        if e.op == "tuple" and isinstance(i, int) and -len(e.a[0]) <= i < len(e.a[0]):
            return e.a[0][i]
        return None

    # ------------------------------------------------------------------ attributes
    def attr(self, b: T, name: str, st: State, frame=None, node=None) -> T:
        self.steps += 1
        if (b, name) in st.heap:
            return st.heap[(b, name)]
        if self.attr_hook is not None:
            r = self.attr_hook(b, name, st)
            if r is not None:
                return r
        if b.op == "ite" and n_leaves(b) <= 6:
            return ite(b.a[0], self.attr(b.a[1], name, st, frame, node), self.attr(b.a[2], name, st, frame, node))
        if b.op in ("list", "tuple") and name == "ndim" and b.a[0] and not any(x.op == "star" for x in b.a[0]):
            k, x = 0, b
            while x.op in ("list", "tuple") and x.a[0]:
                k, x = k + 1, x.a[0][0]
            if is_const(x):
                return const(k)
        if b.op == "mod":
            m = self.p.modules[b.a[0]]
            r = m.resolve(name)
            return self.entity(r, f"{m.name}.{name}")
        if b.op == "ext":
            if name == "__class__" and self.policy.strict and extenum(b):
                return mk("ext", b.a[0].rsplit(".", 1)[0])
            return mk("ext", f"{b.a[0]}.{name}")
        if b.op == "cls":
            c = self.p.cls(b.a[0])
            if c is not None:
                if c.is_enum and name in c.enum_members():
                    return mk("enum", c.qual, name)
                if name in ("__name__", "__qualname__"):
                    return const(c.name)
                r = c.lookup(name)
                if r and r[0] == "method":
                    f = r[1]
                    if f.kind == "classmethod":
                        return mk("bound", f.qual, b)
                    return mk("fn", f.qual)
                if r and r[0] == "attr":
                    return self.eval_module_expr(r[1], r[2].module, ("clsattr", r[2].qual, name))
            return mk("attr", b, name)
        if b.op == "super":
            c = self.p.cls(b.a[0])
            obj = b.a[1]
            own = self.typeof(obj)
            mro = own[0].mro if own and own[1] else (c.mro if c else [])
            if c in mro:
                mro = mro[mro.index(c) + 1:]
            for k in mro:
                if isinstance(k, Class):
                    if name in k.methods:
                        f = k.methods[name]
                        if f.kind == "property":
                            return self.call_func(f, [obj], {}, st, node, frame)
                        if f.kind == "staticmethod":
                            return mk("fn", f.qual)
                        return mk("bound", f.qual, obj)
                    if name in k.attrs:
                        return self.eval_module_expr(k.attrs[name], k.module, ("clsattr", k.qual, name))
                else:
                    if k not in ("abc.ABC",):
                        return mk("attr", mk("extsuper", k, obj), name)
            return mk("attr", mk("extsuper", "object", obj), name)
        if b.op == "enum":
            if name == "value":
                v = self.enum_value(b)
                if v is not None:
                    return v
            if name == "name":
                return const(b.a[1])
        if name == "__class__":
            ty = self.typeof(b)
            if ty and ty[1]:
                return mk("cls", ty[0].qual)
            if b.op == "ext" and self.policy.strict and extenum(b):
                return mk("ext", b.a[0].rsplit(".", 1)[0])
            return mk("typeof", b)
        if b.op == "typeof" and name in ("__name__",):
            return mk("attr", b, name)
        ty = self.typeof(b)
        if ty is not None:
            c, exact = ty
            r = c.lookup(name)
            if r and r[0] == "method":
                f = r[1]
                if exact:
                    return self._bind(f, b, st, node, frame)
                impls = self.p.impls(c, name)
                if len(impls) == 1:
                    return self._bind(f, b, st, node, frame)
                return mk("attr", b, name)
            if exact and b.op == "new" and self.policy.ctor_fields:
                fl = self.fields_of(b)
                if fl is not None and name in fl:
                    return fl[name]
            if exact and r and r[0] == "attr" and not c.is_enum:
                if self.field_assigned(c, name) and (b, "__built__") not in st.heap:
                    return mk("attr", b, name)
                return self.eval_module_expr(r[1], r[2].module, ("clsattr", r[2].qual, name))
            if exact and r is None and (b, "__built__") in st.heap and name != "__getattribute__":
                ga = c.method("__getattr__")
                if ga is not None and self.policy.inline(ga, self.stack) and self.stack.count(ga.qual) == 0:
                    return self.call_func(ga, [b, const(name)], {}, st, node, frame)
        if b.op == "partial":
            if name == "func":
                return b.a[0]
        return mk("attr", b, name)

    def field_assigned(self, c: Class, name: str) -> bool:
        """is self.<name> ever assigned by a method of c's MRO?"""
        if not hasattr(self.p, "_fa"):
            self.p._fa = {}
        key = c.qual
        if key not in self.p._fa:
            s = set()
            for k in c.mro:
                if isinstance(k, Class):
                    for f in list(k.methods.values()) + list(k.setters.values()):
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                                if isinstance(n.value, ast.Name) and n.value.id in ("self",):
                                    s.add(n.attr)
                    if k.is_dataclass:
                        s |= {n for n, a in k.anns.items() if "ClassVar" not in ast.dump(a)}
            self.p._fa[key] = s
        return name in self.p._fa[key]

    def _bind(self, f: Func, b: T, st, node, frame) -> T:
        if f.kind == "property":
            if self.policy.inline(f, self.stack):
                return self.call_func(f, [b], {}, st, node, frame)
            return mk("attr", b, f.name)
        if f.kind == "staticmethod":
            return mk("fn", f.qual)
        if f.kind == "classmethod":
            ty = self.typeof(b)
            return mk("bound", f.qual, mk("cls", ty[0].qual) if ty else b)
        return mk("bound", f.qual, b)

    def entity(self, r, fallback: str) -> T:
        if r is None:
            return mk("ext", fallback)
        if isinstance(r, Func):
            return mk("fn", r.qual)
        if isinstance(r, Class):
            return mk("cls", r.qual)
        if isinstance(r, Module):
            return mk("mod", r.name)
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "const":
            return self.eval_module_expr(r[3], r[1], ("const", r[1].name, r[2]))
        if r[0] == "clsattr":
            return self.attr(mk("cls", r[1].qual), r[2], State())
        return mk("ext", fallback)

    # ------------------------------------------------------------------ constructor fields
    def fields_of(self, t: T) -> dict | None:
        if t in self._fields_memo:
            return self._fields_memo[t]
        if t in self._fields_busy or len(self._fields_busy) > 6:
            return None
        c = self.p.cls(t.a[0])
        if c is None:
            return None
        self._fields_busy.add(t)
        self.quiet += 1
        res = None
        try:
            init = c.method("__init__")
            st = State()
            if init is None:
                names = dataclass_fields(c)
                if names is not None:
                    res = {}
                    pos = [n for n, _ in names]
                    for k, v in t.a[1]:
                        if isinstance(k, int) and k < len(pos):
                            res[pos[k]] = v
                        elif isinstance(k, str):
                            res[k] = v
                    for n, d in names:
                        if n not in res and d is not None:
                            res[n] = self.eval_module_expr(d, c.module, ("dcdef", c.qual, n))
                    post = c.method("__post_init__")
                    if post is not None:
                        st.heap = {(t, k): v for k, v in res.items()}
                        fr = self.call_func(post, [t], {}, st, None, None, force=True)
                        res = {k[1]: v for k, v in st.heap.items() if k[0] is t}
            else:
                args = [v for k, v in t.a[1] if isinstance(k, int)]
                kw = {k: v for k, v in t.a[1] if isinstance(k, str) and k not in ("*", "**")}
                if not any(k in ("*", "**") for k, _ in t.a[1]):
                    saved = self.stack
                    self.stack = self.stack[-2:]
                    try:
                        self.call_func(init, [t] + args, kw, st, None, None, force=True)
                    finally:
                        self.stack = saved
                    res = {k[1]: v for k, v in st.heap.items() if k[0] is t}
        except Budget:
            res = None
        finally:
            self.quiet -= 1
            self._fields_busy.discard(t)
        self._fields_memo[t] = res
        return res

    # ------------------------------------------------------------------ calls
    def norm_args(self, f: Func | None, args, kwargs, skip_self=False):
        """Bind to formal names where the signature is known -> tuple of (key, term)."""
        out = []
        if f is not None:
            ps = list(f.params)
            if skip_self and ps:
                ps = ps[1:]
            star = False
            for i, a in enumerate(args):
                if a.op == "star":
                    star = True
                    out.append(("*", a.a[0]))
                elif not star and i < len(ps):
                    out.append((ps[i], a))
                elif f.node.args.vararg is not None:
                    out.append(("*", mk("tuple", (a,))))
                else:
                    out.append((i, a))
        else:
            for i, a in enumerate(args):
                if a.op == "star":
                    out.append(("*", a.a[0]))
                else:
                    out.append((i, a))
        kw = []
        for k, v in kwargs.items():
            kw.append(("**" if k.startswith("**") else k, v))
        kw.sort(key=lambda p: p[0])
        named = [x for x in out if isinstance(x[0], str) and x[0] != "*"]
        rest = [x for x in out if not (isinstance(x[0], str) and x[0] != "*")]
        allnamed = sorted(named + [k for k in kw if k[0] != "**"], key=lambda p: p[0])
        return tuple(rest + allnamed + [k for k in kw if k[0] == "**"])

    def apply_value(self, v: T, args, kw, st: State, f: Func) -> T:
        """apply a callable value (closure, partial, bound method) as a client of function f would"""
        return Frame(self, f, f.module, f.cls).apply(v, list(args), dict(kw), st, f.node)

    def call_func(self, f: Func, args, kwargs, st: State, node, frame, force=False, captured=None) -> T:
        """Inline call of f in the current heap; returns value term (raise paths pruned)."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        if not force and not self.policy.inline(f, self.stack):
            return mk("call", mk("fn", f.qual), self.norm_args(f, args, kwargs))
        env = self.bind(f, args, kwargs, st)
        if env is None:
            return mk("call", mk("fn", f.qual), self.norm_args(f, args, kwargs))
        if f.is_generator and f.eager is not None:
            f = f.eager
        if captured:
            for k, v in captured:
                env.setdefault(k, v)
        fr = Frame(self, f, f.module, f.cls)
        inner = State(env, dict(st.heap), dict(st.facts), st.guards)
        saved = self.stack
        self.stack = saved + (f.qual,)
        self.visited.add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                v = fr.ev(f.node.body, inner)
                st.heap = inner.heap
                return v
            out = fr.block(f.node.body, inner)
        finally:
            self.stack = saved
        ret = out.ret
        if ret is None:
            val = NONE
        else:
            val = subst_fall(ret, NONE)
        # heap: final normal state or states at returns
        finals = fr.final_states + ([out.st] if out.st is not None else [])
        if finals:
            h = merge_states(finals)
            st.heap = h.heap
        # prune raising leaves
        val, extra = prune_raise(val)
        if val.op == "raise" and self.policy.rec:
            raise AbsRaise(val, fr.raised[1] if fr.raised is not None and not finals else None)
        for c, v in extra:
            st.assume(c, v)
        return val

    def bind(self, f: Func, args, kwargs, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwo = [x.arg for x in a.kwonlyargs]
        env = {}
        rest = []
        i = 0
        flat = []
        for x in args:
            if x.op == "star":
                y = x.a[0]
                if y.op in ("tuple", "list") and not any(z.op == "star" for z in y.a[0]):
                    flat.extend(y.a[0])
                else:
                    flat.append(x)
            else:
                flat.append(x)
        for x in flat:
            if x.op == "star":
                if a.vararg is not None and i >= len(pos):
                    rest.append(x)
                    continue
                if a.vararg is None:
                    # star into positional: element terms
                    while i < len(pos):
                        env[pos[i]] = mk("sub", x.a[0], const(i))
                        i += 1
                    continue
                rest.append(x)
                i = len(pos) if i >= len(pos) else i
                continue
            if i < len(pos) and not rest:
                env[pos[i]] = x
                i += 1
            else:
                rest.append(x)
        extra = {}
        for k, v in kwargs.items():
            if k.startswith("**"):
                if v.op == "dict" and all(kk.op == "const" for kk, _ in v.a[0]):
                    for kk, vv in v.a[0]:
                        if cval(kk) in pos + kwo:
                            env[cval(kk)] = vv
                        else:
                            extra[cval(kk)] = vv
                else:
                    extra[k] = v
            elif k in pos or k in kwo:
                env[k] = v
            else:
                extra[k] = v
        if self.policy.strict and ((rest and a.vararg is None) or (a.kwarg is None and any(not k.startswith(("**", "#")) for k in extra))):
            raise AbsRaise(abs_error("TypeError", const(f"{f.qual}() got unexpected arguments")))
        if a.vararg is not None:
            env[a.vararg.arg] = mk("tuple", tuple(rest))
        if a.kwarg is not None:
            spread = [(mk("spread"), v) for k, v in extra.items() if k.startswith("**")]
            if len(spread) == 1 and len(extra) == 1:
                env[a.kwarg.arg] = spread[0][1]
            else:
                env[a.kwarg.arg] = mk(
                    "dict",
                    tuple(spread + [(const(k), v) for k, v in extra.items() if not k.startswith("**")]),
                )
        spreads = [v for k, v in extra.items() if k.startswith("**")]
        for n in pos + kwo:
            if n not in env:
                d = f.default(n)
                if spreads:
                    dv = self.eval_module_expr(d, f.module, ("default", f.qual, n)) if d is not None else None
                    g = mk("call", mk("attr", spreads[0], "get"), ((0, const(n)),) + (((1, dv),) if dv is not None else ()))
                    r = self.dict_get(spreads[0], const(n))
                    if isinstance(r, T):
                        g = r
                    elif r == "missing" and dv is not None:
                        g = dv
                    elif dv is None:
                        g = mk("sub", spreads[0], const(n))
                    env[n] = g
                elif d is None:
                    if self.policy.strict:
                        raise AbsRaise(abs_error("TypeError", const(f"{f.qual}() missing argument {n}")))
                    env[n] = mk("undef", n)
                else:
                    env[n] = self.eval_module_expr(d, f.module, ("default", f.qual, n))
        for n in pos + kwo:
            ann = f.annotation(n)
            v = env[n]
            if ann is not None and v not in self.types and v.op in ("param", "attr", "sub", "elem", "unk"):
                if v.op == "param":
                    self.types.setdefault(v, (ann, f.module))
        return env

    # ------------------------------------------------------------------ entry points
    def run(self, f: Func, bindings: dict | None = None, facts=None, exact: Class | None = None, captured=None, heap=None):
        """Evaluate f on symbolic inputs. Returns (ret term incl. raise leaves, final State or None)."""
        env = {}
        a = f.node.args
        names = f.all_params
        bindings = bindings or {}
        for i, n in enumerate(names):
            t = bindings.get(n)
            if t is None:
                t = mk("param", n)
            env[n] = t
            ann = f.annotation(n)
            if i == 0 and f.cls is not None and f.kind in ("method", "property", "setter"):
                if t.op == "param":
                    if exact is not None:
                        self.exact[t] = exact
                    else:
                        self.types[t] = (ast.Name(f.cls.name, ast.Load()), f.cls.module)
            elif i == 0 and f.kind == "classmethod" and f.cls is not None and n not in bindings:
                env[n] = mk("cls", (exact or f.cls).qual)
            elif ann is not None and t.op == "param":
                self.types[t] = (ann, f.module)
        if a.vararg is not None:
            env[a.vararg.arg] = bindings.get(a.vararg.arg) or mk("param", "*" + a.vararg.arg)
        if a.kwarg is not None:
            env[a.kwarg.arg] = bindings.get(a.kwarg.arg) or mk("param", "**" + a.kwarg.arg)
        if captured:
            for k, v in captured:
                env.setdefault(k, v)
        st = State(env, dict(heap or {}))
        for c, v in facts or ():
            add_fact(st.facts, c, v)
        fr = Frame(self, f, f.module, f.cls)
        self.stack = (f.qual,)
        self.visited.add(f.qual)
        if isinstance(f.node, ast.Lambda):
            try:
                return fr.ev(f.node.body, st), st
            except AbsRaise as r:
                return r.term, st
        out = fr.block(f.node.body, st)
        ret = NONE if out.ret is None else subst_fall(out.ret, NONE)
        finals = fr.final_states + ([out.st] if out.st is not None else [])
        self.stack = ()
        return ret, (merge_states(finals) if finals else None)


def ite_bool(c, a, b):
    if a is TRUE:
        return or_([c, b])
    if b is FALSE:
        return and_([c, a])
    if a is FALSE:
        return and_([not_(c), b])
    if b is TRUE:
        return or_([not_(c), a])
    return ite(c, a, b)


def elem_ann(r):
    e, m = r
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try:
            e = ast.parse(e.value, mode="eval").body
        except SyntaxError:
            return None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        for x in (e.left, e.right):
            q = elem_ann((x, m))
            if q:
                return q
        return None
    if isinstance(e, ast.Subscript):
        h = ast.unparse(e.value).split(".")[-1]
        els = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
        if h in ("list", "List", "Sequence", "Iterable", "set", "Tuple", "tuple", "Generator", "Iterator"):
            return (els[0], m)
        if h in ("dict", "Dict", "OrderedDict") and len(els) == 2:
            return (els[1], m)
        if h in ("Optional", "Union"):
            for x in els:
                q = elem_ann((x, m))
                if q:
                    return q
    return None


def dataclass_fields(c: Class):
    """[(name, default ast or None)] or None when not a dataclass."""
    if not any(isinstance(k, Class) and k.is_dataclass for k in c.mro):
        return None
    out: dict = {}
    for k in reversed(c.mro):
        if isinstance(k, Class) and k.is_dataclass:
            for n, ann in k.anns.items():
                if "ClassVar" in ast.dump(ann):
                    continue
                d = k.attrs.get(n)
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                    kw = {x.arg: x.value for x in d.keywords}
                    d = kw.get("default")
                    if d is None and "default_factory" in kw:
                        d = ast.Call(func=kw["default_factory"], args=[], keywords=[])
                out.pop(n, None) if n not in out else None
                out[n] = d
    return list(out.items())


def subst_fall(t: T, v: T) -> T:
    return map_leaves(t, lambda x: v if x is FALL else x)


def prune_raise(t: T):
    """Drop raising leaves; return (value, facts implied by not raising)."""
    extra = []

    def go(x):
        if x.op == "ite":
            a, b = go(x.a[1]), go(x.a[2])
            ra, rb = a.op == "raise", b.op == "raise"
            if ra and not rb:
                if x is t or True:
                    return mk("_pr", x.a[0], FALSE, b)
            if rb and not ra:
                return mk("_pr", x.a[0], TRUE, a)
            if ra and rb:
                return a
            return ite(x.a[0], strip(a), strip(b))
        return x

    def strip(x):
        while x.op == "_pr":
            x = x.a[2]
        return x

    r = go(t)
    while r.op == "_pr":
        extra.append((r.a[0], r.a[1] is TRUE))
        r = r.a[2]
    return r, extra


def merge_states(sts: list) -> State:
    cur = sts[0]
    for s in sts[1:]:
        cur = merge2(cur, s)
    return cur


def merge2(a: State, b: State) -> State:
    """Join of two states; the gating condition is the first guard on which they differ."""
    ga, gb = a.guards, b.guards
    i = 0
    while i < len(ga) and i < len(gb) and ga[i] == gb[i]:
        i += 1
    c = None
    pol = True
    if i < len(ga):
        c, pol = ga[i]
    elif i < len(gb):
        c, pol = gb[i]
        pol = not pol
    if c is None:
        c = mk("join")
    env = {}
    for k in {**a.env, **b.env}:
        va, vb = a.env.get(k) or mk("undef", k), b.env.get(k) or mk("undef", k)
        env[k] = va if va is vb else (ite(c, va, vb) if pol else ite(c, vb, va))
    heap = {}
    for k in {**a.heap, **b.heap}:
        d = mk("attr", k[0], k[1])
        va, vb = a.heap.get(k, d), b.heap.get(k, d)
        heap[k] = va if va is vb else (ite(c, va, vb) if pol else ite(c, vb, va))
    facts = {k: v for k, v in a.facts.items() if k in b.facts and b.facts[k] == v}
    return State(env, heap, facts, ga[:i])


_LOCALS: dict = {}


def locals_of(fn):
    """names bound by the statements of a function itself"""
    r = _LOCALS.get(id(fn))
    if r is None or r[0] is not fn:
        names, out, todo = set(), set(), list(fn.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out |= set(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            todo.extend(ast.iter_child_nodes(n))
        r = _LOCALS[id(fn)] = (fn, names - out)
    return r[1]


class Frame:
    """Evaluation of one function body (or module-level expression)."""

    def __init__(self, I: Interp, f: Func | None, module: Module, cls: Class | None):
        self.held = {}
        self.raised = None
        self.I, self.f, self.m, self.cls = I, f, module, cls
        self.final_states: list[State] = []
        self.try_depth = 0

    # -- statements -----------------------------------------------------------------
    def block(self, stmts, st: State) -> Out:
        ret = None
        conts, brks = [], []
        cur = st
        for s in stmts:
            if cur is None:
                break
            try:
                o = self.stmt(s, cur)
                if o.st is None and o.ret is not None and o.ret.op == "raise" and isinstance(s, ast.Raise):
                    self.raised = (dict(cur.env), dict(cur.heap))
            except AbsRaise as r:
                o = Out(None, r.term)
                self.raised = (dict(cur.env), dict(r.heap if r.heap is not None else cur.heap))
            conts += o.conts
            brks += o.brks
            if o.ret is not None:
                ret = o.ret if ret is None else subst_fall(ret, o.ret)
            cur = o.st
        return Out(cur, ret, conts, brks)

    def stmt(self, s, st: State) -> Out:
        I = self.I
        I.steps += 1
        if I.steps > I.max_steps:
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return Out(st)
        return m(s, st)

    def s_Pass(self, s, st):
        return Out(st)

    s_Global = s_Nonlocal = s_Import = s_Pass

    def s_ImportFrom(self, s, st):
        mname = self.m._abs(s.level, s.module)
        for a in s.names:
            mod = self.I.p.modules.get(mname)
            if mod is not None:
                r = mod.resolve(a.name) or self.I.p.modules.get(f"{mname}.{a.name}")
                st.env[a.asname or a.name] = self.I.entity(r, f"{mname}.{a.name}")
            else:
                st.env[a.asname or a.name] = mk("ext", f"{mname}.{a.name}")
        return Out(st)

    def s_Import(self, s, st):
        for a in s.names:
            n = a.name if a.asname else a.name.split(".")[0]
            st.env[a.asname or n] = mk("mod", n) if n in self.I.p.modules else mk("ext", n)
        return Out(st)

    def s_Expr(self, s, st):
        v = self.ev(s.value, st, stmt=True)
        self.I.ev("expr", v, (), st, s, self.m)
        # a method called for its effect on a locally held object: later uses see the receiver changed
        if (
            isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)
            and isinstance(s.value.func.value, ast.Name) and v.op == "call" and v.a[0].op == "attr"
            and s.value.func.attr not in MUTATORS
        ):
            n = s.value.func.value.id
            b = st.env.get(n)
            if b is not None and v.a[0].a[0] is b and b.op in ("call", "mutated", "ite", "sub", "enter"):
                st.env[n] = mk("mutated", b, v.a[0].a[1], tuple(x for _, x in v.a[1]))
        return Out(st)

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st, s.name)
        return Out(st)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = mk("localcls", s.name)
        return Out(st)

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        self.I.ev("return", v, (), st, s, self.m)
        self.final_states.append(st)
        return Out(None, v)

    def s_Raise(self, s, st):
        v = mk("reraise") if s.exc is None else self.ev(s.exc, st)
        self.I.ev("raise", v, (), st, s, self.m)
        return Out(None, mk("raise", v))

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        d = self.I.decide(c, st)
        if d is False and self.I.policy.rec:
            self.I.ev("raise", mk("ext", "builtins.AssertionError"), (), st, s, self.m)
            return Out(None, mk("raise", mk("ext", "builtins.AssertionError")))
        if d is not True:
            f = st.copy().assume(c, False)
            self.I.ev("raise", mk("ext", "builtins.AssertionError"), (), f, s, self.m)
            st.assume(c, True)
            return Out(st)
        return Out(st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
            if isinstance(t, ast.Name) and isinstance(s.value, ast.Attribute) and self.I.policy.strict and v.op in ("list", "dict"):
                # the name and the attribute hold the same mutable object
                self.held[t.id] = (self.ev(s.value.value, st), s.value.attr)
        return Out(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if v not in self.I.types and v.op in ("call", "sub", "attr", "elem", "unk") and self.I.typexpr(v) is None:
                self.I.types[v] = (s.annotation, self.m)
            self.assign(s.target, v, st, s)
        return Out(st)

    def s_AugAssign(self, s, st):
        load = _as_load(s.target)
        cur = self.ev(load, st)
        v = self.ev(s.value, st)
        op = BINOPS.get(type(s.op), "?")
        if op == "+" and cur.op in ("list", "map") and v.op in ("list", "tuple", "map", "call", "param", "attr", "elem", "sub"):
            nv = self.I.cat(cur, v)
        elif op == "|" and cur.op == "dict":
            nv = self.I.dict_merge(cur, v)
        else:
            nv = self.binop(op, cur, v, st, s, inplace=True)
        self.I.ev("aug", nv, (cur, op, v), st, s, self.m)
        if isinstance(s.target, ast.Name) and cur.op in ("list", "dict"):
            self.rebind(s.target, nv, st)
        else:
            self.assign(s.target, nv, st, s, aug=True)
        return Out(st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                if isinstance(t, ast.Subscript) and self.I.policy.rec:
                    b, k = self.ev(t.value, st), self.ev(t.slice, st) if not isinstance(t.slice, ast.Slice) else None
                    if b.op == "dict" and k is not None and ckey(k) and all(ckey(kk) for kk, _ in b.a[0]) and any(kk is k for kk, _ in b.a[0]):
                        self.rebind(t.value, mk("dict", tuple((kk, vv) for kk, vv in b.a[0] if kk is not k)), st)
                    elif b.op == "list" and k is not None and is_const(k) and isinstance(cval(k), int) and not any(x.op == "star" for x in b.a[0]) and -len(b.a[0]) <= cval(k) < len(b.a[0]):
                        xs = list(b.a[0])
                        del xs[cval(k)]
                        self.rebind(t.value, mk("list", tuple(xs)), st)
                    elif k is not None and b.op in ("dict", "list"):
                        self.rebind(t.value, mk("mutated", b, "del", (k,)), st)
                self.I.ev("del", self.ev(_as_load(t), st) if not (isinstance(t, ast.Subscript) and self.I.policy.rec) else mk("sub", b, k or NONE), (), st, s, self.m)
        return Out(st)

    def assign(self, t, v: T, st: State, node, aug=False):
        I = self.I
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            self.held.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if v.op == "new" and I.policy.strict:
                v = self.iterated(v, st, node)
            for i, e in enumerate(t.elts):
                if star and i == star[0]:
                    if v.op in ("tuple", "list") and not any(x.op == "star" for x in v.a[0]):
                        k = len(v.a[0]) - (n - 1)
                        self.assign(e.value, mk("list", v.a[0][i:i + k]), st, node)
                    else:
                        self.assign(e.value, mk("rest", v, i), st, node)
                elif star and i > star[0]:
                    self.assign(e, I.sub(v, const(i - n)), st, node)
                else:
                    self.assign(e, self.item(v, i), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            I.ev("setattr", v, (b, t.attr), st, node, self.m)
            ty = I.typeof(b)
            if ty is not None:
                sf = ty[0].setter(t.attr)
                if sf is not None and (ty[1] or len(I.p.impls(ty[0], t.attr)) >= 1) and I.policy.inline(sf, I.stack):
                    I.call_func(sf, [b, v], {}, st, node, self)
                    return
            st.heap[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            I.ev("setitem", v, (b, k), st, node, self.m)
            if b.op == "new" and I.policy.strict and (b, "__built__") in st.heap:
                ty = I.typeof(b)
                sf = ty[0].method("__setitem__") if ty is not None and ty[1] else None
                if sf is not None and I.policy.inline(sf, I.stack):
                    I.call_func(sf, [b, k, v], {}, st, node, self)
                    return
            self.rebind(t.value, self.put(b, k, v), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def item(self, v: T, i: int) -> T:
        if v.op == "ite" and n_leaves(v) <= 6:
            return ite(v.a[0], self.item(v.a[1], i), self.item(v.a[2], i))
        if v.op == "map" and v.a[3] is TRUE:
            return mk("sub", v, const(i))
        return self.I.sub(v, const(i))

    def rebind(self, e, nv: T, st: State):
        """after an in-place update of expression e, update the place that holds it"""
        if isinstance(e, ast.Name):
            if e.id in st.env:
                slot = self.held.get(e.id)
                if slot is not None and st.heap.get(slot) is st.env[e.id]:
                    st.heap[slot] = nv
                st.env[e.id] = nv
        elif isinstance(e, ast.Attribute):
            b = self.ev(e.value, st)
            st.heap[(b, e.attr)] = nv
        elif isinstance(e, ast.Subscript):
            b = self.ev(e.value, st)
            k = self.ev(e.slice, st)
            self.rebind(e.value, self.put(b, k, nv), st)

    def put(self, b: T, k: T, v: T) -> T:
        if b.op == "list" and is_const(k) and isinstance(cval(k), int) and -len(b.a[0]) <= cval(k) < len(b.a[0]) and not any(x.op == "star" for x in b.a[0]):
            xs = list(b.a[0])
            xs[cval(k)] = v
            return mk("list", tuple(xs))
        return self.I.dict_set(b, k, v)

    def s_If(self, s, st):
        I = self.I
        c = self.cond(s.test, st)
        d = I.decide(c, st)
        if d is True:
            return self.block(s.body, st)
        if d is False:
            return self.block(s.orelse, st)
        neg = c.op == "not"
        s1 = st.copy().assume(c, True)
        s2 = st.copy().assume(c, False)
        o1 = self.block(s.body, s1)
        o2 = self.block(s.orelse, s2)
        ret = None
        if o1.ret is not None or o2.ret is not None:
            ret = ite(c, o1.ret if o1.ret is not None else FALL, o2.ret if o2.ret is not None else FALL)
            # a side that definitely terminates leaves no FALL; sides that fall are merged below
        out = Out(None, ret, o1.conts + o2.conts, o1.brks + o2.brks)
        if o1.st is not None and o2.st is not None:
            mst = merge2(o1.st, o2.st)
            mst.guards = st.guards if len(mst.guards) < len(st.guards) else mst.guards
            out.st = mst
        else:
            out.st = o1.st or o2.st
        return out

    def s_With(self, s, st):
        I = self.I
        ctxs = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            ctxs.append(v)
            I.ev("with", v, (), st, s, self.m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if v.op == "file" else mk("enter", v), st, s)
        g = st.guards
        st.guards = st.guards + tuple((mk("within", v), True) for v in ctxs)
        o = self.block(s.body, st)
        if o.st is not None:
            o.st.guards = tuple(x for x in o.st.guards if not (x[0].op == "within" and x[0].a[0] in ctxs and x not in g))
        for v in ctxs:
            I.ev("withexit", v, (), State(guards=g), s, self.m)
        return o

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        I = self.I
        before = st.copy()
        I._n += 1
        tag = I._n
        nf = len(self.final_states)
        st.guards = st.guards + ((mk("within", mk("try", tag, tuple(ast.unparse(h.type) if h.type else "" for h in s.handlers))), True),)
        o = self.block(s.body, st)
        if o.st is not None:
            o.st.guards = before.guards + o.st.guards[len(before.guards) + 1:]
            oe = self.block(s.orelse, o.st)
            o = Out(oe.st, seq_ret(o.ret, oe.ret), o.conts + oe.conts, o.brks + oe.brks)
        ret, cur = o.ret, o.st
        conts, brks = list(o.conts), list(o.brks)
        for i, h in enumerate(s.handlers):
            tn = ast.unparse(h.type) if h.type is not None else "BaseException"
            if I.policy.strict:
                hit = [x for x, _ in leaves_of(ret) if x.op == "raise" and _caught(x, tn)] if ret is not None else []
                if not hit:
                    continue
                hs = before.copy()
                if o.st is None and ret.op == "raise" and self.raised is not None:
                    # the body definitely raises: the handler sees its effects up to that point
                    hs.env, hs.heap = dict(self.raised[0]), dict(self.raised[1])
                if h.name:
                    hs.env[h.name] = mk("excval", tn)
                oh = self.block(h.body, hs)
                conts += oh.conts
                brks += oh.brks
                r1 = oh.ret if oh.ret is not None else FALL
                ret = map_leaves(ret, lambda x: (r1 if x.op == "raise" and _caught(x, tn) else x))
                if ret is FALL:
                    ret = None
                if oh.st is not None:
                    cur = oh.st if cur is None else merge2(oh.st, cur)
                continue
            e = mk("exc", tn, tag, i)
            hs = before.copy().assume(e, True)
            if h.name:
                hs.env[h.name] = mk("excval", tn)
            oh = self.block(h.body, hs)
            conts += oh.conts
            brks += oh.brks
            r1 = oh.ret if oh.ret is not None else FALL
            if ret is not None or oh.ret is not None:
                body = ret if ret is not None else FALL
                body = map_leaves(body, lambda x: (r1 if x.op == "raise" and _caught(x, tn) else x))
                ret = ite(e, r1, body)
            if oh.st is not None:
                if cur is not None:
                    base = cur.copy()
                    base.guards = before.guards + ((e, False),)
                    cur = merge2(oh.st, base)
                else:
                    cur = oh.st
        if s.finalbody:
            if cur is not None:
                of = self.block(s.finalbody, cur)
                cur = of.st
                if of.ret is not None:
                    ret = seq_ret(ret, of.ret)
            else:
                fs = before.copy()
                self.block(s.finalbody, fs)
        return Out(cur, ret, conts, brks)

    s_TryStar = s_Try

    # loops --------------------------------------------------------------------------
    def s_For(self, s, st):
        I = self.I
        coll = self.iterated(self.ev(s.iter, st), st, s)
        fin = finite_items(I, coll)
        if fin is not None and len(fin) <= I.policy.unroll:
            jumps = any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s))
            o = self.unroll(s, st, fin) if not jumps and not s.orelse else None
            if o is None and (jumps or s.orelse):
                nev, nfin = len(I.events), len(self.final_states)
                o = self.unroll(s, st.copy(), fin)
                if o is None:
                    del I.events[nev:]
                    del self.final_states[nfin:]
            if o is not None:
                return o
        return self.loop(s, st, coll, lambda b: self.assign(s.target, I.elem(coll), b, s))

    def unroll(self, s, st, fin):
        """iterate over a known finite collection; None when a conditional break cannot be followed"""
        ret = None
        cur = st
        brks = []
        rets = any(isinstance(n, (ast.Return, ast.Raise)) for b in s.body for n in ast.walk(b))
        for x in fin:
            if cur is None:
                break
            self.assign(s.target, x, cur, s)
            o = self.block(s.body, cur)
            ret = seq_ret(ret, o.ret)
            ends = [e for e in [o.st] + o.conts if e is not None]
            if o.brks and ends and (rets or s.orelse):
                return None
            brks += o.brks
            cur = merge_states(ends) if len(ends) > 1 else ends[0] if ends else None
        if s.orelse and cur is not None:
            o = self.block(s.orelse, cur)
            ret = seq_ret(ret, o.ret)
            cur = o.st
        ends = [e for e in [cur] + brks if e is not None]
        return Out(merge_states(ends) if len(ends) > 1 else ends[0] if ends else None, ret)

    def s_While(self, s, st):
        c = self.cond(s.test, st)
        I = self.I
        if I.decide(c, st) is False:
            return Out(st)
        if I.policy.strict and I.decide(c, st) is True and not s.orelse:
            nev, nfin = len(I.events), len(self.final_states)
            o = self.unroll_while(s, st.copy())
            if o is not None:
                return o
            del I.events[nev:]
            del self.final_states[nfin:]
        coll = mk("while", c)
        return self.loop(s, st, coll, lambda b: b.assume(self.cond(s.test, b), True), wh=s)

    def unroll_while(self, s, cur):
        """a loop whose condition is decided in every round; None if it is not, or after too many rounds"""
        ret, brks = None, []
        for _ in range(4 * self.I.policy.unroll):
            d = self.I.decide(self.cond(s.test, cur), cur)
            if d is None:
                return None
            if d is False:
                break
            o = self.block(s.body, cur)
            ends = [e for e in [o.st] + o.conts if e is not None]
            if o.brks and ends:
                return None
            ret = seq_ret(ret, o.ret)
            brks += o.brks
            if not ends:
                cur = None
                break
            cur = merge_states(ends) if len(ends) > 1 else ends[0]
        else:
            return None
        ends = [e for e in [cur] + brks if e is not None]
        return Out(merge_states(ends) if len(ends) > 1 else ends[0] if ends else None, ret)

    def loop(self, s, st: State, coll: T, bind, wh=None) -> Out:
        I = self.I
        assigned = assigned_places(s.body)
        pre = st.copy()
        body = st.copy()
        prevs = {}
        for k, n in enumerate(assigned):
            if n in body.env:
                pv = mk("prev", k, coll)
                if body.env[n] in I.types:
                    I.types.setdefault(pv, I.types[body.env[n]])
                prevs[n] = pv
                body.env[n] = pv
        body0 = body
        changed = set()
        for attempt in range(3):
            body = body0.copy()
            hprev = {}
            for (b, a) in list(body.heap):
                if (b, a) in changed or heap_written(s.body, a):
                    pv = mk("prev", ("h", a), coll)
                    hprev[(b, a)] = (pv, body.heap[(b, a)])
                    body.heap[(b, a)] = pv
            body.guards = body.guards + ((mk("inloop", coll), True),)
            bind(body)
            nev, nfin = len(I.events), len(self.final_states)
            o = self.block(s.body, body)
            # attributes rewritten by the body (directly or in a callee) are loop-carried: repeat with them havocked
            more = {k for x in [o.st] + o.conts + o.brks if x is not None for k, v in x.heap.items()
                    if k in body0.heap and k not in hprev and body0.heap[k] is not v}
            if not more or attempt == 2:
                break
            changed |= more
            del I.events[nev:]
            del self.final_states[nfin:]
        ends = [x for x in [o.st] + o.conts if x is not None]
        ret = None
        if o.ret is not None:
            # early exit from the loop
            def wrap(t):
                return t

            ret = None
            lv = list(leaves(o.ret))
            acc = FALL
            for leaf, g in reversed(lv):
                if leaf is FALL:
                    continue
                cond = and_([c if v else not_(c) for c, v in g])
                acc = ite(mk("exists", coll, cond), leaf, acc)
            ret = acc
        after = pre
        if I.policy.strict and not ends and not o.brks and o.ret is not None and all(is_raise_leaf(l) for l, _ in leaves(o.ret)):
            raise Budget()  # the body fails on an unresolved element: nothing is known about what follows
        if ends or o.brks:
            end = merge_states(ends) if ends else None
            # break paths: variables assigned before break are visible afterwards
            for n in assigned:
                init = pre.env.get(n)
                upd = end.env.get(n) if end is not None else None
                for bs in o.brks:
                    bv = bs.env.get(n)
                    if bv is None:
                        continue
                    bc = and_([c if v else not_(c) for c, v in bs.guards[len(pre.guards) + 1:]])
                    upd = bv if upd is None else ite(mk("exists", coll, bc), bv, upd)
                if upd is None:
                    continue
                after.env[n] = self.summarise(init, upd, prevs.get(n), coll, bool(o.brks))
            if end is not None:
                for (b, a), v in end.heap.items():
                    if (b, a) in hprev:
                        pv, init = hprev[(b, a)]
                        after.heap[(b, a)] = self.summarise(init, v, pv, coll, bool(o.brks))
                    elif pre.heap.get((b, a)) is not v:
                        after.heap[(b, a)] = v
            if not isinstance(getattr(s, "target", None), type(None)):
                for n in names_in(s.target):
                    if end is not None and n in end.env:
                        after.env[n] = end.env[n]
        if s.orelse:
            oe = self.block(s.orelse, after)
            return Out(oe.st, seq_ret(ret, oe.ret))
        if wh is not None and not o.brks:
            c = None
        return Out(after, ret)

    def summarise(self, init, upd, prev, coll, brk=False):
        I = self.I
        if prev is None:
            return upd if init is None else ite(mk("nonempty", coll), upd, init)
        if upd is prev:
            return init
        if not contains(upd, prev):
            if init is upd:
                return init
            return mk("last", coll, upd, init)
        r = self._acc(init, upd, prev, coll, TRUE)
        if r is not None:
            return r
        return mk("loop", init, upd, coll)

    def _acc(self, init, upd, prev, coll, cond):
        if upd.op == "ite":
            c, a, b = upd.a
            if b is prev and not contains(c, prev):
                return self._acc(init, a, prev, coll, and_([cond, c]))
            if a is prev and not contains(c, prev):
                return self._acc(init, b, prev, coll, and_([cond, not_(c)]))
            return None
        if upd.op == "list" and upd.a[0] and upd.a[0][0] is mk("star", prev):
            items = upd.a[0][1:]
            if any(contains(x, prev) for x in items):
                return None
            if len(items) == 1 and items[0].op != "star":
                body = mk("map", "list", items[0], coll, cond)
            else:
                body = mk("flat", mk("list", items), coll, cond)
            if init.op == "list" and not init.a[0]:
                return body
            return self.I.cat(init, body)
        if upd.op == "upd" and upd.a[0] is prev and not contains(upd.a[1], prev) and not contains(upd.a[2], prev):
            body = mk("dmap", upd.a[1], upd.a[2], coll, cond)
            if init.op == "dict" and not init.a[0]:
                return body
            return mk("dict", (init.a[0] if init.op == "dict" else ((mk("spread"), init),)) + ((mk("spread"), body),))
        if upd.op == "bin" and upd.a[1] is prev and not contains(upd.a[2], prev):
            return mk("fold", upd.a[0], init, upd.a[2], coll, cond)
        return None

    def s_Break(self, s, st):
        return Out(None, None, [], [st])

    def s_Continue(self, s, st):
        return Out(None, None, [st], [])

    # -- conditions --------------------------------------------------------------------
    def cond(self, e, st: State) -> T:
        I = self.I
        if isinstance(e, ast.BoolOp):
            out = []
            s2 = st.copy()
            s2.env = st.env
            s2.heap = st.heap
            for v in e.values:
                c = self.cond(v, s2)
                d = I.decide(c, s2)
                if isinstance(e.op, ast.And):
                    if d is False:
                        return FALSE if not out else and_(out + [c]) if False else FALSE
                    if d is True:
                        continue
                    out.append(c)
                    s2.assume(c, True)
                else:
                    if d is True:
                        return TRUE
                    if d is False:
                        continue
                    out.append(c)
                    s2.assume(c, False)
            return and_(out) if isinstance(e.op, ast.And) else or_(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        return self.truth_of(self.ev(e, st), st, e)

    def truth_of(self, v: T, st: State, node) -> T:
        """truth value of an object, through its __bool__ or __len__"""
        I = self.I
        if v.op in ("new", "atom") and I.policy.obj:
            ty = I.typeof(v)
            if ty and ty[1] and (v, "__built__") in st.heap:
                for nm in ("__bool__", "__len__"):
                    m = ty[0].method(nm)
                    if m is not None:
                        if not I.policy.inline(m, I.stack):
                            break
                        r = self.apply(I.attr(v, nm, st, self, node), [], {}, st, node)
                        if is_const(r):
                            return TRUE if cval(r) else FALSE
                        break
        return I.truth(v)

    # -- expressions -------------------------------------------------------------------
    def ev(self, e, st: State, stmt=False) -> T:
        I = self.I
        I.steps += 1
        if I.steps > I.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("unk", type(e).__name__, ast.dump(e)[:80])
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return mk("const", "ellipsis", "...")
        return const(v)

    def e_Name(self, e, st):
        if e.id in st.env:
            if st.env[e.id].op == "undef" and self.I.policy.strict:
                raise AbsRaise(abs_error("UnboundLocalError", const(e.id)))
            return st.env[e.id]
        if e.id == "__class__" and self.cls is not None:
            return mk("cls", self.cls.qual)
        r = self.m.resolve(e.id)
        if r is None and self.I.policy.strict and self.f is not None and isinstance(self.f.node, ast.FunctionDef) and e.id in locals_of(self.f.node):
            raise AbsRaise(abs_error("UnboundLocalError", const(e.id)))
        return self.I.entity(r, e.id)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.I.attr(b, e.attr, st, self, e)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        i = self.ev(e.slice, st)
        if b.op in ("cls", "ext") and b.op == "ext" and b.a[0].split(".")[-1] in ("list", "dict", "tuple", "List", "Dict", "Tuple", "Callable", "Optional"):
            return b
        if self.I.policy.rec and b.op in ("atom", "new"):
            c = self.I.exact.get(b) or (self.I.p.cls(b.a[0]) if b.op == "new" else None)
            if c is not None and c.lookup("__getitem__") is not None:
                return self.apply(self.I.attr(b, "__getitem__", st, self, e), [i], {}, st, e)
        return self.I.sub(b, i, st)

    def e_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.ev(x, st)
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        return mk("tuple", self.items(e.elts, st))

    def e_List(self, e, st):
        return mk("list", self.items(e.elts, st))

    def e_Set(self, e, st):
        return mk("set", self.items(e.elts, st))

    def items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                if v.op not in ("list", "tuple"):
                    w = self.iterated(v, st, x)
                    fi = finite_items(self.I, w) if w.op in ("call", "tuple", "list", "set") else None
                    v = mk("list", tuple(fi)) if fi is not None and self.I.policy.rec else v
                if v.op in ("list", "tuple"):
                    out.extend(v.a[0])
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(x, st))
        return tuple(out)

    def e_Starred(self, e, st):
        return mk("star", self.ev(e.value, st))

    def e_Dict(self, e, st):
        d = mk("dict", ())
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                if vv.op == "dict":
                    for kk, v2 in vv.a[0]:
                        if kk.op == "spread":
                            d = mk("dict", d.a[0] + ((kk, v2),))
                        else:
                            d = self.I.dict_set(d, kk, v2)
                else:
                    d = mk("dict", d.a[0] + ((mk("spread"), vv),))
            else:
                d = self.I.dict_set(d, self.ev(k, st), vv)
        return d

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st)
                    try:
                        x = const(format(cval(x), cval(sp))) if is_const(x) and is_const(sp) else mk("fmt", x, sp)
                    except (ValueError, TypeError):
                        x = mk("fmt", x, sp)
                parts.append(x)
            else:
                parts.append(self.ev(v, st))
        out = []
        for x in parts:
            if is_const(x) and not isinstance(cval(x), str):
                x = const(str(cval(x)))
            if out and is_const(out[-1]) and is_const(x):
                out[-1] = const(str(cval(out[-1])) + str(cval(x)))
            else:
                out.append(x)
        if len(out) == 1 and is_const(out[0]):
            return out[0]
        if not out:
            return const("")
        return mk("joined", tuple(out))

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(BINOPS.get(type(e.op), "?"), a, b, st, e)

    def dunder(self, x, name, st):
        I = self.I
        c = I.exact.get(x) or (I.p.cls(x.a[0]) if x.op == "new" else None)
        return None if c is None or x in I.ident or c.qual in I.value_classes else c.method(name)

    def binop(self, op, a, b, st, e, inplace=False):
        I = self.I
        if I.policy.obj and op in DUNDER and not (is_const(a) and is_const(b)):
            n = DUNDER[op]
            for x, y, nm in ([(a, b, f"__i{n}__")] if inplace else []) + [(a, b, f"__{n}__"), (b, a, f"__r{n}__")]:
                m = self.dunder(x, nm, st)
                if m is not None and I.policy.inline(m, I.stack):
                    return self.call_known(m, [x, y], {}, st, e)
        return I.binop(op, a, b)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        I = self.I
        v = self.ev(e.operand, st)
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        if is_const(v) and isinstance(cval(v), (int, float, complex)) and op in "+-":
            return const(-cval(v) if op == "-" else +cval(v))
        if I.policy.obj:
            m = self.dunder(v, {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op], st)
            if m is not None and I.policy.inline(m, I.stack):
                return self.call_known(m, [v], {}, st, e)
        if op == "+":
            return v
        return mk("un", op, v)

    def e_BoolOp(self, e, st):
        """value semantics of and/or"""
        I = self.I
        vals = e.values
        v = self.ev(vals[0], st)
        for nx in vals[1:]:
            c = I.truth(v)
            d = I.decide(c, st)
            isand = isinstance(e.op, ast.And)
            if d is not None:
                if d == isand:
                    v = self.ev(nx, st)
                    continue
                return v
            s2 = State(st.env, st.heap, dict(st.facts), st.guards).assume(c, isand)
            w = self.ev(nx, s2)
            bool_like = v.op in BOOL_OPS and (w.op in BOOL_OPS or is_const(w))
            if bool_like:
                v = and_([v, I.truth(w)]) if isand else or_([v, I.truth(w)])
            else:
                v = ite(c, w, v) if isand else ite(c, v, w)
        return v

    def e_Compare(self, e, st):
        I = self.I
        left = self.ev(e.left, st)
        outs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            outs.append(self.cmp(op, left, right, st))
            left = right
        return and_(outs) if len(outs) > 1 else outs[0]

    def cmp(self, op, a, b, st):
        I = self.I
        if I.policy.obj and isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.obj_eq(a, b, st)
            if r is not None:
                return r if isinstance(op, ast.Eq) else not_(r)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if b is NONE:
                r = I.isnone(a)
            elif a is NONE:
                r = I.isnone(b)
            else:
                fa, fb = st.facts.get(("=", a), a), st.facts.get(("=", b), b)
                r = I.cmp_eq(fa, fb)
                if r is not TRUE and r is not FALSE:
                    r = I.cmp_eq(a, b)
                if r.op == "eq" and type_cmp(r):
                    r = type_cmp(r)
            if isinstance(op, (ast.Is, ast.IsNot)) and r.op == "eq" and {a.op, b.op} == {"atom", "new"} and I.policy.rec:
                r = FALSE  # an object built during the evaluation is not one that existed before
            return r if isinstance(op, (ast.Is, ast.Eq)) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = None
            if I.policy.rec and b.op in ("atom", "new"):
                c = I.exact.get(b) or (I.p.cls(b.a[0]) if b.op == "new" else None)
                if c is not None and c.method("__contains__") is not None:
                    r = I.truth(self.apply(I.attr(b, "__contains__", st, self, None), [a], {}, st, None))
            if r is None and I.policy.obj:
                fi = finite_items(I, b)
                if fi is not None and b.op != "dict":
                    r = or_([self.cmp(ast.Eq(), x, a, st) for x in fi]) if fi else FALSE
            if r is None:
                r = I.cmp_in(a, b)
            return r if isinstance(op, ast.In) else not_(r)
        if is_const(a) and is_const(b):
            try:
                va, vb = cval(a), cval(b)
                return const({ast.Lt: va < vb, ast.LtE: va <= vb, ast.Gt: va > vb, ast.GtE: va >= vb}[type(op)])
            except Exception:
                pass
        if isinstance(op, ast.Lt):
            return mk("lt", a, b)
        if isinstance(op, ast.Gt):
            return mk("lt", b, a)
        if isinstance(op, ast.LtE):
            return not_(mk("lt", b, a))
        if isinstance(op, ast.GtE):
            return not_(mk("lt", a, b))
        return mk("cmp", type(op).__name__, a, b)

    def obj_eq(self, a, b, st):
        I = self.I
        if a.op == "new" and b.op == "new" and a.a[0] == b.a[0] and a.a[0] in I.value_classes:
            va, vb = [x for k, x in a.a[1] if k != "#"], [x for k, x in b.a[1] if k != "#"]
            return TRUE if va == vb else FALSE if all(is_const(x) for x in va + vb) else None
        ta, tb = tupval(I, a), tupval(I, b)
        for x, y in ((a, b), (b, a)):
            m = self.dunder(x, "__eq__", st)
            if m is not None and I.policy.inline(m, I.stack):
                v = self.call_known(m, [x, y], {}, st, None)
                return v if v.op == "new" else I.truth(v)  # an elementwise comparison is an object
        if ta is not None or tb is not None:
            return self.cmp(ast.Eq(), ta or a, tb or b, st)
        if a.op in ("tuple", "list") and a.op == b.op and not any(x.op == "star" for x in a.a[0] + b.a[0]):
            if len(a.a[0]) != len(b.a[0]):
                return FALSE
            return and_([self.cmp(ast.Eq(), x, y, st) for x, y in zip(a.a[0], b.a[0])])
        return None

    def e_IfExp(self, e, st):
        I = self.I
        c = self.cond(e.test, st)
        d = I.decide(c, st)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st)
        s1 = State(st.env, st.heap, dict(st.facts), st.guards).assume(c, True)
        s2 = State(st.env, st.heap, dict(st.facts), st.guards).assume(c, False)
        return ite(c, self.ev(e.body, s1), self.ev(e.orelse, s2))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        return self.closure(e, st, "<lambda>")

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = NONE if e.value is None else self.ev(e.value, st)
        self.I.ev("yield", v, (), st, e, self.m)
        return mk("unk", "yield", id(e))

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.I.ev("yield", mk("star", v), (), st, e, self.m)
        return mk("unk", "yieldfrom", id(e))

    def closure(self, node, st, name) -> T:
        I = self.I
        loads = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
        cap = tuple(sorted((k, v) for k, v in st.env.items() if k in loads))
        cap = tuple((k, v) for k, v in cap)
        key = f"{self.m.name}:{getattr(node, 'lineno', 0)}:{name}:{getattr(node, 'col_offset', 0)}"
        if key not in I._clo:
            I._clo[key] = Func(
                f"{(self.f.qual if self.f else self.m.name)}.<{name}>", name, node, self.m, None,
                list(getattr(node, "decorator_list", [])),
            )
            I._clo[key].owner_cls = self.cls
        return mk("clo", key, cap)

    def iterated(self, coll: T, st: State, node) -> T:
        """what iterating over `coll` visits, when its class is known exactly and defines iteration over one of its own fields"""
        I = self.I
        tv = tupval(I, coll)
        if tv is not None:
            return tv
        if coll.op == "call" and coll.a[0] is mk("ext", "builtins.iter") and len(coll.a[1]) == 1:
            return self.iterated(coll.a[1][0][1], st, node)
        c = I.exact.get(coll)
        if c is None and coll.op == "new" and I.policy.rec:
            c = I.p.cls(coll.a[0])
        if c is None:
            return coll
        m = c.method("__iter__")
        if m is None or not I.policy.inline(m, I.stack) or m.is_generator:
            return coll
        s2 = st.copy()
        r = I.call_func(m, [coll], {}, s2, node, self)
        it = mk("ext", "builtins.iter")
        if r is coll:
            nx = c.method("__next__")
            if nx is None:
                return coll
            r = I.call_func(nx, [coll], {}, s2, node, self)
            if r.op == "call" and r.a[0] is mk("ext", "builtins.next") and len(r.a[1]) == 1:
                r = r.a[1][0][1]
            else:
                return coll
        if r.op == "call" and r.a[0] is it and len(r.a[1]) == 1:
            return self.iterated(r.a[1][0][1], st, node)
        return coll

    # comprehensions
    def comp(self, e, st, kind, mkbody):
        I = self.I
        s = State(dict(st.env), st.heap, dict(st.facts), st.guards)
        gens = e.generators

        def expand(i, s, coll=None):
            """the elements when every collection is finite and every condition decided, else None"""
            g = gens[i]
            if coll is None:
                coll = self.iterated(self.ev(g.iter, s), s, e)
            fin = finite_items(I, coll)
            if fin is None or len(fin) > I.policy.unroll:
                return None
            items = []
            for x in fin:
                s2 = State(dict(s.env), s.heap, dict(s.facts), s.guards)
                self.assign(g.target, x, s2, e)
                keep = True
                for c in g.ifs:
                    d = I.decide(self.cond(c, s2), s2)
                    if d is None:
                        return None
                    if not d:
                        keep = False
                        break
                if keep:
                    if i + 1 < len(gens):
                        sub = expand(i + 1, s2)
                        if sub is None or len(items) + len(sub) > 4 * I.policy.unroll:
                            return None
                        items += sub
                    else:
                        items.append(mkbody(s2))
                s.heap = s2.heap
            return items

        def go(i, s):
            g = gens[i]
            coll = self.iterated(self.ev(g.iter, s), s, e)
            if i == 0 and kind in ("list", "gen", "set", "dict"):
                s0 = State(dict(s.env), s.heap, dict(s.facts), s.guards)
                items = expand(0, s0, coll)
                if items is not None:
                    st.heap = s0.heap
                    if kind == "dict":
                        d = mk("dict", ())
                        for kv in items:
                            d = I.dict_set(d, kv[0], kv[1])
                        return d
                    return mk("list" if kind != "set" else "set", tuple(items))
            s.guards = s.guards + ((mk("inloop", coll), True),)
            self.assign(g.target, I.elem(coll), s, e)
            conds = []
            for c in g.ifs:
                cc = self.cond(c, s)
                conds.append(cc)
                s.assume(cc, True)
            cond = and_(conds)
            if i + 1 < len(gens):
                inner = go(i + 1, s)
                return mk("flat", inner, coll, cond)
            b = mkbody(s)
            if kind == "dict":
                return mk("dmap", b[0], b[1], coll, cond)
            # identity comprehension
            if b is I.elem(coll) and cond is TRUE and kind in ("list", "gen"):
                return mk("call", mk("ext", "builtins.list"), ((0, coll),)) if coll.op not in ("map", "list") else coll
            if coll.op == "map" and coll.a[3] is not TRUE:
                pass
            return mk("map", "list" if kind == "gen" else kind, b, coll, cond)

        return go(0, s)

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", lambda s: self.ev(e.elt, s))

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen", lambda s: self.ev(e.elt, s))

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", lambda s: self.ev(e.elt, s))

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict", lambda s: (self.ev(e.key, s), self.ev(e.value, s)))

    # calls
    def e_Call(self, e, st):
        I = self.I
        # in-place mutators on a place
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS:
            b = self.ev(e.func.value, st)
            ty = I.typeof(b)
            if not (ty and ty[0].lookup(e.func.attr)) and b.op not in ("mod", "cls", "ext", "super"):
                args = self.items(e.args, st)
                kw = self.kwargs(e, st)
                return self.mutate(e, b, e.func.attr, args, kw, st)
        f = self.ev(e.func, st)
        args = list(self.items(e.args, st))
        kw = self.kwargs(e, st)
        return self.apply(f, args, kw, st, e)

    def kwargs(self, e, st):
        kw = {}
        n = 0
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.op == "dict" and all(kk.op == "const" and isinstance(cval(kk), str) for kk, _ in v.a[0]):
                    for kk, vv in v.a[0]:
                        kw[cval(kk)] = vv
                else:
                    kw[f"**{n}"] = v
                    n += 1
            else:
                kw[k.arg] = v
        return kw

    def mutate(self, e, b, name, args, kw, st):
        I = self.I
        pairs = I.norm_args(None, args, kw)
        res = mk("call", mk("attr", b, name), pairs)
        I.ev("mutcall", res, (b, name, args), st, e, self.m)
        I.ev("call", res, (), st, e, self.m)
        nv = None
        ret = NONE
        if name == "append" and len(args) == 1:
            nv = I.cat(b if b.op in ("list",) else mk("list", (mk("star", b),)), mk("list", (args[0],)))
        elif name == "extend" and len(args) == 1:
            nv = I.cat(b if b.op in ("list",) else mk("list", (mk("star", b),)), args[0] if args[0].op in ("list", "tuple") else mk("list", (mk("star", args[0]),)))
        elif name == "insert" and len(args) == 2 and args[0] is const(0):
            nv = mk("list", (args[1],) + (b.a[0] if b.op == "list" else (mk("star", b),)))
        elif name == "remove" and len(args) == 1 and b.op == "list" and all(I.cmp_eq(x, args[0]) in (TRUE, FALSE) for x in b.a[0]) and any(I.cmp_eq(x, args[0]) is TRUE for x in b.a[0]):
            xs = list(b.a[0])
            xs.pop(next(i for i, x in enumerate(xs) if I.cmp_eq(x, args[0]) is TRUE))
            nv = mk("list", tuple(xs))
        elif name == "remove" and I.policy.obj and len(args) == 1 and b.op == "list" and b.a[0]:
            xs = list(b.a[0])
            for i, x in enumerate(xs):
                d = I.decide(self.cmp(ast.Eq(), x, args[0], st), st)
                if d is None:
                    nv = mk("mutated", b, name, tuple(args))
                    break
                if d:
                    nv = mk("list", tuple(xs[:i] + xs[i + 1:]))
                    break
        elif name == "add" and len(args) == 1:
            nv = mk("set", (b.a[0] if b.op == "set" else (mk("star", b),)) + (args[0],))
        elif name == "update" and (args or kw):
            d = b if b.op == "dict" else mk("dict", ((mk("spread"), b),))
            for a in args:
                if a.op == "dict":
                    for kk, vv in a.a[0]:
                        d = mk("dict", d.a[0] + ((kk, vv),)) if kk.op == "spread" else I.dict_set(d, kk, vv)
                else:
                    d = mk("dict", d.a[0] + ((mk("spread"), a),))
            for k, v in kw.items():
                d = mk("dict", d.a[0] + ((mk("spread"), v),)) if k.startswith("**") else I.dict_set(d, const(k), v)
            nv = d
        elif name == "pop":
            if args:
                r = I.dict_get(b, args[0])
                ret = r if isinstance(r, T) else (args[1] if r == "missing" and len(args) > 1 else res)
            else:
                ret = res
            if b.op == "list" and I.policy.rec and not any(x.op == "star" for x in b.a[0]) and b.a[0] and (not args or is_const(args[0]) and isinstance(cval(args[0]), int) and -len(b.a[0]) <= cval(args[0]) < len(b.a[0])):
                xs = list(b.a[0])
                ret = xs.pop(cval(args[0]) if args else -1)
                nv = mk("list", tuple(xs))
            elif args and b.op == "dict" and ckey(args[0]):
                nv = mk("dict", tuple((k, v) for k, v in b.a[0] if k is not args[0]))
            else:
                nv = mk("popped", b, args[0] if args else NONE)
        elif name == "setdefault":
            ret = res
            nv = mk("dict", ((args[0], args[1] if len(args) > 1 else NONE), (mk("spread"), b))) if args else None
        elif name == "clear":
            nv = mk("list", ()) if b.op == "list" else mk("dict", ())
        else:
            ret = res
            nv = mk("mutated", b, name, tuple(args))
        if nv is not None:
            self.rebind(e.func.value, nv, st)
        return ret

    def apply(self, f: T, args, kw, st: State, node) -> T:
        I = self.I
        I.steps += 1
        if I.steps > I.max_steps:
            raise Budget()
        if I.models:
            key, margs = (f.a[0], args) if f.op in ("fn", "ext", "cls") else (f.a[0], [f.a[1]] + args) if f.op == "bound" else ("." + f.a[1], [f.a[0]] + args) if f.op == "attr" else (None, None)
            if key in I.models:
                r = I.models[key](margs, kw, st)
                if r is not None:
                    I.ev("call", mk("call", f, I.norm_args(None, args, kw)), (), st, node, self.m)
                    return r
        if f.op == "ite" and n_leaves(f) <= 8:
            c = f.a[0]
            d = I.decide(c, st)
            if d is not None:
                return self.apply(f.a[1] if d else f.a[2], args, kw, st, node)
            s1 = st.copy().assume(c, True)
            s2 = st.copy().assume(c, False)
            a = self.apply(f.a[1], args, kw, s1, node)
            b = self.apply(f.a[2], args, kw, s2, node)
            m = merge2(s1, s2)
            st.heap, st.facts = m.heap, m.facts
            return ite(c, a, b)
        if f.op == "partial":
            return self.apply(f.a[0], list(f.a[1]) + args, {**dict(f.a[2]), **kw}, st, node)
        if f.op == "clo":
            fn = I._clo[f.a[0]]
            if I.policy.inline(fn, I.stack):
                cap = list(f.a[1])
                for n, v in st.env.items():
                    if n not in dict(cap):
                        cap.append((n, v)) if n in getattr(fn, "_loads", self._loads(fn)) else None
                I.ev("call", mk("call", f, I.norm_args(fn, args, kw)), (), st, node, self.m)
                fn.cls = None
                sub = fn
                old = getattr(fn, "owner_cls", None)
                return I.call_func(fn, args, kw, st, node, self, captured=cap)
            t = mk("call", f, I.norm_args(fn, args, kw))
            I.ev("call", t, (), st, node, self.m)
            return t
        if f.op == "fn":
            fn = I.fn_by_qual(f.a[0])
            if fn is not None:
                return self.call_known(fn, args, kw, st, node)
        if f.op == "bound":
            fn = I.fn_by_qual(f.a[0])
            if fn is not None:
                return self.call_known(fn, [f.a[1]] + args, kw, st, node)
        if f.op == "cls":
            return self.construct(f, args, kw, st, node)
        if f.op == "ext":
            r = self.builtin(f.a[0], args, kw, st, node)
            if r is not None:
                return r
        if f.op == "attr" and f.a[0].op == "extsuper" and f.a[1] == "__new__" and len(args) == 2 and args[0].op == "cls" and I.policy.obj:
            fi = finite_items(I, args[1])
            return mk("new", args[0].a[0], (("*", mk("tuple", tuple(fi)) if fi is not None else args[1]),))
        if f.op == "attr":
            r = self.method_on_value(f.a[0], f.a[1], args, kw, st, node)
            if r is not None:
                return r
            # virtual call: normalise arguments when all implementations agree on the parameter order
            ty = I.typeof(f.a[0])
            if ty is not None:
                fm = ty[0].method(f.a[1])
                if fm is not None:
                    t = mk("call", f, I.norm_args(fm, args, kw, skip_self=fm.kind != "staticmethod"))
                    I.ev("call", t, (), st, node, self.m)
                    return t
        if f.op == "new":
            c = I.p.cls(f.a[0])
            m = c.method("__call__") if c else None
            if m is not None:
                return self.call_known(m, [f] + args, kw, st, node)
        t = mk("call", f, I.norm_args(None, args, kw))
        I.ev("call", t, (), st, node, self.m)
        return t

    def _loads(self, fn):
        fn._loads = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name)}
        return fn._loads

    def call_known(self, fn: Func, args, kw, st, node) -> T:
        I = self.I
        target = fn
        if fn.qual in I.dispatch and args:
            impl = self.pick_dispatch(fn, args[0], st)
            t = mk("call", mk("fn", fn.qual), I.norm_args(fn, args, kw))
            if impl is None:
                I.ev("call", t, (), st, node, self.m)
                return t
            target = impl
            if not I.policy.inline(fn, I.stack):
                I.ev("call", t, (), st, node, self.m)
                return t
        t = mk("call", mk("fn", fn.qual), I.norm_args(target, args, kw))
        I.ev("call", t, (), st, node, self.m)
        if I.policy.inline(target, I.stack):
            n = len(I.stack)
            try:
                return I.call_func(target, args, kw, st, node, self)
            except RecursionError:
                return t
        return t

    def pick_dispatch(self, fn: Func, arg: T, st):
        I = self.I
        table = I.dispatch[fn.qual]
        ty = I.typeof(arg)
        exactish = None
        if ty is not None:
            c = ty[0]
            best = None
            for k in c.mro:
                for tys, f in table:
                    if any(x is k or (isinstance(x, tuple) and x[0] == "ext" and x[1] == k) for x in tys):
                        best = f
                        break
                if best:
                    break
            if best is None:
                best = fn
            if ty[1]:
                return best
            # nominal: only if no registered strict subclass could win
            for tys, f in table:
                for x in tys:
                    if isinstance(x, Class) and x is not c and x.is_subclass(c.qual):
                        return None
            return best
        ext = None
        if arg.op in ("list", "map"):
            ext = "builtins.list"
        elif is_const(arg):
            ext = "builtins." + arg.a[0]
        if ext:
            for tys, f in table:
                if any(isinstance(x, tuple) and x[0] == "ext" and x[1] == ext for x in tys):
                    return f
        te = I.typexpr(arg)
        if te is not None:
            ts = _types(te[1], te[0])
            if len(ts) == 1 and isinstance(ts[0], tuple) and ts[0][0] == "ext":
                for tys, f in table:
                    if any(isinstance(x, tuple) and x == ts[0] for x in tys):
                        return f
        return None

    def construct(self, f: T, args, kw, st, node) -> T:
        I = self.I
        c = I.p.cls(f.a[0])
        if c is None:
            t = mk("call", f, I.norm_args(None, args, kw))
        elif c.is_enum:
            t = None
            if args and (is_const(args[0]) or args[0].op == "enum"):
                for n in c.enum_members():
                    if I.cmp_eq(mk("enum", c.qual, n), args[0]) is TRUE:
                        return mk("enum", c.qual, n)
            t = mk("call", f, I.norm_args(None, args, kw))
            if args:
                I.types.setdefault(t, (ast.Name(c.name, ast.Load()), c.module))
        else:
            init = c.method("__init__")
            if init is not None:
                t = mk("new", c.qual, I.norm_args(init, args, kw, skip_self=True))
            else:
                df = dataclass_fields(c)
                if df is not None:
                    pairs = []
                    names = [n for n, _ in df]
                    for i, a in enumerate(args):
                        if a.op == "star":
                            pairs.append(("*", a.a[0]))
                        elif i < len(names) and not any(k == "*" for k, _ in pairs):
                            pairs.append((names[i], a))
                        else:
                            pairs.append((i, a))
                    pairs += [("**" if k.startswith("**") else k, v) for k, v in kw.items()]
                    pairs.sort(key=lambda p: (p[0] in ("*", "**"), str(p[0])))
                    t = mk("new", c.qual, tuple(pairs))
                else:
                    t = mk("new", c.qual, I.norm_args(None, args, kw))
            if I.policy.obj:
                nw = c.method("__new__")
                if nw is not None and "builtins.tuple" in c.mro or "tuple" in c.mro:
                    if nw is not None and I.policy.inline(nw, I.stack):
                        return I.call_func(nw, [f] + list(args), dict(kw), st, node, self)
                    if nw is None and len(args) == 1:
                        return mk("new", c.qual, (("*", args[0]),))
                elif init is not None:
                    if any(k[0] is t for k in st.heap):
                        I._n += 1
                        t = mk("new", t.a[0], t.a[1] + (("#", const(I._n)),))
                    st.heap[(t, "__built__")] = TRUE
                    if I.policy.inline(init, I.stack):
                        I.call_func(init, [t] + list(args), dict(kw), st, node, self, force=True)
                elif I.policy.strict and dataclass_fields(c) is not None and not any(k in ("*", "**") for k, _ in t.a[1]):
                    if any(k[0] is t for k in st.heap):
                        I._n += 1
                        t = mk("new", t.a[0], t.a[1] + (("#", const(I._n)),))
                    st.heap[(t, "__built__")] = TRUE
                    given = {k: v for k, v in t.a[1]}
                    for n, d in dataclass_fields(c):
                        if n in given:
                            st.heap[(t, n)] = given[n]
                        elif d is not None:
                            st.heap[(t, n)] = I.eval_module_expr(d, c.module, ("dcdef", c.qual, n))
                    post = c.method("__post_init__")
                    if post is not None and I.policy.inline(post, I.stack):
                        I.call_func(post, [t], {}, st, node, self, force=True)
        I.ev("call", t, (), st, node, self.m)
        return t

    def lacks(self, b: T, name: str, st: State) -> bool:
        """an object built in view whose classes are all known and nowhere define or store the attribute"""
        I = self.I
        if not I.policy.strict or b.op != "new" or (b, "__built__") not in st.heap or (b, name) in st.heap:
            return False
        c = I.p.cls(b.a[0])
        if c is None or any(isinstance(x, str) and x.split(".")[-1] not in ("ABC", "object", "Generic") for x in c.mro):
            return False
        return not (c.lookup(name) or c.lookup("__getattr__") or c.lookup("__getattribute__") or I.field_assigned(c, name))

    def clone(self, x, st, deep, memo):
        """copy of a built object: a fresh identity with the same fields (copied in turn if deep)"""
        I = self.I
        if x.op in ("list", "tuple", "set"):
            return mk(x.op, tuple(self.clone(y, st, deep, memo) for y in x.a[0]))
        if x.op == "dict":
            return mk("dict", tuple((k, self.clone(v, st, deep, memo)) for k, v in x.a[0]))
        if x.op != "new" or (x, "__built__") not in st.heap or x.a[0] in I.value_classes:
            return x
        if x in memo:
            return memo[x]
        I._n += 1
        t = memo[x] = mk("new", x.a[0], tuple((k, v) for k, v in x.a[1] if k != "#") + (("#", const(I._n)),))
        for (o, k), v in list(st.heap.items()):
            if o is x:
                st.heap[(t, k)] = self.clone(v, st, deep, memo) if deep else v
        return t

    # ---- builtins ----
    def builtin(self, q, args, kw, st, node):
        I = self.I
        n = q[9:] if q.startswith("builtins.") else q
        if I.policy.rec and n in ("zip", "enumerate", "list", "tuple", "set", "sorted", "reversed", "map", "filter", "itertools.chain", "min", "max", "sum"):
            args = [self.iterated(a, st, node) if a.op in ("atom", "new") else a for a in args]
            if n == "zip" and not kw:
                fs = [finite_items(I, a) for a in args]
                if all(f is not None for f in fs):
                    return mk("list", tuple(mk("tuple", tuple(xs)) for xs in zip(*fs)))
        if n == "super":
            if args:
                return mk("super", args[0].a[0], args[1]) if args[0].op == "cls" and len(args) > 1 else None
            cls = self.cls or getattr(self.f, "owner_cls", None)
            selfn = self.f.params[0] if self.f and self.f.params else None
            if cls is not None and selfn and selfn in st.env:
                return mk("super", cls.qual, st.env[selfn])
            return None
        if n == "isinstance" and len(args) == 2:
            return self.isinstance_(args[0], args[1], st)
        if n == "callable" and len(args) == 1:
            a = args[0]
            if a.op in ("fn", "clo", "bound", "partial", "cls"):
                return TRUE
            if a.op in ("const", "list", "tuple", "dict", "set", "enum", "joined"):
                return FALSE
            return None
        if n == "issubclass" and len(args) == 2:
            a, b = args
            bs = b.a[0] if b.op == "tuple" else (b,)
            if a.op == "cls" and all(x.op == "cls" for x in bs):
                c = I.p.cls(a.a[0])
                return const(any(c.is_subclass(x.a[0]) for x in bs))
            return mk("issub", a, tuple(sorted(bs)))
        if n == "type" and len(args) == 1:
            return I.attr(args[0], "__class__", st, self, node)
        if n == "getattr" and len(args) >= 2 and args[1].op == "enum" and I.strval(args[1]) is not None:
            args = [args[0], const(I.strval(args[1]))] + list(args[2:])
        if n == "getattr" and len(args) >= 2 and is_const(args[1]):
            v = I.attr(args[0], cval(args[1]), st, self, node)
            if len(args) == 3:
                if v.op == "attr" and self.lacks(args[0], cval(args[1]), st):
                    return args[2]
                return ite(mk("hasattr", args[0], cval(args[1])), v, args[2]) if v.op == "attr" else v
            return v
        if n in ("int", "float") and len(args) == 1 and not kw and is_const(args[0]) and isinstance(cval(args[0]), (int, float, str)) and I.policy.rec:
            try:
                return const({"int": int, "float": float}[n](cval(args[0])))
            except (ValueError, OverflowError):
                pass
        if n in ("round", "abs", "format") and args and not kw and all(is_const(x) and isinstance(cval(x), (int, float, str)) for x in args):
            try:
                return const({"round": round, "abs": abs, "format": format}[n](*[cval(x) for x in args]))
            except (ValueError, TypeError):
                pass
        if n in ("min", "max") and I.policy.rec and args and set(kw) <= {"key"}:
            xs = finite_items(I, args[0]) if len(args) == 1 else list(args)
            key = kw.get("key")
            if xs and all(is_const(x) and isinstance(cval(x), (int, float)) for x in xs) and (key is None or key.op == "ext" and key.a[0] in ("builtins.abs", "abs")):
                return const({"min": min, "max": max}[n]([cval(x) for x in xs], key=abs if key is not None else None))
        if n == "globals" and not args and I.policy.strict:
            return mk("modglobals", self.m.name)
        if n == "hasattr" and len(args) == 2 and is_const(args[1]):
            ty = I.typeof(args[0])
            if ty and ty[1] and (ty[0].lookup(cval(args[1])) or I.field_assigned(ty[0], cval(args[1]))):
                return TRUE
            if I.policy.strict and args[0].op == "mod" and args[0].a[0] in I.p.modules and not cval(args[1]) in BUILTIN_NAMES:
                return const(I.p.modules[args[0].a[0]].resolve(cval(args[1])) is not None)
            if I.policy.strict and (args[0], cval(args[1])) in st.heap:
                return TRUE
            if I.policy.strict and args[0].op == "cls" and (c := I.p.cls(args[0].a[0])) is not None and c.lookup(cval(args[1])):
                return TRUE
            if self.lacks(args[0], cval(args[1]), st):
                return FALSE
            return mk("hasattr", args[0], cval(args[1]))
        if n == "setattr" and len(args) == 3 and is_const(args[1]):
            I.ev("setattr", args[2], (args[0], cval(args[1])), st, node, self.m)
            st.heap[(args[0], cval(args[1]))] = args[2]
            return NONE
        if n == "len" and len(args) == 1:
            a = tupval(I, args[0]) or args[0]
            if a.op in ("list", "tuple") and not any(x.op == "star" for x in a.a[0]):
                return const(len(a.a[0]))
            if a.op in ("dict", "set"):
                fi = finite_items(I, a)
                if fi is not None:
                    return const(len(set(fi)))
                if not a.a[0]:
                    return const(0)
            sv = I.strval(a) if a.op in ("const", "enum") else None
            if sv is not None:
                return const(len(sv))
            if a.op == "map" and a.a[3] is TRUE and a.a[0] != "set":
                return self.builtin(q, [a.a[2]], {}, st, node) or mk("call", mk("ext", q), ((0, a.a[2]),))
            if I.policy.rec and a.op in ("atom", "new"):
                c = I.exact.get(a) or (I.p.cls(a.a[0]) if a.op == "new" else None)
                m = c.lookup("__len__") if c is not None else None
                if m is not None:
                    r = self.apply(I.attr(a, "__len__", st, self, node), [], {}, st, node)
                    if is_const(r):
                        return r
            return mk("call", mk("ext", q), ((0, a),))
        if n in ("list", "tuple"):
            if not args:
                return mk(n, ())
            a = args[0]
            if a.op in ("list", "tuple"):
                return mk(n, a.a[0])
            if a.op in ("map",) and a.a[0] in ("list", "tuple"):
                return mk("map", "list", *a.a[1:]) if n == "list" else mk("map", "list", *a.a[1:])
            if a.op == "flat":
                return a
            if a.op == "call" and a.a[0] in (mk("ext", "builtins.list"), mk("ext", "builtins.tuple")):
                return mk("call", mk("ext", q), a.a[1])
            if a.op in ("call", "set", "dict") and (fi := finite_items(I, a)) is not None:
                return mk(n, tuple(fi))
            return mk("call", mk("ext", q), ((0, a),))
        if n == "collections.Counter" and I.policy.rec and len(args) <= 1 and not kw:
            if not args or args[0].op == "dict":
                return args[0] if args else mk("dict", ())
            fi = finite_items(I, args[0])
            if fi is not None and all(ckey(x) for x in fi):
                return mk("dict", tuple((x, const(fi.count(x))) for x in dict.fromkeys(fi)))
        if n == "dict":
            d = mk("dict", ())
            if args:
                a = args[0]
                if a.op in ("dict", "dmap"):
                    d = a
                elif a.op == "map" and a.a[1].op == "tuple" and len(a.a[1].a[0]) == 2:
                    d = mk("dmap", a.a[1].a[0][0], a.a[1].a[0][1], a.a[2], a.a[3])
                elif a.op == "call" and a.a[0] is mk("ext", "builtins.zip") and len(a.a[1]) == 2 and all(isinstance(k, int) for k, _ in a.a[1]):
                    e = I.elem(a)
                    d = mk("dmap", e.a[0][0], e.a[0][1], a, TRUE)
                elif (fi := finite_items(I, a)) is not None and all(x.op in ("tuple", "list") and len(x.a[0]) == 2 for x in fi):
                    for x in fi:
                        d = I.dict_set(d, x.a[0][0], x.a[0][1])
                else:
                    d = mk("dict", ((mk("spread"), a),))
            for k, v in kw.items():
                if d.op != "dict":
                    d = mk("dict", ((mk("spread"), d),))
                d = mk("dict", d.a[0] + ((mk("spread"), v),)) if k.startswith("**") else I.dict_set(d, const(k), v)
            return d
        if n in ("sorted", "reversed", "min", "max", "sum") and len(args) == 1 and (not kw or (n == "sorted" and set(kw) == {"reverse"} and is_const(kw["reverse"]))):
            items = finite_items(I, args[0]) if args[0].op != "dict" else None
            if items == [] and n == "sorted":
                return mk("list", ())
            if items is not None and (items or n == "reversed") and (n == "reversed" or all(is_const(x) and isinstance(cval(x), (int, float)) for x in items)):
                if n == "reversed":
                    return mk("list", tuple(reversed(items)))
                vs = [cval(x) for x in items]
                if n == "sorted":
                    return mk("list", tuple(const(v) for v in sorted(vs, reverse=bool(cval(kw["reverse"])) if kw else False)))
                return const({"min": min, "max": max, "sum": sum}[n](vs))
        if n in ("sorted", "min", "max") and len(args) == 1 and set(kw) <= {"key", "reverse"}:
            items = finite_items(I, args[0]) if args[0].op != "dict" else None
            rev = kw.get("reverse", FALSE)
            if items and len(items) <= I.policy.unroll * 2 and is_const(rev):
                keys = [plain(self.apply(kw["key"], [x], {}, st, node) if kw.get("key", NONE) is not NONE else x) for x in items]
                if len(items) > 1 and not all(k is not None for k in keys) and kw.get("key", NONE) is NONE and all(x.op == "tuple" and x.a[0] and is_const(x.a[0][0]) for x in items) and len({x.a[0][0] for x in items}) == len(items):
                    keys = [(cval(x.a[0][0]),) for x in items]  # tuples with different constant heads
                if len(items) == 1:
                    keys = [(0,)]
                if all(k is not None for k in keys):
                    try:
                        order = sorted(range(len(items)), key=lambda i: keys[i][0], reverse=bool(cval(rev)))
                        if n == "sorted":
                            return mk("list", tuple(items[i] for i in order))
                        return items[order[0]] if n == "min" else items[max(order, key=lambda i: keys[i][0])]
                    except TypeError:
                        pass
        if n in ("set", "list", "tuple") and len(args) == 1 and args[0].op in ("const", "enum") and (sv := I.strval(args[0])) is not None and len(sv) < 40:
            return mk(n, tuple(const(x) for x in (dict.fromkeys(sv) if n == "set" else sv)))
        if n == "set" and not args:
            return mk("set", ())
        if n == "set" and len(args) == 1 and args[0].op == "call" and (fi := finite_items(I, args[0])) is not None:
            return mk("set", tuple(fi))
        if n == "set" and len(args) == 1 and args[0].op == "dict" and I.policy.rec and (fi := finite_items(I, args[0])) is not None:
            return mk("set", tuple(fi))
        if n == "set" and len(args) == 1 and args[0].op in ("list", "tuple", "set"):
            return mk("set", args[0].a[0])
        if n == "map" and len(args) >= 2:
            coll = args[1] if len(args) == 2 else mk("call", mk("ext", "builtins.zip"), tuple((i, a) for i, a in enumerate(args[1:])))
            fin = finite_items(I, coll)
            if fin is not None and len(fin) <= I.policy.unroll:
                return mk("list", tuple(self.apply(args[0], [x] if len(args) == 2 else list(x.a[0]), {}, st, node) for x in fin))
            s2 = State(st.env, st.heap, dict(st.facts), st.guards + ((mk("inloop", coll), True),))
            el = I.elem(coll)
            xs = [el] if len(args) == 2 else [I.elem(a) for a in args[1:]]
            b = self.apply(args[0], xs, {}, s2, node)
            return mk("map", "list", b, coll, TRUE)
        if n == "filter" and len(args) == 2:
            coll = args[1]
            fin = finite_items(I, coll)
            if fin is not None and len(fin) <= I.policy.unroll:
                keep = []
                for x in fin:
                    c = self.truth_of(x if args[0] is NONE else self.apply(args[0], [x], {}, st, node), st, node)
                    d = I.decide(c, st)
                    if d is None:
                        break
                    if d:
                        keep.append(x)
                else:
                    return mk("list", tuple(keep))
            s2 = State(st.env, st.heap, dict(st.facts), st.guards + ((mk("inloop", coll), True),))
            el = I.elem(coll)
            c = I.truth(el if args[0] is NONE else self.apply(args[0], [el], {}, s2, node))
            return mk("map", "list", el, coll, c)
        if n in ("functools.partial", "partial"):
            if args:
                return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items(), key=lambda p: p[0])))
        if n in ("functools.reduce",) and len(args) >= 2:
            opn = args[0].a[0] if args[0].op == "ext" else None
            sym = {"operator.add": "+", "operator.mul": "*", "operator.matmul": "@", "operator.iadd": "+", "operator.or_": "|", "operator.sub": "-"}.get(opn)
            fin = finite_items(I, args[1])
            if fin is not None and len(fin) <= I.policy.unroll and (sym or args[0].op in ("clo", "fn", "bound", "partial") or args[0].op == "ext" and I.policy.strict):
                fin = ([args[2]] if len(args) > 2 else []) + fin
                if fin:
                    acc = fin[0]
                    for x in fin[1:]:
                        acc = I.binop(sym, acc, x) if sym else self.apply(args[0], [acc, x], {}, st, node)
                    return acc
            if args[0].op == "clo":
                fn = I._clo[args[0].a[0]]
                el = I.elem(args[1])
                acc = mk("acc")
                body = self.apply(args[0], [acc, el], {}, State(st.env, st.heap, dict(st.facts), st.guards), node)
                if body.op == "bin" and body.a[1] is acc and not contains(body.a[2], acc):
                    return mk("fold", body.a[0], args[2] if len(args) > 2 else mk("first"), body.a[2], args[1], TRUE)
                return mk("reduce", body, args[1], args[2] if len(args) > 2 else mk("first"))
            if sym:
                return mk("fold", sym, args[2] if len(args) > 2 else mk("first"), I.elem(args[1]), args[1], TRUE)
            return None
        if n == "itertools.compress" and len(args) == 2 and not kw and I.policy.rec:
            fs = [finite_items(I, x) for x in args]
            if all(f is not None for f in fs):
                ds = [I.decide(I.truth(x), st) for x in fs[1]]
                if None not in ds:
                    return mk("list", tuple(x for x, d in zip(fs[0], ds) if d))
        if n in ("itertools.product", "itertools.combinations", "itertools.permutations") and args and set(kw) <= {"repeat", "r"} and I.policy.rec:
            r = kw.get("repeat", kw.get("r"))
            its = args
            if n != "itertools.product":
                its, r = args[:1], args[1] if len(args) > 1 else r
            fs = [finite_items(I, x) for x in its]
            if all(f is not None for f in fs) and (r is None or is_const(r) and isinstance(cval(r), int)):
                import itertools as it
                xs = it.product(*fs, repeat=cval(r) if r is not None else 1) if n == "itertools.product" else getattr(it, n[10:])(fs[0], *([cval(r)] if r is not None else []))
                xs = list(it.islice(xs, 2000))
                if len(xs) < 2000:
                    return mk("list", tuple(mk("tuple", tuple(x)) for x in xs))
        if n == "itertools.count" and I.policy.obj and not set(kw) - {"start", "step"} and len(args) <= 2:
            I._n += 1
            t = mk("new", "itertools.count", (("#", const(I._n)),))
            st.heap[(t, "n")] = kw.get("start", args[0] if args else const(0))
            st.heap[(t, "step")] = kw.get("step", args[1] if len(args) > 1 else const(1))
            return t
        if n == "next" and len(args) in (1, 2) and not kw and args[0].op == "new" and args[0].a[0] == "itertools.count":
            v = st.heap.get((args[0], "n"))
            if v is not None and not any(g[0].op == "inloop" for g in st.guards):
                st.heap[(args[0], "n")] = I.binop("+", v, st.heap[(args[0], "step")])
                return v
            st.heap.pop((args[0], "n"), None)
        if n == "math.dist" and len(args) == 2 and not kw and I.policy.rec:
            fs = [finite_items(I, x) for x in args]
            if all(f is not None and all(is_const(y) and isinstance(cval(y), (int, float)) for y in f) for f in fs) and len(fs[0]) == len(fs[1]):
                return const(math.dist([cval(y) for y in fs[0]], [cval(y) for y in fs[1]]))
        if n in ("itertools.chain", "itertools.chain.from_iterable") and args and not kw:
            its = args if n == "itertools.chain" else (finite_items(I, args[0]) if len(args) == 1 else None)
            if its is not None:
                parts = [finite_items(I, x) for x in its]
                if all(p is not None for p in parts):
                    return mk("list", tuple(y for p in parts for y in p))
        if I.policy.rec and n in NUMFUN and not kw and args and all(is_const(x) and isinstance(cval(x), (int, float)) and not isinstance(cval(x), bool) for x in args):
            try:
                return const(NUMFUN[n](*[cval(x) for x in args]))
            except (ValueError, OverflowError, TypeError, ZeroDivisionError):
                pass
        if n in ("math.isclose", "numpy.isclose") and len(args) == 2 and set(kw) <= ({"rel_tol", "abs_tol"} if n[0] == "m" else {"rtol", "atol"}) and I.policy.rec and all(is_const(x) and isinstance(cval(x), (int, float)) for x in [*args, *kw.values()]):
            a_, b_ = cval(args[0]), cval(args[1])
            if n[0] == "m":
                return const(math.isclose(a_, b_, **{k: cval(v) for k, v in kw.items()}))
            return const(abs(a_ - b_) <= cval(kw.get("atol", const(1e-8))) + cval(kw.get("rtol", const(1e-5))) * abs(b_))
        if n == "math.prod" and len(args) == 1 and not kw:
            fi = finite_items(I, args[0])
            if fi is not None:
                r = fi[0] if fi else const(1)
                for x in fi[1:]:
                    r = I.binop("*", r, x)
                return r
        if n == "sum" and args and I.policy.obj and set(kw) <= {"start"}:
            fi = finite_items(I, args[0])
            if fi is not None:
                r = kw.get("start", args[1] if len(args) > 1 else const(0))
                for x in fi:
                    r = self.binop("+", r, x, st, node)
                return r
        if n == "sum" and args:
            coll = args[0]
            if coll.op == "map":
                return mk("fold", "+", args[1] if len(args) > 1 else const(0), coll.a[1], coll.a[2], coll.a[3])
            return mk("fold", "+", args[1] if len(args) > 1 else const(0), I.elem(coll), coll, TRUE)
        if n in ("any", "all") and len(args) == 1 and args[0].op == "map":
            mt = args[0]
            c = I.truth(mt.a[1])
            if n == "any":
                return mk("exists", mt.a[2], and_([mt.a[3], c]))
            return not_(mk("exists", mt.a[2], and_([mt.a[3], not_(c)])))
        if n in ("any", "all") and len(args) == 1 and args[0].op in ("list", "tuple") and not any(x.op == "star" for x in args[0].a[0]):
            cs = [I.truth(x) for x in args[0].a[0]]
            return or_(cs) if n == "any" else and_(cs)
        if n == "bool" and len(args) == 1:
            return I.truth(args[0])
        if n == "callable" and len(args) == 1:
            if args[0].op in ("fn", "clo", "bound", "cls", "partial"):
                return TRUE
            return mk("callable", args[0])
        if n == "str" and len(args) == 1 and is_const(args[0]):
            return const(str(cval(args[0])))
        if n == "str" and len(args) == 1 and args[0].op == "new" and args[0].a[0] in I.value_classes and args[0].a[1] and is_const(args[0].a[1][0][1]) and isinstance(cval(args[0].a[1][0][1]), str):
            return args[0].a[1][0][1]  # a symbol prints as its name
        if n.startswith("operator.") and len(args) == 2 and n[9:] in ("add", "mul", "sub", "matmul", "truediv"):
            return I.binop({"add": "+", "mul": "*", "sub": "-", "matmul": "@", "truediv": "/"}[n[9:]], args[0], args[1])
        if n == "typing.cast" and len(args) == 2:
            return args[1]
        if n in ("copy.copy",) and len(args) == 1 and args[0].op in ("dict", "list", "const"):
            return args[0]
        if n in ("copy.copy", "copy.deepcopy") and len(args) == 1 and not kw and I.policy.strict and (args[0], "__built__") in st.heap:
            return self.clone(args[0], st, n == "copy.deepcopy", {})
        if n in ("range",) and len(args) == 2 and args[0] is const(0):
            t = mk("call", mk("ext", q), ((0, args[1]),))
            I.ev("call", t, (), st, node, self.m)
            return t
        return None

    def isinstance_(self, x, ty, st):
        I = self.I

        def flat(t):
            if t.op in ("tuple", "list", "set"):
                for y in t.a[0]:
                    yield from flat(y)
            elif t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].endswith("get_args"):
                yield from flat(t.a[1][0][1])
            elif t.op == "bin" and t.a[0] == "|":
                yield from flat(t.a[1])
                yield from flat(t.a[2])
            elif t.op == "sub" and t.a[0].op == "ext" and t.a[0].a[0].endswith("Union"):
                yield from flat(t.a[1])
            else:
                yield t

        tys = tuple(sorted(set(flat(ty))))
        if x.op == "ite" and n_leaves(x) <= 4:
            return ite_bool(x.a[0], self.isinstance_(x.a[1], ty, st), self.isinstance_(x.a[2], ty, st))
        if I.isinst_hook is not None:
            r = I.isinst_hook(x, tys)
            if r is not None:
                return r
        c = I.typeof(x)
        if I.policy.strict and x.op == "new" and x.a[0] == "qadence.parameters.Parameter" and "qadence.parameters.Parameter" in I.value_classes and all(t.op == "cls" and t.a[0] == x.a[0] for t in tys):
            # Parameter(<number>) is a sympy number
            v = [y for k, y in x.a[1] if k != "#"]
            if v and is_const(v[0]) and isinstance(cval(v[0]), (int, float, complex)):
                return FALSE
        if c is not None:
            up = [t for t in tys if t.op == "cls" and c[0].is_subclass(t.a[0])]
            upx = [t for t in tys if t.op == "ext" and t.a[0] in c[0].mro]
            if up or upx:
                return TRUE
            if c[1] and all(t.op in ("cls", "ext") for t in tys):
                # external bases could hide subclassing only if the class has external bases
                return FALSE
        if x.op == "const":
            nm = "builtins." + x.a[0]
            names = [t.a[0] for t in tys if t.op == "ext"]
            if nm in names or (x.a[0] == "bool" and "builtins.int" in names):
                return TRUE
            if all(t.op in ("cls",) or (t.op == "ext" and t.a[0].split(".")[0] in NOT_PLAIN) for t in tys):
                return FALSE
        for op in ("list", "dict", "tuple"):
            if x.op == op or (op == "list" and x.op in ("map",) and x.a[0] == "list"):
                names = [t.a[0] for t in tys if t.op == "ext"]
                if "builtins." + op in names or any(z.endswith((".Sequence", ".Iterable", ".Collection")) for z in names):
                    return TRUE
                if all(t.op == "cls" or (t.op == "ext" and t.a[0].startswith("builtins.")) for t in tys):
                    return FALSE
        if x.op in ("fn", "clo", "bound"):
            if all(t.op == "cls" or (t.op == "ext" and t.a[0].startswith("builtins.")) for t in tys):
                return FALSE
        if x is NONE:
            return FALSE
        if x.op == "ext" and I.policy.strict and "." in x.a[0]:
            # member of an external enumeration: Class.MEMBER
            base, last = x.a[0].rsplit(".", 1)
            if last.isupper() and base.split(".")[-1][:1].isupper():
                if any(t.op == "ext" and t.a[0] == base for t in tys):
                    return TRUE
                if all(t.op == "cls" or t.op == "ext" and t.a[0].startswith("builtins.") and t.a[0] != "builtins.str" for t in tys):
                    return FALSE
        if x.op == "cls" and I.policy.obj:
            names = [t.a[0] for t in tys if t.op == "ext"]
            if "builtins.type" in names:
                return TRUE
            if all(t.op == "cls" or t.a[0].startswith("builtins.") for t in tys if t.op in ("cls", "ext")) and all(t.op in ("cls", "ext") for t in tys):
                return FALSE
        return mk("isinst", x, tys)

    def method_on_value(self, b: T, name, args, kw, st, node):
        I = self.I
        s = I.strval(b) if b.op in ("const", "enum") else None
        if s is not None and (b.op == "const" or name in ("lower", "upper", "startswith", "endswith", "replace", "strip", "removeprefix", "removesuffix")):
            if name in ("replace", "removeprefix", "removesuffix", "lstrip", "rstrip", "count") and args and all(is_const(x) and isinstance(cval(x), str) for x in args):
                return const(getattr(s, name)(*[cval(x) for x in args]))
            if name in ("lower", "upper", "strip", "title") and not args:
                return const(getattr(s, name)())
            if name == "join" and args and args[0].op in ("list", "tuple") and all(is_const(x) for x in args[0].a[0]):
                return const(s.join(str(cval(x)) for x in args[0].a[0]))
            if name in ("startswith", "endswith") and args and is_const(args[0]):
                return const(getattr(s, name)(cval(args[0])))
            if name == "format":
                return mk("joined", (b,) + tuple(args) + tuple(kw.values()))
        if name == "get" and args and b.op == "modglobals" and is_const(args[0]):
            r = I.p.modules[b.a[0]].resolve(cval(args[0]))
            return I.entity(r, f"{b.a[0]}.{cval(args[0])}") if r is not None else args[1] if len(args) > 1 else NONE
        if name == "get" and args and b.op in ("dict", "upd", "ite"):
            k = st.facts.get(("=", args[0]), args[0])
            r = I.dict_get(b, k)
            if isinstance(r, T):
                return r
            if r == "missing":
                return args[1] if len(args) > 1 else NONE
        if name in ("values", "keys", "items") and b.op == "dict" and not any(k.op == "spread" for k, _ in b.a[0]):
            if name == "values":
                return mk("list", tuple(v for _, v in b.a[0]))
            if name == "keys":
                return mk("list", tuple(k for k, _ in b.a[0]))
            return mk("list", tuple(mk("tuple", (k, v)) for k, v in b.a[0]))
        if name == "__getattribute__" and len(args) == 1 and is_const(args[0]) and I.policy.obj:
            return I.attr(b, cval(args[0]), st, self, node)
        if b.op == "set" and name in ("isdisjoint", "issubset", "issuperset", "union", "intersection", "difference") and len(args) == 1 and I.policy.rec:
            xs, ys = finite_items(I, b) if b.a[0] else [], finite_items(I, args[0])
            if ys is None and args[0].op == "set" and not args[0].a[0]:
                ys = []
            if xs is not None and ys is not None and all(x.op in ("const", "enum") for x in xs + ys):
                if name in ("union", "intersection", "difference"):
                    return mk("set", tuple(dict.fromkeys(xs + ys)) if name == "union" else tuple(x for x in xs if (x in ys) == (name == "intersection")))
                return const({"isdisjoint": not set(xs) & set(ys), "issubset": set(xs) <= set(ys), "issuperset": set(xs) >= set(ys)}[name])
        if name == "index" and len(args) == 1 and b.op in ("list", "tuple") and I.policy.rec and not any(x.op == "star" for x in b.a[0]):
            es = [I.cmp_eq(x, args[0]) for x in b.a[0]]
            if all(x in (TRUE, FALSE) for x in es):
                return const(es.index(TRUE)) if TRUE in es else mk("raise", mk("call", mk("ext", "builtins.ValueError"), ()))
        if name == "count" and len(args) == 1 and b.op in ("list", "tuple") and I.policy.rec and not any(x.op == "star" for x in b.a[0]):
            es = [I.cmp_eq(x, args[0]) for x in b.a[0]]
            if all(x in (TRUE, FALSE) for x in es):
                return const(es.count(TRUE))
        if name == "copy" and not args and b.op in ("dict", "list"):
            return b
        if name == "__class__":
            return None
        return None


def _as_load(t):
    import copy

    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


def seq_ret(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return subst_fall(a, b)


def abs_error(name, arg):
    return mk("raise", mk("call", mk("ext", "builtins." + name), ((0, arg),)))


def is_raise_leaf(t):
    return t.op == "raise"


def leaves_of(t, depth=0):
    if t.op == "ite" and depth < 60:
        yield from leaves_of(t.a[1], depth + 1)
        yield from leaves_of(t.a[2], depth + 1)
    else:
        yield t, depth


def _caught(x: T, tn: str) -> bool:
    if tn in ("Exception", "BaseException", ""):
        return True
    e = x.a[0]
    nm = ""
    if e.op == "call" and e.a[0].op == "ext":
        nm = e.a[0].a[0].split(".")[-1]
    elif e.op == "new":
        nm = e.a[0].split(".")[-1]
    elif e.op == "ext":
        nm = e.a[0].split(".")[-1]
    return nm != "" and nm in tn


def type_cmp(r: T):
    """type(x) == C -> isinst on exact type keeps its own op"""
    return None


def tupval(I: Interp, t: T):
    """the items of an instance of a tuple subclass"""
    if t.op == "new" and len(t.a[1]) == 1 and t.a[1][0][0] == "*" and t.a[1][0][1].op in ("tuple", "list"):
        c = I.p.cls(t.a[0])
        if c is not None and ("builtins.tuple" in c.mro or "tuple" in c.mro):
            return mk("tuple", t.a[1][0][1].a[0])
    return None


def finite_items(I: Interp, coll: T):
    coll = tupval(I, coll) or coll
    if is_const(coll) and isinstance(cval(coll), str) and I.policy.rec and len(cval(coll)) <= 40:
        return [const(x) for x in cval(coll)]
    if coll.op in ("list", "tuple") and not any(x.op == "star" for x in coll.a[0]):
        return list(coll.a[0])
    if coll.op == "set" and coll.a[0] and all(ckey(x) for x in coll.a[0]):
        return list(dict.fromkeys(coll.a[0]))
    if coll.op == "set" and I.policy.obj and not any(x.op == "star" for x in coll.a[0]) and (len(coll.a[0]) <= 1 or all(ckey(x) or x.op == "new" and x.a[0] in I.value_classes and all(is_const(v) for _, v in x.a[1]) for x in coll.a[0])):
        return list(dict.fromkeys(coll.a[0]))
    if coll.op == "dict" and all(ckey(k) for k, _ in coll.a[0]):
        return [k for k, _ in coll.a[0]]
    if coll.op == "cls" and I.policy.strict:
        c = I.p.cls(coll.a[0])
        if c is not None and c.is_enum:
            return [mk("enum", c.qual, n) for n in c.enum_members()]
    if coll.op == "call" and coll.a[0].op == "ext":
        q = coll.a[0].a[0]
        args = [v for _, v in coll.a[1]]
        if q == "builtins.range" and all(is_const(a) for a in args):
            r = list(range(*[cval(a) for a in args]))
            return [const(x) for x in r] if len(r) <= I.policy.unroll else None
        if q == "builtins.enumerate" and len(args) == 1:
            f = finite_items(I, args[0])
            if f is not None:
                return [mk("tuple", (const(i), x)) for i, x in enumerate(f)]
        if q == "builtins.zip":
            fs = [finite_items(I, a) for a in args]
            if fs and all(f is not None for f in fs):
                return [mk("tuple", tuple(xs)) for xs in zip(*fs)]
    return None


def extenum(t: T):
    """member of an enumeration defined outside the program"""
    if t.op != "ext" or "." not in t.a[0]:
        return False
    base, last = t.a[0].rsplit(".", 1)
    return last.isupper() and len(last) > 1 and base.split(".")[-1][:1].isupper()


def ckey(t: T):
    """a term that stands for one known value, so that identity of terms is equality of values"""
    return t.op in ("const", "enum", "cls", "atom") or t.op == "tuple" and all(ckey(x) for x in t.a[0])


def plain(t: T):
    """(python value,) of a constant or nested tuple/list of constants, else None"""
    if is_const(t):
        return (cval(t),)
    if t.op in ("tuple", "list"):
        vs = [plain(x) for x in t.a[0]]
        if all(v is not None for v in vs):
            return (tuple(v[0] for v in vs) if t.op == "tuple" else [v[0] for v in vs],)
    return None


def names_in(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def assigned_places(body):
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name) and isinstance(n, ast.Subscript):
                    add(b.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                while isinstance(b, (ast.Subscript,)):
                    b = b.value
                if isinstance(b, ast.Name):
                    add(b.id)
    return out


_HW: dict = {}


def heap_written(body, attr):
    """whether the statements may store to an attribute of this name (or mutate what it holds)"""
    k = id(body)
    if k not in _HW:
        names = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.attr)
                b = None
                if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    b = n.func.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute):
                    names.add(b.attr)
        _HW[k] = (body, names)  # the body is kept so that its id stays unique
    return attr in _HW[k][1]
