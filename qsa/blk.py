"""Abstract block trees with opaque leaves, and the operator a block term denotes.

A `World` holds block objects (atoms of known class with known children, qubits, scale expression); functions of the
analysed program are evaluated on them and the block terms they return are read as non-commutative polynomials over the
leaves, normalised modulo commutation of operators on disjoint qubits.
"""
from __future__ import annotations

from fractions import Fraction

from .absint import AbsRaise
from .util import *

ONE = {(): Fraction(1)}
UNIT = {(): ONE}
NEG = {(): {(): Fraction(-1)}}
OPS = "qadence.operations."
KIND = {"Chain": "qadence.blocks.composite.ChainBlock", "Kron": "qadence.blocks.composite.KronBlock", "Add": "qadence.blocks.composite.AddBlock",
        "Scale": "qadence.blocks.primitive.ScaleBlock", "Put": "qadence.blocks.composite.PutBlock"}


class NoDen(Exception):
    pass


class Bad(Exception):
    """the term denotes no operator (it would raise when built)"""


def A(n):
    return mk("atom", n)


def tup(*a):
    return mk("tuple", tuple(a))


def ints(*a):
    return mk("tuple", tuple(const(x) for x in a))


def add2(a, b):
    r = {m: dict(c) for m, c in a.items()}
    for m, c in b.items():
        r[m] = padd(r.get(m, {}), c)
        if not r[m]:
            del r[m]
    return r


def mul2(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            r[m1 + m2] = padd(r.get(m1 + m2, {}), pmul(c1, c2))
            if not r[m1 + m2]:
                del r[m1 + m2]
    return r


def trace_nf(word):
    """normal form of a word of (key, qubits) letters modulo commutation of letters on disjoint qubits"""
    rest, out = list(word), []
    while rest:
        ok = [i for i, x in enumerate(rest) if all(not (x[1] & y[1]) for y in rest[:i])]
        i = min(ok, key=lambda j: (str(rest[j][0]), j))
        out.append(rest.pop(i))
    return tuple(out)


def norm(p):
    r = {}
    for m, c in p.items():
        k = trace_nf(m)
        r[k] = padd(r.get(k, {}), c)
        if not r[k]:
            del r[k]
    return r


def word_str(p):
    def sc(c):
        return "+".join(f"{'' if k == 1 and m else k}{'*'.join(show(x, 3) + ('' if e == 1 else '^' + str(e)) for x, e in m)}" for m, k in c.items())
    return " + ".join((sc(c) + "·" if c != ONE else "") + ("·".join(f"{k}[{','.join(map(str, sorted(q)))}]" for k, q in m) or "1") for m, c in p.items()) or "0"


class World:
    def __init__(self, ctx, **policy):
        policy.setdefault("rec", 12)
        policy.setdefault("depth", 60)
        self.ctx, self.prog = ctx, ctx.prog
        self.I = ctx.interp(**policy)
        self.heap = {}
        self.facts = []
        self.origin = {}
        self.kids = {}
        self._n = 0
        self.I.attr_hook = self.hook
        self.I.oracle = self.oracle
        self.extra_oracle = None
        self.I.models["copy.deepcopy"] = self._deepcopy
        self.I.models["copy.copy"] = self._deepcopy
        self.I.models[KIND["Kron"]] = self._kron
        self.pm_cls = self.prog.cls("qadence.parameters.ParamMap")

    def oracle(self, c, st):
        if c.op == "isinst":
            names = {x.a[0].split(".")[-1] for x in c.a[1] if x.op in ("ext", "cls")}
            if names == {"Generator"}:
                return c.a[0].op in ("list", "map", "flat")
            k = self.cls_of(c.a[0])
            if k is None and c.a[0].op in ("bin", "un", "call") and self.arith(c.a[0]) and all(x.op == "cls" and (x.a[0].startswith("qadence.blocks") or x.a[0] == "qadence.parameters.ParamMap") for x in c.a[1]):
                return False
            if k is not None and all(x.op in ("ext", "cls") for x in c.a[1]):
                return any(k.is_subclass(x.a[0]) for x in c.a[1] if x.op == "cls")
        if c.op in ("isnone", "truthy") and (self.is_block(c.a[0])):
            return c.op == "truthy"
        if c.op == "hasattr" and c.a[0].op == "atom" and (c.a[0], c.a[1]) in st.heap:
            return True
        return self.extra_oracle(c, st) if self.extra_oracle else None

    def arith(self, t):
        """arithmetic on parameters and numbers: not a block"""
        if t.op == "bin":
            return self.arith(t.a[1]) and self.arith(t.a[2])
        if t.op == "un":
            return self.arith(t.a[1])
        if t.op == "call":
            return t.a[0].op == "ext" and t.a[0].a[0].split(".")[0] in ("sympy", "abs", "sum") and all(self.arith(x) for x in args_of(t).values())
        return is_const(t) or t.op == "new" and t.a[0] == "qadence.parameters.Parameter"

    # ---- construction
    def leaf(self, name, cls="X", support=(0,), **attrs):
        t = A(name)
        c = self.prog.cls(cls if "." in cls else OPS + cls)
        if c is None:
            raise NoDen(f"class {cls} not found")
        self.I.exact[t] = c
        self.heap[(t, "_qubit_support")] = self.heap[(t, "qubit_support")] = ints(*support)
        self.heap[(t, "tag")] = const(f"tag-{name}")
        for k, v in attrs.items():
            self.heap[(t, k)] = v
        self.facts += [(mk("isnone", t), False), (mk("truthy", t), True)]
        return t

    def comp(self, kind, *kids, name=None, tag=None):
        self._n += 1
        t = A(name or f"{kind}{self._n}")
        self.I.exact[t] = self.prog.cls(KIND.get(kind, kind))
        self.heap[(t, "blocks")] = tup(*kids)
        self.heap[(t, "tag")] = tag or const(f"tag-{t.a[0]}")
        self.facts += [(mk("isnone", t), False), (mk("truthy", t), True)]
        return t

    def params(self, owner, **exprs):
        """a ParamMap holding the given expressions"""
        pm = A(f"pmap({owner})")
        if self.pm_cls is not None:
            self.I.exact[pm] = self.pm_cls
        ds = []
        for k, v in exprs.items():
            u = const(f"uuid-{owner}-{k}")
            self.heap[(pm, k)] = v
            ds.append((u, v))
        self.heap[(pm, "_uuid_dict")] = mk("dict", tuple(ds))
        self.heap[(pm, "_name_dict")] = mk("dict", tuple((const(k), tup(u, v)) for (k, v), (u, _) in zip(exprs.items(), ds)))
        return pm

    def scale(self, expr, kid, tag=None):
        self._n += 1
        t = A(f"Scale{self._n}")
        self.I.exact[t] = self.prog.cls(KIND["Scale"])
        self.heap[(t, "block")] = kid
        self.heap[(t, "parameters")] = self.params(t.a[0], parameter=expr)
        self.heap[(t, "scale")] = expr
        self.heap[(t, "tag")] = tag or const(f"tag-{t.a[0]}")
        self.facts += [(mk("isnone", t), False), (mk("truthy", t), True), (mk("isnone", expr), False)]
        return t

    def param(self, name):
        return mk("param", name)

    def _kron(self, a, k, st):
        """the constructor's check that children act on distinct qubits"""
        v = a[0] if a else k.get("blocks")
        if v is None or v.op not in ("tuple", "list") or any(x.op == "star" for x in v.a[0]):
            return None
        if not v.a[0]:
            raise AbsRaise(mk("raise", mk("ext", "builtins.NotImplementedError")))
        seen = set()
        for x in v.a[0]:
            s = self.support(x, st.heap)
            if s is None:
                return None
            if seen & set(s):
                raise AbsRaise(mk("raise", mk("call", mk("ext", "builtins.AssertionError"), ((0, const("Make sure blocks act on distinct qubits!")),))))
            seen |= set(s)
        return None

    # ---- model of copies
    def _deepcopy(self, a, k, st):
        x = a[0] if a else None
        if x is None or x.op != "atom" or x not in self.I.exact:
            return None
        return self._copy(x, st)

    def _copy(self, x, st):
        self._n += 1
        t = A(f"{x.a[0]}'{self._n}")
        self.I.exact[t] = self.I.exact[x]
        self.origin[t] = self.origin.get(x, x)
        for (o, n), v in list(st.heap.items()):
            if o is x:
                if v.op == "atom" and v in self.I.exact and n == "block":
                    v = self._copy(v, st)
                if n == "blocks" and v.op in ("tuple", "list"):
                    v = mk(v.op, tuple(self._copy(y, st) if y.op == "atom" and y in self.I.exact else y for y in v.a[0]))
                st.heap[(t, n)] = v
        for f in (mk("isnone", t), False), (mk("truthy", t), True):
            st.facts[f[0]] = f[1]
        return t

    # ---- computed attributes
    def cls_of(self, t):
        c = self.I.exact.get(t)
        if c is None and t.op == "new":
            c = self.prog.cls(t.a[0])
        return c

    def is_block(self, t):
        c = self.cls_of(t)
        return c is not None and c.is_subclass("qadence.blocks.abstract.AbstractBlock")

    def hook(self, b, name, st):
        if name not in ("qubit_support", "n_qubits", "n_supports", "_qubit_support") or not self.is_block(b):
            return None
        s = self.support(b, st.heap)
        if s is None:
            return None
        if name in ("qubit_support", "_qubit_support"):
            return ints(*s)
        if name == "n_supports":
            return const(len(s))
        return const(max(s) + 1 if s else 0)

    def support(self, b, heap):
        for n in ("_qubit_support", "qubit_support"):
            v = heap.get((b, n))
            if v is not None:
                v = v.a[0] if v.op in ("tuple", "list") else None
                return tuple(cval(x) for x in v) if v is not None and all(is_const(x) for x in v) else None
        c = self.cls_of(b)
        if c is None:
            return None
        kids = self.children(b, heap)
        if kids is not None:
            out = set()
            for k in kids:
                s = self.support(k, heap)
                if s is None:
                    return None
                out |= set(s)
            return tuple(sorted(out))
        if b.op == "new":
            return self.new_support(b)
        if self.is_scale(b):
            return self.support(heap[(b, "block")], heap) if (b, "block") in heap else None
        return None

    def new_support(self, b):
        a = args_of(b)
        if self.is_scale(b):
            return self.support(a["block"], {})
        if "support" in a or "qubit_support" in a:
            v = a.get("support", a.get("qubit_support"))
            return tuple(cval(x) for x in v.a[0]) if v.op in ("tuple", "list") and all(is_const(x) for x in v.a[0]) else None
        out = []
        for k in ("control", "target", "target1", "target2"):
            v = a.get(k)
            if v is None:
                continue
            for x in v.a[0] if v.op in ("tuple", "list") else (v,):
                if not (is_const(x) and isinstance(cval(x), int)):
                    return None
                out.append(cval(x))
        return tuple(out) or None

    def is_scale(self, b):
        c = self.cls_of(b)
        return c is not None and c.is_subclass(KIND["Scale"])

    def children(self, b, heap):
        c = self.cls_of(b)
        if c is None or not c.is_subclass("qadence.blocks.composite.CompositeBlock"):
            return None
        v = heap.get((b, "blocks"))
        if v is None and b.op == "new":
            a = args_of(b)
            v = a.get("blocks")
            if v is None and "block" in a:
                v = tup(a["block"])
        if v is None or v.op not in ("tuple", "list") or any(x.op == "star" for x in v.a[0]):
            return None
        return list(v.a[0])

    # ---- evaluation
    def run(self, f, bindings=None, exact=None):
        ret, st = self.I.run(f, bindings=bindings or {}, heap=dict(self.heap), facts=self.facts, exact=exact)
        return [(l, g) for l, g in leaves(ret)], st

    def written(self, st):
        """attributes of the input objects changed by the evaluation"""
        return [(k[0], k[1], v) for k, v in (st.heap if st is not None else {}).items() if k[0].op == "atom" and k[0] not in self.origin and k in self.heap and self.heap[k] is not v and k[1] != "_iterator"] + \
               [(k[0], k[1], v) for k, v in (st.heap if st is not None else {}).items() if k[0].op == "atom" and k[0] in self.I.exact and k[0] not in self.origin and k not in self.heap and k[1] not in ("_iterator",) and self.is_block(k[0])]

    # ---- denotation
    def scalar(self, t):
        while t.op in ("new", "call") and callee_name(t) in ("Parameter", "sympify", "ParamMap", "evaluate") and t.a[1]:
            t = t.a[1][0][1]
        if t.op == "bin" and t.a[0] in ("*", "+", "-", "/") or t.op == "un":
            def deep(x):
                while x.op in ("new", "call") and callee_name(x) in ("Parameter", "sympify") and x.a[1]:
                    x = x.a[1][0][1]
                if x.op == "bin":
                    return mk("bin", x.a[0], deep(x.a[1]), deep(x.a[2]))
                if x.op == "un":
                    return mk("un", x.a[0], deep(x.a[1]))
                return x
            t = deep(t)
        return poly(t)

    def den(self, t, heap):
        return norm(self._den(t, heap))

    def _den(self, t, heap):
        c = self.cls_of(t)
        if c is not None and self.is_block(t):
            n = c.name
            kids = self.children(t, heap)
            if kids is not None:
                ps = [self._den(k, heap) for k in kids]
                if c.is_subclass(KIND["Add"]):
                    r = {}
                    for p in ps:
                        r = add2(r, p)
                    return r
                if n in ("KronBlock", "AnalogKron"):
                    seen = set()
                    for k in kids:
                        s = self.support(k, heap)
                        if s is not None:
                            if seen & set(s):
                                raise Bad("a kron block has overlapping children")
                            seen |= set(s)
                r = UNIT
                for p in ps:
                    r = mul2(r, p)
                return r
            if self.is_scale(t):
                if t.op == "new" and (t, "block") not in heap:
                    a = args_of(t)
                    b, s = a.get("block"), a.get("parameter", a.get("scale"))
                else:
                    b = heap.get((t, "block"))
                    pm = heap.get((t, "parameters"))
                    s = heap.get((pm, "parameter")) if pm is not None and pm.op == "atom" else None
                    if s is None and pm is not None and pm.op == "new":
                        s = args_of(pm).get("parameter")
                if b is None or s is None:
                    raise NoDen(show(t, 3))
                sp = self.scalar(s)
                return mul2({(): sp} if sp else {}, self._den(b, heap))
            if c.is_subclass("qadence.blocks.composite.CompositeBlock"):
                raise NoDen(f"children of {show(t, 3)}")
            if n == "I":
                return UNIT
            if n == "Zero":
                return {}
            s = self.support(t, heap)
            if s is None:
                raise NoDen(f"support of {show(t, 3)}")
            return {((self.letter(t, heap, s), frozenset(s)),): ONE}
        if t.op == "un":
            p = self._den(t.a[1], heap)
            return mul2(NEG, p) if t.a[0] == "-" else p
        if t.op == "bin":
            o, a, b = t.a
            ba, bb = self.blockish(a), self.blockish(b)
            if ba and bb:
                if o == "+":
                    return add2(self._den(a, heap), self._den(b, heap))
                if o == "-":
                    return add2(self._den(a, heap), mul2(NEG, self._den(b, heap)))
                if o in ("*", "@"):
                    return mul2(self._den(a, heap), self._den(b, heap))
            elif (ba or bb) and o == "*":
                sp = self.scalar(b if ba else a)
                return mul2({(): sp} if sp else {}, self._den(a if ba else b, heap))
            elif ba and o == "/":
                sp = self.scalar(mk("bin", "/", const(1), b))
                return mul2({(): sp} if sp else {}, self._den(a, heap))
        raise NoDen(show(t, 3))

    def blockish(self, t):
        if self.is_block(t):
            return True
        if t.op == "bin":
            return self.blockish(t.a[1]) or self.blockish(t.a[2])
        return t.op == "un" and self.blockish(t.a[1])

    def letter(self, t, heap, s):
        """name of a leaf operator: its identity (inputs and their copies) or its class and parameters (new gates)"""
        if t.op == "atom":
            o = self.origin.get(t, t)
            if s != self.support(o, self.heap):
                return f"{o.a[0]}@{s}"
            return o.a[0]
        a = args_of(t)
        ps = ";".join(f"{k}={self.pstr(v)}" for k, v in sorted(a.items(), key=lambda p: str(p[0])) if k not in ("target", "control", "noise", "support", "qubit_support", "#"))
        return f"{t.a[0].split('.')[-1]}({s}{';' + ps if ps else ''})"

    def pstr(self, v):
        try:
            p = self.scalar(v)
            return str(sorted((str([(show(x, 4), k) for x, k in m]), str(c)) for m, c in p.items()))
        except Exception:
            return show(v, 6)
