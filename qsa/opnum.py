"""Operators denoted by block terms: the block trees built by the abstract interpreter are read as Pauli sums or small matrices, with
every free parameter replaced by a fixed generic number (equality of the resulting operators decides equality of the symbolic ones)."""
from __future__ import annotations

import cmath
import math

from .numfold import GATES, controlled, embed, rot, smul
from .util import *

PARAM = "qadence.parameters.Parameter"
UNARY = {"cos": cmath.cos, "sin": cmath.sin, "tan": cmath.tan, "sqrt": cmath.sqrt, "exp": cmath.exp, "acos": cmath.acos, "asin": cmath.asin, "atan": cmath.atan, "abs": abs, "Abs": abs, "log": cmath.log,
         "Heaviside": lambda x: 1.0 if x.real > 0 else 0.0 if x.real < 0 else 0.5, "arccos": cmath.acos, "arcsin": cmath.asin, "tanh": cmath.tanh, "float": lambda x: x, "int": lambda x: complex(int(x.real)), "sympify": lambda x: x,
         "Integer": lambda x: x, "Float": lambda x: x, "sign": lambda x: float((x.real > 0) - (x.real < 0)), "deg2rad": lambda x: x * math.pi / 180, "radians": lambda x: x * math.pi / 180, "conjugate": lambda x: x.conjugate(), "item": lambda x: x, "double": lambda x: x, "evaluate": lambda x: x, "tensor": lambda x: x, "as_tensor": lambda x: x, "float64": lambda x: x, "detach": lambda x: x}


class NoOp(Exception):
    pass


def auto(name):
    """generic value of a parameter"""
    h = 0
    for ch in str(name):
        h = (h * 131 + ord(ch)) % 1000003
    return 0.25 + (h % 997) / 1009.0 * 1.1


class Op:
    def __init__(self, prog, heap, env=None):
        self.prog, self.heap, self.env = prog, heap, env or {}
        self.names = {}
        self._m = {}

    # ---- numbers
    def num(self, t):
        t0 = t
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float, complex)):
                return complex(v)
            if isinstance(v, str):
                return self.name(v)
            raise NoOp(repr(v))
        if t.op == "new" and t.a[0] == PARAM or t.op == "call" and callee_name(t) == "Parameter":
            a = list(args_of(t).values())
            x = args_of(t).get("name", args_of(t).get(0, a[0]))
            if x.op == "joined":
                raise NoOp(show(x, 3))
            return self.num(x)
        if t.op == "param":
            return self.name(t.a[0])
        if t.op == "un":
            v = self.num(t.a[1])
            return -v if t.a[0] == "-" else v
        if t.op == "bin":
            a, b = self.num(t.a[1]), self.num(t.a[2])
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "**": lambda: a**b, "//": lambda: complex(a.real // b.real), "%": lambda: complex(a.real % b.real)}[t.a[0]]()
            except (KeyError, ZeroDivisionError, OverflowError) as e:
                raise NoOp(show(t, 3)) from e
        if t.op in ("ext", "attr"):
            n = (t.a[0] if t.op == "ext" else t.a[1]).split(".")[-1]
            if n in ("pi", "PI"):
                return complex(math.pi)
            if t.op == "attr" and n in ("real", "data"):
                return self.num(t.a[0])
            raise NoOp(show(t, 3))
        if t.op == "ite":
            return self.num(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op == "call":
            n = callee_name(t)
            a = [v for k, v in args_of(t).items() if k not in ("dtype", "as_torch")]
            if t.a[0].op == "attr" and n not in UNARY:
                raise NoOp(show(t, 3))
            if t.a[0].op == "attr":
                a = [t.a[0].a[0]] + a
            if n == "sum" and len(a) >= 1 and a[0].op in ("list", "tuple"):
                return sum((self.num(x) for x in a[0].a[0]), self.num(a[1]) if len(a) > 1 else 0j)
            if n in ("max", "min") and a:
                xs = [self.num(x).real for x in (a[0].a[0] if len(a) == 1 and a[0].op in ("list", "tuple") else a)]
                return complex({"max": max, "min": min}[n](xs))
            if n in UNARY and a:
                try:
                    return complex(UNARY[n](self.num(a[0])))
                except (ValueError, ZeroDivisionError, OverflowError) as e:
                    raise NoOp(show(t, 3)) from e
            if n in ("Mul", "Add", "prod"):
                r = 1 + 0j if n != "Add" else 0j
                for x in a:
                    r = r * self.num(x) if n != "Add" else r + self.num(x)
                return r
        raise NoOp(show(t0, 4))

    def name(self, n):
        v = self.env.get(n)
        if v is None:
            v = auto(n)
        self.names[n] = v
        return complex(v)

    def truth(self, c):
        if is_const(c):
            return bool(cval(c))
        if c.op == "not":
            return not self.truth(c.a[0])
        if c.op in ("and", "or"):
            xs = c.a[0] if isinstance(c.a[0], tuple) else c.a
            return (all if c.op == "and" else any)(self.truth(x) for x in xs)
        if c.op == "isinst":
            x = c.a[0]
            if all(k.op == "cls" and k.a[0].startswith("qadence.blocks") for k in c.a[1]):
                self.num(x)
                return False
            if all(k.op == "ext" and k.a[0].split(".")[0] == "sympy" for k in c.a[1]):
                return self.free(x)
        if c.op == "truthy" and c.a[0].op == "attr" and c.a[0].a[1] == "is_number":
            return not self.free(c.a[0].a[0])
        if c.op in ("eq", "lt", "le"):
            a, b = self.num(c.a[0]), self.num(c.a[1])
            return a == b if c.op == "eq" else a.real < b.real if c.op == "lt" else a.real <= b.real
        raise NoOp(show(c, 3))

    def free(self, x):
        """does the expression contain parameters"""
        n0, self.names = self.names, {}
        self.num(x)
        free = bool(self.names)
        self.names.update(n0)
        return free

    # ---- blocks
    def cls(self, t):
        return self.prog.cls(t.a[0]) if t.op == "new" else None

    def get(self, t, n):
        v = self.heap.get((t, n))
        if v is None and t.op == "new":
            v = args_of(t).get(n)
        return v

    def isk(self, c, *names):
        return c is not None and any(getattr(k, "name", None) in names for k in c.mro)

    def pick(self, t):
        while t.op == "ite":
            t = t.a[1] if self.truth(t.a[0]) else t.a[2]
        return t

    def blocks(self, t):
        v = self.get(t, "blocks")
        if v is None:
            raise NoOp(f"children of {show(t, 3)}")
        v = self.pick(v)
        if v.op not in ("list", "tuple") or any(x.op == "star" for x in v.a[0]):
            raise NoOp(f"children of {show(t, 3)}: {show(v, 3)}")
        return [self.pick(x) for x in v.a[0]]

    def ints(self, v):
        if v is None:
            raise NoOp("qubits")
        v = self.pick(v)
        if v.op == "new" and "QubitSupport" in v.a[0] and args_of(v):
            xs = [x for k, x in v.a[1] if k != "#"]
            v = xs[0] if len(xs) == 1 and xs[0].op in ("tuple", "list") else mk("tuple", tuple(xs))
        if v.op in ("tuple", "list"):
            return tuple(self.ints(x)[0] for x in v.a[0])
        n = self.num(v)
        return (int(n.real),)

    def param(self, t, name="parameter"):
        pm = self.heap.get((t, "parameters"))
        if pm is not None:
            pm = self.pick(pm)
            v = self.heap.get((pm, name))
            if v is None and pm.op == "new":
                v = args_of(pm).get(name)
                d = args_of(pm).get("**")
                if v is None and d is not None and d.op == "dict":
                    v = next((x for k, x in d.a[0] if is_const(k) and cval(k) == name), None)
            if v is not None:
                return self.num(v)
        v = args_of(t).get(name) if t.op == "new" else None
        if v is None:
            raise NoOp(f"{name} of {show(t, 3)}")
        return self.num(v)

    def pauli(self, t):
        """{sorted ((qubit, letter), ..): coefficient} of a Hamiltonian"""
        t = self.pick(t)
        if t.op == "bin" and t.a[0] in ("+", "-", "*", "@", "/") or t.op == "un":
            if t.op == "un":
                return {k: -v for k, v in self.pauli(t.a[1]).items()} if t.a[0] == "-" else self.pauli(t.a[1])
            o, a, b = t.a
            ba, bb = self.block(a), self.block(b)
            if ba and bb:
                pa, pb = self.pauli(a), self.pauli(b)
                return padd(pa, pb) if o == "+" else padd(pa, {k: -v for k, v in pb.items()}) if o == "-" else pmulp(pa, pb)
            if (ba or bb) and o == "*":
                s = self.num(b if ba else a)
                return {k: v * s for k, v in self.pauli(a if ba else b).items()}
            if ba and o == "/":
                s = self.num(b)
                return {k: v / s for k, v in self.pauli(a).items()}
        c = self.cls(t)
        if c is None:
            raise NoOp(show(t, 3))
        if self.isk(c, "ScaleBlock"):
            s = self.param(t)
            return {k: v * s for k, v in self.pauli(self.get(t, "block")).items()}
        if self.isk(c, "AddBlock"):
            r = {}
            for b in self.blocks(t):
                r = padd(r, self.pauli(b))
            return r
        if self.isk(c, "CompositeBlock"):
            r = {(): 1 + 0j}
            for b in self.blocks(t):
                r = pmulp(self.pauli(b), r) if self.isk(c, "ChainBlock") else pmulp(r, self.pauli(b))
            return r
        n = c.name
        if n in ("X", "Y", "Z", "I", "N", "Zero"):
            if n == "Zero":
                return {}
            if n == "I":
                return {(): 1 + 0j}
            q = self.ints(self.get(t, "target"))[0]
            if n == "N":
                return {(): 0.5 + 0j, ((q, "Z"),): -0.5 + 0j}
            return {((q, n),): 1 + 0j}
        raise NoOp(show(t, 3))

    def block(self, t):
        if t.op == "new":
            return self.isk(self.cls(t), "AbstractBlock")
        if t.op == "bin":
            return self.block(t.a[1]) or self.block(t.a[2])
        if t.op == "un":
            return self.block(t.a[1])
        if t.op == "ite":
            return self.block(t.a[1]) or self.block(t.a[2])
        return False

    def gates(self, t):
        """flat list of the primitive operations in order of application; scales and sums stay as they are"""
        t = self.pick(t)
        c = self.cls(t)
        if self.isk(c, "CompositeBlock", "AnalogComposite") and not self.isk(c, "AddBlock"):
            return [g for b in self.blocks(t) for g in self.gates(b)]
        return [t]

    def mat(self, t, n):
        """2^n matrix, qubit 0 most significant; later blocks of a chain multiply from the left"""
        t = self.pick(t)
        key = (t, n)
        if key in self._m:
            return self._m[key]
        r = self._m[key] = self._mat(t, n)
        return r

    def _mat(self, t, n):
        c = self.cls(t)
        if c is None:
            raise NoOp(show(t, 3))
        if self.isk(c, "AddBlock"):
            d = 2**n
            r = [[0j] * d for _ in range(d)]
            for b in self.blocks(t):
                m = self.mat(b, n)
                r = [[x + y for x, y in zip(p, q)] for p, q in zip(r, m)]
            return r
        if self.isk(c, "ScaleBlock"):
            s = self.param(t)
            return [[x * s for x in row] for row in self.mat(self.get(t, "block"), n)]
        if self.isk(c, "CompositeBlock", "AnalogComposite"):
            r = eye(n)
            for b in self.blocks(t):
                r = smul(self.mat(b, n), r)
            return r
        if self.isk(c, "HamEvo"):
            g = self.get(t, "generator")
            h = self.mat(g, n) if not (self.isk(self.cls(self.pick(g)), "AbstractBlock") and False) else None
            return expm(h, -1j * self.param(t))
        m, q = self.gate(t, c)
        return embed(m, q, n)

    def gate(self, t, c):
        """(matrix, qubits) of a primitive gate"""
        n = c.name
        tq = lambda k="target": self.ints(self.get(t, k))  # noqa: E731
        if n in GATES:
            return GATES[n], tq()
        if n in ("RX", "RY", "RZ"):
            return rot(n[1], self.param(t).real), tq()
        if n == "PHASE":
            return [[1, 0], [0, cmath.exp(1j * self.param(t))]], tq()
        if n == "U":
            return smul(smul(rot("Z", self.param(t, "omega").real), rot("Y", self.param(t, "theta").real)), rot("Z", self.param(t, "phi").real)), tq()
        if n in ("CNOT", "CZ"):
            return controlled(GATES[n[1] if n == "CZ" else "X"]), tq("control") + tq()
        if n in ("CRX", "CRY", "CRZ"):
            return controlled(rot(n[2], self.param(t).real)), tq("control") + tq()
        if n == "CPHASE":
            return controlled([[1, 0], [0, cmath.exp(1j * self.param(t))]]), tq("control") + tq()
        if n in ("MCRX", "MCRY", "MCRZ"):
            cs = tq("control")
            return controlled(rot(n[3], self.param(t).real), len(cs)), cs + tq()
        if n == "MCPHASE":
            cs = tq("control")
            return controlled([[1, 0], [0, cmath.exp(1j * self.param(t))]], len(cs)), cs + tq()
        if n in ("MCZ", "Toffoli"):
            cs = tq("control")
            return controlled(GATES["Z" if n == "MCZ" else "X"], len(cs)), cs + tq()
        if n == "SWAP":
            return SW, tq("control") + tq()
        if n == "CSWAP":
            return controlled(SW), tq("control") + tq("target1") + tq("target2")
        raise NoOp(f"matrix of {show(t, 3)}")


SW = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]
PM = {("X", "Y"): (1j, "Z"), ("Y", "Z"): (1j, "X"), ("Z", "X"): (1j, "Y"), ("Y", "X"): (-1j, "Z"), ("Z", "Y"): (-1j, "X"), ("X", "Z"): (-1j, "Y")}


def padd(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + v
    return r


def pmulp(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            d, s = dict(k1), v1 * v2
            for q, p in k2:
                if q not in d:
                    d[q] = p
                elif d[q] == p:
                    del d[q]
                else:
                    f, d[q] = PM[(d[q], p)]
                    s *= f
            k = tuple(sorted(d.items()))
            r[k] = r.get(k, 0) + s
    return r


def peq(a, b, tol=1e-9):
    m = max([1e-12] + [abs(v) for v in list(a.values()) + list(b.values())])
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * m for k in set(a) | set(b))


def pstr(p, n=6):
    return " + ".join(f"{v:.6g} {''.join(l + str(q) for q, l in k) or 'I'}" for k, v in list((k, v.real if abs(v.imag) < 1e-12 else v) for k, v in sorted(p.items()) if abs(v) > 1e-12)[:n]) or "0"


def pmat(p, n):
    d = 2**n
    r = [[0j] * d for _ in range(d)]
    for k, v in p.items():
        m = eye(n)
        for q, l in k:
            m = smul(embed(GATES[l], (q,), n), m)
        for i in range(d):
            for j in range(d):
                r[i][j] += v * m[i][j]
    return r


def eye(n):
    return [[complex(i == j) for j in range(2**n)] for i in range(2**n)]


def expm(h, c):
    """exp(c h)"""
    d = len(h)
    a = [[c * x for x in r] for r in h]
    nrm = max(sum(abs(x) for x in r) for r in a)
    s = max(0, math.ceil(math.log2(nrm)) + 2) if nrm > 0 else 0
    a = [[x / 2**s for x in r] for r in a]
    out = [[complex(i == j) for j in range(d)] for i in range(d)]
    term = out
    for k in range(1, 22):
        term = [[x / k for x in r] for r in smul(term, a)]
        out = [[x + y for x, y in zip(p, q)] for p, q in zip(out, term)]
    for _ in range(s):
        out = smul(out, out)
    return out


def same_up_to_phase(a, b, tol=1e-8):
    i, j = max(((i, j) for i in range(len(a)) for j in range(len(a))), key=lambda p: abs(b[p[0]][p[1]]))
    if abs(a[i][j]) < 1e-9:
        return False
    f = b[i][j] / a[i][j]
    return abs(abs(f) - 1) < tol and all(abs(x * f - y) < tol for r, s in zip(a, b) for x, y in zip(r, s))
