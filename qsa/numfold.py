"""Constant folding of small matrix literals (gate tables) from value terms; nothing is imported or executed."""
from __future__ import annotations

import cmath
import math

from .terms import T, cval, is_const
from .util import args_of, callee_name

PASS = {"unsqueeze", "squeeze", "to", "clone", "contiguous", "detach", "conj_physical", "resolve_conj"}


class NoFold(Exception):
    pass


def fold(t: T):
    """complex | nested list of complex; raises NoFold"""
    if is_const(t):
        v = cval(t)
        if isinstance(v, bool) or not isinstance(v, (int, float, complex)):
            raise NoFold(repr(v))
        return complex(v)
    if t.op in ("list", "tuple"):
        return [fold(x) for x in t.a[0]] if isinstance(t.a[0], tuple) else [fold(x) for x in t.a]
    if t.op == "un" and t.a[0] == "-":
        return ew(lambda x: -x, fold(t.a[1]))
    if t.op == "un" and t.a[0] == "+":
        return fold(t.a[1])
    if t.op == "bin":
        o, a, b = t.a
        x, y = fold(a), fold(b)
        if o == "@":
            return matmul(x, y)
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q, "**": lambda p, q: p**q}.get(o)
        if f is None:
            raise NoFold(o)
        return ew2(f, x, y)
    if t.op in ("ext",):
        n = t.a[0].split(".")[-1]
        if n == "pi":
            return complex(math.pi)
        if n == "e":
            return complex(math.e)
        raise NoFold(t.a[0])
    if t.op == "attr":
        n = t.a[1]
        if n in ("T", "mT"):
            return transpose(fold(t.a[0]))
        if n in ("H", "mH"):
            return ew(lambda x: x.conjugate(), transpose(fold(t.a[0])))
        if n == "pi":
            return complex(math.pi)
        raise NoFold(n)
    if t.op == "call":
        n = callee_name(t)
        a = args_of(t)
        c = t.a[0]
        if c.op == "attr":
            if n in PASS:
                return fold(c.a[0])
            if n in ("conj", "conjugate"):
                return ew(lambda x: x.conjugate(), fold(c.a[0]))
            if n in ("t",):
                return transpose(fold(c.a[0]))
            if n in ("exp", "sqrt") and 0 not in a:
                return ew(getattr(cmath, n), fold(c.a[0]))
        pos = [a[i] for i in range(len(a)) if i in a]
        if n in ("tensor", "array", "asarray", "as_tensor", "complex", "float", "int", "contiguous"):
            if n == "complex" and len(pos) == 2:
                return fold(pos[0]) + 1j * fold(pos[1])
            x = pos[0] if pos else a.get("data", a.get("object"))
            if x is None:
                raise NoFold(n)
            return unwrap(fold(x))
        if n in ("exp", "sqrt", "cos", "sin"):
            return ew(getattr(cmath, n), fold(pos[0]))
        if n == "conj":
            return ew(lambda x: x.conjugate(), fold(pos[0]))
        if n in ("transpose",):
            return transpose(fold(pos[0]))
        if n == "eye":
            k = int(fold(pos[0]).real)
            return [[complex(i == j) for j in range(k)] for i in range(k)]
        if n in ("zeros_like", "ones_like"):
            z = 0j if n == "zeros_like" else 1 + 0j
            return ew(lambda x: z, fold(pos[0]))
        if n in ("zeros", "ones", "full"):
            dims = []
            for p in pos[:1] if n == "full" or pos[0].op in ("tuple", "list") else pos:
                d = fold(p)
                dims += [int(x.real) for x in (d if isinstance(d, list) else [d])]
            z = 0j if n == "zeros" else 1 + 0j
            r = z
            for d in reversed(dims):
                r = [r for _ in range(d)]
            return r
        if n == "diag" and pos:
            d = fold(pos[0])
            if d and not isinstance(d[0], list):
                return [[d[i] if i == j else 0j for j in range(len(d))] for i in range(len(d))]
        if n in ("matmul", "mm") and len(pos) == 2:
            return matmul(fold(pos[0]), fold(pos[1]))
        if n == "kron" and len(pos) == 2:
            return kron(fold(pos[0]), fold(pos[1]))
        if n in ("cat", "hstack", "concatenate"):
            parts = fold(pos[0])
            out = []
            for p in parts:
                if not isinstance(p, list):
                    raise NoFold("cat of a scalar")
                out += p
            return out
    raise NoFold(t.op)


def unwrap(x):
    """0-d/1-element tensors nested in a literal"""
    return x


def ew(f, x):
    return [ew(f, y) for y in x] if isinstance(x, list) else f(x)


def ew2(f, x, y):
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            raise NoFold("shape")
        return [ew2(f, a, b) for a, b in zip(x, y)]
    if isinstance(x, list):
        return [ew2(f, a, y) for a in x]
    if isinstance(y, list):
        return [ew2(f, x, b) for b in y]
    return f(x, y)


def transpose(m):
    return [list(r) for r in zip(*m)]


def matmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def kron(a, b):
    return [[a[i][j] * b[k][l] for j in range(len(a[0])) for l in range(len(b[0]))] for i in range(len(a)) for k in range(len(b))]


def close(a, b, tol=1e-6):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) < tol


def dag(m):
    return ew(lambda x: x.conjugate(), transpose(m))


R2 = 2 ** -0.5
W = cmath.exp(1j * math.pi / 4)
GATES = {
    "Zero": [[0, 0], [0, 0]], "I": [[1, 0], [0, 1]], "X": [[0, 1], [1, 0]], "Y": [[0, -1j], [1j, 0]], "Z": [[1, 0], [0, -1]],
    "H": [[R2, R2], [R2, -R2]], "S": [[1, 0], [0, 1j]], "SDagger": [[1, 0], [0, -1j]], "T": [[1, 0], [0, W]], "TDagger": [[1, 0], [0, W.conjugate()]],
    "N": [[0, 0], [0, 1]],
}
GATES = {k: [[complex(x) for x in r] for r in m] for k, m in GATES.items()}


def rot(axis, a):
    """exp(-i a/2 P)"""
    p = GATES[axis]
    return [[math.cos(a / 2) * (i == j) - 1j * math.sin(a / 2) * p[i][j] for j in range(2)] for i in range(2)]


def embed(m, qubits, n):
    """matrix on `qubits` (first = most significant index of m) as a 2^n matrix with qubit 0 most significant"""
    k = len(qubits)
    d = 2**n
    out = [[0j] * d for _ in range(d)]
    for col in range(d):
        bits = [(col >> (n - 1 - q)) & 1 for q in range(n)]
        c = 0
        for q in qubits:
            c = 2 * c + bits[q]
        for r in range(2**k):
            v = m[r][c]
            if v:
                b2 = list(bits)
                for j, q in enumerate(qubits):
                    b2[q] = (r >> (k - 1 - j)) & 1
                row = 0
                for b in b2:
                    row = 2 * row + b
                out[row][col] += v
    return out


def controlled(m, n_controls=1):
    d = len(m)
    tot = d * 2**n_controls
    out = [[complex(i == j) for j in range(tot)] for i in range(tot)]
    for i in range(d):
        for j in range(d):
            out[tot - d + i][tot - d + j] = m[i][j]
    return out


def smul(a, b):
    """product of sparse-ish square matrices"""
    n = len(a)
    out = []
    for i in range(n):
        row = [0j] * n
        for k, x in enumerate(a[i]):
            if x:
                bk = b[k]
                for j in range(n):
                    if bk[j]:
                        row[j] += x * bk[j]
        out.append(row)
    return out
