"""Shared helpers for the checks."""
from __future__ import annotations

import ast

from .absint import Interp, Policy, State
from .model import Class, Func
from .terms import *  # noqa: F401,F403
from .terms import T, const, contains, cval, is_const, leaves, mk, show, walk


def P(n):
    return mk("param", n)


def given(*names):
    out = []
    for n in names:
        t = n if isinstance(n, T) else P(n)
        out += [(mk("isnone", t), False), (mk("truthy", t), True)]
    return out


def absent(*names):
    out = []
    for n in names:
        t = n if isinstance(n, T) else P(n)
        out += [(mk("isnone", t), True), (mk("truthy", t), False)]
    return out


def args_of(call: T) -> dict:
    """keyword/bound arguments of a call/new/partial term (positional ones under their int index)"""
    if call.op == "partial":
        d = {i: v for i, v in enumerate(call.a[1])}
        d.update(dict(call.a[2]))
        return d
    return {k: v for k, v in call.a[1]}


def callee_name(call: T) -> str:
    if call.op == "new":
        return call.a[0].split(".")[-1]
    c = call.a[0]
    if not isinstance(c, T):
        return str(c)
    if c.op == "attr":
        return c.a[1]
    if c.op in ("fn", "cls", "ext", "bound"):
        return c.a[0].split(".")[-1]
    return ""


def callee_qual(call: T) -> str:
    if call.op == "new":
        return call.a[0]
    c = call.a[0]
    if c.op in ("fn", "cls", "ext", "bound"):
        return c.a[0]
    if c.op == "attr":
        return "." + c.a[1]
    return ""


def with_signature(call: T, formals: list[str]) -> dict:
    """args_of with leftover positional indices mapped to the given formal names"""
    out = {}
    for k, v in args_of(call).items():
        if isinstance(k, int) and k < len(formals):
            out[formals[k]] = v
        else:
            out[k] = v
    return out


def is_raise(t: T) -> bool:
    if t.op == "raise":
        return True
    # call of an unbound local / use of undefined name raises as well
    if t.op == "call" and isinstance(t.a[0], T) and t.a[0].op == "undef":
        return True
    return t.op == "undef"


def calls(t: T):
    for x in walk(t):
        if x.op in ("call", "new", "partial"):
            yield x


def short(q: str) -> str:
    return q.replace("qadence.", "", 1)


def overload_name(f: Func) -> str:
    """stable name of a singledispatch overload: generic[type]"""
    ann = None
    if f.params:
        a = f.annotation(f.params[0])
        ann = ast.unparse(a) if a is not None else "?"
    gen = None
    for d in f.decorators:
        dd = d.func if isinstance(d, ast.Call) else d
        if isinstance(dd, ast.Attribute) and dd.attr == "register":
            gen = ast.unparse(dd.value)
            if isinstance(d, ast.Call) and d.args:
                ann = ast.unparse(d.args[0])
    return f"{f.module.name}.{gen}[{ann}]" if gen else f.qual


def exprs(t: T, op: str):
    for x in walk(t):
        if x.op == op:
            yield x


# ---------------------------------------------------------------------------------------------
# polynomial normal form (linear arithmetic identities are decided by normalisation, no solver)
from fractions import Fraction


def poly(t: T) -> dict:
    """{monomial: coefficient}; monomial = sorted tuple of (atom, power)"""
    if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        v = Fraction(cval(t))
        return {(): v} if v else {}
    if t.op == "bin":
        o, a, b = t.a
        if o in ("+", "-"):
            return padd(poly(a), poly(b), 1 if o == "+" else -1)
        if o == "*":
            return pmul(poly(a), poly(b))
        if o == "/":
            pb = poly(b)
            if len(pb) == 1:
                (m, c), = pb.items()
                if c:
                    return pmul(poly(a), {tuple((x, -k) for x, k in m): 1 / c})
            return pmul(poly(a), {((mk("poly", pkey(pb)), -1),): Fraction(1)})
        if o == "**" and is_const(b) and isinstance(cval(b), int) and 0 <= cval(b) <= 4:
            r = {(): Fraction(1)}
            for _ in range(cval(b)):
                r = pmul(r, poly(a))
            return r
    if t.op == "un" and t.a[0] == "-":
        return padd({}, poly(t.a[1]), -1)
    return {((t, 1),): Fraction(1)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, Fraction(0)) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for x, k in m1 + m2:
                d[x] = d.get(x, 0) + k
            m = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda p: p[0].n))
            r[m] = r.get(m, Fraction(0)) + c1 * c2
            if r[m] == 0:
                del r[m]
    return r


def pkey(p):
    return tuple(sorted(((tuple((x, k) for x, k in m), (c.numerator, c.denominator)) for m, c in p.items()), key=lambda q: str([(x.n, k) for x, k in q[0]])))


def peq(a: T, b: T) -> bool:
    return poly(a) == poly(b)


def obj_heap(st, obj):
    return {k[1]: v for k, v in st.heap.items() if k[0] is obj} if st is not None else {}
