"""Normal forms of tensor expressions: a value term is read as a tensor of fixed small shape whose entries are rational functions over opaque atoms.

Nothing is run: the array operations named in the term are applied to symbolic entries, and two results are compared as rational functions.
"""
from __future__ import annotations

import cmath
import itertools
import math

from .terms import T, TRUE, cval, is_const, show
from .util import args_of, callee_name


class NoSym(Exception):
    pass


EPS = 1e-9


class RF:
    """a quotient of polynomials (complex coefficients) over named atoms"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = {m: c for m, c in n.items() if abs(c) > 1e-14}
        d = d if d is not None else {(): 1.0}
        if len(d) == 1:
            (m, c), = d.items()
            if m or c != 1:
                self.n = _pm(self.n, {tuple((a, -k) for a, k in m): 1 / c})
            d = {(): 1.0}
        self.d = d

    @staticmethod
    def c(v):
        return RF({(): complex(v)} if v else {})

    @staticmethod
    def atom(name):
        return RF({((name, 1),): 1.0})

    def __add__(a, b):
        if a.d == b.d:
            return RF(_pa(a.n, b.n), a.d)
        return RF(_pa(_pm(a.n, b.d), _pm(b.n, a.d)), _pm(a.d, b.d))

    def __neg__(a):
        return RF({m: -c for m, c in a.n.items()}, a.d)

    def __sub__(a, b):
        return a + (-b)

    def __mul__(a, b):
        return RF(_pm(a.n, b.n), _pm(a.d, b.d))

    def __truediv__(a, b):
        if not b.n:
            raise NoSym("division by zero")
        return RF(_pm(a.n, b.d), _pm(a.d, b.n))

    def pow(a, k):
        r = RF.c(1)
        for _ in range(abs(k)):
            r = r * a
        return r if k >= 0 else RF.c(1) / r

    def const(self):
        if self.d == {(): 1.0} and all(m == () for m in self.n):
            return self.n.get((), 0j)
        return None

    def eq(a, b):
        x, y = _pm(a.n, b.d), _pm(b.n, a.d)
        scale = max([abs(c) for c in x.values()] + [abs(c) for c in y.values()] + [1e-12])
        return all(abs(x.get(m, 0) - y.get(m, 0)) <= EPS * scale for m in set(x) | set(y))

    def key(self):
        f = lambda p: ";".join(sorted("*".join(f"{a}^{k}" for a, k in m) + f"@{complex(c).real:.9g},{complex(c).imag:.9g}" for m, c in p.items()))
        return f(self.n) + ("" if self.d == {(): 1.0} else "/" + f(self.d))

    def __repr__(self):
        return self.key()


def _pa(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if abs(r[m]) < 1e-14:
            del r[m]
    return r


def _pm(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for x, k in m1 + m2:
                d[x] = d.get(x, 0) + k
            m = tuple(sorted((x, k) for x, k in d.items() if k))
            r[m] = r.get(m, 0) + c1 * c2
            if abs(r[m]) < 1e-14:
                del r[m]
    if len(r) > 4000:
        raise NoSym("expression too large")
    return r


class Ten:
    __slots__ = ("shape", "d")

    def __init__(self, shape, d):
        self.shape, self.d = tuple(shape), list(d)
        if math.prod(self.shape) != len(self.d):
            raise NoSym("shape")

    @staticmethod
    def scalar(r):
        return Ten((), [r if isinstance(r, (RF, bool)) else RF.c(r)])

    @staticmethod
    def of(x):
        """nested lists of RF/Ten/number"""
        if isinstance(x, Ten):
            return x
        if isinstance(x, (list, tuple)):
            return stack([Ten.of(y) for y in x], 0)
        return Ten.scalar(x)

    def strides(self):
        s, r = [], 1
        for n in reversed(self.shape):
            s.append(r)
            r *= n
        return list(reversed(s))

    def at(self, idx):
        return self.d[sum(i * s for i, s in zip(idx, self.strides()))]

    def idx(self):
        return itertools.product(*(range(n) for n in self.shape))

    def map(self, f):
        return Ten(self.shape, [f(x) for x in self.d])

    def reshape(self, shape):
        shape = list(shape)
        if -1 in shape:
            k = shape.index(-1)
            rest = math.prod(n for i, n in enumerate(shape) if i != k)
            if rest == 0 or len(self.d) % rest:
                raise NoSym("reshape")
            shape[k] = len(self.d) // rest
        if math.prod(shape) != len(self.d):
            raise NoSym("reshape")
        return Ten(shape, self.d)

    def build(self, shape, f):
        return Ten(shape, [f(i) for i in itertools.product(*(range(n) for n in shape))])

    def permute(self, order):
        sh = [self.shape[o] for o in order]
        inv = [order.index(i) for i in range(len(order))]
        return self.build(sh, lambda i: self.at([i[inv[k]] for k in range(len(order))]))

    def reduce(self, dim, keep, f):
        if dim is None:
            return Ten.scalar(f(self.d))
        dim %= len(self.shape)
        sh = [n for k, n in enumerate(self.shape) if k != dim]
        r = self.build(sh, lambda i: f([self.at(list(i[:dim]) + [j] + list(i[dim:])) for j in range(self.shape[dim])]))
        return r.reshape(sh[:dim] + [1] + sh[dim:]) if keep else r

    def eq(a, b):
        return a.shape == b.shape and all(x.eq(y) if isinstance(x, RF) and isinstance(y, RF) else x == y for x, y in zip(a.d, b.d))

    def int(self):
        if len(self.d) == 1 and isinstance(self.d[0], RF):
            c = self.d[0].const()
            if c is not None and abs(c.imag) < EPS and abs(c.real - round(c.real)) < EPS:
                return round(c.real)
        raise NoSym("integer expected")

    def __repr__(self):
        return f"{self.shape}{self.d}"


def bshape(*shapes):
    n = max(map(len, shapes))
    out = []
    for k in range(n):
        dims = {s[len(s) - n + k] for s in shapes if len(s) - n + k >= 0} - {1}
        if len(dims) > 1:
            raise NoSym(f"shapes {shapes} do not broadcast")
        out.append(dims.pop() if dims else 1)
    return tuple(out)


def expand(t, shape):
    o = len(shape) - len(t.shape)
    return t.build(shape, lambda i: t.at([0 if t.shape[k] == 1 else i[o + k] for k in range(len(t.shape))]))


def ew(f, a, b):
    sh = bshape(a.shape, b.shape)
    a, b = expand(a, sh), expand(b, sh)
    return Ten(sh, [f(x, y) for x, y in zip(a.d, b.d)])


def stack(ts, dim):
    if not ts or any(t.shape != ts[0].shape for t in ts):
        if not ts:
            return Ten((0,), [])
        raise NoSym("stack of different shapes")
    n = len(ts[0].shape) + 1
    dim %= n
    sh = list(ts[0].shape)
    sh.insert(dim, len(ts))
    return ts[0].build(sh, lambda i: ts[i[dim]].at(list(i[:dim]) + list(i[dim + 1:])))


def cat(ts, dim):
    n = len(ts[0].shape)
    if n == 0 or any(len(t.shape) != n for t in ts):
        raise NoSym("cat of scalars or different ranks")
    dim %= n
    if any(t.shape[:dim] + t.shape[dim + 1:] != ts[0].shape[:dim] + ts[0].shape[dim + 1:] for t in ts):
        raise NoSym("cat of different shapes")
    pick = [(t, j) for t in ts for j in range(t.shape[dim])]
    sh = list(ts[0].shape)
    sh[dim] = len(pick)
    return ts[0].build(sh, lambda i: pick[i[dim]][0].at(list(i[:dim]) + [pick[i[dim]][1]] + list(i[dim + 1:])))


def num(x):
    c = x.const() if isinstance(x, RF) else None
    if c is None:
        raise NoSym(f"number expected, got {x}")
    return c


def real(x):
    c = num(x)
    if abs(c.imag) > EPS:
        raise NoSym("real number expected")
    return c.real


def fun(name, r):
    c = r.const()
    if c is not None:
        if name == "abs":
            return RF.c(abs(c))
        v = getattr(cmath, name)(c)
        return RF.c(v)
    if name in ("sin", "cos", "tan", "abs") and r.d == {(): 1.0}:
        lead = r.n[min(r.n)]
        if (complex(lead).real, complex(lead).imag) < (0, 0):
            inner = fun(name, -r)
            return inner if name in ("cos", "abs") else -inner
    return RF.atom(f"{name}[{r.key()}]")


PASS = {"to", "clone", "detach", "contiguous", "cpu", "double", "float", "type", "requires_grad_", "astype", "as_tensor", "asarray", "block_until_ready", "resolve_conj", "cuda", "copy"}
ELEM = {"sin", "cos", "sqrt", "exp", "tan", "abs", "log", "tanh"}


class Sym:
    """evaluates terms; `env` maps terms to tensors, `hook(term, self)` may give a meaning to further terms (return None to decline)"""

    def __init__(self, env=None, hook=None):
        self.vals = []
        self.env, self.hook, self.memo = dict(env or {}), hook, {}

    def __call__(self, t):
        if t in self.memo:
            r = self.memo[t]
            if r is None:
                raise NoSym("recursive")
            return r
        try:
            r = self._ev(t)
        except (IndexError, KeyError, TypeError, AttributeError, ZeroDivisionError, StopIteration) as e:
            raise NoSym(f"{type(e).__name__}: {e}")
        self.memo[t] = r
        return r

    def truth(self, c):
        """True, False or None"""
        try:
            if c.op == "not":
                v = self.truth(c.a[0])
                return None if v is None else not v
            if c.op in ("and", "or"):
                vs = [self.truth(x) for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a)]
                if c.op == "and":
                    return False if False in vs else None if None in vs else True
                return True if True in vs else None if None in vs else False
            if c.op == "truthy":
                return self.truth(c.a[0])
            if c.op == "ite":
                v = self.truth(c.a[0])
                if v is None:
                    x, y = self.truth(c.a[1]), self.truth(c.a[2])
                    return x if x == y else None
                return self.truth(c.a[1] if v else c.a[2])
            if c.op == "isnone":
                if c.a[0].op == "ite":
                    v = self.truth(c.a[0].a[0])
                    if v is not None:
                        from .terms import mk
                        return self.truth(mk("isnone", c.a[0].a[1 if v else 2]))
                if is_const(c.a[0]):
                    return cval(c.a[0]) is None
                self(c.a[0])
                return False
            if is_const(c):
                return bool(cval(c))
            v = self(c)
            if len(v.d) == 1:
                x = v.d[0]
                return x if isinstance(x, bool) else abs(num(x)) > EPS
        except NoSym:
            pass
        return None

    def seq(self, t):
        """python sequence of terms, or None"""
        if t.op in ("list", "tuple"):
            if any(x.op == "star" for x in t.a[0]):
                raise NoSym("star")
            return list(t.a[0])
        if t.op == "ite":
            v = self.truth(t.a[0])
            if v is not None:
                return self.seq(t.a[1 if v else 2])
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0].split(".")[-1] in ("broadcast_tensors", "broadcast_arrays"):
            ts = [self(x) for x in self.starred(t)]
            shp = bshape(*[x.shape for x in ts])
            from .terms import mk
            out = []
            for x in ts:
                k = mk("symval", len(self.vals))
                self.vals.append(expand(x, shp))
                out.append(k)
            return out
        return None

    def starred(self, t):
        """positional argument terms of a call, with starred sequences expanded"""
        out = []
        for k, v in t.a[1]:
            if k == "*":
                out += self.seq(v) or ()
            elif isinstance(k, int):
                if v.op == "star":
                    out += self.seq(v.a[0]) or ()
                else:
                    out.append(v)
        return out

    def ints(self, ts):
        out = []
        for t in ts:
            s = self.seq(t)
            if s is not None:
                out += [self(x).int() for x in s]
            else:
                v = self(t)
                out += [Ten.scalar(x).int() for x in v.d]
        return out

    def _ev(self, t):
        if t in self.env:
            return self.env[t]
        if self.hook is not None:
            r = self.hook(t, self)
            if r is not None:
                return r
        if is_const(t):
            v = cval(t)
            if isinstance(v, bool):
                return Ten.scalar(v)
            if isinstance(v, (int, float, complex)):
                return Ten.scalar(RF.c(v))
            raise NoSym(repr(v))
        op = t.op
        if op == "symval":
            return self.vals[t.a[0]]
        if op == "fold" and t.a[0] in ("+", "*") and t.a[4] is TRUE and t.a[2].op == "elem" and t.a[2].a[0] is t.a[3]:
            a = self(t.a[3])
            r = self(t.a[1]) if t.a[1].op != "first" else None
            for i in range(a.shape[0]):
                x = self.index_int(a, i).map(lambda v: RF.c(1 if v else 0) if isinstance(v, bool) else v)
                r = x if r is None else ew(lambda u, v: u + v if t.a[0] == "+" else u * v, r, x)
            return r
        if op in ("list", "tuple"):
            s = self.seq(t)
            return stack([self(x) for x in s], 0)
        if op == "ext" or op == "attr" and t.a[1] in ("pi", "e"):
            n = (t.a[0] if op == "ext" else t.a[1]).split(".")[-1]
            if n in ("pi", "e"):
                return Ten.scalar(RF.c(getattr(math, n)))
        if op == "ite":
            v = self.truth(t.a[0])
            if v is not None:
                return self(t.a[1 if v else 2])
            a, b = self(t.a[1]), self(t.a[2])
            if a.eq(b):
                return a
            raise NoSym("undecided branch")
        if op == "bin":
            o = t.a[0]
            a, b = self(t.a[1]), self(t.a[2])
            if o == "@":
                return self.matmul(a, b)
            if o in ("&", "|", "^") and all(isinstance(x, bool) for x in a.d + b.d):
                return ew({"&": lambda x, y: x and y, "|": lambda x, y: x or y, "^": lambda x, y: x != y}[o], a, b)
            if o == "**":
                def pw(x, y):
                    k = num(y)
                    if abs(k.imag) < EPS and abs(k.real - round(k.real)) < EPS and abs(k.real) <= 8:
                        return x.pow(round(k.real))
                    if abs(k - 0.5) < EPS:
                        return fun("sqrt", x)
                    cx = x.const()
                    if cx is not None:
                        return RF.c(cx ** k)
                    raise NoSym("power")
                return ew(pw, a, b)
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "//": lambda x, y: RF.c(real(x) // real(y)), "%": lambda x, y: RF.c(real(x) % real(y))}.get(o)
            if f is None:
                raise NoSym(o)
            b2r = lambda x: RF.c(1 if x else 0) if isinstance(x, bool) else x
            return ew(lambda x, y: f(b2r(x), b2r(y)), a, b)
        if op == "un":
            a = self(t.a[1])
            if t.a[0] == "-":
                return a.map(lambda x: -x)
            if t.a[0] == "+":
                return a
            if t.a[0] in ("~", "not"):
                return a.map(lambda x: not x)
        if op in ("lt", "le", "gt", "ge"):
            a, b = self(t.a[0]), self(t.a[1])
            f = {"lt": lambda x, y: real(x) < real(y), "le": lambda x, y: real(x) <= real(y), "gt": lambda x, y: real(x) > real(y), "ge": lambda x, y: real(x) >= real(y)}[op]
            return ew(f, a, b)
        if op in ("eq", "ne"):
            a, b = self(t.a[0]), self(t.a[1])

            def same(x, y):
                if isinstance(x, bool) or isinstance(y, bool):
                    return x == y
                if x.const() is None or y.const() is None:
                    if x.eq(y):
                        return True
                    raise NoSym("comparison of symbols")
                return x.eq(y)
            return ew(same if op == "eq" else lambda x, y: not same(x, y), a, b)
        if op == "not":
            return self(t.a[0]).map(lambda x: (not x) if isinstance(x, bool) else abs(num(x)) < EPS)
        if op == "sub":
            return self.index(t.a[0], t.a[1])
        if op == "upd":
            a = self(t.a[0])
            v = self(t.a[2])
            i = self(t.a[1]).int() if t.a[1].op not in ("tuple", "slice") else None
            if i is None or not a.shape:
                raise NoSym("update")
            i %= a.shape[0]
            step = len(a.d) // a.shape[0]
            d = list(a.d)
            d[i * step:(i + 1) * step] = expand(v, a.shape[1:]).d
            return Ten(a.shape, d)
        if op == "attr":
            n = t.a[1]
            if n == "shape":
                return Ten((len(self(t.a[0]).shape),), [RF.c(x) for x in self(t.a[0]).shape])
            a = self(t.a[0])
            if n in ("T", "mT"):
                if len(a.shape) < 2:
                    return a
                return a.permute(list(range(len(a.shape) - 2)) + [len(a.shape) - 1, len(a.shape) - 2])
            if n == "real":
                return a.map(self.re)
            if n == "imag":
                return a.map(self.im)
            if n == "data":
                return a
            if n == "ndim":
                return Ten.scalar(len(a.shape))
            raise NoSym(n)
        if op == "call":
            return self.call(t)
        raise NoSym(show(t, 3))

    @staticmethod
    def re(x):
        c = x.const()
        if c is not None:
            return RF.c(c.real)
        if all(abs(complex(v).imag) < EPS for v in x.n.values()):
            return x
        raise NoSym("real part")

    @staticmethod
    def im(x):
        c = x.const()
        if c is not None:
            return RF.c(c.imag)
        if all(abs(complex(v).imag) < EPS for v in x.n.values()):
            return RF.c(0)
        raise NoSym("imaginary part")

    def matmul(self, a, b):
        va, vb = len(a.shape) == 1, len(b.shape) == 1
        if va:
            a = a.reshape((1,) + a.shape)
        if vb:
            b = b.reshape(b.shape + (1,))
        if len(a.shape) != 2 or len(b.shape) != 2 or a.shape[1] != b.shape[0]:
            raise NoSym("matmul")
        r = a.build((a.shape[0], b.shape[1]), lambda i: sum((a.at((i[0], k)) * b.at((k, i[1])) for k in range(a.shape[1])), RF.c(0)))
        sh = list(r.shape)
        if vb:
            sh.pop(1)
        if va:
            sh.pop(0)
        return r.reshape(sh)

    def index_int(self, a, i):
        step = len(a.d) // a.shape[0]
        return Ten(tuple(a.shape[1:]), a.d[i * step:(i + 1) * step])

    def index(self, base, ix):
        s = self.seq(base) if base.op in ("list", "tuple", "ite") else None
        if s is not None and ix.op not in ("tuple", "slice"):
            try:
                return self(s[self(ix).int()])
            except IndexError:
                raise NoSym("index")
        a = self(base)
        parts = list(ix.a[0]) if ix.op == "tuple" else [ix]
        if len(parts) == 1 and parts[0].op not in ("slice",) and parts[0] is not None and not (is_const(parts[0]) and cval(parts[0]) in (None, Ellipsis)):
            v = self(parts[0])
            if v.shape == a.shape and v.d and all(isinstance(x, bool) for x in v.d):
                keep = [x for x, k in zip(a.d, v.d) if k]
                return Ten((len(keep),), keep)
            if len(v.shape) == 1 and len(a.shape) > 1 and v.shape[0] == a.shape[0] and all(isinstance(x, bool) for x in v.d):
                step = len(a.d) // a.shape[0]
                rows = [i for i, k in enumerate(v.d) if k]
                return Ten((len(rows),) + tuple(a.shape[1:]), [x for i in rows for x in a.d[i * step:(i + 1) * step]])
        if any(is_const(p) and cval(p) is Ellipsis for p in parts):
            k = next(i for i, p in enumerate(parts) if is_const(p) and cval(p) is Ellipsis)
            used = sum(1 for p in parts if not (is_const(p) and cval(p) in (None, Ellipsis)))
            from .terms import const, mk
            full = mk("slice", const(None), const(None), const(None))
            parts[k:k + 1] = [full] * (len(a.shape) - used)
        sel, dim = [], 0
        for p in parts:
            if is_const(p) and cval(p) is None:
                sel.append(None)
                continue
            if dim >= len(a.shape):
                raise NoSym("too many indices")
            n = a.shape[dim]
            if p.op == "slice":
                b = [None if is_const(x) and cval(x) is None else self(x).int() for x in p.a]
                sel.append(list(range(*slice(*b).indices(n))))
            else:
                v = self(p)
                if v.shape == ():
                    i = v.int()
                    if not -n <= i < n:
                        raise NoSym("index out of range")
                    sel.append(i % n)
                elif len(v.shape) == 1:
                    sel.append([Ten.scalar(x).int() % n for x in v.d])
                else:
                    raise NoSym("index")
            dim += 1
        while dim < len(a.shape):
            sel.append(list(range(a.shape[dim])))
            dim += 1
        sh = [1 if s is None else len(s) for s in sel if not isinstance(s, int)]

        def get(i):
            i, out = list(i), []
            for s in sel:
                if s is None:
                    i.pop(0)
                elif isinstance(s, int):
                    out.append(s)
                else:
                    out.append(s[i.pop(0)])
            return a.at(out)
        return a.build(sh, get)

    def call(self, t):
        n, kw, c = callee_name(t), args_of(t), t.a[0]
        pos = [kw[i] for i in sorted(k for k in kw if isinstance(k, int))]
        q = c.a[0] if c.op == "ext" else ""
        if c.op == "attr" and c.a[0].op not in ("ext",):
            pos = [c.a[0]] + pos
        elif c.op not in ("ext", "attr"):
            raise NoSym(show(t, 3))
        if any(k.startswith("*") for k in kw if isinstance(k, str)):
            raise NoSym("star arguments")

        def arg(i, name, default=None):
            return pos[i] if i < len(pos) else kw.get(name, default)

        if n in PASS:
            return self(pos[0])
        if n in ("tensor", "array", "Tensor"):
            return self(arg(0, "data") if arg(0, "data") is not None else kw["object"])
        if n in ELEM or n in ("absolute",):
            return self(pos[0]).map(lambda x: fun("abs" if n == "absolute" else n, x))
        if n in ("neg", "negative"):
            return self(pos[0]).map(lambda x: -x)
        if n in ("add", "sub", "mul", "div", "subtract", "multiply", "divide", "true_divide") and len(pos) == 2:
            o = {"add": "+", "sub": "-", "mul": "*", "div": "/", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/"}[n]
            from .terms import mk
            return self(mk("bin", o, pos[0], pos[1]))
        if n == "square":
            return self(pos[0]).map(lambda x: x * x)
        if n == "reciprocal":
            return self(pos[0]).map(lambda x: RF.c(1) / x)
        if n == "item":
            a = self(pos[0])
            if len(a.d) != 1:
                raise NoSym("item")
            return Ten((), a.d)
        if n in ("float", "int", "complex") and q.startswith("builtins"):
            return self(pos[0])
        if n in ("numel", "nelement"):
            return Ten.scalar(len(self(pos[0]).d))
        if n == "dim":
            return Ten.scalar(len(self(pos[0]).shape))
        if n == "len":
            s = self.seq(pos[0])
            if s is not None:
                return Ten.scalar(len(s))
            a = self(pos[0])
            return Ten.scalar(a.shape[0])
        if n == "size":
            a = self(pos[0])
            if len(pos) > 1:
                return Ten.scalar(a.shape[self(pos[1]).int()])
            return Ten((len(a.shape),), [RF.c(x) for x in a.shape])
        if n in ("reshape", "view"):
            return self(pos[0]).reshape(self.ints(pos[1:] or [kw["shape"]]))
        if n in ("flatten", "ravel") and len(pos) == 1 and not kw.get("start_dim"):
            a = self(pos[0])
            return a.reshape((len(a.d),))
        if n in ("squeeze",):
            a = self(pos[0])
            d = arg(1, "dim", kw.get("axis"))
            if d is None:
                return a.reshape([x for x in a.shape if x != 1])
            k = self(d).int() % len(a.shape)
            return a.reshape([x for i, x in enumerate(a.shape) if i != k or x != 1])
        if n in ("unsqueeze", "expand_dims"):
            a = self(pos[0])
            k = self(arg(1, "dim", kw.get("axis"))).int() % (len(a.shape) + 1)
            return a.reshape(a.shape[:k] + (1,) + a.shape[k:])
        if n in ("expand", "broadcast_to") and len(pos) > 1:
            a = self(pos[0])
            sh = self.ints(pos[1:])
            sh = [a.shape[i - (len(sh) - len(a.shape))] if x == -1 else x for i, x in enumerate(sh)]
            return expand(a, sh)
        if n in ("sum", "mean", "prod", "amax", "amin") or n in ("max", "min") and q.startswith("builtins"):
            a = self(pos[0]) if len(pos) == 1 or n not in ("max", "min") else stack([self(x) for x in pos], 0)
            d = arg(1, "dim", kw.get("axis")) if n not in ("max", "min") else None
            keep = any(self.truth(kw[k]) for k in ("keepdim", "keepdims") if k in kw)
            b2r = lambda x: RF.c(1 if x else 0) if isinstance(x, bool) else x

            def add(xs):
                r = RF.c(0)
                for x in xs:
                    r = r + b2r(x)
                return r

            def prod(xs):
                r = RF.c(1)
                for x in xs:
                    r = r * b2r(x)
                return r
            f = {"sum": add, "mean": lambda xs: add(xs) / RF.c(len(xs)), "prod": prod, "max": lambda xs: RF.c(max(map(real, xs))), "min": lambda xs: RF.c(min(map(real, xs))), "amax": lambda xs: RF.c(max(map(real, xs))), "amin": lambda xs: RF.c(min(map(real, xs)))}[n]
            if d is None or is_const(d) and cval(d) is None:
                return a.reduce(None, False, f)
            return a.reduce(self(d).int(), keep, f)
        if n in ("all", "any") and len(pos) in (1, 2):
            a = self(pos[0])
            d = arg(1, "dim", kw.get("axis"))
            f = lambda xs: (all if n == "all" else any)(x if isinstance(x, bool) else abs(num(x)) > EPS for x in xs)
            return a.reduce(None, False, f) if d is None or is_const(d) and cval(d) is None else a.reduce(self(d).int(), False, f)
        if n in ("stack", "cat", "concat", "concatenate", "vstack", "hstack"):
            s = self.seq(pos[0])
            if s is None:
                a = self(pos[0])
                ts = [Ten(a.shape[1:], a.d[i * (len(a.d) // a.shape[0]):(i + 1) * (len(a.d) // a.shape[0])]) for i in range(a.shape[0])]
            else:
                ts = [self(x) for x in s]
            d = arg(1, "dim", kw.get("axis"))
            d = self(d).int() if d is not None else 0
            if n == "stack":
                return stack(ts, d)
            if n == "vstack":
                ts = [x.reshape((1,) * (2 - len(x.shape)) + x.shape) if len(x.shape) < 2 else x for x in ts]
                return cat(ts, 0)
            if n == "hstack":
                ts = [x.reshape((1,)) if not x.shape else x for x in ts]
                return cat(ts, 0 if len(ts[0].shape) == 1 else 1)
            return cat(ts, d)
        if n == "outer":
            a, b = self(pos[0]), self(pos[1])
            return a.build((len(a.d), len(b.d)), lambda i: a.d[i[0]] * b.d[i[1]])
        if n in ("matmul", "mm", "mv", "dot"):
            return self.matmul(self(pos[0]), self(pos[1]))
        if n in ("transpose", "t", "permute", "swapaxes"):
            a = self(pos[0])
            if n == "t" or n == "transpose" and len(pos) == 1 and "axes" not in kw:
                return a.permute(list(reversed(range(len(a.shape)))))
            ks = self.ints(pos[1:] or [kw.get("axes", kw.get("dims"))])
            if n in ("transpose", "swapaxes") and len(ks) == 2 and len(pos) == 3:
                o = list(range(len(a.shape)))
                o[ks[0]], o[ks[1]] = o[ks[1]], o[ks[0]]
                return a.permute(o)
            return a.permute(ks)
        if n in ("tril", "triu"):
            a = self(pos[0])
            k = arg(1, "diagonal", kw.get("k"))
            k = self(k).int() if k is not None else 0
            f = (lambda i: i[-1] - i[-2] <= k) if n == "tril" else (lambda i: i[-1] - i[-2] >= k)
            return a.build(a.shape, lambda i: a.at(i) if f(i) else RF.c(0))
        if n in ("unique",):
            a = self(pos[0])
            vals = []
            for x in sorted(real(x) for x in a.d):
                if not vals or abs(vals[-1] - x) > EPS:
                    vals.append(x)
            return Ten((len(vals),), [RF.c(x) for x in vals])
        if n == "sort" and len(pos) == 1:
            raise NoSym("sort")
        if n == "arange":
            v = [real(self(x).d[0]) for x in pos]
            lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
            k = max(0, math.ceil((hi - lo) / st - 1e-9))
            return Ten((k,), [RF.c(lo + i * st) for i in range(k)])
        if n == "linspace":
            a, b = self(pos[0]), self(pos[1])
            k = self(arg(2, "steps", kw.get("num"))).int()
            a, b = a.d[0], b.d[0]
            return Ten((k,), [a + (b - a) * RF.c(i / (k - 1)) if k > 1 else a for i in range(k)])
        if n in ("ones", "zeros"):
            sh = self.ints(pos if pos else [kw.get("size", kw.get("shape"))])
            return Ten(sh, [RF.c(1 if n == "ones" else 0)] * math.prod(sh))
        if n in ("ones_like", "zeros_like"):
            return self(pos[0]).map(lambda x: RF.c(1 if n == "ones_like" else 0))
        if n == "eye":
            k = self(pos[0]).int()
            return Ten((k, k), [RF.c(1 if i == j else 0) for i in range(k) for j in range(k)])
        if n in ("real", "imag"):
            return self(pos[0]).map(self.re if n == "real" else self.im)
        if n in ("round", "round_", "rint"):
            d = arg(1, "decimals", kw.get("ndigits"))
            d = self(d).int() if d is not None else 0
            return self(pos[0]).map(lambda x: RF.c(round(real(x), d)))
        if n == "complex" and len(pos) == 2:
            return ew(lambda x, y: x + RF.c(1j) * y, self(pos[0]), self(pos[1]))
        if n == "where" and len(pos) == 3:
            m, a, b = (self(x) for x in pos)
            sh = bshape(m.shape, a.shape, b.shape)
            m, a, b = expand(m, sh), expand(a, sh), expand(b, sh)
            return Ten(sh, [x if k else y for k, x, y in zip(m.d, a.d, b.d)])
        if n == "solve" and "linalg" in q or n == "solve" and show(c, 4).endswith("linalg.solve"):
            return self.solve(self(pos[0]), self(pos[1]))
        if n == "inv":
            a = self(pos[0])
            return self.solve(a, Ten(a.shape, [RF.c(1 if i == j else 0) for i in range(a.shape[0]) for j in range(a.shape[0])]))
        if n == "kron":
            a, b = self(pos[0]), self(pos[1])
            if len(a.shape) == 2 == len(b.shape):
                return a.build((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]), lambda i: a.at((i[0] // b.shape[0], i[1] // b.shape[1])) * b.at((i[0] % b.shape[0], i[1] % b.shape[1])))
        if n in ("range",) and q.startswith("builtins"):
            v = [self(x).int() for x in pos]
            return Ten((len(range(*v)),), [RF.c(i) for i in range(*v)])
        raise NoSym(show(t, 3))

    def solve(self, m, f):
        """exact solution by Cramer's rule (systems of up to 3 equations)"""
        k = m.shape[0]
        if m.shape != (k, k) or f.shape[0] != k or k > 3 or len(f.shape) > 2:
            raise NoSym("solve")
        g = f if len(f.shape) == 2 else f.reshape((k, 1))
        rows = [[m.at((i, j)) for j in range(k)] for i in range(k)]
        det = _det(rows)

        def sol(i):
            r = [[g.at((a, i[1])) if b == i[0] else rows[a][b] for b in range(k)] for a in range(k)]
            return _det(r) / det
        return g.build(g.shape, sol).reshape(f.shape)


def _det(m):
    if len(m) == 1:
        return m[0][0]
    r = RF.c(0)
    for j, x in enumerate(m[0]):
        minor = _det([[y for q, y in enumerate(row) if q != j] for row in m[1:]])
        r = r + (x * minor if j % 2 == 0 else -(x * minor))
    return r
