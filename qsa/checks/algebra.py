"""Normal-form comparison of block arithmetic and Hermitian adjoints with the operators they must denote.

Every arithmetic dunder method and every `dagger` is abstractly evaluated for each (operand) block class; the block it
builds is read as a non-commutative polynomial over its operands (sum, product, scalar factor, power) and compared with
the polynomial the operator stands for.  Adjoints are compared with the adjoint of the class's folded gate matrix or of
its parametric form.
"""
from __future__ import annotations

from fractions import Fraction

from ..numfold import GATES, close, dag
from ..util import *

ABS = "qadence.blocks.abstract.AbstractBlock"
CLS = {
    "X": "qadence.operations.X", "RX": "qadence.operations.RX", "CNOT": "qadence.operations.CNOT", "I": "qadence.operations.I", "Zero": "qadence.operations.Zero",
    "Add": "qadence.blocks.composite.AddBlock", "Scale": "qadence.blocks.primitive.ScaleBlock", "Chain": "qadence.blocks.composite.ChainBlock",
    "Kron": "qadence.blocks.composite.KronBlock", "CRX": "qadence.operations.CRX", "HamEvo": "qadence.operations.HamEvo",
}
HERMITIAN = {k for k, m in GATES.items() if close(m, dag(m))} | {"SWAP"}
K = mk("param", "k")


class NoDen(Exception):
    pass


def padd2(a, b):
    r = {m: dict(c) for m, c in a.items()}
    for m, c in b.items():
        r[m] = padd(r.get(m, {}), c)
        if not r[m]:
            del r[m]
    return r


def pmul2(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            r[m1 + m2] = padd(r.get(m1 + m2, {}), pmul(c1, c2))
            if not r[m1 + m2]:
                del r[m1 + m2]
    return r


ONE = {(): Fraction(1)}
UNIT = {(): ONE}


class Den:
    """denotation of block terms as non-commutative polynomials {(atom, ...): scalar polynomial}"""

    def __init__(self, classes):
        self.classes = classes  # operand term -> short class name

    def scalar(self, t):
        t = strip_param(t)
        if t.op == "bin" and t.a[0] == "**" and not is_const(t.a[2]):
            return {((mk("pow", canon_scale(t.a[1]), t.a[2]), 1),): Fraction(1)}
        p = poly(t)
        out = {}
        for m, c in p.items():
            m2 = tuple((canon_scale(x), k) for x, k in m)
            out = padd(out, {m2: c})
        return out

    def items(self, t, ctx):
        """polynomials of the elements of a block collection, `ctx` in sum/prod"""
        t = unlist(t)
        if t.op == "ite":
            c = t.a[0]
            if any(x.op == "isinst" and "Generator" in show(x, 6) for x in walk(c)):
                g = [x for x in walk(c) if x.op == "isinst" and "Generator" in show(x, 6)]
                return self.items(t.a[1] if g[0].a[0].op == "map" else t.a[2], ctx)
            raise NoDen(show(t, 3))
        if t.op in ("list", "tuple"):
            out = []
            for x in t.a[0]:
                if x.op == "star":
                    out += self.items(x.a[0], ctx)
                else:
                    out.append(self.den(x))
            return out
        if t.op == "cat":
            out = []
            for x in t.a:
                out += self.items(x, ctx)
            return out
        if t.op == "map":
            body, coll, cond = t.a[1], t.a[2], t.a[3]
            if cond is not TRUE:
                raise NoDen("filtered")
            if callname(coll) == "range":
                n = args_of(coll)
                if len(n) != 1:
                    raise NoDen("range")
                (n,) = n.values()
                d = self.den(body)
                if len(d) != 1:
                    raise NoDen("power of a sum")
                (m, c), = d.items()
                if not m and c == ONE:
                    return [UNIT]
                return [{(mk("powop", mk("mono", m), n),): self.scalarpow(c, n)}]
            el = [x for x in walk(body) if x.op == "elem" and x.a[0] is coll]
            if el:
                sub = Den({**self.classes})
                ds = [sub.den(lf) for lf, _ in leaves(body)]
                if ds and all(set(d) == {(el[0],)} for d in ds):
                    (c,) = ds[0].values()
                    if any(d != ds[0] for d in ds[1:]):
                        return [{(mk("mixed", coll),): c}]  # some elements get another factor
                    if ctx == "sum" or c == ONE:
                        return [{(mk(ctx, coll),): c}]
            raise NoDen(show(t, 4))
        return [{(mk(ctx, t),): ONE}]

    def scalarpow(self, c, n):
        if c == ONE:
            return ONE
        if len(c) == 1:
            (m, k), = c.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                return {((mk("pow", m[0][0], n), 1),): Fraction(1)}
        raise NoDen("power of a composite scalar")

    def den(self, t):
        k = self.classes.get(t)
        if k == "Zero":
            return {}
        if k == "I":
            return UNIT
        if k == "Scale":
            return {(mk("attr", t, "block"),): {((canon_scale(mk("attr", t, "scale")), 1),): Fraction(1)}}
        if k == "Add":
            return {(mk("sum", mk("attr", t, "blocks")),): ONE}
        if k in ("Chain", "Kron"):
            return {(mk("prod", mk("attr", t, "blocks")),): ONE}
        if t.op == "new":
            n = t.a[0].split(".")[-1]
            a = args_of(t)
            if n == "AddBlock":
                r = {}
                for x in self.items(a["blocks"], "sum"):
                    r = padd2(r, x)
                return r
            if n in ("ChainBlock", "KronBlock", "AnalogChain", "AnalogKron"):
                r = UNIT
                for x in self.items(a["blocks"], "prod"):
                    r = pmul2(r, x)
                return r
            if n == "ScaleBlock":
                s = self.scalar(a["parameter"])
                return pmul2({(): s} if s else {}, self.den(a["block"]))
            if n == "I":
                return UNIT
            if n == "Zero":
                return {}
            raise NoDen(n)
        if t.op == "un" and t.a[0] == "-":
            return pmul2({(): {(): Fraction(-1)}}, self.den(t.a[1]))
        if t.op == "un" and t.a[0] == "+":
            return self.den(t.a[1])
        if t.op == "bin":
            o, a, b = t.a
            if o == "+":
                return padd2(self.den(a), self.den(b))
            if o == "-":
                return padd2(self.den(a), pmul2({(): {(): Fraction(-1)}}, self.den(b)))
            if o == "@":
                return pmul2(self.den(a), self.den(b))
            if o == "*":
                if self.isblock(a) and self.isblock(b):
                    return pmul2(self.den(a), self.den(b))
                if self.isblock(a) or self.isblock(b):
                    bl, s = (a, b) if self.isblock(a) else (b, a)
                    s = self.scalar(s)
                    return pmul2({(): s} if s else {}, self.den(bl))
            if o == "/" and self.isblock(a):
                s = self.scalar(mk("bin", "/", const(1), b))
                return pmul2({(): s}, self.den(a))
        if self.isblock(t):
            return {(t,): ONE}
        raise NoDen(show(t, 3))

    def isblock(self, t):
        if t in self.classes or t.op == "new":
            return True
        if t.op == "attr" and t.a[0] in self.classes and t.a[1] == "block":
            return True
        if t.op == "elem" and t.a[0].op == "attr" and t.a[0].a[1] == "blocks":
            return True
        if t.op == "un":
            return self.isblock(t.a[1])
        if t.op == "bin":
            return self.isblock(t.a[1]) or self.isblock(t.a[2])
        return False


def callname(t):
    return callee_name(t) if t.op in ("call", "new") else ""


def unlist(t):
    while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.list", "builtins.tuple") and len(t.a[1]) == 1:
        t = t.a[1][0][1]
    return t


def strip_param(t):
    while True:
        if t.op in ("new", "call") and callee_name(t) in ("Parameter", "ParamMap") and len(t.a[1]) == 1:
            t = t.a[1][0][1]
            continue
        if t.op in ("new", "call") and callee_name(t) == "sympify" and t.a[1]:
            t = t.a[1][0][1]
            continue
        return t


def canon_scale(t):
    """x.scale, x.parameters.parameter, list(x.parameters.expressions())[0] are the same scalar"""
    b = scale_owner(t)
    return mk("scaleof", b) if b is not None else t


def scale_owner(t):
    """the block whose (single) parameter this term reads, if it does"""
    if t.op == "attr":
        if t.a[1] == "scale":
            return t.a[0]
        if t.a[1] == "parameter" and t.a[0].op == "attr" and t.a[0].a[1] == "parameters":
            return t.a[0].a[0]
    if t.op == "sub" and is_const(t.a[1]):
        c = unlist(t.a[0])
        for x in walk(c):
            if x.op == "attr" and x.a[1] == "parameters":
                return x.a[0]
    if t.op in ("val", "elem"):
        for x in walk(t):
            if x.op == "attr" and x.a[1] == "parameters":
                return x.a[0]
    return None


def check(ctx):
    prog = ctx.prog
    ctx.rule("operator", "each arithmetic operator on blocks builds a block denoting exactly that operation on its operands", 60)
    ctx.rule("pure", "arithmetic and dagger leave their operands unmodified", 100)
    ctx.rule("tensor", "@ builds a Kronecker block of its operands", 8)
    ctx.rule("build", "chain/kron/add keep every operand, once, in the given order", 3)
    ctx.rule("adjoint", "the dagger of a block denotes its Hermitian adjoint on the same qubits with the same noise", 30)
    ctx.rule("circuit", "the dagger of a circuit is the dagger of its block on the same register", 1)
    ctx.assumptions.append("sequences of blocks contain blocks, not generators; kron-ed blocks act on disjoint qubits (checked at construction)")
    classes = {k: prog.cls(q) for k, q in CLS.items()}
    me, ot = P("self"), P("other")

    def base(k, t):
        return Den({t: k}).den(t) if k in ("Zero", "I", "Scale", "Add", "Chain", "Kron") else {(t,): ONE}

    def run_op(sk, m, ok):
        c = classes.get(sk)
        f = c.method(m) if c else None
        if f is None:
            return
        names = [p for p in f.params if p != "self"]
        cons = f"{sk}.{m}({ok or ''})"

        def one():
            I = ctx.interp()
            cl = {me: sk}
            other = P(names[0]) if names else None
            bind = {}
            if ok in classes:
                I.exact[other] = classes[ok]
                cl[other] = ok
            elif other is not None:
                bind = {names[0]: K}
            D = Den(cl)
            s = base(sk, me)
            o = base(ok, other) if ok in classes else None
            neg = {(): {(): Fraction(-1)}}
            if m in ("__add__", "__radd__", "__iadd__"):
                want = padd2(s, o)
            elif m in ("__sub__", "__isub__"):
                want = padd2(s, pmul2(neg, o))
            elif m in ("__mul__", "__imul__", "__matmul__", "__imatmul__") and o is not None:
                want = pmul2(s, o)
            elif m in ("__mul__", "__rmul__"):
                want = pmul2({(): poly(K)}, s)
            elif m == "__truediv__":
                want = pmul2({(): poly(mk("bin", "/", const(1), K))}, s)
            elif m == "__neg__":
                want = pmul2(neg, s)
            elif m == "__pos__":
                want = s
            elif m == "__pow__":
                if not s or s == UNIT:
                    want = s
                else:
                    (mm, cc), = s.items()
                    want = {(mk("powop", mk("mono", mm), K),): D.scalarpow(cc, K)}
            ret, st = I.run(f, exact=c, bindings=bind)
            bad, und, n = None, None, 0
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    continue
                if any(cc.op == "isinst" and cc.a[0] is K and "AbstractBlock" in show(cc, 5) and v for cc, v in g):
                    continue
                if any("typing.Generator" in show(cc, 6) for cc, v in g):
                    continue
                try:
                    got = D.den(leaf)
                except (NoDen, KeyError) as e:
                    und = f"cannot read {show(leaf, 4)[:120]}: {e}"
                    continue
                n += 1
                if got != want:
                    bad = f"builds {show(leaf, 5)[:260]}"
                if m in ("__matmul__", "__imatmul__") and sk not in ("I", "Zero") and ok not in ("I", "Zero"):
                    ctx.ob("tensor", cons, leaf.op == "new" and leaf.a[0].split(".")[-1] in ("KronBlock", "AnalogKron"), f"builds {show(leaf, 3)[:160]}", f.loc)
            pure(ctx, cons, st, list(cl), f)
            ctx.ob("operator", cons, False if bad else None if n == 0 else True, bad or und or "", f.loc)

        ctx.guard("operator", cons, one)

    ks = list(CLS)
    for m in ("__add__", "__radd__", "__iadd__", "__sub__", "__isub__", "__mul__", "__imul__", "__matmul__", "__imatmul__"):
        for sk in ks:
            for ok in ("X", "Add", "Scale", "Chain", "Kron", "CRX") if sk in ("X", "Add", "Scale", "Chain", "Kron") else ("X", "Scale"):
                run_op(sk, m, ok)
    for m in ("__mul__", "__rmul__", "__truediv__", "__pow__"):
        for sk in ks:
            run_op(sk, m, "k")
    for m in ("__neg__", "__pos__"):
        for sk in ks:
            run_op(sk, m, None)

    for q, cn in (("qadence.blocks.utils.chain", "ChainBlock"), ("qadence.blocks.utils.kron", "KronBlock"), ("qadence.blocks.utils.add", "AddBlock")):
        f = ctx.fn(q)
        if f is None:
            continue

        def one(f=f, cn=cn, q=q):
            I = ctx.interp()
            ts = [mk("param", n) for n in ("a", "b", "c")]
            for t in ts:
                I.exact[t] = classes["X"]
            va = f.node.args.vararg
            ret, st = I.run(f, bindings={va.arg: mk("tuple", tuple(ts))} if va else {})
            D = Den({t: "X" for t in ts})
            bad, n, und = None, 0, None
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    continue
                try:
                    got = D.den(leaf)
                except (NoDen, KeyError) as e:
                    und = str(e)
                    continue
                n += 1
                want = UNIT
                if cn == "AddBlock":
                    want = {(t,): ONE for t in ts}
                else:
                    want = {tuple(ts): ONE}
                if got != want or leaf.a[0].split(".")[-1] != cn:
                    bad = f"{f.name}(a, b, c) builds {show(leaf, 5)[:200]}"
            ctx.ob("build", f.name, False if bad else None if n == 0 else True, bad or und or "", f.loc)

        ctx.guard("build", q, one)

    for c in prog.subclasses(ABS):
        f = c.method("dagger")
        if f is None or f.is_abstract or c.name in ("PrimitiveBlock", "ParametricBlock", "TimeEvolutionBlock", "CompositeBlock"):
            continue
        cons = f"{c.name}.dagger"

        def one(c=c, f=f, cons=cons):
            I = ctx.interp()
            ret, st = I.run(f, exact=c)
            bad, und, n = None, None, 0
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    n += 1
                    continue
                r = adjoint_leaf(ctx, c, leaf, st)
                if r is True:
                    n += 1
                elif r is None:
                    und = f"cannot read {show(leaf, 4)[:200]}"
                else:
                    bad = r
            pure(ctx, cons, st, [me], f)
            ctx.ob("adjoint", cons, False if bad else None if und or not n else True, bad or und or "", f.loc)

        ctx.guard("adjoint", cons, one)

    f = ctx.fn("qadence.circuit.QuantumCircuit.dagger")
    if f is not None:
        def one():
            I = ctx.interp(opaque=("qadence.register",))
            ret, st = I.run(f, exact=prog.cls("qadence.circuit.QuantumCircuit"))
            for leaf, g in leaves(ret):
                if is_raise(leaf):
                    continue
                if leaf.op != "new":
                    return ctx.ob("circuit", "QuantumCircuit.dagger", None, show(leaf, 3), f.loc)
                dg = [x for x in calls(leaf) if callee_name(x) == "dagger" and x.a[0].op == "attr" and x.a[0].a[0] is mk("attr", me, "block")]
                bad = None
                if len(dg) != 1:
                    bad = "the circuit's block is not conjugated exactly once"
                elif not contains(leaf, mk("attr", me, "register")):
                    bad = "the register is dropped"
                return ctx.ob("circuit", "QuantumCircuit.dagger", bad is None, bad or "", f.loc)
        ctx.guard("circuit", "QuantumCircuit.dagger", one)


def pure(ctx, cons, st, operands, f):
    w = [(o, k[1], v) for o in operands for k, v in (st.heap if st is not None else {}).items() if k[0] is o and k[1] != "_iterator" and v is not mk("attr", o, k[1])]
    ctx.ob("pure", cons, not w, "; ".join(f"writes {show(o)}.{a}" for o, a, v in w), f.loc)


SUP = ("_qubit_support", "qubit_support")


def is_support(t, whole=True):
    if t is None:
        return False
    t = unlist(t)
    if t.op == "attr" and t.a[1] in SUP and t.a[0] is P("self"):
        return True
    return False


def is_target(t):
    return t is not None and t.op == "sub" and is_const(t.a[1]) and cval(t.a[1]) in (0, -1) and is_support(t.a[0])


def negs(t):
    """number of sign flips on the way to the parameter expression (None if other arithmetic is involved)"""
    k = 0
    while True:
        if t.op == "un" and t.a[0] == "-":
            k += 1
            t = t.a[1]
        elif t.op == "bin" and t.a[0] == "*" and any(is_const(x) and cval(x) in (-1, -1.0) for x in t.a[1:]):
            k += 1
            t = t.a[2] if is_const(t.a[1]) else t.a[1]
        elif t.op == "bin":
            return None, t
        else:
            return k, t


def reads_param(t):
    """names of the entries of self.parameters read ('*' for all, by position)"""
    out = set()
    for x in walk(t):
        if x.op == "attr" and x.a[0] is mk("attr", P("self"), "parameters") and x.a[1] not in ("_uuid_dict", "expressions", "uuids", "values", "items"):
            out.add(x.a[1])
        if x.op in ("val",) and contains(x, mk("attr", P("self"), "parameters")):
            out.add("*")
        if x.op == "sub" and is_const(x.a[1]) and isinstance(cval(x.a[1]), int) and contains(x.a[0], mk("attr", P("self"), "parameters")) and not reads_param(x.a[0]) - {"*"}:
            out.add(cval(x.a[1]))
        if x.op == "elem" and contains(x, mk("attr", P("self"), "parameters")):
            out.add("*")
    return out


def adjoint_leaf(ctx, c, leaf, st):
    me = P("self")
    name = c.name
    sup = {k.name for k in c.mro if not isinstance(k, str)}
    h = obj_heap(st, leaf)
    noise = mk("attr", me, "_noise")

    def dagger_of(t, want):
        return t.op == "call" and callee_name(t) == "dagger" and t.a[0].op == "attr" and want(t.a[0].a[0])

    def kept_noise(a):
        v = a.get("noise")
        if v is None:
            v = next((x for k, x in a.items() if isinstance(k, int) and contains(x, noise)), None)
        return v is not None and contains(v, noise)

    if leaf is me:
        if name in HERMITIAN:
            return True
        if name in GATES:
            return f"{name} is returned unchanged although it is not Hermitian"
        if "ProjectorBlock" in sup or "ParametricBlock" in sup or name in ("MatrixBlock", "ChainBlock", "KronBlock", "AddBlock", "PutBlock", "ScaleBlock"):
            return f"{name} is returned unchanged although it is not Hermitian in general"
        if "ControlBlock" in sup:
            return f"{name} is returned unchanged although its target block may not be Hermitian" if name == "ControlBlock" else None
        return None
    is_copy = leaf.op == "call" and callee_name(leaf) in ("deepcopy", "copy") and leaf.a[1] and leaf.a[1][0][1] is me
    if name in GATES and leaf.op == "new":
        n2 = leaf.a[0].split(".")[-1]
        if n2 not in GATES:
            return None
        if not close(GATES[n2], dag(GATES[name])):
            return f"the dagger of {name} is built as {n2}"
        a = with_signature(leaf, ["target", "noise"])
        if "target" in a and not (is_target(a["target"])) and not is_const(a["target"]):
            return None if contains(a["target"], me) else f"built on {show(a['target'], 3)}"
        if not kept_noise(a):
            return "the noise is dropped"
        return True
    if "ProjectorBlock" in sup:
        if is_copy:
            ket, bra = h.get("ket", mk("attr", me, "ket")), h.get("bra", mk("attr", me, "bra"))
        elif leaf.op == "new":
            a = with_signature(leaf, ["ket", "bra", "qubit_support", "noise"])
            ket, bra = a.get("ket"), a.get("bra")
            if ket is None:
                return None
            if not is_support(a.get("qubit_support")):
                return "the qubit support changes" if a.get("qubit_support") is not None else None
            if not kept_noise(a):
                return "the noise is dropped"
        else:
            return None
        k1, b1 = attrs_of(ket, me), attrs_of(bra, me)
        return True if (k1 == {"bra"} and b1 == {"ket"}) else f"ket becomes {show(ket, 3)}, bra becomes {show(bra, 3)}"
    if name == "MatrixBlock" and leaf.op == "new":
        a = args_of(leaf)
        m = a.get("matrix")
        if m is None:
            return None
        conj = tr = 0
        for x in walk(m):
            nm = callee_name(x) if x.op == "call" else x.a[1] if x.op == "attr" else ""
            if nm in ("conj", "conjugate", "conj_physical"):
                conj += x.op == "call"
            if nm in ("t", "transpose", "swapaxes", "T", "mT") and (x.op == "call" or nm in ("T", "mT")):
                tr += 1
            if nm in ("H", "mH", "adjoint") and (x.op == "call" or nm in ("H", "mH")):
                conj += 1
                tr += 1
        if conj % 2 != 1 or tr % 2 != 1:
            return f"the matrix becomes {show(m, 4)}, not its conjugate transpose"
        if not any(is_support(v) for v in a.values()):
            return "the qubit support changes"
        return True if kept_noise(a) else "the noise is dropped"
    if name == "ScaleBlock" and leaf.op == "new":
        a = args_of(leaf)
        b, p = a.get("block"), a.get("parameter")
        if b is None or p is None:
            return None
        if not dagger_of(b, lambda x: x is mk("attr", me, "block")):
            return f"the inner block becomes {show(b, 3)}"
        if not any(x.op == "call" and callee_name(x) in ("Dagger", "dagger_expression", "conjugate", "adjoint") for x in walk(p)):
            return f"the scale becomes {show(p, 4)}, not its conjugate"
        return True
    if name in ("ChainBlock", "KronBlock", "AddBlock") and leaf.op == "new":
        if leaf.a[0] != c.qual:
            return f"builds a {leaf.a[0].split('.')[-1]}"
        b = unlist(args_of(leaf).get("blocks", NONE))
        if b.op != "map" or b.a[3] is not TRUE:
            return None if b.op != "map" else "some sub-blocks are dropped"
        if not (b.a[1].op == "call" and callee_name(b.a[1]) == "dagger"):
            return f"the sub-blocks become {show(b.a[1], 3)}, not their adjoints"
        nrev = sum(1 for x in walk(b) if (x.op == "call" and callee_name(x) == "reversed") or (x.op == "sub" and x.a[1] is mk("slice", NONE, NONE, const(-1))))
        if name == "ChainBlock" and nrev % 2 != 1:
            return "the order of the chain is not reversed"
        if not contains(b.a[2], mk("attr", me, "blocks")):
            return None
        return True
    if name == "PutBlock" and leaf.op == "new":
        a = args_of(leaf)
        b = a.get("block")
        if b is None or not (b.op == "call" and callee_name(b) == "dagger"):
            return "the inner block is not conjugated"
        return True if is_support(a.get("support")) else "the support changes"
    if "ControlBlock" in sup or "ParametricControlBlock" in sup:
        if not is_copy:
            return None
        b = h.get("blocks")
        if b is None:
            return "the controlled block is not conjugated"
        els = b.a[0] if b.op in ("tuple", "list") else [b.a[1]] if b.op == "map" and b.a[3] is TRUE else None
        if els is None:
            return None
        if not all(x.op == "call" and callee_name(x) == "dagger" for x in els):
            return f"the controlled block becomes {show(b, 4)}"
        if "ParametricControlBlock" in sup:
            p = h.get("parameters")
            if p is None or not any(callee_name(x) == "dagger" for x in calls(p)):
                return "the parameters are not those of the conjugated block"
        for k, v in h.items():
            if k in ("_qubit_support", "control", "target", "_noise"):
                return f"{k} is changed to {show(v, 3)}"
        return True
    if "ParametricBlock" in sup and leaf.op == "new":
        a = dict(args_of(leaf))
        ra = leaf.a[1]
        stars = [v for k, v in ra if k == "*"]
        if "HamEvo" not in sup and leaf.a[0] != c.qual:
            return f"builds a {leaf.a[0].split('.')[-1]}"
        if not any(is_support(v) or is_target(v) for k, v in ra):
            return "the qubit support changes" if "HamEvo" not in sup or not any(contains(v, mk("attr", me, "_qubit_support")) for k, v in ra) else None
        if "HamEvo" in sup:
            gen = a.get("generator")
            if gen is None or attrs_of(gen, me) != {"generator"}:
                return f"the generator becomes {show(gen, 3) if gen is not None else None}"
            if any(x.op == "call" and callee_name(x) == "dagger" for x in walk(gen)) or has_neg(gen):
                return f"the generator becomes {show(gen, 3)} while the time is negated"
            for opt in ("duration", "noise_operators"):
                if opt not in a or attrs_of(a[opt], me) != {opt}:
                    return f"{opt} is dropped"
            p = a.get("parameter")
            k, rest = negs(p) if p is not None else (None, None)
            if k is None:
                return None
            return True if k % 2 == 1 else "the evolution parameter is not negated"
        if not kept_noise(a) and not any(contains(v, noise) for k, v in ra):
            return "the noise is dropped"
        if name == "U":
            want = {"phi": "omega", "theta": "theta", "omega": "phi"}
            for k, src in want.items():
                v = a.get(k)
                if v is None:
                    return None
                kk, rest = negs(v)
                if kk is None:
                    return None
                if kk % 2 != 1:
                    return f"{k} is not negated"
                r = reads_param(rest)
                idx = {"phi": 0, "theta": 1, "omega": 2}[src]
                if r != {src} and r != {idx}:
                    return f"{k} is taken from {sorted(map(str, r))} instead of {src}"
            return True
        ps = [v for v in stars if contains(v, mk("attr", me, "parameters"))] or [v for k, v in ra if k == "parameter" or (isinstance(k, int) and contains(v, mk("attr", me, "parameters")))]
        if len(ps) != 1:
            return None
        v = unlist(ps[0])
        if v.op == "map":
            v = v.a[1] if v.a[3] is TRUE else v
        if v.op in ("tuple", "list") and len(v.a[0]) == 1:
            v = v.a[0][0]
        k, rest = negs(v)
        if k is None:
            return None
        return True if k % 2 == 1 else "the parameter is not negated"
    return None


def attrs_of(t, me):
    return {x.a[1] for x in walk(t) if x.op == "attr" and x.a[0] is me} if t is not None else set()


def has_neg(t):
    return any(x.op == "un" and x.a[0] == "-" for x in walk(t))
