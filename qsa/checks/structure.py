"""Abstract evaluation of block structure queries on client programs covering every operation class and composite kind.

The query properties and dunder methods of the block classes (support, size, depth, iteration, indexing, equality, membership),
of qubit supports and of circuits are evaluated by the abstract interpreter (object semantics, dispatch through the resolved class
hierarchy) and compared with the value their definition over the block tree gives.
"""
from __future__ import annotations

from ..probe import *

PRE = """
from qadence import *
from qadence.operations import *
from qadence.blocks import *
from qadence.blocks.composite import *
from qadence.blocks.matrix import MatrixBlock
from qadence.blocks.primitive import *
from qadence.blocks.utils import *
from qadence.qubit_support import QubitSupport
from qadence.circuit import QuantumCircuit
from qadence.register import Register
"""

# constructor calls of every gate class: (text, support)
ONEQ = ["X", "Y", "Z", "N", "H", "I", "Zero", "S", "SDagger", "T", "TDagger"]
GATES = [(f"{g}({q})", (q,)) for g in ONEQ if g != "Zero" for q in (0, 3)]
GATES += [(f"{g}({q}, 'x')", (q,)) for g in ("RX", "RY", "RZ", "PHASE") for q in (0, 3)] + [("U(2, 'a', 'b', 'c')", (2,))]
GATES += [(f"{g}({a}, {b})", (a, b)) for g in ("CNOT", "CZ", "SWAP") for a, b in ((0, 1), (4, 2))]
GATES += [(f"{g}({a}, {b}, 'x')", (a, b)) for g in ("CRX", "CRY", "CRZ", "CPHASE") for a, b in ((0, 1), (4, 2))]
GATES += [(f"{g}({c}, {t}, 'x')", c + (t,)) for g in ("MCRX", "MCRY", "MCRZ", "MCPHASE") for c, t in (((0, 1), 2), ((5, 3), 1))]
GATES += [(f"{g}({c}, {t})", c + (t,)) for g in ("MCZ", "Toffoli") for c, t in (((0, 1), 2), ((5, 3), 1))]
GATES += [("CSWAP(0, 1, 2)", (0, 1, 2)), ("CSWAP(5, 1, 3)", (5, 1, 3)), ("Projector('01', '10', (2, 4))", (2, 4)), ("Projector('0', '1', 3)", (3,)),
          ("HamEvo(X(1) + Z(3), 't')", (1, 3)), ("HamEvo(N(2), 't')", (2,)), ("HamEvo(kron(X(4), Y(0)), 't')", (4, 0))]

COMP = [  # text, support, children, depth
    ("chain(X(0), RX(2, 'x'))", (0, 2), 2, 2), ("chain(X(3))", (3,), 1, 2), ("chain(X(5), CNOT(1, 2), X(5))", (5, 1, 2), 3, 2), ("chain(chain(X(0), Y(1)), Z(4))", (0, 1, 4), 2, 3),
    ("kron(X(0), CNOT(3, 2))", (0, 3, 2), 2, 2), ("kron(chain(X(0), Y(1)), kron(Z(2), chain(RX(4, 'x'))))", (0, 1, 2, 4), 2, 4),
    ("add(X(1), Y(1), Z(2))", (1, 2), 3, 2), ("add(kron(X(0), Y(2)), 2 * Z(1))", (0, 1, 2), 2, 3), ("X(0) + 2 * kron(Y(1), Z(6))", (0, 1, 6), 2, None),
    ("chain(2 * X(3), HamEvo(X(1) + Z(0), 't'))", (0, 1, 3), 2, 2), ("chain(Toffoli((7, 3), 1), X(0))", (0, 1, 3, 7), 2, 2), ("chain(MCRX((6, 4), 2, 'x'), U(1, 'a', 'b', 'c'))", (1, 2, 4, 6), 2, 2),
]

# pairs that are equal / different; every pair is compared in both directions
EQ = [("X(0)", "X(0)"), ("RX(0, 'x')", "RX(0, 'x')"), ("CNOT(0, 1)", "CNOT(0, 1)"), ("CRX(0, 1, 'x')", "CRX(0, 1, 'x')"), ("MCRX((0, 1), 2, 'x')", "MCRX((0, 1), 2, 'x')"),
      ("U(0, 'a', 'b', 'c')", "U(0, 'a', 'b', 'c')"), ("2 * X(0)", "2 * X(0)"), ("chain(X(0), Y(1))", "chain(X(0), Y(1))"), ("kron(X(0), Y(1))", "kron(Y(1), X(0))"), ("add(X(0), Y(1))", "add(Y(1), X(0))"),
      ("chain(kron(X(0), Y(1)), Z(0))", "chain(kron(Y(1), X(0)), Z(0))"), ("add(X(0), X(0), Y(0))", "add(Y(0), X(0), X(0))"), ("kron(chain(X(0), Y(0)), Z(1))", "kron(Z(1), chain(X(0), Y(0)))"),
      ("HamEvo(X(0), 't')", "HamEvo(X(0), 't')"), ("N(1)", "N(1)"), ("Projector('0', '1', 0)", "Projector('0', '1', 0)"), ("SWAP(0, 1)", "SWAP(0, 1)"), ("CSWAP(0, 1, 2)", "CSWAP(0, 1, 2)"),
      ("Toffoli((0, 1), 2)", "Toffoli((0, 1), 2)"), ("add(2 * X(0), kron(Y(0), Z(1)))", "add(kron(Z(1), Y(0)), 2 * X(0))"), ("tag(chain(X(0)), 'a')", "tag(chain(X(0)), 'a')")]
NE = [("X(0)", "X(1)"), ("X(0)", "Y(0)"), ("X(0)", "RX(0, 'x')"), ("RX(0, 'x')", "RX(0, 'y')"), ("RX(0, 'x')", "RY(0, 'x')"), ("RX(0, 'x')", "RX(1, 'x')"), ("CNOT(0, 1)", "CNOT(1, 0)"), ("CNOT(0, 1)", "CZ(0, 1)"),
      ("CNOT(0, 2)", "CNOT(1, 2)"), ("CRX(0, 1, 'x')", "CRX(1, 0, 'x')"), ("CRX(0, 1, 'x')", "CRX(0, 1, 'y')"), ("CRX(0, 1, 'x')", "CRY(0, 1, 'x')"), ("MCRX((0, 1), 2, 'x')", "MCRX((0, 2), 1, 'x')"),
      ("MCRX((0, 1), 2, 'x')", "MCRX((0, 1), 2, 'y')"), ("MCZ((0, 1), 2)", "MCZ((0, 3), 2)"), ("Toffoli((0, 1), 2)", "Toffoli((0, 2), 1)"), ("Toffoli((0, 1), 2)", "MCZ((0, 1), 2)"),
      ("U(0, 'a', 'b', 'c')", "U(0, 'z', 'b', 'c')"), ("U(0, 'a', 'b', 'c')", "U(0, 'a', 'z', 'c')"), ("U(0, 'a', 'b', 'c')", "U(0, 'a', 'b', 'z')"),
      ("2 * X(0)", "3 * X(0)"), ("2 * X(0)", "2 * X(1)"), ("2 * X(0)", "X(0)"), ("2 * chain(X(0), Y(1))", "2 * chain(Y(1), X(0))"),
      ("chain(X(0), Y(1))", "chain(Y(1), X(0))"), ("chain(X(0), Y(0))", "chain(X(0))"), ("chain(X(0))", "chain(X(0), Y(0))"), ("chain(X(0), Y(1))", "kron(X(0), Y(1))"), ("chain(X(0), Y(1))", "add(X(0), Y(1))"), ("kron(X(0), Y(1))", "add(X(0), Y(1))"),
      ("chain(X(0), Y(1), Z(2))", "chain(X(0), Y(1), Z(3))"), ("chain(X(0), Y(1), Z(2))", "chain(X(0), Y(3), Z(2))"),
      ("kron(X(0), Y(1))", "kron(X(0), Y(2))"), ("kron(X(0), Y(1))", "kron(X(1), Y(0))"), ("kron(X(0), Y(1))", "kron(X(0), Y(1), Z(2))"), ("add(X(0), X(0), Y(0))", "add(X(0), Y(0), Y(0))"), ("add(X(0), Y(0), Y(0))", "add(X(0), X(0), Y(0))"),
      ("add(X(0), Y(0))", "add(X(0), Z(0))"), ("add(X(0), Y(0))", "add(X(0), X(0))"), ("add(X(0), X(0))", "add(X(0), Y(0))"), ("add(X(0), chain(Y(0), Z(0)))", "add(X(0), Y(0))"), ("add(X(0), Y(0))", "add(X(0), chain(Y(0), Z(0)))"),
      ("kron(X(0), kron(Y(1), Z(2)))", "kron(X(0), Y(1))"), ("add(X(0), 2 * Y(0))", "add(X(0), 3 * Y(0))"), ("add(2 * X(0), Y(0))", "add(X(0), 2 * Y(0))"), ("add(X(0), 2 * Y(0))", "add(X(0), Y(0))"),
      ("HamEvo(X(0), 't')", "HamEvo(Y(0), 't')"), ("HamEvo(X(0), 't')", "HamEvo(X(0), 's')"), ("HamEvo(X(0) + Y(1), 't')", "HamEvo(X(0) + Z(1), 't')"), ("Projector('0', '1', 0)", "Projector('1', '0', 0)"), ("Projector('0', '1', 0)", "Projector('0', '0', 0)"),
      ("N(0)", "Projector('0', '0', 0)"), ("SWAP(0, 1)", "SWAP(0, 2)"), ("CSWAP(0, 1, 2)", "CSWAP(1, 0, 2)"), ("S(0)", "SDagger(0)"), ("T(0)", "TDagger(0)"), ("tag(chain(X(0)), 'a')", "tag(chain(X(0)), 'b')")]

IN = [("X(0)", "chain(X(1), chain(X(0)))", True), ("X(0)", "chain(X(1), chain(X(2)))", False), ("RX(0, 'x')", "kron(RX(0, 'x'), X(1))", True), ("RX(0, 'x')", "kron(RX(0, 'y'), X(1))", False),
      ("X", "chain(Y(0), kron(X(1), Z(2)))", True), ("H", "chain(Y(0), kron(X(1), Z(2)))", False), ("kron(X(0), Y(1))", "chain(Z(0), kron(Y(1), X(0)))", True), ("CNOT(0, 1)", "chain(CNOT(1, 0), X(0))", False), ("X(0)", "2 * X(0)", None)]

LISTS = [
    ("[b for b in chain(X(0), Y(1), Z(2))]", ["X(0)", "Y(1)", "Z(2)"]), ("list(chain(X(0), chain(Y(1))))", ["X(0)", "chain(Y(1))"]), ("list(kron(X(3), Y(1)))", ["X(3)", "Y(1)"]), ("list(add(X(0), X(0)))", ["X(0)", "X(0)"]),
    ("[chain(X(0), Y(1), Z(2))[0], chain(X(0), Y(1), Z(2))[2], chain(X(0), Y(1))[-1]]", ["X(0)", "Z(2)", "Y(1)"]),
    ("primitive_blocks(chain(X(0), kron(Y(1), 2 * Z(2)), add(H(0), CNOT(0, 1))))", ["X(0)", "Y(1)", "Z(2)", "H(0)", "CNOT(0, 1)"]), ("primitive_blocks(X(0))", ["X(0)"]), ("primitive_blocks(2 * chain(X(0), chain(Y(0))))", ["X(0)", "Y(0)"]),
    ("get_pauli_blocks(chain(X(0), RX(0, 'x'), kron(Y(1), 2 * Z(2)), H(0)))", ["X(0)", "Y(1)", "Z(2)"]), ("get_pauli_blocks(chain(CNOT(0, 1)))", []),
    ("list(QuantumCircuit(2, X(0), chain(Y(1))).block.blocks)", ["X(0)", "chain(Y(1))"]), ("[QuantumCircuit(2, chain(X(0), Y(1))).block]", ["chain(X(0), Y(1))"]), ("[QuantumCircuit(2, X(0)).block]", ["X(0)"]),
]

NESTED = "[(a, b) for a in c for b in c]"
SUP = [("QubitSupport(1, 2) + QubitSupport(3)", {1, 2, 3}), ("QubitSupport(1, 2) + QubitSupport(2)", {1, 2}), ("QubitSupport() + QubitSupport(4, 0)", {0, 4}), ("QubitSupport(3) + (1, 3)", {1, 3}), ("(1, 3) + QubitSupport(5)", {1, 3, 5}),
       ("QubitSupport('global') + QubitSupport(2)", {0, 1, 2}), ("QubitSupport(1, 3) + QubitSupport('global')", {0, 1, 2, 3}), ("QubitSupport((2, 5))", {2, 5}), ("QubitSupport(1, 2) + QubitSupport(1, 2)", {1, 2})]
DISJ = [("QubitSupport(1, 2).is_disjoint(QubitSupport(3))", True), ("QubitSupport(1, 2).is_disjoint((2, 3))", False), ("QubitSupport('global').is_disjoint((2, 3))", False), ("QubitSupport(1).is_disjoint(QubitSupport('global'))", False), ("QubitSupport().is_disjoint((0,))", True),
        ("QubitSupport('global').is_global", True), ("QubitSupport(0, 1).is_global", False)]
REJ = ["QubitSupport(-1)", "QubitSupport(1, -2)", "kron(X(0), Y(0))", "kron(CNOT(0, 1), X(1))", "kron(chain(X(0), X(2)), kron(Y(1), Z(2)))", "kron(X(1), CNOT(2, 1), X(4))", "QubitSupport(1) + 3", "KronBlock((X(2), X(2)))", "KronBlock(())",
       "KronBlock((CNOT(0, 1), CNOT(2, 3), X(3)))"]
ACC = ["kron(X(0), Y(1))", "kron(CNOT(0, 2), X(1))", "kron(chain(X(0), X(2)), kron(Y(1), Z(3)))", "chain(X(0), Y(0))", "add(X(0), CNOT(0, 1))", "QubitSupport(0)", "kron(X(7), Y(1), CNOT(2, 4))"]


def check(ctx):
    ctx.rule("support", "qubit_support of every gate is its controls and targets, and of a composite the union of its children's; n_qubits is the highest qubit plus one; n_supports the number of qubits", 150)
    ctx.rule("shape", "depth, length, indexing and the primitive/Pauli block lists follow the block tree, in order", 30)
    ctx.rule("iteration", "iterating a composite yields its children in order; iterations do not disturb each other", 3)
    ctx.rule("equality", "blocks are equal exactly if class, qubits, parameters and children agree (krons and sums in any order)", 120)
    ctx.rule("membership", "`in` finds blocks and classes at every level of nesting", 7)
    ctx.rule("reject", "overlapping krons, negative qubits, and circuits larger than their register are rejected", 12)
    ctx.rule("circuit", "a circuit keeps its blocks in order and its register, and compares both", 8)
    ctx.assumptions.append("Parameters built from different names are different symbols (sympy)")
    p = Probe(ctx, PRE)
    ev = Ev(ctx, p)
    for txt, sup in GATES:
        ev.val("support", f"{txt}.qubit_support", sup, lambda v, s=sup: tuple(v) == s or txt.startswith('HamEvo') and set(v) == set(s) and len(v) == len(s))
        ev.val("support", f"({txt}).n_qubits", max(sup) + 1)
        ev.val("support", f"({txt}).n_supports", len(sup))
        ev.val("shape", f"({txt}).depth", 1)
        ev.val("support", f"(2 * {txt}).qubit_support", sup, lambda v, s=sup: set(v) == set(s) and len(v) == len(s))
        ev.val("support", f"(2 * {txt}).n_qubits", max(sup) + 1)
    for txt, sup, n, d in COMP:
        ev.val("support", f"({txt}).qubit_support", sup, lambda v, s=sup: set(v) == set(s) and len(v) == len(s))
        ev.val("support", f"({txt}).n_qubits", max(sup) + 1)
        ev.val("support", f"({txt}).n_supports", len(sup))
        ev.val("shape", f"len({txt})", n)
        if d is not None:
            ev.val("shape", f"({txt}).depth", d)
    for txt, s in SUP:
        ev.val("support", txt, s, lambda v, s=s: set(v) == s and len(v) == len(s))
    for txt, s in DISJ:
        ev.val("support", txt, s)
    for pairs, want in ((EQ, True), (NE, False)):
        for a, b in pairs:
            for x, y in ((a, b), (b, a)):
                ev.val("equality", f"{x} == {y}", want)
    for a, b, want in IN:
        if want is not None:
            ev.val("membership", f"{a} in {b}", want)
    for txt, want in LISTS:
        ev.blocks("circuit" if "QuantumCircuit" in txt else "shape", txt, want)
    for kind in ("chain", "kron", "add"):
        ev.nested(kind)
    for txt in REJ:
        ev.raises("reject", txt, True)
    for txt in ACC:
        ev.raises("reject", txt, False)
    circuits(ctx, ev)


class Ev:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p

    def leaves(self, txt, bindings=None):
        rs, st = self.p.expr(txt, bindings)
        return [l for l, _ in rs], st

    def loc(self, txt):
        return f"client expression {txt}"

    def val(self, rule, txt, want, ok=None, bindings=None):
        def one():
            ls, _ = self.leaves(txt, bindings)
            vs = []
            for l in ls:
                if is_raise(l):
                    return self.ctx.ob(rule, txt, False if len(ls) == 1 else None, f"raises {show(l, 3)[:100]}", self.loc(txt))
                l = tupv(self.p, l)
                try:
                    vs.append(value(l))
                except ValueError:
                    return self.ctx.ob(rule, txt, None, f"cannot read {show(l, 4)[:160]}", self.loc(txt))
            if len(vs) != 1:
                return self.ctx.ob(rule, txt, None, f"{len(vs)} cases", self.loc(txt))
            v = vs[0]
            good = ok(v) if ok else (v == want and isinstance(v, bool) == isinstance(want, bool))
            self.ctx.ob(rule, txt, good, "" if good else f"gives {v!r} instead of {want!r}", self.loc(txt))
        self.ctx.guard(rule, txt, one)

    def blocks(self, rule, txt, want):
        def one():
            ls, st = self.leaves(txt)
            if len(ls) != 1 or is_raise(ls[0]):
                return self.ctx.ob(rule, txt, False if len(ls) == 1 else None, f"gives {show(ls[0], 3)[:120]}", self.loc(txt))
            l = ls[0]
            if l.op not in ("list", "tuple"):
                return self.ctx.ob(rule, txt, None, f"cannot read {show(l, 4)[:160]}", self.loc(txt))
            got = [text(x, st) for x in l.a[0]]
            exp = []
            for w in want:
                wl, s2 = self.leaves(w)
                exp.append(text(wl[0], s2))
            self.ctx.ob(rule, txt, got == exp, "" if got == exp else f"gives {got} instead of {exp}", self.loc(txt))
        self.ctx.guard(rule, txt, one)

    def nested(self, kind):
        txt = f"[(a, b) for a in c for b in c] with c = {kind}(X(0), Y(1))"

        def one():
            c = self.ctx.prog.cls("qadence.blocks.composite." + kind.capitalize() + "Block")
            it, nx = c.method("__iter__"), c.method("__next__")
            # a composite that is its own iterator keeps the position of the running iteration in itself
            t = A_("c")
            self.p.I.exact[t] = c
            h = {(t, "blocks"): mk("tuple", (A_("k0"), A_("k1")))}
            ret, st = self.p.I.run(it, bindings={"self": t}, heap=h, facts=[])
            wr = [k for k in (st.heap if st else {}) if k[0] is t and k not in h]
            same = any(l is t for l, _ in leaves(ret))
            bad = same and nx is not None or bool(wr)
            self.ctx.ob("iteration", txt, not bad, "the block is its own iterator: a nested or interrupted iteration changes the position of another one" if bad else "", it.loc)
            r, _ = self.leaves(f"[b for b in c]", None) if False else (None, None)
        self.ctx.guard("iteration", txt, one)

    def raises(self, rule, txt, want, bindings=None):
        def one():
            ls, _ = self.leaves(txt, bindings)
            rs = [is_raise(l) for l in ls]
            if all(rs) or not any(rs):
                good = None if want and not any(rs) and self.p.maybe else all(rs) == want
                self.ctx.ob(rule, txt, good, "" if good else (f"accepted: {show(ls[0], 3)[:120]}" if want else f"rejected: {show(ls[0], 3)[:120]}"), self.loc(txt))
            else:
                self.ctx.ob(rule, txt, None, "depends on the path", self.loc(txt))
        self.ctx.guard(rule, txt, one)


def A_(n):
    return mk("atom", n)


def tupv(p, t):
    from ..absint import tupval
    return tupval(p.I, t) or t


def text(t, st):
    """canonical text of a built block, ignoring object identity"""
    if t.op == "new":
        kids = st.heap.get((t, "blocks")) if st is not None else None
        a = [(k, v) for k, v in t.a[1] if k != "#"]
        return t.a[0].split(".")[-1] + "(" + ", ".join(f"{k}={text(v, st)}" for k, v in sorted(a, key=lambda q: str(q[0]))) + ")"
    if t.op in ("list", "tuple"):
        return "[" + ", ".join(text(x, st) for x in t.a[0]) + "]"
    return show(t, 6)


def circuits(ctx, ev):
    p = ev.p
    reg = A_("reg")
    rc = ctx.prog.cls("qadence.register.Register")
    for n in (2, 3):
        r = A_(f"reg{n}")
        p.I.exact[r] = rc
        p.heap[(r, "n_qubits")] = const(n)
        p.I.ident.add(r)
    other = A_("other3")
    p.I.exact[other] = rc
    p.I.ident.add(other)
    p.heap[(other, "n_qubits")] = const(3)
    b2, b3 = {"r": A_("reg2")}, {"r": A_("reg3")}
    hook0 = p.I.attr_hook

    def hook(b, name, st):
        if name == "n_qubits" and b.op == "new" and b.a[0].endswith("register.Register"):
            v = args_of(b).get("support")
            return v if v is not None and is_const(v) else None
        return hook0(b, name, st) if hook0 else None
    p.I.attr_hook = hook
    p.I.policy.opaque |= {"qadence.register.Register.__init__"}
    for txt, want, b in [("QuantumCircuit(r, X(2))", True, b2), ("QuantumCircuit(r, X(2))", False, b3), ("QuantumCircuit(r, X(0), chain(Y(1), CNOT(0, 3)))", True, b3), ("QuantumCircuit(r, X(0), Y(1), kron(Z(0), Z(2)))", False, b3),
                         ("QuantumCircuit(2, CNOT(0, 2))", True, {}), ("QuantumCircuit(3, CNOT(2, 0))", False, {}), ("QuantumCircuit(1, 2 * X(1))", True, {}), ("QuantumCircuit(2, HamEvo(X(0) + Y(4), 't'))", True, {}), ("QuantumCircuit(3, MCRX((3, 1), 0, 'x'))", True, {})]:
        ev_txt = txt.replace("(r,", f"(register of {cval(p.heap[(b['r'], 'n_qubits')])} qubits,") if b else txt

        def one(txt=txt, want=want, b=b, ev_txt=ev_txt):
            ls, _ = ev.leaves(txt, b)
            rs = [is_raise(l) for l in ls]
            if all(rs) or not any(rs):
                good = None if want and not any(rs) and p.maybe else all(rs) == want
                ctx.ob("reject", ev_txt, good, "" if good else ("accepted although the block does not fit the register" if want else f"rejected: {show(ls[0], 3)[:120]}"), "qadence/circuit.py")
            else:
                ctx.ob("reject", ev_txt, None, "depends on the path")
        ctx.guard("reject", ev_txt, one)

    def regs():
        ls, _ = ev.leaves("QuantumCircuit(r, X(0)).register", b3)
        ctx.ob("circuit", "QuantumCircuit(register, …).register", ls == [A_("reg3")], f"is {show(ls[0], 3)[:80]}", "qadence/circuit.py")
    ctx.guard("circuit", "QuantumCircuit(register, …).register", regs)
    ev.val("circuit", "QuantumCircuit(r, X(0)).n_qubits", 3, bindings=b3)
    for txt, want, b in [("QuantumCircuit(r, X(0), Y(1)) == QuantumCircuit(r, X(0), Y(1))", True, b3), ("QuantumCircuit(r, X(0), Y(1)) == QuantumCircuit(r, Y(1), X(0))", False, b3), ("QuantumCircuit(r, X(0)) == QuantumCircuit(s, X(0))", False, {**b3, "s": other}),
                         ("QuantumCircuit(r, RX(0, 'x')) == QuantumCircuit(r, RX(0, 'y'))", False, b3)]:
        ev.val("circuit", txt, want, bindings=b)
