"""Normal-form comparison of measurement estimators with the operator they are asked to estimate.

The measurement protocols are evaluated abstractly on symbolic sample counts; the estimate is a rational function of the counts, and together with the basis rotations
of the sampled circuits it denotes an operator, which is compared with the observable.
"""
from __future__ import annotations

import itertools
import math

from ..absint import AbsRaise
from ..numfold import GATES, close, dag, embed, smul, controlled
from ..probe import *
from ..symten import NoSym, RF, Sym, Ten

PRE = """
from collections import Counter
import numpy as np
from qadence import *
from qadence.operations import *
from qadence.blocks import *
from qadence.circuit import QuantumCircuit
from qadence.register import Register
from qadence.types import *
from qadence.measurements import Measurements
from qadence.measurements.tomography import compute_expectation as tomography
from qadence.measurements.samples import compute_expectation as from_samples
from qadence.measurements import shadow
from qadence.measurements.shadow import compute_expectation as shadows, classical_shadow, estimators, extract_operators, number_of_samples
from qadence.measurements.utils import *
"""
PREP = "chain(SWAP(0, 1), H(2))"

# observable and its operator as (coefficient, word)
OBS = {
    "Z(0)": [(1, "Z0")],
    "X(1)": [(1, "X1")],
    "Y(2)": [(1, "Y2")],
    "kron(X(0), Y(1), Z(2))": [(1, "X0 Y1 Z2")],
    "kron(Z(2), Y(0))": [(1, "Z2 Y0")],
    "kron(Y(2), Y(1), X(0))": [(1, "X0 Y1 Y2")],
    "kron(Z(0), I(1))": [(1, "Z0")],
    "kron(I(0), X(1), I(2))": [(1, "X1")],
    "I(0) + Z(1)": [(1, ""), (1, "Z1")],
    "2 * Z(0) + 3 * X(1)": [(2, "Z0"), (3, "X1")],
    "3 * (Z(0) + 2 * kron(X(1), Y(2)))": [(3, "Z0"), (6, "X1 Y2")],
    "-Z(0) @ Y(1)": [(-1, "Z0 Y1")],
    "Z(0) - Z(1)": [(1, "Z0"), (-1, "Z1")],
    "chain(Z(0), Z(0)) + Z(2)": [(1, ""), (1, "Z2")],
    "chain(X(0), Z(2))": [(1, "X0 Z2")],
    "kron(kron(X(0), Y(1)), Y(2))": [(1, "X0 Y1 Y2")],
    "kron(Z(0) + X(0), Y(2))": [(1, "Z0 Y2"), (1, "X0 Y2")],
    "N(0)": [(0.5, ""), (-0.5, "Z0")],
    "kron(N(0), N(1))": [(0.25, ""), (-0.25, "Z0"), (-0.25, "Z1"), (0.25, "Z0 Z1")],
    "Z(0) + Z(1) + kron(Z(0), Z(1)) + X(2)": [(1, "Z0"), (1, "Z1"), (1, "Z0 Z1"), (1, "X2")],
    "add(0.5 * kron(X(0), X(1)), 0.25 * kron(Y(0), Y(1)), kron(Z(1), Z(2)))": [(0.5, "X0 X1"), (0.25, "Y0 Y1"), (1, "Z1 Z2")],
}
DIAG = ["Z(0)", "kron(Z(0), I(1))", "I(0) + Z(1)", "Z(0) - Z(1)", "2 * kron(Z(0), Z(2)) + Z(1)", "3 * (Z(0) + 2 * kron(Z(1), Z(2)))", "kron(Z(2), Z(0))", "chain(Z(0), Z(0)) + Z(2)"]
OBS["2 * kron(Z(0), Z(2)) + Z(1)"] = [(2, "Z0 Z2"), (1, "Z1")]
OBS["3 * (Z(0) + 2 * kron(Z(1), Z(2)))"] = [(3, "Z0"), (6, "Z1 Z2")]
OBS["kron(Z(2), Z(0))"] = [(1, "Z0 Z2")]


def check(ctx):
    ctx.rule("tomography", "the tomography estimate, read as an operator, is the observable", 20)
    ctx.rule("batch", "every batch element and every observable is estimated from its own samples", 2)
    ctx.rule("request", "the circuits are sampled with the requested shots, noise, state and parameters, on the given backend and register, in qubit order", 6)
    ctx.rule("samples", "the expectation computed from given samples is the mean of the observable over them", 6)
    ctx.rule("basis", "the shadow rotation with index k maps the Pauli operator with index k to Z", 6)
    ctx.rule("shadow", "the shadow estimator averages exactly the snapshots measured in the basis of the word, over its qubits", 8)
    ctx.rule("snapshot", "snapshot i of batch element b holds the signs of the outcome of the i-th random basis, measured after the circuit", 4)
    ctx.rule("budget", "the shot budget and the number of groups reach the requested accuracy and confidence", 4)
    ctx.rule("partition", "snapshots are split into consecutive equal groups, the median over groups is weighted with the coefficient and summed", 3)
    ctx.rule("options", "missing protocol options and unknown protocols raise", 5)
    ctx.assumptions += ["backend.sample returns bit strings in qubit order for endianness BIG", "convergence of the estimates with the number of shots is not decided"]
    for r, f in (("tomography", tomography), ("batch", batch), ("request", request), ("samples", samples), ("basis", basis), ("shadow", shadow_est), ("snapshot", snapshot), ("budget", budget), ("partition", partition), ("options", options)):
        ctx.guard(r, f.__name__, lambda f=f: f(ctx))


def word(w, n):
    m = [[complex(i == j) for j in range(2**n)] for i in range(2**n)]
    for x in w.split():
        m = smul(embed(GATES[x[0]], [int(x[1:])], n), m)
    return m


def operator(terms, n):
    out = [[0j] * 2**n for _ in range(2**n)]
    for c, w in terms:
        m = word(w, n)
        for i in range(2**n):
            for j in range(2**n):
                out[i][j] += c * m[i][j]
    return out


class NoMat(Exception):
    pass


def kids(t, heap):
    d = dict(t.a[1])
    b = heap.get((t, "blocks")) or d.get("blocks")
    if b is not None and b.op in ("list", "tuple") and not any(x.op == "star" for x in b.a[0]):
        return list(b.a[0])
    raise NoMat(show(t, 3))


SW = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]


def unitary(t, heap, n):
    """matrix of a block of parameter-free gates"""
    if t.op != "new":
        raise NoMat(show(t, 3))
    name, d = t.a[0].split(".")[-1], {k: v for k, v in t.a[1] if k != "#"}
    if name in ("ChainBlock", "KronBlock"):
        m = [[complex(i == j) for j in range(2**n)] for i in range(2**n)]
        for b in kids(t, heap):
            m = smul(unitary(b, heap, n), m)
        return m
    if name in ("AddBlock",):
        ms = [unitary(b, heap, n) for b in kids(t, heap)]
        return [[sum(m[i][j] for m in ms) for j in range(2**n)] for i in range(2**n)]
    if name in GATES and set(d) >= {"target"} and is_const(d["target"]):
        return embed(GATES[name], [cval(d["target"])], n)
    if name in ("SWAP", "CNOT", "CZ") and all(is_const(d.get(k, NONE)) and d.get(k) is not None for k in ("control", "target")):
        m = SW if name == "SWAP" else controlled(GATES["X" if name == "CNOT" else "Z"])
        return embed(m, [cval(d["control"]), cval(d["target"])], n)
    raise NoMat(f"gate {name} {sorted(d)}")


def rat(ev):
    """extra readings of scalar expressions: sympy numbers, evaluate(), parameters made of numbers"""
    def hook(t, e):
        if t.op == "call":
            q = t.a[0].a[0] if t.a[0].op in ("ext", "fn") else ""
            a = args_of(t)
            if q == "sympy.Integer" or q in ("sympy.sympify", "sympy.S", "sympy.Float"):
                return e(a[0])
            if q == "sympy.Rational" and set(a) == {0, 1}:
                return Ten.scalar(e(a[0]).d[0] / e(a[1]).d[0])
            if q == "qadence.parameters.evaluate":
                return e(a.get(0, a.get("expr")))
        if t.op == "new" and t.a[0] == PARAM:
            v = [x for k, x in t.a[1] if k != "#"]
            if len(v) == 1:
                return e(v[0])
        if t.op == "ext" and t.a[0] == "sympy.I":
            return Ten.scalar(1j)
        return ev(t, e) if ev else None
    return hook


class Run:
    """evaluate a protocol with symbolic sample counts"""

    def __init__(self, ctx, n=3, nb=1):
        self.ctx, self.n, self.nb = ctx, n, nb
        self.p = p = Probe(ctx, PRE)
        self.log = []
        self.runs = []
        p.heap[(RG, "n_qubits")] = const(n)
        p.facts += [(mk("isnone", P(x)), False) for x in ("NZ", "S", "prepared")]
        p.I.models[".circuit"] = self.conv
        p.I.models[".sample"] = self.sample
        p.I.models[".run"] = self.run_
        p.I.models["qadence.parameters.evaluate"] = lambda a, k, st: a[0] if a else k.get("expr")

    def conv(self, a, k, st):
        if a[0] is P("B"):
            c = a[1] if len(a) > 1 else k.get("circuit")
            return mk("atom", f"native{len(self.log)}", c)
        return None

    def bits(self):
        return ["".join(x) for x in itertools.product("01", repeat=self.n)]

    def sample(self, a, k, st):
        if a[0] is not P("B"):
            return None
        d = dict(k)
        for nm, v in zip(("circuit", "param_values", "n_shots", "state", "noise", "mitigation", "endianness"), a[1:]):
            d.setdefault(nm, v)
        i = len(self.log)
        self.log.append((d, st))
        return mk("list", tuple(mk("dict", tuple((const(b), P(f"c{i}_{j}_{b}")) for b in self.bits())) for j in range(self.nb)))

    def run_(self, a, k, st):
        if a[0] is not P("B"):
            return None
        d = dict(k)
        for nm, v in zip(("circuit", "param_values", "state", "endianness"), a[1:]):
            d.setdefault(nm, v)
        self.runs.append((d, st))
        return P("prepared")

    def expr(self, e, **b):
        b = {"B": P("B"), "V": mk("dict", ((const("theta"), P("theta")),)), "S": P("S"), **b}
        ret, st = self.p.expr(e, b)
        if len(ret) != 1:
            raise ValueError(f"{len(ret)} outcomes")
        return ret[0][0], st

    def circ(self, i):
        """the circuit sampled in call i -> (block, register, heap)"""
        d, st = self.log[i]
        c = d["circuit"]
        if c.op != "atom" or len(c.a) != 2 or c.a[1].op != "new":
            raise NoMat(show(c, 3))
        c = c.a[1]
        blk, reg = st.heap.get((c, "block")), st.heap.get((c, "register"))
        f = dict(c.a[1])
        if blk is None:
            x = f.get("*", f.get("blocks"))
            blk = x.a[0][0] if x is not None and x.op in ("tuple", "list") and len(x.a[0]) == 1 else None
        if reg is None:
            reg = f.get("support")
        if blk is None:
            raise NoMat(show(c, 3))
        return blk, reg, st.heap

    def env(self):
        return {P(f"c{i}_{j}_{b}"): Ten((), [RF.atom(f"c{i}_{j}_{b}")]) for i in range(len(self.log)) for j in range(self.nb) for b in self.bits()}


def subst(r, vals):
    """value of a rational function at a point (atoms missing from `vals` are zero)"""
    def ev(p):
        s = 0j
        for m, c in p.items():
            for a, k in m:
                v = vals.get(a, 0)
                if v == 0 and k < 0:
                    raise NoSym("pole")
                c = c * v**k
            s += c
        return s
    d = ev(r.d)
    if abs(d) < 1e-12:
        raise NoSym("0/0")
    return ev(r.n) / d


def at(run, ret, pt):
    """the estimates (a tensor of numbers) for given sample counts"""
    env = {P(k): Ten.scalar(v) for k, v in pt.items()}
    ten = Sym(env, rat(None))(ret)
    out = [x.const() for x in ten.d]
    if any(x is None for x in out):
        raise NoSym("the estimate is not a number for given counts")
    return tuple(ten.shape), out


def estimate_operators(run, ret, n, no):
    """{(batch element, observable): operator whose expectation the estimate has for exact frequencies, or a message}"""
    bits = run.bits()
    base = {f"c{i}_{jj}_{b}": 7.0 for i in range(len(run.log)) for jj in range(run.nb) for b in bits}
    size = 2**n
    shots = 7.0 * len(bits)
    shape, v0 = at(run, ret, base)
    if shape != (run.nb, no):
        raise NoSym(f"the estimate has shape {shape} instead of {(run.nb, no)}")
    out = {(j, o): [[v0[j * no + o] if r == c else 0j for c in range(size)] for r in range(size)] for j in range(run.nb) for o in range(no)}
    mixed = {}
    for i in range(len(run.log)):
        blk, _, heap = run.circ(i)
        u = unitary(blk, heap, n)
        for j in range(run.nb):
            coef = {o: [] for o in range(no)}
            for b in bits:
                # all shots of sampling call i, batch element j, give the outcome b
                pt = dict(base)
                for x in bits:
                    pt[f"c{i}_{j}_{x}"] = shots if x == b else 0.0
                v = at(run, ret, pt)[1]
                for o in range(no):
                    coef[o].append(v[j * no + o] - v0[j * no + o])
                    for jj in range(run.nb):
                        if jj != j and abs(v[jj * no + o] - v0[jj * no + o]) > 1e-9:
                            mixed[jj, o] = f"the estimate for batch element {jj} depends on the samples of element {j}"
            # the estimate is affine in the frequencies of each call: v0 + sum_b (f_b - 1/2^n) k_b
            for o in range(no):
                diag = [[coef[o][r] if r == c else 0j for c in range(size)] for r in range(size)]
                m = smul(dag(u), smul(diag, u))
                for r in range(size):
                    for c in range(size):
                        out[j, o][r][c] += m[r][c]
    out.update(mixed)
    return out


def fmt(m, n):
    """Pauli expansion of an operator, for messages"""
    out = []
    for w in itertools.product("IXYZ", repeat=n):
        p = word(" ".join(f"{c}{i}" for i, c in enumerate(w) if c != "I"), n)
        c = sum(smul(p, m)[i][i] for i in range(2**n)) / 2**n
        if abs(c) > 1e-9:
            out.append(f"{c.real:g}{'' if abs(c.imag) < 1e-9 else f'+{c.imag:g}i'}*" + ("".join(f"{x}{i}" for i, x in enumerate(w) if x != "I") or "1"))
    return " + ".join(out) or "0"


def want_op(terms, n, heap=None):
    """U^dagger O U for the preparation circuit PREP"""
    u = smul(embed(GATES["H"], [2], n), embed(SW, [0, 1], n))
    return smul(dag(u), smul(operator(terms, n), u))


def flat(ret, run):
    return Sym(run.env(), rat(None))(ret)


def tomography(ctx):
    loc = "qadence/measurements/tomography.py"
    for e, terms in OBS.items():
        def one(e=e, terms=terms):
            r = Run(ctx)
            ret, st = r.expr(f"tomography(circuit=QuantumCircuit(3, {PREP}), observables=[{e}], param_values=V, options={{'n_shots': 100}}, state=S, backend=B)")
            if is_raise(ret):
                return ctx.ob("tomography", e, False, f"raises {show(ret, 3)}", loc)
            got = estimate_operators(r, ret, 3, 1)[0, 0]
            ok = close(got, want_op(terms, 3), 1e-7)
            ctx.ob("tomography", e, ok, "" if ok else f"the estimator measures {fmt(got, 3)} instead of {fmt(want_op(terms, 3), 3)} (in the basis before {PREP})", loc)
        ctx.guard("tomography", e, one)


def batch(ctx):
    loc = "qadence/measurements/utils.py"
    obs = ["Z(0) + 2 * kron(X(1), Y(2))", "kron(Z(1), Z(2))", "I(0) + X(0)"]
    terms = [[(1, "Z0"), (2, "X1 Y2")], [(1, "Z1 Z2")], [(1, ""), (1, "X0")]]

    def one():
        r = Run(ctx, nb=2)
        ret, st = r.expr(f"tomography(circuit=QuantumCircuit(3, {PREP}), observables=[{', '.join(obs)}], param_values=V, options={{'n_shots': 100}}, backend=B)")
        if is_raise(ret):
            return ctx.ob("batch", "tomography", False, f"raises {show(ret, 3)}", loc)
        ops = estimate_operators(r, ret, 3, 3)
        for (j, o), got in sorted(ops.items()):
            cons = f"tomography batch element {j}, observable {o}"
            if isinstance(got, str):
                ctx.ob("batch", cons, False, got, loc)
                continue
            ok = close(got, want_op(terms[o], 3), 1e-7)
            ctx.ob("batch", cons, ok, "" if ok else f"measures {fmt(got, 3)}", loc)
    ctx.guard("batch", "tomography", one)


def request(ctx):
    loc = "qadence/measurements/utils.py"
    for label, extra, wants in (("state, noise", "state=S, noise=NZ", True), ("defaults", "", False), ("endianness LITTLE", "endianness=Endianness.LITTLE", False)):
        def one(label=label, extra=extra, wants=wants):
            r = Run(ctx)
            reg = "Register(3, spacing=5.0)"
            ret, st = r.expr(f"tomography(QuantumCircuit(RG, {PREP}), [Z(0) + kron(X(1), Y(0))], V, {{'n_shots': 123}}, backend=B{', ' + extra if extra else ''})", NZ=P("NZ"), RG=RG)
            judge(ctx, r, "tomography " + label, wants, loc, const(123))
        ctx.guard("request", label, one)
    for label, extra, wants in (("state, noise", "state=S, noise=NZ", True), ("defaults", "", False), ("endianness LITTLE", "endianness=Endianness.LITTLE", False)):
        for bk in ("PYQTORCH", "BRAKET" if False else "PULSER"):
            def two(label=label, extra=extra, wants=wants, bk=bk):
                r = Run(ctx)
                ids = mk("list", tuple(mk("list", tuple(const(x) for x in w)) for w in ((0, 1, 2), (2, 2, 2))))
                setup_shadow(r, ids, bk)
                r.expr(f"classical_shadow(2, QuantumCircuit(RG, {PREP}), V, backend=B{', ' + extra if extra else ''})", NZ=P("NZ"), RG=RG)
                judge(ctx, r, f"classical shadow [{bk}] {label}", wants, "qadence/measurements/shadow.py", const(1), shadow=True)
            ctx.guard("request", f"shadow {bk} {label}", two)


def setup_shadow(r, ids, bk):
    r.p.I.models["numpy.random.randint"] = lambda a, k, st: ids
    nm, _ = r.p.expr(f"BackendName.{bk}")
    r.p.heap[(P("B"), "name")] = nm[0][0]
    r.p.I.models["builtins.hasattr"] = lambda a, k, st: TRUE if a and a[0] is P("B") else None


RG = mk("new", "qadence.register.Register", (("support", const(3)),))
BIG = mk("enum", "qadence.types.Endianness", "BIG")


def judge(ctx, r, cons, wants, loc, shots, shadow=False):
    if not r.log:
        return ctx.ob("request", cons, None, "no sampling call seen")
    bad = []
    for d, st in r.log:
        if d.get("n_shots") is not shots:
            bad.append(f"n_shots is {show(d.get('n_shots', NONE), 2)}")
        if d.get("endianness", BIG) is not BIG:
            bad.append(f"bit strings are requested in endianness {show(d['endianness'], 2)}")
        pv = d.get("param_values", NONE)
        if pv.op != "dict" or (const("theta"), P("theta")) not in pv.a[0]:
            bad.append("the parameter values are not passed on")
        via = shadow and d.get("state") is P("prepared")
        if via:
            rd = r.runs[0][0]
            if rd.get("state", NONE) is not (P("S") if wants else NONE):
                bad.append("the prepared state ignores the initial state")
            if rd.get("endianness", BIG) is not BIG:
                bad.append("the prepared state is in another endianness")
            if wants:
                bad.append("the circuit is prepared without the noise")
            pv = rd.get("param_values", NONE)
            if pv.op != "dict" or (const("theta"), P("theta")) not in pv.a[0]:
                bad.append("the parameter values are not passed on")
        elif d.get("state", NONE) is not (P("S") if wants else NONE):
            bad.append(f"state is {show(d.get('state', NONE), 2)}")
        if d.get("noise", NONE) is not (P("NZ") if wants else NONE):
            bad.append(f"noise is {show(d.get('noise', NONE), 2)}")
    if not shadow:
        for i in range(len(r.log)):
            _, reg, _ = r.circ(i)
            if reg is None or reg.op != "new":
                return ctx.ob("request", cons, None, "register not visible")
            if dict(reg.a[1]) != {"support": const(3)}:
                bad.append(f"the circuit is sampled on {show(reg, 2)}")
    ctx.ob("request", cons, not bad, "; ".join(dict.fromkeys(bad)), loc)


def samples(ctx):
    loc = "qadence/measurements/samples.py"
    for e in DIAG:
        def one(e=e):
            r = Run(ctx, nb=2)
            smp = mk("list", tuple(mk("dict", tuple((const(b), P(f"c0_{j}_{b}")) for b in r.bits())) for j in range(2)))
            r.log.append(None)
            ret, st = r.expr(f"from_samples([{e}], SMP)", SMP=smp)
            if is_raise(ret):
                return ctx.ob("samples", e, False, f"raises {show(ret, 3)}", loc)
            if ret.op not in ("list", "tuple") or len(ret.a[0]) != 1:
                return ctx.ob("samples", e, None, show(ret, 3))
            ten = flat(ret.a[0][0], r)
            if tuple(ten.shape) != (2,):
                return ctx.ob("samples", e, False, f"shape {tuple(ten.shape)} for two batch elements", loc)
            want = operator(OBS[e], 3)
            bad = []
            for j in range(2):
                for i, b in enumerate(r.bits()):
                    pt = {f"c0_{jj}_{x}": 9.0 if x == (b if jj == j else "000") else 0.0 for jj in range(2) for x in r.bits()}
                    v = subst(ten.d[j], pt)
                    if abs(v - want[i][i]) > 1e-9:
                        bad.append(f"outcome {b} contributes {v.real:g} instead of {want[i][i].real:g}")
            ctx.ob("samples", e, not bad, "; ".join(bad[:3]), loc)
        ctx.guard("samples", e, one)


def basis(ctx):
    loc = "qadence/measurements/shadow.py"
    p = Probe(ctx, PRE)
    gates, st = p.expr("shadow.pauli_gates")
    if len(gates) != 1 or gates[0][0].op not in ("list", "tuple"):
        return ctx.ob("basis", "pauli_gates", None, "")
    names = [x.a[0].split(".")[-1] for x in gates[0][0].a[0]]
    for k, g in enumerate(names):
        def one(k=k, g=g):
            r = Run(ctx)
            ret, st = r.expr(f"extract_operators(IDS, 3)", IDS=mk("list", (mk("list", tuple(const(k if q == 1 else 2) for q in range(3))),)))
            if ret.op not in ("list", "tuple") or len(ret.a[0]) != 1:
                return ctx.ob("basis", g, None, show(ret, 4))
            b = ret.a[0][0]
            u = unitary(b, st.heap, 3) if b is not NONE else operator([(1, "")], 3)
            got = smul(dag(u), smul(word("Z1", 3), u))
            ok = close(got, word(f"{g}1", 3), 1e-7)
            ctx.ob("basis", f"extract_operators index {k}", ok, "" if ok else f"measures {fmt(got, 3)}, read as {g}1", loc)
            u0 = smul(dag(u), smul(word("Z0", 3), u))
            z = names.index("Z") == 2
            ctx.ob("basis", f"extract_operators index {k}, other qubits", close(u0, word(f"{names[2]}0", 3), 1e-7), f"measures {fmt(u0, 3)} on qubit 0, read as {names[2]}0", loc)
        ctx.guard("basis", g, one)

        def single(k=k, g=g):
            r = Run(ctx)
            ret, st = r.expr("extract_operators(IDS, 1)", IDS=mk("list", (mk("list", (const(k),)),)))
            b = ret.a[0][0]
            while b.op in ("list", "tuple") and len(b.a[0]) == 1:
                b = b.a[0][0]
            u = unitary(b, st.heap, 1) if b is not NONE else operator([(1, "")], 1)
            ok = close(smul(dag(u), smul(word("Z0", 1), u)), word(f"{g}0", 1), 1e-7)
            ctx.ob("basis", f"one qubit, index {k}", ok, "" if ok else f"does not measure {g}", loc)
        ctx.guard("basis", g + " on one qubit", single)


IDS = [(0, 1, 2), (2, 2, 2), (0, 0, 0), (1, 1, 1), (0, 1, 1), (2, 1, 0), (0, 2, 1), (1, 0, 2)]


def shadow_est(ctx):
    loc = "qadence/measurements/shadow.py"
    P_ = "XYZ"
    for e, w in (("Z(0)", "Z0"), ("X(1)", "X1"), ("Y(2)", "Y2"), ("kron(X(0), Y(1))", "X0 Y1"), ("kron(X(0), Y(1), Z(2))", "X0 Y1 Z2"), ("kron(Y(1), Z(2))", "Y1 Z2"), ("kron(X(0), Y(2))", "X0 Y2"), ("kron(Z(0), I(1))", "Z0"), ("I(0)", "")):
        def one(e=e, w=w):
            r = Run(ctx)
            K, N = 2, 8
            S = [[RF.atom(f"s{i}_{q}") for q in range(3)] for i in range(N)]
            env = {P("IDS"): Ten((N, 3), [RF.c(x) for row in IDS for x in row]), P("SS"): Ten((N, 3), [x for row in S for x in row])}
            ev = Sym(env, rat(None))
            r.p.I.oracle = lambda c, st: ev.truth(c)
            ret, st = r.expr(f"estimators(N=8, K=2, unitary_shadow_ids=IDS, shadow_samples=SS, observable={e})", IDS=P("IDS"), SS=P("SS"))
            letters = [(x[0], int(x[1:])) for x in w.split()]
            want = []
            for k in range(K):
                rows = [i for i in range(k * 4, k * 4 + 4) if all(P_[IDS[i][q]] == c for c, q in letters)]
                tot = RF.c(0)
                for i in rows:
                    m = RF.c(1)
                    for c, q in letters:
                        m = m * S[i][q]
                    tot = tot + m
                want.append(tot / RF.c(len(rows)) if rows else RF.c(0))
            for l, g in leaves(ret):
                if any(ev.truth(c) is (not v) for c, v in g):
                    continue
                if is_raise(l):
                    return ctx.ob("shadow", e, False, f"raises {show(l, 3)}", loc)
                ten = ev(l)
                d = list(ten.d) * K if len(ten.d) == 1 and not w else ten.d
                ok = len(d) == K and all(a.eq(b) for a, b in zip(d, want))
                ctx.ob("shadow", e, ok, "" if ok else f"is {ten} instead of {want}", loc)
        ctx.guard("shadow", e, one)


def partition(ctx):
    loc = "qadence/measurements/shadow.py"

    def one():
        r = Run(ctx)
        got = []

        def est(a, k, st):
            got.append((list(a), dict(k)))
            return mk("call", P("EST"), tuple((i, x) for i, x in enumerate([k.get("observable", NONE), k.get("shadow_samples", NONE)])))
        r.p.I.models["qadence.measurements.shadow.estimators"] = est
        r.p.I.models["qadence.measurements.shadow.classical_shadow"] = lambda a, k, st: mk("tuple", (P("IDS"), mk("list", (P("b0"), P("b1")))))
        r.p.I.models["qadence.measurements.shadow.number_of_samples"] = lambda a, k, st: mk("tuple", (P("N"), P("K")))
        ret, st = r.expr("shadow.estimations(QuantumCircuit(3, H(0)), [2 * Z(0) + 3 * kron(X(1), Y(2)), X(0)], V, shadow_size=None, accuracy=A, confidence=C, backend=B)", A=P("A"), C=P("C"))

        def hook(t, ev):
            if t.op == "call" and callee_name(t) == "median":
                x = args_of(t).get(0)
                if x is not None and x.op == "call" and x.a[0] is P("EST"):
                    o, b = x.a[1][0][1], x.a[1][1][1]
                    return Ten((), [RF.atom(f"M[{wname(o, st.heap)},{b.a[0]}]")])
            return None
        ten = Sym({}, rat(hook))(ret)
        M = lambda w, b: RF.atom(f"M[{w},{b}]")
        want = [RF.c(2) * M("Z0", b) + RF.c(3) * M("X1Y2", b) if o == 0 else M("X0", b) for b in ("b0", "b1") for o in (0, 1)]
        ok = tuple(ten.shape) == (2, 2) and all(x.eq(y) for x, y in zip(ten.d, want))
        ctx.ob("partition", "estimations", ok, "" if ok else f"is {ten} instead of {want}", loc)
        for d in ("N", "K"):
            ctx.ob("partition", f"estimators receive {d}", all(k.get(d) is P(d) for a, k in got if not a) and bool(got), "", loc)
    ctx.guard("partition", "estimations", one)

    def two():
        r = Run(ctx)
        got = []

        def est(a, k, st):
            got.append(dict(k))
            return P("EST")
        seen = []
        r.p.I.models["qadence.measurements.shadow.estimators"] = est
        r.p.I.models["qadence.measurements.shadow.classical_shadow"] = lambda a, k, st: (seen.append((list(a), dict(k))), mk("tuple", (P("IDS"), mk("list", (P("b0"),)))))[1]
        r.p.I.models["qadence.measurements.shadow.number_of_samples"] = lambda a, k, st: mk("tuple", (P("N"), P("K")))
        r.expr("shadows(QuantumCircuit(3, H(0)), [Z(0)], V, {'shadow_size': 77, 'accuracy': 0.1, 'confidence': 0.2}, state=S, backend=B, noise=NZ)", NZ=P("NZ"))
        if not seen or not got or seen[0][0]:
            return ctx.ob("partition", "shadow_size", None, "calls not seen")
        ctx.ob("partition", "shadow_size is the number of snapshots", seen[0][1].get("shadow_size") is const(77) and got[0].get("N") is const(77), f"{show(seen[0][1].get('shadow_size', NONE), 2)}, {show(got[0].get('N', NONE), 2)}", loc)
        for k, v in (("state", P("S")), ("noise", P("NZ")), ("backend", P("B"))):
            ctx.ob("partition", f"classical_shadow receives {k}", seen[0][1].get(k) is v, show(seen[0][1].get(k, NONE), 2), loc)
    ctx.guard("partition", "shadow_size", two)


def wname(o, heap):
    if o.op == "new" and o.a[0].endswith(".KronBlock"):
        return "".join(wname(x, heap) for x in kids(o, heap))
    d = dict(o.a[1])
    return o.a[0].split(".")[-1] + str(cval(d["target"]))


def options(ctx):
    for e, want in (
        ("tomography(QuantumCircuit(1, H(0)), [Z(0)], {}, {}, backend=B)", "raise"),
        ("tomography(QuantumCircuit(1, H(0)), Z(0), {}, {'n_shots': 3}, backend=B)", "raise"),
        ("shadows(QuantumCircuit(1, H(0)), Z(0), {}, {'shadow_size': 3, 'confidence': 0.1}, backend=B)", "raise"),
        ("shadows(QuantumCircuit(1, H(0)), [Z(0)], {}, {'confidence': 0.1}, backend=B)", "raise"),
        ("shadows(QuantumCircuit(1, H(0)), [Z(0)], {}, {'shadow_size': 3}, backend=B)", "raise"),
        ("from_samples(Z(0), [Counter({'0': 3})])", "raise"),
        ("from_samples([X(0)], [Counter({'0': 3})])", "raise"),
        ("Measurements('nonsense', {}).get_measurement_fn()", "raise"),
    ):
        def one(e=e, want=want):
            r = Run(ctx)
            r.p.I.models["qadence.measurements.shadow.estimations"] = lambda a, k, st: P("estimations")
            ret, st = r.expr(e)
            ctx.ob("options", e, is_raise(ret), f"returns {show(ret, 3)[:200]}", "qadence/measurements")
        ctx.guard("options", e, one)
    for proto, mod in (("tomography", "qadence.measurements.tomography"), ("shadow", "qadence.measurements.shadow")):
        def two(proto=proto, mod=mod):
            r = Run(ctx)
            ret, st = r.expr(f"Measurements('{proto}', {{}}).get_measurement_fn()")
            if ret.op == "fn":
                return ctx.ob("options", f"protocol {proto}", ret.a[0] == mod + ".compute_expectation", show(ret, 3), "qadence/measurements/protocols.py")
            ctx.ob("options", f"protocol {proto}", True if mod in show(ret, 9) and "compute_expectation" in show(ret, 9) else None, show(ret, 5))
        ctx.guard("options", proto, two)


def snapshot(ctx):
    loc = "qadence/measurements/shadow.py"
    IDS = ((0, 1, 2), (2, 2, 2), (1, 0, 1))
    OUTS = [["011", "100"], ["110", "001"], ["010", "111"]]
    for bk, n in (("PYQTORCH", 3), ("PULSER", 3), ("PYQTORCH", 1), ("PULSER", 1), ("PYQTORCH", 2)):
        def one(bk=bk, n=n):
            ids = [w[:n] for w in IDS]
            outs = [[o[:n] for o in x] for x in OUTS]
            prep = {3: PREP, 2: "H(1)", 1: "H(0)"}[n]
            u0 = smul(embed(GATES["H"], [2], 3), embed(SW, [0, 1], 3)) if n == 3 else embed(GATES["H"], [n - 1], n)
            r = Run(ctx, n=n, nb=2)
            rg = mk("new", "qadence.register.Register", (("support", const(n)),))
            r.p.heap[(rg, "n_qubits")] = const(n)

            def sample(a, k, st):
                if a[0] is not P("B"):
                    return None
                d = dict(k)
                for nm, v in zip(("circuit", "param_values", "n_shots", "state"), a[1:]):
                    d.setdefault(nm, v)
                i = len(r.log)
                r.log.append((d, st))
                return mk("list", tuple(mk("dict", ((const(o), const(1)),)) for o in outs[i % 3]))
            r.p.I.models[".sample"] = sample
            name = f"{bk} {n} qubit{'s' if n > 1 else ''}"
            setup_shadow(r, mk("list", tuple(mk("list", tuple(const(x) for x in w)) for w in ids)), bk)
            ret, st = r.expr(f"classical_shadow(3, QuantumCircuit(RG, {prep}), V, backend=B)", RG=rg)
            if is_raise(ret):
                return ctx.ob("snapshot", name, False, f"raises {show(ret, 3)}", loc)
            if ret.op not in ("tuple", "list") or len(ret.a[0]) != 2 or ret.a[0][1].op not in ("tuple", "list") or len(r.log) != 3:
                return ctx.ob("snapshot", name, None, show(ret, 3))
            for b, x in enumerate(ret.a[0][1].a[0]):
                ten = Sym({}, rat(None))(x)
                want = [1 - 2 * int(c) for i in range(3) for c in outs[i][b]]
                ok = tuple(ten.shape) == (3, n) and all(v.eq(RF.c(w)) for v, w in zip(ten.d, want))
                ctx.ob("snapshot", f"{name} batch element {b}", ok, "" if ok else f"outcomes {[o[b] for o in outs]} are read as {ten}", loc)
            for i in range(3):
                blk, _, heap = r.circ(i)
                if blk.op in ("list", "tuple"):
                    ctx.ob("snapshot", f"{name} basis of snapshot {i}", False, f"the sampled circuit consists of {show(blk, 3)}, which is not a block", loc)
                    continue
                u = unitary(blk, heap, n)
                if r.log[i][0].get("state") is P("prepared"):
                    if len(r.runs) != 1 or r.runs[0][0].get("circuit").op != "atom":
                        return ctx.ob("snapshot", name, None, "prepared state not seen")
                    u = smul(u, u0)
                bad = []
                for q in range(n):
                    got = smul(dag(u), smul(word(f"Z{q}", n), u))
                    want = smul(dag(u0), smul(word(f"{'XYZ'[ids[i][q]]}{q}", n), u0))
                    if not close(got, want, 1e-7):
                        bad.append(f"bit {q} measures {fmt(got, n)} instead of {fmt(want, n)}")
                ctx.ob("snapshot", f"{name} basis of snapshot {i}", not bad, "; ".join(bad), loc)
        ctx.guard("snapshot", f"{bk} {n}", one)


def budget(ctx):
    loc = "qadence/measurements/shadow.py"
    for obs, k, m in (("[Z(0)]", 1, 1), ("[kron(X(0), Y(1)), Z(0)]", 2, 2), ("[Z(0) + 2 * kron(X(0), Y(1), Z(2))]", 3, 1), ("[X(0), X(1), X(2), kron(Z(0), I(1))]", 1, 4)):
        def one(obs=obs, k=k, m=m):
            for eps, dl in ((0.1, 0.1), (0.05, 0.2), (0.3, 0.01)):
                r = Run(ctx)
                ret, st = r.expr(f"number_of_samples({obs}, A, C)", A=const(eps), C=const(dl))
                if ret.op not in ("tuple", "list") or len(ret.a[0]) != 2:
                    return ctx.ob("budget", obs, None, show(ret, 4))
                n, g = (Sym({}, rat(None))(x).d[0].const().real for x in ret.a[0])
                N, K = 34 * 3**k / eps**2, 2 * math.log(2 * m / dl)
                ok = n >= N - 1 and g >= K - 1
                ctx.ob("budget", f"{obs} accuracy {eps} confidence {dl}", ok, "" if ok else f"{n:g} snapshots in {g:g} groups; {N:g} and {K:g} are needed for observables of weight {k}", loc)
        ctx.guard("budget", obs, one)
