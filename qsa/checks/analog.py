"""Abstract evaluation of the analog layer: Hamiltonians of registers, devices and drives as Pauli sums, their translation into evolutions, and pulses."""
from __future__ import annotations

import math
import os

from ..probe import *
from ..opnum import *  # noqa: after the general helpers
from .register import stubs

PRE = """
from qadence.register import Register
from qadence.circuit import QuantumCircuit
from qadence.analog import *
from qadence.analog.hamiltonian_terms import rydberg_interaction_hamiltonian, rydberg_drive_hamiltonian, rydberg_pattern_hamiltonian
from qadence.operations import *
from qadence.operations.analog import AnalogSWAP
from qadence.blocks import chain, kron, add
from qadence.parameters import Parameter, FeatureParameter, VariationalParameter
from qadence.types import Interaction, DeviceType
from qadence.qubit_support import QubitSupport
"""
TERMS = "qadence/analog/hamiltonian_terms.py"
PARSE = "qadence/analog/parse_analog.py"
OPS = "qadence/operations/analog.py"


def symbol_attrs(b, name, st):
    """sympy attributes of parameter expressions"""
    if name == "free_symbols" and b.op in ("new", "bin", "un", "call") and arith(b):
        out = symbols(b)
        return None if out is None else mk("set", tuple(dict.fromkeys(out)))
    if name in ("is_time", "trainable") and b.op == "new" and b.a[0] == PARAM and symbols(b):
        return args_of(b).get(name, const(name == "trainable"))
    if name == "name" and b.op == "new" and b.a[0] == PARAM and symbols(b):
        return next(x for k, x in b.a[1] if k != "#")
    return None


def symbols(t):
    """the parameters in an arithmetic term, None if that is unknown"""
    if is_const(t):
        return []
    if t.op == "new":
        v = [x for k, x in t.a[1] if k != "#"]
        if t.a[0] != PARAM or not v:
            return None
        if is_const(v[0]):
            return [t] if isinstance(cval(v[0]), str) else []
        return symbols(v[0])
    if t.op in ("bin", "un", "call"):
        out = []
        for x in args_of(t).values() if t.op == "call" else t.a[1:]:
            y = symbols(x)
            if y is None:
                return None
            out += y
        return out
    return None


def mkprobe(ctx, pre=PRE):
    stubs(ctx, ("networkx", "networkx.py"), ("numpy", "numpy_small.py"), ("torch", "torch_small.py"))
    p = Probe(ctx, pre, unroll=400)
    p.I.oracle = numeric_oracle
    p.I.attr_hook = symbol_attrs

    def fold(f):
        return lambda a, k, st: const(f(cval(a[0]))) if len(a) == 1 and not k and is_const(a[0]) and isinstance(cval(a[0]), (int, float)) else None
    def evaluate(a, k, st):
        try:
            v = Op(ctx.prog, st.heap)
            x = v.num(a[0])
            return None if v.names or len(a) > 1 or set(k) - {"as_torch"} else const(int(x.real) if x.real == int(x.real) else x.real)
        except (NoOp, IndexError):
            return None
    p.I.models["qadence.parameters.evaluate"] = evaluate
    p.I.models["sympy.Heaviside"] = fold(lambda x: 1.0 if x > 0 else 0.0 if x < 0 else 0.5)
    return p


def one(p, text, env=None):
    """(term, Op) of an expression with a single outcome, or an explanation"""
    ret, st = p.expr(text)
    ret = [(l, g) for l, g in ret]
    rs = [l for l, _ in ret if l.op == "raise"]
    if rs and len(rs) == len(ret):
        return rs[0], Op(p.prog, st.heap if st is not None else {}, env)
    if len(ret) != 1:
        raise NoOp(f"{len(ret)} outcomes: {[show(l, 2)[:60] for l, _ in ret][:3]}")
    return ret[0][0], Op(p.prog, st.heap, env)


def check(ctx):
    ctx.rule("interaction", "the interaction Hamiltonian is the sum over all pairs of C6/R^6 N N (NN) or C3/R^3 (XX + YY) (XY), with the pair's own distance and the device's coefficient", 12)
    ctx.rule("drive", "the drive Hamiltonian is the sum over the qubits of the block of omega/2 (cos(phase) X - sin(phase) Y) - delta N", 8)
    ctx.rule("pattern", "the addressing pattern adds amp/2 w X + |det| w N on each qubit, within the limits, and nothing outside them", 8)
    ctx.rule("evolve", "every analog block becomes the evolution of interaction, drive and (unless disabled) pattern for its duration in microseconds; all other blocks stay", 14)
    ctx.rule("rotation", "AnalogRX, AnalogRY, AnalogRZ rotate every qubit by the angle about their axis, AnalogSWAP swaps", 8)
    ctx.rule("compose", "chains and krons of analog blocks accept exactly global blocks and krons, and local disjoint blocks of one duration", 8)
    ctx.rule("support", "qubit supports are unions, global ones cover every qubit", 6)
    ctx.rule("coefficient", "C6 coefficients grow with the Rydberg level as in the installed pulser tables", 1)
    p = mkprobe(ctx)
    for r, f in (("interaction", interaction), ("drive", drive), ("pattern", pattern), ("evolve", evolve), ("rotation", rotation), ("compose", compose), ("support", support), ("coefficient", coefficient)):
        ctx.guard(r, "analysis", lambda f=f: f(ctx, p))


def N2(q):
    return {(): 0.5, ((q, "Z"),): -0.5}


def P1(l, q, c=1.0):
    return {((q, l),): c}


def c6table(ctx):
    m = ctx.prog.modules["qadence.analog.constants"]
    import ast as A
    for s in m.tree.body:
        if isinstance(s, A.Assign) and isinstance(s.targets[0], A.Name) and s.targets[0].id == "C6_DICT":
            return A.literal_eval(s.value)
    return None


def judge(ctx, rule, con, p, text, want, loc, env=None):
    try:
        t, op = one(p, text, env)
        if t.op == "raise":
            ctx.ob(rule, con, False, f"raises {show(t, 3)[:120]}", loc)
            return None
        got = op.pauli(t)
    except NoOp as e:
        ctx.ob(rule, con, None, str(e)[:200])
        return None
    w = want(op) if callable(want) else want
    ok = peq(got, w)
    ctx.ob(rule, con, ok, "" if ok else f"is {pstr(got)} instead of {pstr(w)}", loc)
    return ok


REGS = [("Register.line(2)", {0: (0, 0), 1: (1, 0)}), ("Register.line(4, spacing=6.0{d})", {i: (6.0 * i, 0.0) for i in range(4)}), ("Register.rectangular_lattice(2, 2, spacing=7.5{d})", {0: (0, 0), 1: (0, 7.5), 2: (7.5, 0), 3: (7.5, 7.5)}),
        ("Register.from_coordinates([(0, 0), (5, 0), (1, 9)]{d})", {0: (0, 0), 1: (5, 0), 2: (1, 9)}), ("Register.circle(3, spacing=8.0{d})", {i: (8 / math.sqrt(3) * math.cos(2 * math.pi * i / 3), 8 / math.sqrt(3) * math.sin(2 * math.pi * i / 3)) for i in range(3)})]
DEV = [("", 60, None, None), (", device_specs=RydbergDevice(rydberg_level=70)", 70, None, None), (", device_specs=RydbergDevice(interaction=Interaction.XY)", 60, 3700.0, None), (", device_specs=RydbergDevice(interaction=Interaction.XY, coeff_xy=1200.5)", 60, 1200.5, None)]


def h_int(ctx, cs, level, c3):
    c6 = c6table(ctx)[level]
    r = {}
    for i in cs:
        for j in cs:
            if i < j:
                R = math.dist(cs[i], cs[j])
                if c3 is None:
                    r = padd(r, {k: v * c6 / R**6 for k, v in pmulp(N2(i), N2(j)).items()})
                else:
                    for l in "XY":
                        r = padd(r, {((i, l), (j, l)): c3 / R**3})
    return r


def interaction(ctx, p):
    for reg, cs in REGS:
        for d, lv, c3, _ in DEV if "{d}" in reg else DEV[:1]:
            text = f"rydberg_interaction_hamiltonian({reg.format(d=d)})"
            ctx.guard("interaction", text, lambda: judge(ctx, "interaction", text, p, text, h_int(ctx, cs, lv, c3), TERMS))


def h_drive(op, qs, om, de, ph):
    f = lambda x: op.name(x) if isinstance(x, str) else complex(x)  # noqa: E731
    r = {}
    for q in qs:
        r = padd(r, P1("X", q, f(om) / 2 * cmath.cos(f(ph))))
        r = padd(r, P1("Y", q, -f(om) / 2 * cmath.sin(f(ph))))
        r = padd(r, {k: -f(de) * v for k, v in N2(q).items()})
    return r


DRIVES = [("AnalogRot(duration='t', omega='o', delta='d', phase='p')", "o", "d", "p", None), ("AnalogRot(duration=500, omega=2.5)", 2.5, 0, 0, None), ("AnalogRot(duration=500, delta=-1.5, phase=0.3)", 0, -1.5, 0.3, None),
          ("AnalogRot(duration='t', omega='o', delta='d', phase='p', qubit_support=(1,))", "o", "d", "p", (1,)), ("AnalogRot('t', 'o', 'd', 'p', (2, 0))", "o", "d", "p", (0, 2)), ("AnalogRX('a')", math.pi, 0, 0, None), ("AnalogRY('a', qubit_support=(0, 1))", math.pi, 0, -math.pi / 2, (0, 1)), ("AnalogRZ('a')", 0, math.pi, 0, None)]


def drive(ctx, p):
    for b, o, d, ph, qs in DRIVES:
        for n in (1, 3):
            if n == 1 and qs:
                continue
            text = f"rydberg_drive_hamiltonian({b}, Register.line({n}, spacing=8.0))"
            ctx.guard("drive", text, lambda: judge(ctx, "drive", text, p, text, lambda op: h_drive(op, qs or range(n), o, d, ph), TERMS))


GA, GD, LA, LD = 300.0, 2 * math.pi * 2000, 3.0, 2 * math.pi * 20
PATTERNS = [  # constructor arguments, values of the parameters, amplitude per qubit, detuning per qubit
    ("2, {0: 0.3}, {1: 0.7}, amp=2.0, det=10.0", {}, {0: 0.6}, {1: 7.0}),
    ("3, {0: 0.3, 2: 1.0}, {0: 0.2, 1: 0.7}, amp=2.0, det=-10.0", {}, {0: 0.6, 2: 2.0}, {0: 2.0, 1: 7.0}),
    ("2, {0: 0.5, 1: 0.25}, {0: 0.5, 1: 0.25}", {}, {0: 1.5, 1: 0.75}, {0: LD / 2, 1: LD / 4}),
    ("2, {0: 0.5, 1: 0.25}, {0: 0.5, 1: 0.25}, amp='a', det='d'", {"a": 2.0, "d": 30.0}, {0: 1.0, 1: 0.5}, {0: 15.0, 1: 7.5}),
    ("2, {0: 0.5, 1: 0.25}, {0: 0.5, 1: 0.25}, amp='a', det='d'", {"a": -2.0, "d": -30.0}, {0: 1.0, 1: 0.5}, {0: 15.0, 1: 7.5}),
    ("2, {0: 0.5, 1: 0.25}, {0: 0.5, 1: 0.25}, amp='a', det='d'", {"a": 301.0, "d": 2 * math.pi * 2001}, {}, {}),
    ("2, {0: 0.5, 1: 0.25}, {0: 0.5, 1: 0.25}, amp='a', det='d'", {"a": 8.0, "d": 300.0}, {1: 2.0}, {1: 75.0}),
    ("1, {0: 'w'}, {0: 'v'}, amp=2.0, det=10.0", {"w": 0.4, "v": 0.3}, {0: 0.8}, {0: 3.0}),
    ("1, {0: 'w'}, {0: 'v'}, amp=2.0, det=10.0", {"w": 4.4, "v": -3.3}, {}, {}),
]


def h_pat(amps, dets):
    r = {}
    for q, a in amps.items():
        r = padd(r, P1("X", q, a / 2))
    for q, d in dets.items():
        r = padd(r, {k: d * v for k, v in N2(q).items()})
    return r


def pattern(ctx, p):
    for args, env, amps, dets in PATTERNS:
        n = int(args[0])
        text = f"rydberg_pattern_hamiltonian(Register.line({n}, spacing=8.0, device_specs=IdealDevice(AddressingPattern({args}))))"
        tol = 1e-4 if "'w'" in args else 1e-9

        def f(text=text, env=env, amps=amps, dets=dets, tol=tol):
            try:
                t, op = one(p, text, env)
                if t.op == "raise":
                    return ctx.ob("pattern", f"{text} {env}", False, f"raises {show(t, 3)[:120]}", TERMS)
                got = op.pauli(t)
            except NoOp as e:
                return ctx.ob("pattern", f"{text} {env}", None, str(e)[:200])
            w = h_pat(amps, dets)
            ok = all(abs(got.get(k, 0) - w.get(k, 0)) < tol * (1 + abs(w.get(k, 0))) for k in set(got) | set(w))
            ctx.ob("pattern", f"{text} {env}", ok, "" if ok else f"is {pstr(got)} instead of {pstr(w)}", TERMS)
        ctx.guard("pattern", text, f)
    for n, w, amp, det in ((110, 0.009, 299.0, 2 * math.pi * 1990), (110, 0.0098, 299.0, 2 * math.pi * 1990)):
        # the sum over all qubits is limited as well
        con = f"pattern of {n} qubits of weight {w}, amp={amp}, det={det:.6g}"

        def big(n=n, w=w, amp=amp, det=det, con=con):
            try:
                t, op = one(p, f"[(q.global_constr_amp, q.global_constr_det) for q in [AddressingPattern({n}, {{i: {w} for i in range({n})}}, {{i: {w} for i in range({n})}}, amp={amp}, det={det})]][0]")
                if t.op == "raise":
                    return ctx.ob("pattern", con, False, f"raises {show(t, 3)[:120]}", TERMS)
                got = [op.num(x).real for x in t.a[0]]
            except NoOp as e:
                return ctx.ob("pattern", con, None, str(e)[:200])
            want = [float(n * w * amp < GA), float(n * w * det < GD)]
            ctx.ob("pattern", con, got == want, "is not limited by the sum of its weights" if want[0] == 0 else "is cut although it is within the limits", "qadence/analog/addressing.py")
        ctx.guard("pattern", con, big)
    for args in ("2, {0: 1.5}, {1: 0.7}", "2, {0: 0.5}, {1: -0.7}"):
        text = f"AddressingPattern({args})"

        def g(text=text):
            t, _ = one(p, text)
            ctx.ob("pattern", text, True if t.op == "raise" else None if p.maybe else False, "weights outside [0, 1] are accepted", "qadence/analog/addressing.py")
        ctx.guard("pattern", text, g)
    text = "rydberg_pattern_hamiltonian(Register.line(2))"

    def h():
        t, _ = one(p, text)
        ctx.ob("pattern", text, t is NONE or is_const(t) and cval(t) is None, f"is {show(t, 2)}", TERMS)
    ctx.guard("pattern", text, h)


def evolve(ctx, p):
    lv = 60
    L3 = {i: (8.0 * i, 0.0) for i in range(3)}
    reg = "Register.line(3, spacing=8.0)"
    pat = "AddressingPattern(3, {0: 0.3, 2: 1.0}, {0: 0.2, 1: 0.7}, amp=2.0, det=10.0)"
    regp = f"Register.line(3, spacing=8.0, device_specs=IdealDevice({pat}))"
    hp = h_pat({0: 0.6, 2: 2.0}, {0: 2.0, 1: 7.0})
    hi = h_int(ctx, L3, lv, None)

    def ham(*parts):
        r = {}
        for x in parts:
            r = padd(r, x)
        return r
    D = lambda op, *a: h_drive(op, *a)  # noqa: E731
    G = range(3)
    cases = []  # block text, register, list of (hamiltonian function, time function) or gate class names
    cases.append(("AnalogInteraction(duration='t')", reg, [(lambda op: hi, lambda op: op.name("t") / 1000)]))
    cases.append(("AnalogInteraction(duration=250)", reg, [(lambda op: hi, lambda op: 0.25)]))
    cases.append(("AnalogInteraction(duration='t')", regp, [(lambda op: ham(hi, hp), lambda op: op.name("t") / 1000)]))
    cases.append(("AnalogInteraction(duration='t', add_pattern=False)", regp, [(lambda op: hi, lambda op: op.name("t") / 1000)]))
    rot_ = "AnalogRot(duration='t', omega='o', delta='d', phase='p'{x})"
    cases.append((rot_.format(x=""), reg, [(lambda op: ham(hi, D(op, G, "o", "d", "p")), lambda op: op.name("t") / 1000)]))
    cases.append((rot_.format(x=""), regp, [(lambda op: ham(hi, hp, D(op, G, "o", "d", "p")), lambda op: op.name("t") / 1000)]))
    cases.append((rot_.format(x=", add_pattern=False"), regp, [(lambda op: ham(hi, D(op, G, "o", "d", "p")), lambda op: op.name("t") / 1000)]))
    cases.append((rot_.format(x=", qubit_support=(1,)"), reg, [(lambda op: ham(hi, D(op, (1,), "o", "d", "p")), lambda op: op.name("t") / 1000)]))
    for nm, args in (("AnalogRX", (math.pi, 0, 0)), ("AnalogRY", (math.pi, 0, -math.pi / 2)), ("AnalogRZ", (0, math.pi, 0))):
        cases.append((f"{nm}('a')", reg, [(lambda op, args=args: ham(hi, D(op, G, *args)), lambda op: op.name("a") / math.pi)]))
        cases.append((f"{nm}('a', (0, 2))", regp, [(lambda op, args=args: ham(hi, hp, D(op, (0, 2), *args)), lambda op: op.name("a") / math.pi)]))
        cases.append((f"{nm}('a', add_pattern=False)", regp, [(lambda op, args=args: ham(hi, D(op, G, *args)), lambda op: op.name("a") / math.pi)]))
    cases.append(("chain(AnalogRX('a'), AnalogInteraction('t'))", regp, [(lambda op: ham(hi, hp, D(op, G, math.pi, 0, 0)), lambda op: op.name("a") / math.pi), (lambda op: ham(hi, hp), lambda op: op.name("t") / 1000)]))
    cases.append(("chain(X(0), AnalogRX('a'), chain(H(1), AnalogInteraction('t', add_pattern=False)), CNOT(0, 1))", regp, ["X", (lambda op: ham(hi, hp, D(op, G, math.pi, 0, 0)), lambda op: op.name("a") / math.pi), "H", (lambda op: hi, lambda op: op.name("t") / 1000), "CNOT"]))
    cases.append(("kron(AnalogRot(duration=500, omega=2.0, qubit_support=(0,)), AnalogRot(duration=500, delta=1.5, qubit_support=(1, 2)))", reg, [(lambda op: ham(hi, D(op, (0,), 2.0, 0, 0)), lambda op: 0.5), (lambda op: ham(hi, D(op, (1, 2), 0, 1.5, 0)), lambda op: 0.5)]))
    cases.append(("chain(kron(AnalogRot(duration=500, omega=2.0, qubit_support=(0,)), AnalogInteraction(500, (1, 2))), AnalogRY(0.5))", reg, [(lambda op: ham(hi, D(op, (0,), 2.0, 0, 0)), lambda op: 0.5), (lambda op: ham(hi, D(op, G, math.pi, 0, -math.pi / 2)), lambda op: 0.5 / math.pi)]))
    cases.append(("kron(AnalogInteraction(500, (0,)), AnalogInteraction(500, (1, 2)))", reg, [(lambda op: hi, lambda op: 0.5)]))
    cases.append(("kron(AnalogInteraction(500, (0,)), AnalogInteraction(500, (1, 2)))", regp, [(lambda op: ham(hi, hp), lambda op: 0.5)]))
    cases.append(("chain(X(0), RX(1, 'a'))", reg, ["X", "RX"]))
    for b, r, want in cases:
        for form in ("block", "circuit"):
            text = f"add_background_hamiltonian({b}, {r})" if form == "block" else f"add_background_hamiltonian(QuantumCircuit({r}, {b})).block"
            con = f"{b} on {'a register with a pattern' if r is regp else 'a register'} ({form})"

            def f(text=text, want=want, con=con):
                try:
                    t, op = one(p, text)
                    if t.op == "raise":
                        return ctx.ob("evolve", con, False, f"raises {show(t, 3)[:120]}", PARSE)
                    gs = op.gates(t)
                    bad = None if len(gs) == len(want) else f"becomes {len(gs)} operations instead of {len(want)}"
                    for g, w in zip(gs, want) if bad is None else ():
                        nm = op.cls(g).name
                        if isinstance(w, str):
                            bad = bad or (None if nm == w else f"{w} becomes {nm}")
                            continue
                        if nm != "HamEvo":
                            bad = bad or f"becomes {nm}"
                            continue
                        h, tm = op.pauli(op.get(g, "generator")), op.param(g)
                        wh, wt = w[0](op), w[1](op)
                        # only the product of Hamiltonian and time matters
                        a, b2 = {k: v * tm for k, v in h.items()}, {k: v * wt for k, v in wh.items()}
                        if not peq(a, b2):
                            bad = bad or f"evolves with {pstr(h)} for {tm.real:.4g}, instead of {pstr(wh)} for {complex(wt).real:.4g}"
                except NoOp as e:
                    return ctx.ob("evolve", con, None, str(e)[:200])
                ctx.ob("evolve", con, bad is None, bad or "", PARSE)
            ctx.guard("evolve", con, f)

    def regkeep():
        t, op = one(p, f"[(c.register.coords, c.register.device_specs.rydberg_level) for c in [add_background_hamiltonian(QuantumCircuit(Register.line(2, spacing=8.0, device_specs=RydbergDevice(rydberg_level=71)), AnalogRX('a')))]][0]")
        v = value(t)
        ctx.ob("evolve", "the register of the circuit", v == ({0: (0.0, 0.0), 1: (8.0, 0.0)}, 71), f"becomes {v}", PARSE)
    ctx.guard("evolve", "the register of the circuit", regkeep)

    def noreg():
        t, op = one(p, "add_background_hamiltonian(AnalogRX('a'))")
        ctx.ob("evolve", "a block without register", True if t.op == "raise" else None if p.maybe else False, "does not raise", PARSE)
    ctx.guard("evolve", "a block without register", noreg)


def rotation(ctx, p):
    for nm, ax in (("AnalogRX", "X"), ("AnalogRY", "Y"), ("AnalogRZ", "Z")):
        for ang, env in (("0.7", 0.7), ("'a'", None), ("Parameter('a') * 2", "2a"), ("2.9", 2.9)):
            text = f"add_background_hamiltonian({nm}({ang}), Register.line(1))"
            # a single qubit: no interaction

            def f(text=text, ang=ang, ax=ax, nm=nm):
                try:
                    t, op = one(p, text)
                    if t.op == "raise":
                        return ctx.ob("rotation", f"{nm}({ang})", False, f"raises {show(t, 3)[:100]}", OPS)
                    h, tm = op.pauli(op.get(t, "generator")), op.param(t)
                    a = {"'a'": op.name("a"), "Parameter('a') * 2": 2 * op.name("a")}.get(ang) or complex(float(ang))
                except (NoOp, ValueError) as e:
                    return ctx.ob("rotation", f"{nm}({ang})", None, str(e)[:200])
                g = {k: v * tm for k, v in h.items() if k}
                ok = peq(g, {((0, ax),): a / 2})
                ctx.ob("rotation", f"{nm}({ang})", ok, "" if ok else f"generates {pstr(g)} instead of {a.real / 2:.4g} {ax}", OPS)
            ctx.guard("rotation", nm, f)

    def swap():
        for c, t_, n in ((0, 1, 2), (1, 0, 2), (0, 2, 3)):
            try:
                t, op = one(p, f"AnalogSWAP({c}, {t_})")
                h, tm = op.pauli(op.get(t, "generator")), op.param(t)
            except NoOp as e:
                ctx.ob("rotation", f"AnalogSWAP({c}, {t_})", None, str(e)[:200])
                continue
            m = expm(pmat(h, n), -1j * tm)
            ctx.ob("rotation", f"AnalogSWAP({c}, {t_})", same_up_to_phase(embed(SW, (c, t_), n), m, 1e-6), "is not a swap", OPS)
    ctx.guard("rotation", "AnalogSWAP", swap)
    for nm, want in (("AnalogRot(duration=500, omega=3.0, delta=4.0)", {"alpha": 2.5, "duration": 500, "omega": 3, "delta": 4, "phase": 0, "h_norm": 5}), ("AnalogRX(0.7)", {"alpha": 0.7, "duration": 700 / math.pi, "omega": math.pi, "delta": 0, "phase": 0}),
                     ("AnalogRY(0.7)", {"alpha": 0.7, "duration": 700 / math.pi, "omega": math.pi, "delta": 0, "phase": -math.pi / 2}), ("AnalogRZ(0.7)", {"alpha": 0.7, "duration": 700 / math.pi, "omega": 0, "delta": math.pi})):
        def g(nm=nm, want=want):
            bad = []
            t, op = one(p, nm)
            for k, v in want.items():
                try:
                    x = op.param(t, k)
                except NoOp as e:
                    return ctx.ob("rotation", f"{nm} parameters", None, str(e)[:100])
                if abs(x - v) > 1e-9:
                    bad.append(f"{k} is {x.real:.5g} instead of {v:.5g}")
            ctx.ob("rotation", f"{nm} parameters", not bad, "; ".join(bad), OPS)
        ctx.guard("rotation", nm, g)

    def zero():
        t, _ = one(p, "AnalogRot(duration=500)")
        ctx.ob("rotation", "AnalogRot without drive", True if t.op == "raise" else None if p.maybe else False, "is accepted", OPS)
    ctx.guard("rotation", "AnalogRot without drive", zero)


def compose(ctx, p):
    A = ["AnalogInteraction(200, (0,))", "AnalogRot(200, omega=1.0, qubit_support=(1, 2))"]
    for text, ok in ((f"kron({A[0]}, {A[1]})", True), ("kron(AnalogInteraction(200, (0, 1)), AnalogRot(200, omega=1.0, qubit_support=(1, 2)))", False), ("kron(AnalogInteraction(200, (0,)), AnalogInteraction(300, (1,)))", False),
                     ("kron(AnalogInteraction(200), AnalogInteraction(200, (1,)))", False), ("kron(AnalogInteraction(200, (1,)), AnalogInteraction(200))", False), ("chain(AnalogInteraction(200), AnalogRX(0.5))", True), (f"chain(kron({A[0]}, {A[1]}), AnalogRX(0.5))", True), (f"chain({A[0]}, AnalogRX(0.5))", False),
                     (f"chain(AnalogRX(0.5), {A[1]})", False)):
        def f(text=text, ok=ok):
            ret, st = p.expr(text)
            rj = p.rejects(ret)
            ctx.ob("compose", text, None if rj is None else rj != ok, "is accepted" if not rj else f"raises {show(ret[0][0], 3)[:100]}", "qadence/blocks/analog.py")
        ctx.guard("compose", text, f)
    for text, want in (("chain(AnalogInteraction(200), AnalogInteraction(300)).duration", 500), (f"kron({A[0]}, {A[1]}).duration", 200), ("AnalogInteraction(200).duration", 200), ("AnalogRot(350, omega=1.0).duration", 350)):
        def g(text=text, want=want):
            try:
                t, op = one(p, text)
                v = op.num(t)
            except NoOp as e:
                return ctx.ob("compose", text, None, str(e)[:150])
            ctx.ob("compose", text, abs(v - want) < 1e-9, f"is {v.real}", "qadence/blocks/analog.py")
        ctx.guard("compose", text, g)


def support(ctx, p):
    for text, want in ((f"tuple(AnalogInteraction(200, (2, 0)).qubit_support)", {0, 2}), ("AnalogInteraction(200).qubit_support.is_global", True), ("AnalogInteraction(200, (1,)).qubit_support.is_global", False), ("tuple(kron(AnalogInteraction(200, (0,)), AnalogInteraction(200, (2,))).qubit_support)", {0, 2}),
                       ("tuple(AnalogRot(350, omega=1.0, qubit_support=(3, 1)).qubit_support)", {1, 3}), ("QubitSupport(0, 1).is_disjoint((2, 3))", True), ("QubitSupport(0, 1).is_disjoint((1, 3))", False), ("QubitSupport('global').is_disjoint((1, 3))", False), ("AnalogRot(350, omega=1.0, qubit_support=(3, 1)).n_qubits", 4)):
        def f(text=text, want=want):
            try:
                t, op = one(p, text)
                v = value(t)
            except (NoOp, ValueError) as e:
                return ctx.ob("support", text, None, str(e)[:150])
            v = set(v) if isinstance(v, tuple) else v
            ctx.ob("support", text, v == want, f"is {v}", "qadence/qubit_support.py")
        ctx.guard("support", text, f)


def coefficient(ctx, p):
    import glob
    import json
    tab = c6table(ctx)
    if not tab:
        ctx.ob("coefficient", "C6_DICT", None, "not a literal")
        return
    fs = glob.glob("/opt/venv/lib/python3*/site-packages/pulser/devices/interaction_coefficients/C6_coeffs.json") + glob.glob("/opt/venv/lib/python3*/site-packages/pulser/**/*oeff*.json", recursive=True)
    ref = None
    for f in fs:
        try:
            ref = {int(k): float(v) for k, v in json.load(open(f)).items()}
            break
        except (ValueError, OSError, AttributeError, TypeError):
            continue
    ks = sorted(tab)
    mono = all(tab[a] < tab[b] for a, b in zip(ks, ks[1:]))
    ctx.ob("coefficient", "C6_DICT", mono, "the coefficients do not increase with the level", "qadence/analog/constants.py")
    # C6 grows as n^11 with a slowly varying prefactor
    r = [tab[k] / k**11 for k in ks]
    for a, b, c in zip(ks[1:-1], range(len(r)), ks):
        x, y, z = tab[a - 1] / (a - 1) ** 11, tab[a] / a**11, tab[a + 1] / (a + 1) ** 11
        ctx.ob("coefficient", f"level {a}", abs(2 * y - x - z) < 0.004 * y, f"{tab[a]} does not fit its neighbours", "qadence/analog/constants.py")
    if ref:
        for k in ks:
            if k in ref:
                ctx.ob("coefficient", f"pulser level {k}", abs(ref[k] - tab[k]) <= 1e-6 * ref[k], f"{tab[k]} instead of {ref[k]}", "qadence/analog/constants.py")
