"""Abstract evaluation of the Pulser backend: the pulses emitted for a circuit, read as Hamiltonians, against the operators of its blocks."""
from __future__ import annotations

import math

from ..probe import *
from ..opnum import *  # noqa: after the general helpers
from . import analog
from .register import stubs

MODS = ("pulser", "pulser.channels.base_channel", "pulser.channels.channels", "pulser.channels.eom", "pulser.devices._device_datacls", "pulser.parametrized.variable", "pulser.parametrized.decorators",
        "pulser.pulse", "pulser.sequence.sequence", "pulser.sequence", "pulser.waveforms", "pulser.register", "pulser_simulation", "pulser_simulation.simulation")
PRE = analog.PRE + """
from qadence.backends.pulser.backend import Backend, make_sequence
from qadence.backends.pulser.config import Configuration
from qadence.backends.pulser.pulses import add_pulses
from qadence.backends.pulser.waveforms import SquareWaveform
from qadence.types import DeviceType
from qadence.noise import NoiseHandler
from qadence.types import NoiseProtocol, Endianness
"""
PULSES = "qadence/backends/pulser/pulses.py"
BACKEND = "qadence/backends/pulser/backend.py"



def mkprobe(ctx):
    stubs(ctx, *[(m, "pulser_small.py") for m in MODS])
    p = analog.mkprobe(ctx, PRE)
    p.I.models["qadence.blocks.analog.ConstantAnalogRotation.compute_eigenvalues_generator"] = lambda a, k, st: mk("ext", "eigenvalues")
    gen = lambda a, k, st: const(auto(cval(a[-1]))) if is_const(a[-1]) else None  # noqa: E731
    for m in MODS:
        p.I.models[m + "._generic"] = gen
        p.I.models[m + "._result"] = lambda a, k, st: mk("call", mk("ext", "simulate"), ((0, a[0]),))
    p.I.models["numpy._flip"] = lambda a, k, st: mk("call", mk("ext", "flip"), ((0, a[0]),))
    p.I.models["numpy._zeros"] = lambda a, k, st: mk("ext", "zeros")
    p.I.oracle = lambda c, st=None: False if c.op == "isnone" and c.a[0].op == "call" and callee_name(c.a[0]) == "flip" else numeric_oracle(c, st)
    return p


def pulse_op(op, kind, target, pulse, n):
    """(Pauli generator: Hamiltonian times time, qubits, duration) of a constant pulse; |g> and |r> are reversed in pulser, where Y changes sign"""
    A, D = op.get(pulse, "amplitude"), op.get(pulse, "detuning")
    for w in (A, D):
        if value(op.get(w, "kind")) != "constant":
            raise NoOp("a pulse of varying amplitude")
    T, T2 = op.num(op.get(A, "duration")).real, op.num(op.get(D, "duration")).real
    a, d, ph = (op.num(x) for x in (op.get(A, "value"), op.get(D, "value"), op.get(pulse, "phase")))
    qs = tuple(range(n)) if kind == "rydberg_global" else target
    r = {}
    for q in qs:
        r = padd(r, {((q, "X"),): a / 2 * cmath.cos(ph), ((q, "Y"),): a / 2 * cmath.sin(ph), (): -d / 2, ((q, "Z"),): d / 2})
    return {k: v * T / 1000 for k, v in r.items() if k}, qs, T, T2


def calls(op, t, n):
    out = []
    v = op.pick(t)
    if v.op != "list":
        raise NoOp(show(v, 3))
    for c in v.a[0]:
        k, tg, pl, pr = c.a[0]
        k = value(k)
        tg = tuple(value(x) for x in tg.a[0]) if k != "rydberg_global" else None
        out.append((k, tg, pl, value(pr)))
    return out


IDEAL = "Register.line({n}, spacing=8.0)"
REAL = "Register.line({n}, spacing=8.0, device_specs=RealisticDevice())"
PI = math.pi


def near(a, b, tol):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def drive(qs, t, o, d, ph):
    """generator of a drive of t ns"""
    r = {}
    for q in qs:
        r = padd(r, {((q, "X"),): o / 2 * math.cos(ph), ((q, "Y"),): -o / 2 * math.sin(ph), ((q, "Z"),): d / 2})
    return {k: v * t / 1000 for k, v in r.items()}


def rotgen(ax, q, th):
    return {((q, ax),): th / 2}


def check(ctx):
    ctx.rule("pulse", "the pulses of a block on Pulser generate the operator of the block, up to the resolution of the device", 30)
    ctx.rule("program", "composites become the pulses of their blocks in order, all on the qubits of their block; unsupported blocks raise", 8)
    ctx.rule("device", "the device has the Rydberg level and the limits of the register, which keeps its coordinates", 4)
    ctx.rule("run", "run, sample and noisy runs simulate the converted sequence with the addressing pattern and the given initial state", 6)
    p = mkprobe(ctx)
    for r, f in (("pulse", pulses), ("program", program), ("device", device), ("run", run)):
        ctx.guard(r, "analysis", lambda f=f: f(ctx, p))


def seq(p, block, reg, n):
    t, op = analog.one(p, f"make_sequence(QuantumCircuit({reg.format(n=n)}, {block}), Configuration()).calls")
    if t.op == "raise":
        return t, op, None
    return t, op, calls(op, t, n)


def judge(ctx, rule, con, p, block, reg, n, want, tol):
    """want: list of (qubits, generator)"""
    def f():
        try:
            t, op, cs = seq(p, block, reg, n)
            if cs is None:
                return ctx.ob(rule, con, False, f"raises {show(t, 3)[:150]}", PULSES)
            got = [pulse_op(op, k, tg, pl, n) for k, tg, pl, _ in cs]
        except (NoOp, ValueError) as e:
            return ctx.ob(rule, con, None, str(e)[:200])
        bad = None if len(got) == len(want) else f"becomes {len(got)} pulses instead of {len(want)}"
        for (g, qs, T, T2), w in zip(got, want) if bad is None else ():
            ws = w if isinstance(w, list) else [w]
            if not any(near(g, x, tol) for x in ws):
                bad = f"generates {pstr(g)} instead of {pstr(ws[0])}"
            elif T != T2:
                bad = f"has waveforms of {T} and {T2} ns"
        if bad is None and any(pr != "wait-for-all" for _, _, _, pr in cs):
            bad = "overlaps other pulses"
        ctx.ob(rule, con, bad is None, bad or "", PULSES)
    ctx.guard(rule, con, f)


def pulses(ctx, p):
    for dev, reg, tol in (("ideal", IDEAL, 0.012), ("realistic", REAL, 0.05)):
        for nm in ("RX", "RY", "RZ"):
            for th in (0.5, 2.9, -0.7, 4.0, -5.5):
                judge(ctx, "pulse", f"{nm}(1, {th}) on the {dev} device", p, f"{nm}(1, {th})", reg, 2, [[rotgen(nm[1], 1, th + 2 * PI * k) for k in (0, 1)] if th < 0 else rotgen(nm[1], 1, th)], tol)
        for th in (0.5, 2.9, 5.0):
            for b, g in ((f"AnalogRX({th})", lambda q, th=th: drive(q, th * 1000 / PI, PI, 0, 0)), (f"AnalogRY({th})", lambda q, th=th: drive(q, th * 1000 / PI, PI, 0, -PI / 2)), (f"AnalogRZ({th})", lambda q, th=th: drive(q, th * 1000 / PI, 0, PI, 0))):
                judge(ctx, "pulse", f"{b} on the {dev} device", p, b, reg, 2, [g((0, 1))], tol)
                bl = b.replace(")", ", (1,))")
                judge(ctx, "pulse", f"{bl} on the {dev} device", p, bl, reg, 2, [g((1,))], tol)
        for a in ((500, 2.0, 0, 0), (500, 2.0, 1.5, 0), (500, 2.0, -1.5, 0.4), (300, 0, 2.5, 0.4), (300, 0, -2.5, 0), (640, 1.2, 0.3, -1.1)):
            judge(ctx, "pulse", f"AnalogRot{a} on the {dev} device", p, f"AnalogRot{a}", reg, 3, [drive((0, 1, 2), *a)], tol)
            judge(ctx, "pulse", f"AnalogRot{a} of qubits 2, 0 on the {dev} device", p, f"AnalogRot{a[:4]}".replace(")", ", (2, 0))"), reg, 3, [drive((0, 2), *a)], tol)
        for t in (240, 1000):
            judge(ctx, "pulse", f"AnalogInteraction({t}) on the {dev} device", p, f"AnalogInteraction({t})", reg, 2, [{}], 1e-9)

            def wait(t=t, reg=reg, dev=dev):
                _, op, cs = seq(p, f"AnalogInteraction({t})", reg, 2)
                T = [pulse_op(op, k, tg, pl, 2)[2] for k, tg, pl, _ in cs]
                ctx.ob("pulse", f"AnalogInteraction({t}) on the {dev} device waits", T == [t], f"waits for {T}", PULSES)
            ctx.guard("pulse", "wait", wait)
    # parameters: the value of every identifier of the block
    for b, ks, g in (("RX(0, 'a')", ("parameter",), lambda a: rotgen("X", 0, a)), ("RY(0, 'a')", ("parameter",), lambda a: rotgen("Y", 0, a)), ("RZ(0, 'a')", ("parameter",), lambda a: rotgen("Z", 0, a)),
                     ("AnalogRX('a')", ("alpha",), lambda a: drive((0, 1), a * 1000 / PI, PI, 0, 0)), ("AnalogRY('a')", ("alpha",), lambda a: drive((0, 1), a * 1000 / PI, PI, 0, -PI / 2)), ("AnalogRZ('a')", ("alpha",), lambda a: drive((0, 1), a * 1000 / PI, 0, PI, 0)),
                     ("AnalogRot('t', 'o', 'd', 'p')", ("alpha", "omega", "delta", "phase"), lambda a, o, d, ph: drive((0, 1), 1000 * a / math.hypot(o, d), o, d, ph))):
        def f(b=b, ks=ks, g=g):
            try:
                t, op = analog.one(p, f"(lambda b: (b, make_sequence(QuantumCircuit(Register.line(2, spacing=8.0), b), Configuration()).calls, [b.parameters.uuid_param(k)[0] for k in {ks!r}]))({b})")
                blk, cs, us = t.a[0]
                vals = [auto(value(u)) for u in us.a[0]]
                got = [pulse_op(op, k, tg, pl, 2)[0] for k, tg, pl, _ in calls(op, cs, 2)]
            except (NoOp, ValueError) as e:
                return ctx.ob("pulse", f"{b} with parameters", None, str(e)[:200])
            w = g(*vals)
            ok = len(got) == 1 and near(got[0], w, 0.012)
            ctx.ob("pulse", f"{b} with parameters", ok, "" if ok else f"generates {[pstr(x) for x in got]} instead of {pstr(w)} for {dict(zip(ks, vals))}", PULSES)
        ctx.guard("pulse", b, f)


def program(ctx, p):
    X0 = rotgen("X", 0, 0.5)
    G = drive((0, 1, 2), 1000 * 0.8 / PI, PI, 0, 0)
    for b, w in (("chain(RX(0, 0.5), RZ(1, 0.7), RY(0, 0.9))", [X0, rotgen("Z", 1, 0.7), rotgen("Y", 0, 0.9)]), ("kron(RX(0, 0.5), RZ(1, 0.7), RY(2, 0.9))", [X0, rotgen("Z", 1, 0.7), rotgen("Y", 2, 0.9)]),
                 ("chain(AnalogRX(0.8), AnalogInteraction(200), AnalogRX(0.8))", [G, {}, G]), ("chain(RX(0, 0.5), AnalogRX(0.8), chain(RZ(2, 0.7), kron(RX(0, 0.5), RY(1, 0.9))))", [X0, G, rotgen("Z", 2, 0.7), X0, rotgen("Y", 1, 0.9)]),
                 ("kron(AnalogRot(500, 2.0, 0, 0, (0,)), AnalogInteraction(500, (1, 2)))", [drive((0,), 500, 2.0, 0, 0)]), ("kron(AnalogRot(500, 2.0, 0, 0, (0,)), AnalogRot(500, 0, 1.5, 0, (1, 2)))", [drive((0,), 500, 2.0, 0, 0), drive((1, 2), 500, 0, 1.5, 0)])):
        judge(ctx, "program", b, p, b, IDEAL, 3, w, 0.012)
    for b, r in (("X(0)", IDEAL), ("CNOT(0, 1)", IDEAL), ("chain(RX(0, 0.5), H(0))", IDEAL), ("HamEvo(X(0), 0.5)", IDEAL), ("AnalogRX(0.5)", "Register.line({n}, spacing=8.0, device_specs=RydbergDevice(interaction=Interaction.XY))"), ("AnalogInteraction(200, (5,))", IDEAL)):
        def f(b=b, r=r):
            ret, st = p.expr(f"make_sequence(QuantumCircuit({r.format(n=6 if '5' in b and 'Inter' in b else 2)}, {b}), Configuration()).calls" if "(5,)" not in b else f"add_pulses(make_sequence(QuantumCircuit({r.format(n=2)}, RX(0, 0.5)), Configuration()), {b}, Configuration(), {r.format(n=2)})")
            ctx.ob("program", f"{b} is not supported{'' if r == IDEAL else ' with XY interactions'}", p.rejects(ret), "is accepted", PULSES)
        ctx.guard("program", b, f)


def device(ctx, p):
    def show_dev(con, spec, want):
        def f():
            t, op = analog.one(p, f"(lambda s: (s.device.rydberg_level, s.device.channels['rydberg_global'].max_abs_detuning, s.device.channels['rydberg_global'].max_amp, s.device.channels['rydberg_local'].max_abs_detuning, s.device.channels['rydberg_local'].max_amp, [tuple(c) for c in s.register.qubits.values()]))(make_sequence(QuantumCircuit(Register.line(2, spacing=8.0{spec}), RX(0, 0.5)), Configuration()))")
            if t.op == "raise":
                return ctx.ob("device", con, want is None, f"raises {show(t, 3)[:100]}", BACKEND)
            try:
                v = value(t)
            except ValueError as e:
                return ctx.ob("device", con, None, str(e)[:150])
            if want is None:
                return ctx.ob("device", con, None if p.maybe else False, "does not raise", BACKEND)
            ok = all(abs(a - b) < 1e-9 for a, b in zip(v[:5], want)) and [tuple(float(x) for x in c) for c in v[5]] == [(0.0, 0.0), (8.0, 0.0)]
            ctx.ob("device", con, ok, "" if ok else f"is {v} instead of {want}", BACKEND)
        ctx.guard("device", con, f)
    show_dev("default device", "", (60, 8 * PI, 6 * PI, 8 * PI, 6 * PI))
    show_dev("ideal device", ", device_specs=IdealDevice()", (60, 8 * PI, 6 * PI, 8 * PI, 6 * PI))
    show_dev("ideal device with limits", ", device_specs=RydbergDevice(rydberg_level=70, max_detuning=11.0, max_amp=5.0)", (70, 11, 5, 11, 5))
    show_dev("realistic device with limits", ", device_specs=RydbergDevice(rydberg_level=75, max_detuning=11.0, max_amp=5.0, type=DeviceType.REALISTIC)", (75, 11, 2.5, 11, 5))
    show_dev("other devices", ", device_specs=RydbergDevice(type='nonsense')", None)


def sims(st):
    """the simulations of a program in order of construction"""
    out = []
    for (o, k), v in st.heap.items():
        if o.op == "new" and "QutipEmulator" in o.a[0] and k == "sequence":
            out.append(o)
    return out


def contains(t, f):
    return any(f(x) for x in walk(t))


def run(ctx, p):
    psi = mk("atom", "psi")
    plain = "Register.line(2, spacing=8.0)"
    pat = "Register.line(2, spacing=8.0, device_specs=IdealDevice(AddressingPattern(2, {0: 0.5}, {1: 0.7}, amp=2.0, det=10.0)))"
    noisy = "noise=NoiseHandler(NoiseProtocol.ANALOG.DEPHASING, {'noise_probs': 0.1})"
    c6 = PI / 2 / 1000
    for kind, call in (("run", "b.run(c{a})"), ("sample", "b.sample(c, n_shots=5{a})"), ("noisy run", "b.run(c, " + noisy + "{a})")):
        for reg in (plain, pat):
            for state in (False, True):
                for end in ("BIG", "LITTLE"):
                    a = (", state=psi" if state else "") + ("" if end == "BIG" else ", endianness=Endianness.LITTLE")
                    con = f"{kind} {'with' if reg is pat else 'without'} pattern{' from an initial state' if state else ''}{'' if end == 'BIG' else ', little endian'}"

                    def f(call=call, reg=reg, state=state, end=end, a=a, con=con, kind=kind):
                        ret, st = p.expr(f"(lambda b: (lambda c: ({call.replace('{a}', a)}, {call.replace('{a}', a)}, c.native.calls))(b.circuit(QuantumCircuit({reg}, RX(0, 0.5)))))(Backend())", {"psi": psi})
                        if len(ret) != 1 or ret[0][0].op != "tuple":
                            return ctx.ob("run", con, None, f"{[show(l, 3)[:80] for l, _ in ret]}")
                        op = Op(ctx.prog, st.heap)
                        res, res2, native = ret[0][0].a[0]
                        ss = sims(st)
                        if len(ss) != 2:
                            return ctx.ob("run", con, None, f"{len(ss)} simulations")
                        for k, s in enumerate(ss):
                            w = f"{con}, {'first' if not k else 'second'} time"
                            try:
                                cs = calls(op, op.get(op.get(s, "sequence"), "calls"), 2)
                                dur = [pulse_op(op, *c[:3], 2)[2] for c in cs]
                                got = [(pulse_op(op, *c[:3], 2)[0], c[3]) for c in cs]
                            except (NoOp, ValueError) as e:
                                ctx.ob("run", w, None, str(e)[:150])
                                continue
                            want = [(rotgen("X", 0, 0.5), "wait-for-all")]
                            if reg is pat:
                                T = dur[0] / 1000
                                want += [({((0, "X"),): 0.5 * 2 / 2 * T}, "no-delay"), ({((1, "Z"),): -7 / 2 * T}, "no-delay")]
                            bad = None if len(got) >= len(want) and got[0][1] == want[0][1] and near(got[0][0], want[0][0], 0.012) else f"simulates {[pstr(g) for g, _ in got]}"
                            rest = {}
                            for g, pr in got[1:]:
                                rest = padd(rest, g)
                            wr = {}
                            for g, pr in want[1:]:
                                wr = padd(wr, g)
                            if bad is None and not near(rest, wr, 1e-9):
                                bad = f"simulates {[pstr(g) for g, _ in got]} instead of {[pstr(g) for g, _ in want]}"
                            if bad is None and reg is pat and any(abs(d - dur[0]) > 1e-9 or pr != "no-delay" for d, (_, pr) in list(zip(dur, got))[1:]):
                                bad = "the pattern does not last as long as the circuit, or waits for it"
                            ctx.ob("run", w, bad is None, bad or "", BACKEND)
                            ini = op.get(s, "initial")
                            ini = const(None) if ini is None else op.pick(ini) if ini.op != "ite" else ini
                            ok = is_const(ini) and cval(ini) is None if not state else contains(ini, lambda x: x is psi) and contains(ini, lambda x: x.op == "call" and callee_name(x) == "flip")
                            if ini.op == "ite":
                                ok = None
                            ctx.ob("run", w + ": initial state", ok, f"starts from {show(ini, 3)}", BACKEND)
                            r = (res, res2)[k]
                            if kind != "sample":
                                ctx.ob("run", w + ": order of the result", contains(r, lambda x: x.op == "call" and callee_name(x) == "flip" and contains(x, lambda y: y.op == "call" and callee_name(y) == "simulate")) if not contains(r, lambda x: x.op == "unk") else None, "the state is not flipped from Pulser's order", BACKEND)
                    ctx.guard("run", con, f)

    def missing():
        ret, st = p.expr("(lambda b: b.run(b.circuit(QuantumCircuit(Register.line(2, spacing=8.0), RX(0, 'a')))))(Backend())")
        ctx.ob("run", "a circuit without the values of its parameters", p.rejects(ret), "does not raise", BACKEND)
    p.I.models["pulser.sequence.sequence.Sequence.is_parametrized"] = p.I.models["pulser.Sequence.is_parametrized"] = lambda a, k, st: TRUE
    ctx.guard("run", "missing", missing)
    for k in ("pulser.sequence.sequence.Sequence.is_parametrized", "pulser.Sequence.is_parametrized"):
        del p.I.models[k]
