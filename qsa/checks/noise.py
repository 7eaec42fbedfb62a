"""Abstract evaluation of noise handlers, noise placement and readout mitigation on client programs covering every combination of sources."""
from __future__ import annotations

import itertools

from ..probe import *
from ..symten import NoSym, RF, Sym, Ten

PRE = """
from collections import Counter
from qadence import *
from qadence.operations import *
from qadence.blocks import *
from qadence.blocks.utils import *
from qadence.circuit import QuantumCircuit
from qadence.noise import NoiseHandler
from qadence.types import NoiseProtocol, ReadOutOptimization
from qadence.transpile import set_noise
from qadence.mitigations import Mitigations
from qadence.mitigations.readout import mitigate as readout
from qadence.mitigations.protocols import apply_mitigation
from qadence.backends.pyqtorch.convert_ops import convert_readout_noise, convert_digital_noise
D1 = NoiseProtocol.DIGITAL.BITFLIP
D2 = NoiseProtocol.DIGITAL.AMPLITUDE_DAMPING
A1 = NoiseProtocol.ANALOG.DEPOLARIZING
A2 = NoiseProtocol.ANALOG.DEPHASING
R1 = NoiseProtocol.READOUT.INDEPENDENT
R2 = NoiseProtocol.READOUT.CORRELATED

def appended(h, x):
    try:
        h.append(x)
    except Exception:
        return ("failed", h.protocol, h.options)
    return ("ok", h.protocol, h.options)

def others(h, x):
    h.append(x)
    return (x.protocol, x.options)

def built(h, name, o):
    r = getattr(h, name)(o)
    return (r is h, h.protocol, h.options)

def noises(ls, b, n, c):
    set_noise(b, n, c)
    return [x._noise for x in ls]
"""
KIND = {"D1": "D", "D2": "D", "A1": "A", "A2": "A", "R1": "R", "R2": "R"}
BUILD = {"bitflip": "DIGITAL.BITFLIP", "phaseflip": "DIGITAL.PHASEFLIP", "digital_depolarizing": "DIGITAL.DEPOLARIZING", "pauli_channel": "DIGITAL.PAULI_CHANNEL",
         "amplitude_damping": "DIGITAL.AMPLITUDE_DAMPING", "phase_damping": "DIGITAL.PHASE_DAMPING", "generalized_amplitude_damping": "DIGITAL.GENERALIZED_AMPLITUDE_DAMPING",
         "readout_independent": "READOUT.INDEPENDENT", "readout_correlated": "READOUT.CORRELATED"}
LOC = "qadence/noise/protocols.py"


def opt(p, i):
    return {"D": f"{{'error_probability': 0.{i + 1}}}", "A": f"{{'noise_probs': 0.{i + 1}}}", "R": f"{{'seed': {i}}}"}[KIND[p]]


def valid(ps):
    ks = [KIND[p] for p in ps]
    if not ks or "D" in ks and "A" in ks:
        return False
    if "A" in ks and ("R" in ks or ks.count("A") > 1):
        return False
    return ks.count("R") <= 1 and ("R" not in ks or ks[-1] == "R")


def check(ctx):
    ctx.rule("combine", "a handler accepts exactly the valid combinations of sources and keeps every source with its options, in order", 100)
    ctx.rule("options", "a source without its mandatory option, and lists of different length, are rejected; one option applies to every source", 8)
    ctx.rule("append", "appending gives the concatenation if it is valid and otherwise raises and leaves the handler unchanged; the appended handler never changes", 60)
    ctx.rule("build", "every builder method appends its own source with the given options and returns the handler", 9)
    ctx.rule("filter", "filtering keeps exactly the sources of one kind, each with its own options, in order", 12)
    ctx.rule("equal", "handlers are equal exactly if sources and options are", 6)
    ctx.rule("place", "set_noise puts the noise on every gate (of the requested class) of a block, wherever it is nested, and on no other", 10)
    ctx.rule("readout", "the converted readout noise is the requested model with exactly the given options", 3)
    ctx.rule("mitigate", "readout mitigation inverts the confusion of the given noise qubit by qubit, on every set of samples", 5)
    for r, f in (("combine", combine), ("options", options), ("append", append), ("build", build), ("filter", filter_), ("equal", equal), ("place", place), ("readout", readout), ("mitigate", mitigate)):
        ctx.guard(r, f.__name__, lambda f=f: f(ctx))


def one(p, e, b=None):
    ret, st = p.expr(e, b)
    if len(ret) != 1:
        raise ValueError(f"{len(ret)} outcomes of {e}")
    return ret[0][0], st


def mk_handler(ps):
    return f"NoiseHandler([{', '.join(ps)}], [{', '.join(opt(p, i) for i, p in enumerate(ps))}])"


def expected(p, ps, off=0):
    pr, _ = one(p, f"[{', '.join(ps)}]")
    op, _ = one(p, f"[{', '.join(opt(x, i + off) for i, x in enumerate(ps))}]")
    return pr, op


def combos(n):
    for k in range(n + 1):
        yield from itertools.product(("D1", "D2", "A1", "A2", "R1", "R2") if k < 3 else ("D1", "D2", "A1", "R1"), repeat=k)


def combine(ctx):
    p = Probe(ctx, PRE)
    for ps in combos(3):
        def go(ps=ps):
            cons = "[" + ", ".join(ps) + "]"
            ret, st = one(p, f"(lambda h: (h.protocol, h.options))({mk_handler(ps)})")
            want = valid(ps)
            if is_raise(ret) or not want:
                return ctx.ob("combine", cons, None if p.maybe and not want and not is_raise(ret) else is_raise(ret) != want, f"{'rejected' if is_raise(ret) else 'accepted'}: {show(ret, 4)[:200]}", LOC)
            ok = ret.a[0] == expected(p, ps)
            ctx.ob("combine", cons, ok, f"holds {show(ret, 5)}", LOC)
        ctx.guard("combine", str(ps), go)


def options(ctx):
    p = Probe(ctx, PRE)
    for e in ("NoiseHandler(D1)", "NoiseHandler(D1, {'noise_probs': 0.1})", "NoiseHandler(A1)", "NoiseHandler(A1, {'error_probability': 0.1})", "NoiseHandler([D1, D2], [{'error_probability': 0.1}, {}])",
              "NoiseHandler([D1, D2], [{'error_probability': 0.1}])", "NoiseHandler([D1], [{'error_probability': 0.1}, {'error_probability': 0.1}])", "NoiseHandler([])", "NoiseHandler([D1, R1], [{}, {'error_probability': 0.1}])"):
        def go(e=e):
            ret, _ = one(p, e)
            ctx.ob("options", e, True if is_raise(ret) else None if p.maybe else False, "accepted", LOC)
        ctx.guard("options", e, go)

    def rep():
        ret, _ = one(p, "NoiseHandler([D1, D2, R1], {'error_probability': 0.1}).options")
        want, _ = one(p, "[{'error_probability': 0.1}, {'error_probability': 0.1}, {'error_probability': 0.1}]")
        ctx.ob("options", "one option for several sources", ret is want, show(ret, 4), LOC)
        for e in ("NoiseHandler(R1)", "NoiseHandler(A1, {'noise_probs': 0.1})", "NoiseHandler(D1, {'error_probability': 0.0})"):
            ret, _ = one(p, e)
            ctx.ob("options", e, not is_raise(ret), show(ret, 4), LOC)
    ctx.guard("options", "defaults", rep)


def append(ctx):
    p = Probe(ctx, PRE)
    base = [ps for ps in combos(2) if valid(ps)]
    for a, b in itertools.product(base, base):
        def go(a=a, b=b):
            cons = f"{list(a)} + {list(b)}"
            hb = f"NoiseHandler([{', '.join(b)}], [{', '.join(opt(x, i + 4) for i, x in enumerate(b))}])"
            ret, _ = one(p, f"appended({mk_handler(a)}, {hb})")
            if ret.op != "tuple" or len(ret.a[0]) != 3 or not is_const(ret.a[0][0]):
                return ctx.ob("append", cons, None, show(ret, 4))
            how, pr, op = ret.a[0]
            pa, oa = expected(p, a)
            pb, ob = expected(p, b, 4)
            if valid(a + b):
                ok = cval(how) == "ok" and pr.a[0] == pa.a[0] + pb.a[0] and op.a[0] == oa.a[0] + ob.a[0]
            else:
                ok = cval(how) == "failed" and pr is pa and op is oa
            ctx.ob("append", cons, ok, f"{cval(how)}; the handler then holds {show(pr, 3)} with {show(op, 4)}", LOC)
            if valid(a + b):
                ret, _ = one(p, f"others({mk_handler(a)}, {hb})")
                ctx.ob("append", cons + ": appended handler", ret.op == "tuple" and ret.a[0] == (pb, ob), f"changed to {show(ret, 4)}", LOC)
        ctx.guard("append", f"{a} {b}", go)

    def many():
        ret, _ = one(p, f"appended({mk_handler(('D1',))}, [{mk_handler(('D2',))}, {mk_handler(('R1',))}])")
        pr, _ = one(p, "[D1, D2, R1]")
        ctx.ob("append", "a list of handlers", ret.op == "tuple" and ret.a[0][1] is pr and len(ret.a[0][2].a[0]) == 3, show(ret, 4), LOC)
    ctx.guard("append", "list", many)


def build(ctx):
    p = Probe(ctx, PRE)
    for name, proto in BUILD.items():
        def go(name=name, proto=proto):
            ret, _ = one(p, f"built(NoiseHandler(D1, {{'error_probability': 0.2}}), '{name}', {{'error_probability': 0.7}})")
            want, _ = one(p, f"(True, [D1, NoiseProtocol.{proto}], [{{'error_probability': 0.2}}, {{'error_probability': 0.7}}])")
            if ret.op != "tuple":
                return ctx.ob("build", name, False if is_raise(ret) else None, show(ret, 3), LOC)
            ctx.ob("build", name, ret is want, f"holds {show(ret, 4)}", LOC)
        ctx.guard("build", name, go)
    # analog sources cannot be combined, so their builders always raise
    for name in ("analog_depolarizing", "dephasing"):
        def an(name=name):
            ret, _ = one(p, f"NoiseHandler(D1, {{'error_probability': 0.2}}).{name}({{'noise_probs': 0.7}})")
            ctx.ob("build", name + " on a digital handler", is_raise(ret), show(ret, 3), LOC)
        ctx.guard("build", name, an)


def filter_(ctx):
    p = Probe(ctx, PRE)
    for ps in (x for x in combos(3) if valid(x)):
        for k, nm in (("D", "DIGITAL"), ("A", "ANALOG"), ("R", "READOUT")):
            def go(ps=ps, k=k, nm=nm):
                cons = f"{list(ps)}.filter({nm})"
                ret, st = one(p, f"(lambda h: None if h is None else (h.protocol, h.options))({mk_handler(ps)}.filter(NoiseProtocol.{nm}))")
                keep = [i for i, x in enumerate(ps) if KIND[x] == k]
                pr, op = expected(p, ps)
                if not keep:
                    return ctx.ob("filter", cons, ret is NONE, show(ret, 4), LOC)
                if ret.op != "tuple":
                    return ctx.ob("filter", cons, False if ret is NONE or is_raise(ret) else None, show(ret, 4), LOC)
                ok = ret.a[0][0].a[0] == tuple(pr.a[0][i] for i in keep) and ret.a[0][1].a[0] == tuple(op.a[0][i] for i in keep)
                ctx.ob("filter", cons, ok, show(ret, 5), LOC)
            ctx.guard("filter", f"{ps} {nm}", go)


def equal(ctx):
    p = Probe(ctx, PRE)
    H = mk_handler
    for a, b, want in ((H(("D1",)), H(("D1",)), True), (H(("D1", "R1")), H(("D1", "R1")), True), (H(("D1",)), H(("D2",)), False), (H(("D1",)), H(("D1", "R1")), False), (H(("D1", "R1")), H(("D1",)), False),
                       (H(("D1",)), "NoiseHandler(D1, {'error_probability': 0.9})", False), (H(("R1",)), H(("R2",)), False), (H(("D1", "D2")), H(("D2", "D1")), False), ("NoiseHandler([D1, R1], [{'error_probability': 0.1}, {'seed': 1}])", "NoiseHandler([D1, R1], [{'error_probability': 0.1}, {'seed': 2}])", False)):
        def go(a=a, b=b, want=want):
            ret, _ = one(p, f"{a} == {b}")
            ctx.ob("equal", f"{a} == {b}", None if not is_const(ret) else bool(cval(ret)) == want, show(ret, 3), LOC)
        ctx.guard("equal", a + b, go)


def place(ctx):
    loc = "qadence/transpile/noise.py"
    # gates a..e, and how they are nested
    g = "a=X(0), b=RX(1, 'x'), c=CNOT(0, 1), d=Z(2), e=X(2)"
    types = {"a": "X", "b": "RX", "c": "CNOT", "d": "Z", "e": "X"}
    for blk in ("chain(a, b, c, d, e)", "kron(a, b, d)", "chain(kron(a, b), chain(c, chain(d, e)))", "chain(kron(a, chain(b), d), c)", "add(a, kron(b, d))", "chain(2 * a, b)", "chain(a, 3 * chain(b, kron(c, d)))", "a", "2 * a", "chain(a, a)",
                "chain(b, 'x' * kron(a, d))" if False else "chain(b, 2 * (3 * kron(a, d)))"):
        for cls in ("None", "X", "CNOT", "RX"):
            def go(blk=blk, cls=cls):
                p = Probe(ctx, PRE)
                used = [x for x in "abcde" if __import__("re").search(rf"\b{x}\b", blk)]
                e = f"(lambda {g}: noises([{', '.join(used)}], {blk}, N0, {cls}))()"
                ret, st = one(p, e, {"N0": P("N0")})
                cons = f"set_noise({blk}, {cls})"
                if ret.op not in ("list", "tuple") or len(ret.a[0]) != len(used):
                    return ctx.ob("place", cons, False if is_raise(ret) else None, show(ret, 4), loc)
                bad = []
                for x, v in zip(used, ret.a[0]):
                    want = P("N0") if cls == "None" or types[x] == cls else NONE
                    if v is not want:
                        bad.append(f"{types[x]} ({x}) has {'no noise' if v is NONE else show(v, 2)}")
                ctx.ob("place", cons, not bad, "; ".join(bad), loc)
            ctx.guard("place", f"{blk} {cls}", go)

    def remove():
        p = Probe(ctx, PRE)
        ret, st = one(p, f"(lambda {g}: (noises([a, b], chain(a, b), N0, None), noises([a, b], chain(a, b), None, None)))()", {"N0": P("N0")})
        want = mk("tuple", (mk("list", (P("N0"), P("N0"))), mk("list", (NONE, NONE))))
        ctx.ob("place", "removing the noise", ret is want, show(ret, 3), loc)
        ret, st = one(p, f"(lambda {g}: noises([a, b], QuantumCircuit(3, chain(a, 2 * b)), N0, None))()", {"N0": P("N0")})
        ctx.ob("place", "a circuit", ret is mk("list", (P("N0"), P("N0"))), show(ret, 3), loc)
    ctx.guard("place", "remove", remove)


def readout(ctx):
    loc = "qadence/backends/pyqtorch/convert_ops.py"
    for e, cls, want in (("NoiseHandler(R1, {'error_probability': E, 'seed': S})", "ReadoutNoise", {0: const(3), "error_probability": P("E"), "seed": P("S")}),
                         ("NoiseHandler([D1, R1], [{'error_probability': 0.1}, {'seed': S}])", "ReadoutNoise", {0: const(3), "seed": P("S")}),
                         ("NoiseHandler(R2, {'confusion_matrix': E, 'seed': S})", "CorrelatedReadoutNoise", {"confusion_matrix": P("E"), "seed": P("S")})):
        def go(e=e, cls=cls, want=want):
            p = Probe(ctx, PRE)
            ret, _ = one(p, f"convert_readout_noise(3, {e})", {"E": P("E"), "S": P("S")})
            if ret.op != "call":
                return ctx.ob("readout", e, False if ret is NONE or is_raise(ret) else None, show(ret, 4), loc)
            a = args_of(ret)
            if 0 not in a and "n_qubits" in a:
                a[0] = a.pop("n_qubits")
            ctx.ob("readout", e, callee_name(ret) == cls and a == want, f"{show(ret, 4)}", loc)
        ctx.guard("readout", e, go)

    def none():
        p = Probe(ctx, PRE)
        ret, _ = one(p, "convert_readout_noise(3, NoiseHandler(D1, {'error_probability': 0.1}))")
        ctx.ob("readout", "no readout source", ret is NONE, show(ret, 3), loc)
    ctx.guard("readout", "none", none)


# confusion matrices of two qubits: column i is the distribution of what is read when i was measured
C0, C1 = [[0.9, 0.2], [0.1, 0.8]], [[0.7, 0.05], [0.3, 0.95]]


def kron2(a, b):
    return [[a[i // 2][j // 2] * b[i % 2][j % 2] for j in range(4)] for i in range(4)]


def mitigate(ctx):
    loc = "qadence/mitigations/readout.py"
    BITS = ["00", "01", "10", "11"]
    S = [[60, 10, 10, 20], [5, 45, 40, 10]]
    cm = {P(f"C{i}"): Ten((2, 2), [RF.c(x) for r in m for x in r]) for i, m in enumerate((C0, C1))}

    def setup(opts):
        p = Probe(ctx, PRE)
        p.I.models["qadence.backends.pyqtorch.convert_ops.convert_readout_noise"] = lambda a, k, st: P("RN")
        CM = mk("list", (P("C0"), P("C1")))
        p.heap[(P("RN"), "confusion_matrix")] = CM
        for m in (".numpy", ".detach"):
            p.I.models[m] = lambda a, k, st: a[0]
        p.facts += [(mk("isnone", P("RN")), False)]
        p.I.models[".numel"] = lambda a, k, st: const(8) if a[0] is CM else None
        return p

    def smp():
        return "[" + ", ".join("Counter({" + ", ".join(f"'{b}': {c}" for b, c in zip(BITS, s)) + "})" for s in S) + "]"

    def inverse(m):
        n = len(m)
        a = [list(map(float, r)) + [float(i == j) for j in range(n)] for i, r in enumerate(m)]
        for i in range(n):
            k = max(range(i, n), key=lambda r: abs(a[r][i]))
            a[i], a[k] = a[k], a[i]
            a[i] = [x / a[i][i] for x in a[i]]
            for r in range(n):
                if r != i:
                    a[r] = [x - a[r][i] * y for x, y in zip(a[r], a[i])]
        return [r[n:] for r in a]

    T = kron2(C0, C1)
    TI = inverse(T)

    def hook(t, ev):
        if t.op == "call" and callee_name(t) in ("inv", "pinv"):
            m = ev(args_of(t)[0])
            if m.shape[0] == m.shape[1]:
                n = m.shape[0]
                x = inverse([[m.at((i, j)).const().real for j in range(n)] for i in range(n)])
                return Ten((n, n), [RF.c(v) for r in x for v in r])
        if t.op == "call" and callee_name(t) == "matrix_rank":
            return Ten.scalar(ev(args_of(t)[0]).shape[0])
        return None

    def mle():
        p = setup({})
        seen = []
        out = [[0.5, 0.2, 0.2, 0.1], [0.1, 0.0, 0.4, 0.5]]

        def solve(a, k, st):
            seen.append(a[0] if a else next(iter(k.values())))
            return P(f"PC{len(seen) - 1}")
        p.I.models["qadence.mitigations.readout.mle_solve"] = solve
        counted = []

        def renorm(a, k, st):
            counted.append(a[0] if a else k["corrected_counts"])
            return mk("list", tuple(const(round(100 * x)) for x in out[len(counted) - 1]))
        p.I.models["qadence.mitigations.readout.renormalize_counts"] = renorm
        p.I.models[".sum"] = lambda a, k, st: const(sum(cval(x) for x in a[0].a[0])) if a[0].op == "list" else None
        ev = Sym({**cm, **{P(f"PC{i}"): Ten((4,), [RF.c(x) for x in o]) for i, o in enumerate(out)}}, hook)
        p.I.oracle = lambda c, st: ev.truth(c)
        ret, st = one(p, f"readout(NoiseHandler(R1), Mitigations('readout', {{}}), {smp()})")
        if is_raise(ret) or len(seen) != 2:
            return ctx.ob("mitigate", "mle", None, f"{len(seen)} corrections seen; {show(ret, 4)}")
        for j in range(2):
            got = ev(seen[j])
            want = [sum(TI[i][k] * S[j][k] / 100 for k in range(4)) for i in range(4)]
            ok = len(got.d) == 4 and all(abs(x.const() - w) < 1e-9 for x, w in zip(got.d, want))
            ctx.ob("mitigate", f"mle: inverse applied to sample {j}", ok, "" if ok else f"is {[round(x.const().real, 4) for x in got.d]} instead of {[round(w, 4) for w in want]}", loc)
        for j, c in enumerate(counted):
            got = [x.const() for x in ev(c).d]
            ok = len(got) == 4 and all(abs(x - 100 * o) < 1e-6 for x, o in zip(got, out[j]))
            ctx.ob("mitigate", f"mle: corrected probabilities of sample {j} become counts", ok, f"{got}", loc)
        if ret.op in ("list", "tuple") and len(ret.a[0]) == 2 and all(x.op == "dict" for x in ret.a[0]):
            for j, d in enumerate(ret.a[0]):
                got = {value(k): ev(v).d[0].const().real for k, v in d.a[0]}
                want = {b: round(100 * o) for b, o in zip(BITS, out[j]) if o}
                ctx.ob("mitigate", f"mle: counts of sample {j}", got == want, f"{got} instead of {want}", loc)
        else:
            ctx.ob("mitigate", "mle: counts", None, show(ret, 5)[:300])
    ctx.guard("mitigate", "mle", mle)

    def constrained():
        p = setup({})
        seen = []

        def minimize(a, k, st):
            seen.append((list(a), dict(k)))
            return P("RES")
        p.I.models["scipy.optimize.minimize"] = minimize
        p.I.models["qadence.mitigations.readout.renormalize_counts"] = lambda a, k, st: (a[0] if a else k["corrected_counts"])
        ev = Sym({**cm, mk("attr", P("RES"), "x"): Ten((4,), [RF.c(0.25)] * 4)}, hook)
        p.I.oracle = lambda c, st: ev.truth(c)
        ret, st = one(p, f"readout(NoiseHandler(R1), Mitigations('readout', {{'optimization_type': ReadOutOptimization.CONSTRAINED}}), {smp()})")
        if len(seen) != 2 or any("args" not in k for _, k in seen):
            return ctx.ob("mitigate", "constrained", None, f"{len(seen)} minimisations seen")
        for j, (a, k) in enumerate(seen):
            ar = k["args"].a[0]
            got, praw = ev(ar[0]), ev(ar[1])
            ok = got.shape == (4, 4) and all(abs(got.at((r, c)).const() - T[r][c]) < 1e-9 for r in range(4) for c in range(4)) and all(abs(x.const() - s / 100) < 1e-9 for x, s in zip(praw.d, S[j]))
            ctx.ob("mitigate", f"constrained: sample {j}", ok, "the minimised distance uses another confusion matrix or other samples", loc)
    ctx.guard("mitigate", "constrained", constrained)

    def distance():
        p = Probe(ctx, PRE + "from qadence.mitigations.readout import corrected_probas\n")
        ret, _ = one(p, "corrected_probas(PC, T, PR)", {x: P(x) for x in ("PC", "T", "PR")})
        c, r = [0.1, 0.2, 0.3, 0.4], [0.2, 0.3, 0.4, 0.1]

        def nh(t, ev):
            if t.op == "call" and callee_name(t) == "norm":
                v = ev(args_of(t)[0])
                return Ten.scalar(sum(abs(x.const())**2 for x in v.d) ** 0.5)
            return None
        got = Sym({P("PC"): Ten((4,), [RF.c(x) for x in c]), P("PR"): Ten((4,), [RF.c(x) for x in r]), P("T"): Ten((4, 4), [RF.c(x) for row in T for x in row])}, nh)(ret).d[0].const()
        want = sum((sum(T[i][k] * c[k] for k in range(4)) - r[i])**2 for i in range(4))
        ctx.ob("mitigate", "distance to the samples", abs(got - want) < 1e-9, f"{got} instead of {want}", loc)
    ctx.guard("mitigate", "distance", distance)

    def errors():
        p = Probe(ctx, PRE)
        for e in ("readout(NoiseHandler(D1, {'error_probability': 0.1}), Mitigations('readout', {}), [Counter({'0': 3, '1': 4})])", "Mitigations('nonsense').get_mitigation_fn()"):
            ret, _ = one(p, e)
            ctx.ob("mitigate", e, is_raise(ret), show(ret, 3), loc)
    ctx.guard("mitigate", "errors", errors)
