"""Abstract evaluation of the circuit constructors: the blocks they build are read as matrices with generic values of the parameters and
compared with the documented circuits."""
from __future__ import annotations

from ..probe import *
from ..opnum import *  # noqa: after the general helpers
from ..numfold import GATES, controlled, rot
from .analog import PRE, mkprobe, one
from .hamilt import AL, det, pair, scaled

C = "qadence/constructors/"
PRE = PRE + """
import sympy
import torch
from qadence.blocks.utils import tag
from qadence.constructors import *
from qadence.constructors.ala import ala
from qadence.constructors.daqc import daqc_transform
from qadence.types import *

def cube(x):
    return x**3

def square_scaling(i):
    return (i + 1)**2 + 0.5

def twice(op, x):
    return chain(op(x), op(2 * x))
"""


def check(ctx):
    ctx.rule("featuremap", "feature_map puts one rotation by multiplier * scaling(i) * transform(w_i * scaled feature) on the i-th qubit of its support, with the feature mapped linearly from the feature to the target range", 40)
    ctx.rule("expfourier", "exp_fourier_feature_map is a Hadamard on every qubit followed by RZ rotations by 2^i times the feature scaled to [0, 2 pi]", 4)
    ctx.rule("hea", "hea alternates layers of the given rotations on the support with entanglers on even and odd pairs (or evolutions under the generator), every rotation with its own parameter", 20)
    ctx.rule("ala", "ala alternates rotations with entanglers inside blocks of m qubits, shifted by half a block in odd layers", 8)
    ctx.rule("iia", "identity initialized ansatze are the identity at the initial values of their parameters, and their parameters have distinct names", 10)
    ctx.rule("qft", "qft is the Fourier transform up to the documented order of the qubits, inverse its adjoint, digitally and with analog evolutions", 20)
    ctx.rule("daqc", "daqc_transform is the evolution under the target generator, up to a global phase if phases are ignored", 8)
    ctx.rule("rydberg", "rydberg feature maps and ansatze are the documented evolutions, with the given patterns, weights and distinct parameters", 12)
    ctx.rule("analogfm", "analog_feature_map is the analog rotation by multiplier * transform(scaled feature)", 6)
    ctx.rule("reject", "unknown strategies, operations, basis sets, scalings, supports and entanglers raise", 12)
    p = mkprobe(ctx, PRE)
    for r, f in (("featuremap", featuremap), ("expfourier", expfourier), ("hea", hea), ("ala", ala), ("iia", iia), ("qft", qft), ("daqc", daqc), ("rydberg", rydberg), ("analogfm", analogfm), ("reject", reject)):
        ctx.guard(r, "analysis", lambda f=f: f(ctx, p))


class Want:
    """expected circuit: gates in order of application"""

    def __init__(self, op, n):
        self.op, self.n, self.m, self.names = op, n, eye(n), []

    def f(self, x):
        if isinstance(x, str):
            self.names.append(x)
            return self.op.name(x)
        return complex(x)

    def gate(self, m, *q):
        self.m = smul(embed(m, q, self.n), self.m)

    def do(self, name, qs, *par):
        x = self.f(par[0]).real if par else 0.0
        if name in ("RX", "RY", "RZ"):
            m = rot(name[1], x)
        elif name == "PHASE":
            m = [[1, 0], [0, cmath.exp(1j * x)]]
        elif name in ("CRX", "CRY", "CRZ"):
            m = controlled(rot(name[2], x))
        elif name == "CPHASE":
            m = controlled([[1, 0], [0, cmath.exp(1j * x)]])
        elif name in ("CNOT", "CZ"):
            m = controlled(GATES["X" if name == "CNOT" else "Z"])
        elif name == "SWAP":
            m = SW
        else:
            m = GATES[name]
        self.gate(m, *qs)

    def evo(self, h, t):
        self.m = smul(expm(pmat(h, self.n), -1j * self.f(t)), self.m)


def close(a, b, tol=1e-8):
    return all(abs(x - y) < tol for r, s in zip(a, b) for x, y in zip(r, s))


def judge(ctx, rule, p, text, n, want, loc, phase=False, env=None, con=None):
    """compare the matrix of the block of `text` with the one `want` builds"""
    con = con or text
    try:
        t, op = one(p, text, env)
        if t.op == "raise":
            return ctx.ob(rule, con, False, f"raises {show(t, 3)[:150]}", loc)
        w = Want(op, n)
        want(w)
        got = op.mat(t, n)
    except (NoOp, IndexError, KeyError) as e:
        return ctx.ob(rule, con, None, f"{type(e).__name__} {e}"[:200])
    ok = same_up_to_phase(w.m, got) if phase else close(w.m, got)
    missing = [x for x in w.names if x not in op.names]
    ctx.ob(rule, con, ok, "" if ok else f"is another operation, e.g. {got[-1][-1]:.4g} instead of {w.m[-1][-1]:.4g} in the last entry" + (f"; {missing[:3]} do not occur" if missing else ""), loc)


# -------------------------------------------------------------------------------- feature maps
RANGES = {"BasisSet.FOURIER": (0.0, 2 * math.pi), "'Fourier'": (0.0, 2 * math.pi), "BasisSet.CHEBYSHEV": (-1.0, 1.0), "cube": (0.0, 1.0), "sympy.sin": (0.0, 1.0)}
TRANS = {"BasisSet.FOURIER": lambda x: x, "'Fourier'": lambda x: x, "BasisSet.CHEBYSHEV": cmath.acos, "cube": lambda x: x**3, "sympy.sin": cmath.sin}
SCALE = {"ReuploadScaling.CONSTANT": lambda i: 1, "ReuploadScaling.TOWER": lambda i: i + 1, "ReuploadScaling.EXP": lambda i: 2**i, "square_scaling": lambda i: (i + 1) ** 2 + 0.5, "'Tower'": lambda i: i + 1}


def featuremap(ctx, p):
    loc = C + "feature_maps.py"
    cases = []
    ops, bs, rs = ["RX", "RY", "RZ", "PHASE"], list(RANGES), list(SCALE)
    k = 0
    for b in bs:
        for r in rs:
            for extra in range(4):
                k += 1
                a = {"op": ops[k % 4], "fm_type": b, "reupload_scaling": r}
                fr = tr = None
                if extra == 1 or extra == 3:
                    fr = (-0.5, 1.5) if k % 2 else (0.2, 1.2)
                if extra == 2 or extra == 3:
                    tr = (0.1, 0.9) if k % 3 else (-0.3, 0.7)
                mult = [None, "0.7", "'m'", "Parameter('m') + 1"][(k // 2) % 4]
                pre = [None, "'w'"][(k // 3) % 2]
                sup = [(0, 1, 2), (2, 0), (1,)][k % 3]
                name = ["phi", "x"][k % 2]
                cases.append((a, fr, tr, mult, pre, sup, name))
    for a, fr, tr, mult, pre, sup, name in cases:
        args = [str(len(sup))] + ([f"support={sup}"] if sup != (0, 1, 2) else []) + ([f"param='{name}'"] if name == "x" else []) + [f"{k_}={v}" for k_, v in a.items()]
        args += [f"feature_range={fr}"] if fr else []
        args += [f"target_range={tr}"] if tr else []
        args += [f"multiplier={mult}"] if mult else []
        args += [f"param_prefix={pre}"] if pre else []
        text = f"feature_map({', '.join(args)})"

        def want(w, a=a, fr=fr, tr=tr, mult=mult, pre=pre, sup=sup, name=name):
            b = a["fm_type"]
            f, t = fr or RANGES[b], tr or RANGES[b]
            s = (t[1] - t[0]) / (f[1] - f[0])
            x = s * w.f(name) + t[0] - f[0] * s
            m = {None: lambda: 1, "0.7": lambda: 0.7, "'m'": lambda: w.f("m"), "Parameter('m') + 1": lambda: w.f("m") + 1}[mult]()
            for i, q in enumerate(sup):
                y = x * w.f(f"w_{i}") if pre else x
                w.do(a["op"], (q,), (m * SCALE[a["reupload_scaling"]](i) * TRANS[b](y)))
        # inside the domain of the transformations
        env = {name: 0.31, **{f"w_{i}": 0.8 - 0.21 * i for i in range(3)}}
        ctx.guard("featuremap", text, lambda: judge(ctx, "featuremap", p, text, 3, want, loc, env=env))

    def names():
        t, op = one(p, "[b.parameters.parameter for b in feature_map(3, param_prefix='w').blocks]")
        ns = [sorted(set(free_names(b))) for b in t.a[0]]
        ctx.ob("featuremap", "parameters of feature_map(3, param_prefix='w')", ns == [["phi", f"w_{i}"] for i in range(3)], f"are {ns}", loc)
        for text, want in (("feature_map(1, param='x')", {"x": False}), ("feature_map(1, param_prefix='w')", {"phi": False, "w_0": True}), ("feature_map(1, param=FeatureParameter('z'))", {"z": False}), ("exp_fourier_feature_map(1, param='y')", {"y": False})):
            t, op = one(p, text)
            got = {}

            def walk(x):
                if x.op == "new" and x.a[0] == PARAM:
                    v = [y for k_, y in x.a[1] if k_ != "#"]
                    if v and is_const(v[0]) and isinstance(cval(v[0]), str):
                        tr_ = args_of(x).get("trainable")
                        got[cval(v[0])] = cval(tr_) if tr_ is not None and is_const(tr_) else True if tr_ is None else None
                elif x.op in ("bin", "un"):
                    for y in x.a[1:]:
                        walk(y)
                elif x.op == "call":
                    for y in args_of(x).values():
                        walk(y)
            for g in op.gates(t):
                pm = op.heap.get((g, "parameters"))
                if pm is None:
                    continue
                for k_, v in list(op.heap.items()):
                    if k_[0] is pm and isinstance(v, T):
                        walk(v)
                for v in args_of(pm).values() if pm.op == "new" else ():
                    walk(v)
            if not got:
                ctx.ob("featuremap", f"trainability of {text}", None, "parameters not found")
                continue
            ctx.ob("featuremap", f"trainability of {text}", None if None in got.values() else got == want, f"is {got} instead of {want}", loc)
    ctx.guard("featuremap", "parameter names", names)


def expfourier(ctx, p):
    loc = C + "feature_maps.py"
    for text, sup, name, fr in (("exp_fourier_feature_map(3)", (0, 1, 2), "x", (0, 8)), ("exp_fourier_feature_map(2, support=(2, 0), param='y')", (2, 0), "y", (0, 4)), ("exp_fourier_feature_map(2, feature_range=(-1.0, 3.0))", (0, 1), "x", (-1, 3)), ("exp_fourier_feature_map(1, support=(1,), param='t', feature_range=(0.0, 5.0))", (1,), "t", (0, 5))):
        def want(w):
            for q in sup:
                w.do("H", (q,))
            s = 2 * math.pi / (fr[1] - fr[0])
            for i, q in enumerate(sup):
                w.do("RZ", (q,), 2**i * (s * w.f(name) - fr[0] * s))
        ctx.guard("expfourier", text, lambda: judge(ctx, "expfourier", p, text, 3, want, loc))


# -------------------------------------------------------------------------------- ansatze
def rotations(w, sup, ops, pre, c):
    for o in ops:
        for q in sup:
            w.do(o, (q,), f"{pre}_{c[0]}")
            c[0] += 1


def ent(w, o, a, b, name):
    if o in ("CNOT", "CZ"):
        w.do(o, (a, b))
    else:
        w.do(o, (a, b), name)


def hea(ctx, p):
    loc = C + "hea.py"
    cases = []
    k = 0
    for n, sup in ((2, (0, 1)), (3, (0, 1, 2)), (4, (0, 1, 2, 3)), (3, (3, 0, 2)), (2, (2, 1))):
        for depth in (1, 2, 3):
            for per in (False, True) if n % 2 == 0 and n > 2 else (False,):
                k += 1
                cases.append((n, sup, depth, per, [["RX", "RY", "RX"], ["RZ"], ["RY", "PHASE"]][k % 3], ["CNOT", "CZ", "CRX", "CRY", "CRZ", "CPHASE"][k % 6], [None, "a"][k % 2]))
    for n, sup, depth, per, ops, e, pre in cases:
        args = [str(n), str(depth)]
        args += [f"param_prefix='{pre}'"] if pre else []
        args += [f"support={sup}"] if sup != tuple(range(n)) else []
        args += [f"operations=[{', '.join(ops)}]"] if ops != ["RX", "RY", "RX"] else []
        args += [f"entangler={e}"] if e != "CNOT" else []
        args += ["periodic=True"] if per else []
        text = f"hea({', '.join(args)})"

        def want(w, n=n, sup=sup, depth=depth, per=per, ops=ops, e=e, pre=pre or "theta"):
            c, ce = [0], 0
            for d in range(depth):
                rotations(w, sup, ops, pre, c)
                prs = [(i, i + 1) for i in range(0, n - 1, 2)]
                prs += [(i, (i + 1) % n) for i in range(1, n if per else n - 1, 2)] if n > 2 else []
                for i, j in prs:
                    ent(w, e, sup[i], sup[j], f"{pre}_ent_{ce}")
                    ce += 1
        ctx.guard("hea", text, lambda: judge(ctx, "hea", p, text, 4 if max(sup) > 2 else 3, want, loc))
    for n, sup, depth, ops, g, pre in ((2, (0, 1), 1, None, None, None), (3, (0, 1, 2), 2, None, None, "b"), (2, (0, 1), 2, ["RY"], ("0.5 * X(0) @ Y(1) + Z(0)", lambda: padd({((0, "X"), (1, "Y")): 0.5}, {((0, "Z"),): 1.0})), None), (2, (0, 1), 3, ["RZ", "RX"], ("Parameter('j') * Z(0) @ Z(1)", None), "c")):
        args = [str(n), str(depth), "strategy=Strategy.SDAQC"] + ([f"param_prefix='{pre}'"] if pre else []) + ([f"operations=[{', '.join(ops)}]"] if ops else []) + ([f"entangler={g[0]}"] if g else [])
        text = f"hea({', '.join(args)})"

        def want(w, n=n, sup=sup, depth=depth, ops=ops or ["RX", "RY", "RX"], g=g, pre=pre or "theta"):
            h = {}
            if g is None:
                for i, j in AL(n):
                    h = padd(h, pair("NN", i, j))
            elif g[1] is None:
                h = {((0, "Z"), (1, "Z")): w.f("j")}
            else:
                h = g[1]()
            c = [0]
            for d in range(depth):
                rotations(w, sup, ops, pre, c)
                w.evo(h, f"{pre}_t_{d}")
        ctx.guard("hea", text, lambda: judge(ctx, "hea", p, text, n, want, loc))
    for text, n in (("hea(4, 3, entangler=CRX)", 4 * 3 * 3 + 3 * 3), ("hea(11, 2, operations=[RX, RY])", 44), ("hea(3, 4, entangler=CPHASE, operations=[RZ])", 12 + 8), ("hea(3, 3, strategy=Strategy.SDAQC)", 30)):
        distinct(ctx, "hea", p, text, n, loc)


def param_names(op, g):
    """free parameter names of a gate, including those of its generator"""
    out = set()

    def walk(x):
        x = op.pick(x)
        if x.op == "new" and x.a[0] == PARAM:
            v = [y for k, y in x.a[1] if k != "#"]
            if v and v[0].op == "const" and isinstance(cval(v[0]), str):
                out.add(cval(v[0]))
            elif v and not is_const(v[0]):
                walk(v[0])
        elif x.op in ("bin", "un"):
            for y in x.a[1:]:
                walk(y)
        elif x.op == "call":
            for y in args_of(x).values():
                walk(y)
        elif x.op == "new":
            pm = op.heap.get((x, "parameters"))
            if pm is not None and pm.op == "new":
                for v in args_of(pm).values():
                    for y in [y for _, y in v.a[0]] if v.op == "dict" else [v]:
                        if y.op == "const" and isinstance(cval(y), str):
                            out.add(cval(y))
                        else:
                            walk(y)
                for k in ("parameter", "alpha", "duration"):
                    v = op.heap.get((pm, k))
                    if v is not None:
                        walk(v)
            for k in ("generator", "block"):
                v = op.get(x, k)
                if v is not None and v.op == "new":
                    walk(v)
            bs = op.get(x, "blocks")
            if bs is not None and bs.op in ("list", "tuple"):
                for y in bs.a[0]:
                    walk(y)
    walk(g)
    return out


def distinct(ctx, rule, p, text, n, loc, want=None):
    con = f"parameters of {text}"

    def f():
        try:
            t, op = one(p, text)
            if t.op == "raise":
                return ctx.ob(rule, con, False, f"raises {show(t, 3)[:100]}", loc)
            ns = set()
            for g in op.gates(t):
                ns |= param_names(op, g)
        except NoOp as e:
            return ctx.ob(rule, con, None, str(e)[:150])
        if not ns and n:
            return ctx.ob(rule, con, None, "no names found")
        ok = len(ns) == n and (want is None or ns == want)
        ctx.ob(rule, con, ok, f"are {len(ns)} instead of {n}: {sorted(ns)[:6]}", loc)
    ctx.guard(rule, con, f)


def ala(ctx, p):
    loc = C + "ala.py"
    k = 0
    for n, m, depth, sup in ((4, 2, 1, None), (4, 2, 2, None), (3, 2, 3, None), (4, 4, 1, None), (4, 2, 4, (3, 1, 0, 2)), (3, 2, 2, (2, 0, 1)), (4, 2, 3, (1, 0, 3, 2)), (4, 3, 1, None), (2, 2, 1, (3, 1))):
        k += 1
        ops, e, pre = [["RX", "RY"], ["RZ"], ["RY", "PHASE", "RX"]][k % 3], ["CNOT", "CRX", "CZ", "CPHASE"][k % 4], [None, "a"][k % 2]
        args = [str(n), str(m), str(depth)] + ([f"param_prefix='{pre}'"] if pre else []) + ([f"support={sup}"] if sup else []) + ([f"operations=[{', '.join(ops)}]"] if ops != ["RX", "RY"] else []) + ([f"entangler={e}"] if e != "CNOT" else [])
        text = f"ala({', '.join(args)})"

        def want(w, n=n, m=m, depth=depth, sup=sup or tuple(range(n)), ops=ops, e=e, pre=pre or "theta"):
            c, ce = [0], 0
            for d in range(depth):
                rotations(w, sup, ops, pre, c)
                s = 0 if d % 2 == 0 else -(m // 2)
                for par in (0, 1):
                    for j in range(par, m - 1, 2):
                        for i in range(s, n, m):
                            if 0 <= i + j and i + j + 1 < n:
                                ent(w, e, sup[i + j], sup[i + j + 1], f"{pre}_ent_ent_{ce}")
                                ce += 1
        ctx.guard("ala", text, lambda: judge(ctx, "ala", p, text, 4, want, loc))
    for text, n in (("ala(4, 2, 3, entangler=CRX)", 4 * 2 * 3 + 2 + 1 + 2), ("ala(6, 4, 3, operations=[RZ])", 18), ("ala(12, 2, 12)", 288)):
        distinct(ctx, "ala", p, text, n, loc)


def iia(ctx, p):
    loc = C + "iia.py"
    for n, depth, args in ((2, 1, ""), (3, 1, ""), (3, 2, ", rotations=[RX, RY, RZ]"), (2, 2, ", entangler=CRX"), (3, 1, ", entangler=CZ, periodic=True"), (3, 2, ", entangler=CPHASE, periodic=True, rotations=[RZ]"), (2, 1, ", entangler=CRY, rotations=[RY, RX]"), (3, 1, ", entangler=CRZ"),
                           (2, 1, ", strategy=Strategy.SDAQC"), (3, 2, ", strategy=Strategy.SDAQC, rotations=[RZ, RX]"), (2, 1, ", strategy=Strategy.SDAQC, entangler=0.3 * X(0) @ Z(1) + Y(0)"), (1, 2, ", param_prefix='p'")):
        text = f"iia({n}, {depth}{args})"

        def f(text=text, n=n):
            try:
                t, op = one(p, text)
                if t.op == "raise":
                    return ctx.ob("iia", text, False, f"raises {show(t, 3)[:120]}", loc)
                env, clash = {}, []
                for g in op.gates(t):
                    for v in ([x for x in [op.heap.get((op.heap.get((g, "parameters")), "parameter"))] if x is not None] or list(args_of(op.heap[(g, "parameters")]).values()) if (g, "parameters") in op.heap else []):
                        v = op.pick(v)
                        if v.op == "new" and v.a[0] == PARAM:
                            a = args_of(v)
                            nm = a.get("name", a.get(0))
                            nm = nm if nm is not None else next(iter(a.values()))
                            val = a.get("value")
                            if not (is_const(nm) and isinstance(cval(nm), str)):
                                continue
                            if val is None:
                                raise NoOp(f"no initial value of {cval(nm)}")
                            z = op.num(val)
                            if cval(nm) in env and abs(env[cval(nm)] - z) > 1e-12:
                                clash.append(cval(nm))
                            env[cval(nm)] = z
                op2 = Op(p.prog, op.heap, {k: v for k, v in env.items()})
                m = op2.mat(t, n)
            except (NoOp, IndexError, KeyError) as e:
                return ctx.ob("iia", text, None, f"{type(e).__name__} {e}"[:200])
            unk = [x for x in op2.names if x not in env]
            ctx.ob("iia", text, not clash and close(m, eye(n)) if not unk else None, f"is not the identity at the initial values" if not clash else f"{clash[:3]} have two initial values", loc)
            # every layer has left rotations, centre rotations and right rotations which are independent
        ctx.guard("iia", text, f)
    for text, n in (("iia(3, 2)", 2 * (2 * 6 + 3)), ("iia(2, 3, entangler=CRX)", 3 * (2 * 4 + 2 + 1)), ("iia(3, 2, entangler=CRX, periodic=True, rotations=[RZ])", 2 * (2 * 3 + 3 + 3)), ("iia(2, 2, strategy=Strategy.SDAQC)", 2 * (2 * 4 + 2 + 1)), ("iia(11, 2, rotations=[RX])", 2 * 33)):
        distinct(ctx, "iia", p, text, n, loc)
    for text, want in (("iia(2, 1, entangler=CNOT, periodic=False)", ["RX", "RX", "RY", "RY", "CNOT", "RX", "RX", "CNOT", "RY", "RY", "RX", "RX"]), ("iia(3, 1, rotations=[RZ], entangler=CZ, periodic=True)", ["RZ"] * 3 + ["CZ"] * 3 + ["RX"] * 3 + ["CZ"] * 3 + ["RZ"] * 3)):
        def g(text=text, want=want):
            t, op = one(p, text)
            got = [op.cls(x).name for x in op.gates(t)]
            ctx.ob("iia", f"gates of {text}", got == want, f"are {got}", loc)
        ctx.guard("iia", text, g)


# -------------------------------------------------------------------------------- Fourier transforms
def bitrev(n):
    d = 2**n
    m = [[0j] * d for _ in range(d)]
    for i in range(d):
        m[int(format(i, f"0{n}b")[::-1], 2)][i] = 1 + 0j
    return m


def dft(n, inverse=False):
    d = 2**n
    s = -1 if inverse else 1
    return [[cmath.exp(s * 2j * math.pi * j * k / d) / math.sqrt(d) for k in range(d)] for j in range(d)]


def qft(ctx, p):
    loc = C + "qft.py"
    for n in (1, 2, 3, 4):
        for inv in (False, True):
            for rev in (False, True):
                for sw in (False, True):
                    for strat in ("", ", strategy=Strategy.SDAQC"):
                        if strat and (n not in (2, 3) or ctx.tier == "quick" and n == 3 and rev and sw):
                            continue
                        text = f"qft({n}, inverse={inv}, reverse_in={rev}, swaps_out={sw}{strat})"

                        def want(w, n=n, inv=inv, rev=rev, sw=sw):
                            F, R = dft(n, inv), bitrev(n)
                            q = F if sw else smul(F, R) if inv else smul(R, F)
                            w.m = smul(smul(R, q), R) if rev else q
                        ctx.guard("qft", text, lambda: judge(ctx, "qft", p, text, n, want, loc, phase=bool(strat)))
    for n, sup in ((2, (2, 0)), (3, (1, 2, 0)), (2, (0, 1))):
        text = f"qft({n}, support={sup}, swaps_out=True)"
        ctx.guard("qft", text, lambda: judge(ctx, "qft", p, text, 3, lambda w: w.gate(dft(n), *sup), loc))
    for g, n in (("0.5 * (N(0) @ N(1))", 2), ("0.5 * (N(0) @ N(1)) + 0.7 * (N(1) @ N(2)) + 0.2 * (N(0) @ N(2))", 3), ("hamiltonian_factory(3, interaction=Interaction.ZZ)", 3)):
        for inv in (False, True):
            text = f"qft({n}, strategy=Strategy.SDAQC, gen_build={g}, inverse={inv}, swaps_out=True)"

            def want(w, n=n, inv=inv):
                w.m = dft(n, inv)
            ctx.guard("qft", text, lambda: judge(ctx, "qft", p, text, n, want, loc, phase=True))


def daqc(ctx, p):
    loc = C + "daqc/daqc.py"

    def ham(terms):
        r = {}
        for c, l, i, j in terms:
            r = padd(r, scaled(pmulp(det(l, i), det(l, j)), c))
        return r

    def src(terms):
        return " + ".join(f"{c} * ({l}({i}) @ {l}({j}))" for c, l, i, j in terms)
    full = [(0.5, 0, 1), (0.7, 1, 2), (0.2, 0, 2)]
    for n, tgt, bld, t in ((3, [(0.1, "Z", 1, 2)], [(c, "N", i, j) for c, i, j in full], 2.0), (3, [(0.3, "Z", 0, 1), (-0.4, "Z", 0, 2)], [(c, "Z", i, j) for c, i, j in full], 1.3), (3, [(0.3, "N", 0, 1), (0.6, "N", 1, 2), (0.25, "N", 0, 2)], [(c, "N", i, j) for c, i, j in full], 0.9),
                           (3, [(0.3, "N", 0, 2), (0.6, "N", 1, 2)], [(c, "Z", i, j) for c, i, j in full], -0.7), (2, [(0.8, "Z", 0, 1)], [(1.0, "N", 0, 1)], 1.1), (2, [(0.8, "N", 0, 1)], None, 1.1), (3, [(0.5, "Z", 0, 1), (0.4, "Z", 2, 1)], None, 1.0), (2, [(0.8, "N", 1, 0)], [(0.4, "Z", 1, 0)], 0.6)):
        for ign in (False, True):
            text = f"daqc_transform({n}, {src(tgt)}, {t}" + (f", {src(bld)}" if bld else "") + (", ignore_global_phases=True" if ign else "") + ")"

            def want(w, tgt=tgt, t=t):
                w.evo(ham(tgt), t)
            ctx.guard("daqc", text, lambda: judge(ctx, "daqc", p, text, n, want, loc, phase=ign))
    for text, bad in (("daqc_transform(3, 0.1 * (Z(0) @ Z(1)), 1.0, 0.5 * (Z(1) @ Z(2)))", True), ("daqc_transform(3, 0.1 * (Z(0) @ Z(1)), 1.0, 0.5 * (Z(0) @ Z(1)) + 0.5 * (N(1) @ N(2)))", True), ("daqc_transform(3, 0.1 * (X(0) @ Z(1)), 1.0)", True), ("daqc_transform(3, 0.5 * Z(0), 1.0)", True), ("daqc_transform(3, H(0), 1.0)", True),
                      ("daqc_transform(4, Z(0) @ Z(1), 1.0)", True), ("daqc_transform(3, 0.1 * (Z(0) @ Z(1)), 1.0, strategy=Strategy.BDAQC)", True)):
        def f(text=text, bad=bad):
            ret, _ = p.expr(text)
            rj = p.rejects(ret)
            ctx.ob("daqc", text, None if rj is None else rj == bad, "is accepted", loc)
        ctx.guard("daqc", text, f)


# -------------------------------------------------------------------------------- Rydberg
def rydberg(ctx, p):
    loc = C + "rydberg_feature_maps.py"
    for n, args, ws, mx, nm in ((2, "", None, 20 * math.pi, "phi"), (3, ", param='x', max_abs_detuning=31.5", None, 31.5, "x"), (3, ", weights=[0.2, 0.5, 0.9]", [0.2, 0.5, 0.9], 20 * math.pi, "phi"), (1, ", weights=[2.0], max_abs_detuning=4.0", [2.0], 4.0, "phi")):
        for kind in ("map", "tower"):
            if kind == "tower" and "weights" in args:
                continue
            text = f"rydberg_{'tower_' if kind == 'tower' else ''}feature_map({n}{args})"

            def f(text=text, n=n, ws=ws, mx=mx, nm=nm, kind=kind):
                try:
                    t, op = one(p, text)
                    gs = op.gates(t)
                    bad = None if len(gs) == n else f"has {len(gs)} rotations"
                    w = [i + 1 for i in range(n)] if kind == "tower" else ws or [op.name(f"w_{nm}_{i}") for i in range(n)]
                    w = [complex(x).real for x in w]
                    td = mx / sum(w)
                    for i, g in enumerate(gs if bad is None else ()):
                        wa = {"duration": 1000 * op.name(nm).real / td, "delta": -td * w[i], "omega": 0.0, "phase": 0.0}
                        for k, v in wa.items():
                            x = op.param(g, k)
                            if abs(x - v) > 1e-9 * (1 + abs(v)):
                                bad = bad or f"{k} of rotation {i} is {x.real:.5g} instead of {v:.5g}"
                        if op.ints(op.get(g, "qubit_support")) != (i,):
                            bad = bad or f"rotation {i} acts on {op.ints(op.get(g, 'qubit_support'))}"
                except NoOp as e:
                    return ctx.ob("rydberg", text, None, str(e)[:150])
                ctx.ob("rydberg", text, bad is None, bad or "", loc)
            ctx.guard("rydberg", text, f)
    loc = C + "rydberg_hea.py"
    regs = (("Register.line(3)", 3, [(0, 1), (1, 2)]), ("Register.all_to_all(2)", 2, [(0, 1)]))
    for reg, n, edges in regs:
        for layers, dt, dr, ph, pre in ((1, True, False, False, None), (2, True, True, False, None), (1, False, False, False, None), (1, False, True, True, "k"), (2, True, False, True, None)):
            text = f"rydberg_hea({reg}, {layers}, addressable_detuning={dt}, addressable_drive={dr}, tunable_phase={ph}" + (f", additional_prefix='{pre}'" if pre else "") + ")"
            x = f"_{pre}" if pre else ""

            def want(w, n=n, edges=edges, layers=layers, dt=dt, dr=dr, ph=ph, x=x):
                hi = {}
                for i, j in edges:
                    hi = padd(hi, pair("NN", i, j))
                hx, hy, hd = {}, {}, {}
                for q in range(n):
                    c = w.f(f"drivemap{x}_{q}") if dr else 1.0
                    hx, hy = padd(hx, {((q, "X"),): c}), padd(hy, {((q, "Y"),): c})
                    hd = padd(hd, scaled(det("N", q), w.f(f"detmap{x}_{q}") if dt else 1.0))
                if ph:
                    a = w.f(f"phase{x}")
                    g = padd(padd(scaled(hx, cmath.cos(a)), scaled(hy, -cmath.sin(a))), hi)
                else:
                    g = padd(hx, hi)
                for d in range(layers):
                    w.evo(g, f"At{x}_{d}")
                    w.evo(hi, f"wait{x}_{d}")
                    w.evo(hd, f"Omega{x}_{d}")
            ctx.guard("rydberg", text, lambda: judge(ctx, "rydberg", p, text, n, want, loc))
    text = "rydberg_hea_layer(Register.line(2), 'a', 0.5, 'c', drive_scaling=2.5, drives=[0.3, 0.4], detunings=[0.1, 0.7])"

    def layer(w):
        hi = pair("NN", 0, 1)
        w.evo(padd({((0, "X"),): 0.75, ((1, "X"),): 1.0}, hi), "a")
        w.evo(hi, "c")
        w.evo(padd(scaled(det("N", 0), 0.1), scaled(det("N", 1), 0.7)), 0.5)
    ctx.guard("rydberg", text, lambda: judge(ctx, "rydberg", p, text, 2, layer, loc))
    distinct(ctx, "rydberg", p, "chain(rydberg_hea(Register.line(2), addressable_drive=True, tunable_phase=True, additional_prefix='a'), rydberg_hea(Register.line(2), addressable_drive=True, tunable_phase=True, additional_prefix='b'))", 16, loc)


def analogfm(ctx, p):
    loc = C + "rydberg_feature_maps.py"
    for args, name, ax, ang in (("", "phi", "AnalogRX", lambda x: x), ("'x', op=AnalogRY", "x", "AnalogRY", lambda x: x), ("'x', AnalogRZ, fm_type=BasisSet.CHEBYSHEV", "x", "AnalogRZ", lambda x: cmath.acos(x)), ("'x', fm_type=cube, multiplier=0.5", "x", "AnalogRX", lambda x: 0.5 * x**3),
                                ("'x', feature_range=(-1.0, 1.0)", "x", "AnalogRX", lambda x: math.pi * x + math.pi), ("'x', feature_range=(0.0, 2.0), target_range=(0.5, 1.5), multiplier='m'", "x", "AnalogRX", None)):
        text = f"analog_feature_map({args})"

        def f(text=text, name=name, ax=ax, ang=ang):
            try:
                t, op = one(p, text, {"x": 0.4, "phi": 0.7})
                a = op.param(t, "alpha")
                w = ang(op.name(name)) if ang else op.name("m") * (0.5 * op.name(name) + 0.5)
                d, om, de, ph = (op.param(t, k) for k in ("duration", "omega", "delta", "phase"))
            except NoOp as e:
                return ctx.ob("analogfm", text, None, str(e)[:150])
            exp = {"AnalogRX": (math.pi, 0, 0), "AnalogRY": (math.pi, 0, -math.pi / 2), "AnalogRZ": (0, math.pi, 0)}[ax]
            ok = abs(a - w) < 1e-9 and abs(d * math.pi / 1000 - w) < 1e-9 and all(abs(u - v) < 1e-9 for u, v in zip((om, de, ph), exp))
            ctx.ob("analogfm", text, ok, f"rotates by {a.real:.5g} for {d.real:.5g} with {om.real:.4g}, {de.real:.4g}, {ph.real:.4g} instead of by {complex(w).real:.5g}", loc)
        ctx.guard("analogfm", text, f)
    text = "analog_feature_map('x', AnalogRY, reupload_scaling=twice)"

    def g():
        t, op = one(p, text)
        gs = [op.param(x, "alpha") for x in op.gates(t)]
        ctx.ob("analogfm", text, len(gs) == 2 and abs(gs[0] - op.name("x")) < 1e-9 and abs(gs[1] - 2 * op.name("x")) < 1e-9, f"rotates by {gs}", loc)
    ctx.guard("analogfm", text, g)


def reject(ctx, p):
    for text, bad in (("feature_map(3, support=(0, 1))", True), ("feature_map(2, support=(0, 1, 2))", True), ("feature_map(2, op=H)", True), ("feature_map(2, op=CRX)", True), ("feature_map(2, fm_type='abc')", True), ("feature_map(2, reupload_scaling='abc')", True), ("feature_map(2, support=(3, 1))", False),
                      ("hea(2, 1, entangler=SWAP)", True), ("hea(2, 1, entangler=RX)", True), ("hea(2, 1, strategy=Strategy.BDAQC)", True), ("hea(2, 1, strategy=Strategy.ANALOG)", True), ("hea(2, 1, strategy='abc')", True), ("hea(2, 1, strategy=Strategy.SDAQC, entangler=H(0) @ Z(1))", True),
                      ("ala(4, 2, entangler=SWAP)", True), ("ala(4, 2, strategy=Strategy.SDAQC)", True), ("iia(2, entangler=SWAP)", True), ("iia(2, strategy=Strategy.ANALOG)", True), ("iia(2, strategy=Strategy.SDAQC, entangler=H(0) @ Z(1))", True),
                      ("qft(3, strategy=Strategy.BDAQC)", True), ("qft(3, strategy='abc')", True), ("qft(3, support=(0, 2, 1), strategy=Strategy.SDAQC)", True), ("qft(2, support=(0, 1, 2))", True), ("analog_feature_map('x', reupload_scaling=ReuploadScaling.TOWER)", True), ("analog_feature_map('x', fm_type='abc')", True),
                      ("rydberg_hea_layer(Register.line(2), 'a', 'b', 'c', drives=[0.1, 0.2, 0.3])", True)):
        def f(text=text, bad=bad):
            ret, _ = p.expr(text)
            rj = p.rejects(ret)
            ctx.ob("reject", text, None if rj is None else rj == bad, "is accepted" if not rj else f"raises {show(ret[0][0], 3)[:100]}", C)
        ctx.guard("reject", text, f)
