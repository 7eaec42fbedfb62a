"""Abstract evaluation of the Hamiltonian constructors: the operators they build are read as Pauli sums and compared with the documented formulas."""
from __future__ import annotations

from ..probe import *
from ..opnum import *  # noqa: after the general helpers
from .analog import PRE, mkprobe, one

HAM = "qadence/constructors/hamiltonians.py"
ML = "qadence/ml_tools/constructors.py"
PRE = PRE + """
import numpy as np
import torch
from qadence.constructors import *
from qadence.constructors.hamiltonians import interaction_zz, interaction_nn, interaction_xy, interaction_xyz, ising_hamiltonian, zz_hamiltonian, total_magnetization
from qadence.ml_tools.constructors import create_observable, observable_from_config
from qadence.blocks.block_to_tensor import block_to_tensor

def own(i, j):
    return X(i) @ Z(j)

def own3(i, j, k):
    return X(i) @ Z(j) @ Z(k)

def gate(i, j):
    return H(i) @ Z(j)
"""


def check(ctx):
    ctx.rule("factory", "hamiltonian_factory is the sum over the nodes of strength * detuning plus the sum over the edges (or all pairs) of strength * interaction, in the order of the register, with strength 1 by default, the given array, or parameters named prefix_i and prefix_ij", 50)
    ctx.rule("reject", "missing terms, arrays of the wrong length, other strength types, unknown interactions, detunings and custom interactions that are no Pauli operators raise", 8)
    ctx.rule("named", "total_magnetization, zz_hamiltonian and ising_hamiltonian are the sums of z_i Z_i, zz_ij Z_i Z_j and x_i X_i of their arguments", 8)
    ctx.rule("observable", "an observable configuration gives scale * Hamiltonian + shift, with trainable, feature or constant scale and shift", 8)
    p = mkprobe(ctx, PRE)
    for r, f in (("factory", factory), ("reject", reject), ("named", named), ("observable", observable)):
        ctx.guard(r, "analysis", lambda f=f: f(ctx, p))


def P1(l, q, c=1.0):
    return {((q, l),): complex(c)}


def det(l, q):
    return {(): 0.5 + 0j, ((q, "Z"),): -0.5 + 0j} if l == "N" else P1(l, q)


def pair(k, i, j):
    two = lambda l: pmulp(det(l, i), det(l, j))  # noqa: E731
    if k == "own":
        return pmulp(P1("X", i), P1("Z", j))
    r = {}
    for l in {"ZZ": "Z", "NN": "N", "XY": "XY", "XYZ": "XYZ"}[k]:
        r = padd(r, two(l))
    return r


def scaled(p, c):
    return {k: v * c for k, v in p.items()}


REGS = [("1", [0], [], []), ("2", [0, 1], [(0, 1)], [(0, 1)])]
REGS += [(str(n), list(range(n)), [(i, j) for i in range(n) for j in range(i + 1, n)], [(i, j) for i in range(n) for j in range(i + 1, n)]) for n in (3, 4, 5)]
AL = lambda n: [(i, j) for i in range(n) for j in range(i + 1, n)]  # noqa: E731
REGS += [("Register.line(4)", list(range(4)), [(0, 1), (1, 2), (2, 3)], AL(4)), ("Register.circle(4)", list(range(4)), None, AL(4)),
         ("Register.all_to_all(3)", list(range(3)), AL(3), AL(3)), ("Register.rectangular_lattice(2, 2)", list(range(4)), None, AL(4)), ("Register.from_coordinates([(0, 0), (1, 0), (2, 0)])", list(range(3)), [], AL(3))]
KINDS = {"ZZ": "Interaction.ZZ", "NN": "Interaction.NN", "XY": "Interaction.XY", "XYZ": "Interaction.XYZ", "own": "own"}


def strengths(n, form, base, prefix, labels):
    """source text of a strength argument and the values it stands for"""
    v = [round(base + 0.37 * k * (-1) ** k, 3) for k in range(n)]
    if form is None:
        return None, [1.0] * n
    if form in ("list", "zero") and n == 0:
        return "[]", []
    if form == "list":
        return repr(v), v
    if form == "numpy":
        return f"np.array({v!r})", v
    if form == "torch":
        return f"torch.tensor({v!r})", v
    if form == "zero" and n:
        v[0] = 0.0
        return repr(v), v
    if form == "params":
        return "[" + ", ".join(f"'{prefix}p{k}'" for k in range(n)) + "]", [f"{prefix}p{k}" for k in range(n)]
    return repr(prefix), [f"{prefix}_{x}" for x in labels]


def edges_of(p, reg):
    t, op = one(p, f"list({reg}.edges)")
    return [tuple(e) for e in value(t)]


def judge(ctx, rule, p, text, want, loc, con=None):
    con = con or text
    try:
        t, op = one(p, text)
        if t.op == "raise":
            return ctx.ob(rule, con, False, f"raises {show(t, 3)[:150]}", loc)
        got = op.pauli(t)
        w = want(op)
    except (NoOp, IndexError) as e:
        return ctx.ob(rule, con, None, str(e)[:200])
    ok = peq(got, w)
    ctx.ob(rule, con, ok, "" if ok else f"is {pstr(got)} instead of {pstr(w)}", loc)


def factory(ctx, p):
    forms = [None, "list", "numpy", "torch", "string", "params", "zero"]
    cases = []
    k = 0
    for reg, nodes, edges, pairs in REGS:
        if edges is None:
            edges = edges_of(p, reg)
        for kind in [None, *KINDS]:
            if len(nodes) == 1 and kind:
                continue
            for d in (None, "N", "X", "Y", "Z"):
                if kind is None and d is None:
                    continue
                k += 1
                # every register, interaction and detuning occurs with every form of the strengths; the full product is not needed, as the branches are independent
                if ctx.tier == "quick" and k % 3 and kind not in (None, "ZZ"):
                    continue
                cases.append((reg, nodes, edges, pairs, kind, d, forms[k % 7], forms[(k // 2 + 3) % 7], k % 4 == 1 and len(nodes) > 1))
    for reg, nodes, edges, pairs, kind, d, fi, fd, allp in cases:
        es = pairs if allp else edges
        st, sv = strengths(len(es), fi, 0.6, "g", [f"{i}{j}" for i, j in es])
        dt, dv = strengths(len(nodes), fd, -0.4, "d", nodes)
        args = [reg]
        if kind:
            args.append(f"interaction={KINDS[kind]}")
        if d:
            args.append(f"detuning={d}")
        if st and kind:
            args.append(f"interaction_strength={st}")
        if dt and d:
            args.append(f"detuning_strength={dt}")
        if allp:
            args.append("use_all_node_pairs=True")
        text = f"hamiltonian_factory({', '.join(args)})"

        def want(op, nodes=nodes, es=es, kind=kind, d=d, sv=sv, dv=dv):
            f = lambda x: op.name(x) if isinstance(x, str) else complex(x)  # noqa: E731
            r = {}
            for q, s in zip(nodes, dv) if d else ():
                r = padd(r, scaled(det(d, q), f(s)))
            for (i, j), s in zip(es, sv) if kind else ():
                r = padd(r, scaled(pair(kind, i, j), f(s)))
            return r
        ctx.guard("factory", text, lambda: judge(ctx, "factory", p, text, want, HAM))
    for k in ("zz", "nn", "xy", "xyz"):
        ctx.guard("factory", f"interaction_{k}", lambda: judge(ctx, "factory", p, f"interaction_{k}(3, 1)", lambda op: pair(k.upper(), 3, 1), HAM))

    # the parameters of a string strength are trainable and distinct
    def names():
        for text, n in (("hamiltonian_factory(4, interaction=Interaction.ZZ, interaction_strength='g')", 6), ("hamiltonian_factory(4, detuning=Z, detuning_strength='g')", 4), ("hamiltonian_factory(12, interaction=Interaction.ZZ, interaction_strength='g')", 66)):
            try:
                t, op = one(p, f"[b.parameters.parameter for b in {text}.blocks]")
                ns = [next(x for x in free_names(b)) for b in t.a[0]]
            except (NoOp, StopIteration, AttributeError, TypeError) as e:
                ctx.ob("factory", f"parameters of {text}", None, str(e)[:150])
                continue
            ctx.ob("factory", f"parameters of {text}", len(set(ns)) == n, f"has the {len(set(ns))} parameters {sorted(set(ns))[:8]}", HAM)
            tr = [x for b in t.a[0] for k, x in args_of(b).items() if k == "trainable"]
            bad = [x for x in tr if not is_const(x)]
            ctx.ob("factory", f"trainable parameters of {text}", None if bad else all(cval(x) is True for x in tr), f"{[show(x, 1) for x in tr][:3]}", HAM)
    ctx.guard("factory", "parameter names", names)



def reject(ctx, p):
    for text, bad in (("hamiltonian_factory(3)", True), ("hamiltonian_factory(3, detuning_strength='x')", True), ("hamiltonian_factory(3, detuning=Z, detuning_strength=[1.0, 2.0])", True), ("hamiltonian_factory(3, detuning=Z, detuning_strength=np.array([1.0, 2.0, 3.0, 4.0]))", True),
                      ("hamiltonian_factory(3, interaction=Interaction.ZZ, interaction_strength=[1.0, 2.0])", True), ("hamiltonian_factory(Register.line(3), interaction=Interaction.ZZ, interaction_strength=[1.0, 2.0, 3.0])", True), ("hamiltonian_factory(Register.line(3), interaction=Interaction.ZZ, interaction_strength=[1.0, 2.0])", False),
                      ("hamiltonian_factory(Register.line(3), interaction=Interaction.ZZ, interaction_strength=[1.0, 2.0, 3.0], use_all_node_pairs=True)", False), ("hamiltonian_factory(Register.line(3), interaction=Interaction.ZZ, interaction_strength=[1.0, 2.0], use_all_node_pairs=True)", True),
                      ("hamiltonian_factory(3, detuning=Z, detuning_strength=2.0)", True), ("hamiltonian_factory(3, interaction=Interaction.ZZ, interaction_strength=(1.0, 2.0, 3.0))", True), ("hamiltonian_factory(3, detuning=H)", True), ("hamiltonian_factory(3, detuning=RX)", True),
                      ("hamiltonian_factory(3, interaction='AB')", True), ("hamiltonian_factory(3, interaction=own3)", True), ("hamiltonian_factory(3, interaction=gate)", True), ("hamiltonian_factory(3, interaction=own)", False), ("ObservableConfig()", True), ("ObservableConfig(detuning=Z, trainable_transform=True)", True),
                      ("ObservableConfig(detuning=Z, scale='s', shift='t', trainable_transform=True)", False)):
        def f(text=text, bad=bad):
            ret, st = p.expr(text)
            rj = p.rejects(ret)
            ctx.ob("reject", text, None if rj is None else rj == bad, "is accepted" if not rj else f"raises {show(ret[0][0], 3)[:100]}", HAM)
        ctx.guard("reject", text, f)


def named(ctx, p):
    zz3 = "np.array([[0.0, 0.3, -0.2], [0.5, 0.0, 0.9], [0.1, 0.7, 0.0]])"
    up = {(0, 1): 0.3, (0, 2): -0.2, (1, 2): 0.9}
    z = [0.4, -1.1, 0.7]
    x = [1.3, 0.2, -0.6]

    def H3(zs=None, zzs=None, xs=None, zz=True):
        r = {}
        for q in range(3):
            if zs is not False:
                r = padd(r, P1("Z", q, zs[q] if zs else 1))
            if xs is not False:
                r = padd(r, P1("X", q, xs[q] if xs else 1))
        if zz:
            for i, j in AL(3):
                r = padd(r, {((i, "Z"), (j, "Z")): complex(zzs[(i, j)] if zzs else 1)})
        return r
    for text, w in (("total_magnetization(3)", H3(xs=False, zz=False)), (f"total_magnetization(3, {z})", H3(z, xs=False, zz=False)), (f"total_magnetization(3, z_terms=np.array({z}))", H3(z, xs=False, zz=False)),
                    ("zz_hamiltonian(3)", H3(xs=False)), (f"zz_hamiltonian(3, z_terms=np.array({z}))", H3(z, xs=False)), (f"zz_hamiltonian(3, zz_terms={zz3})", H3(None, up, False)), (f"zz_hamiltonian(3, z_terms={z}, zz_terms={zz3})", H3(z, up, False)),
                    ("ising_hamiltonian(3)", H3()), (f"ising_hamiltonian(3, x_terms=np.array({x}))", H3(xs=x)), (f"ising_hamiltonian(3, x_terms=np.array({x}), z_terms={z}, zz_terms={zz3})", H3(z, up, x)), (f"ising_hamiltonian(3, z_terms={z})", H3(z)), (f"ising_hamiltonian(3, zz_terms={zz3})", H3(None, up))):
        ctx.guard("named", text, lambda: judge(ctx, "named", p, text, lambda op: w, HAM))


def observable(ctx, p):
    tz = lambda: {((q, "Z"),): 1 + 0j for q in range(3)}  # noqa: E731
    zz = lambda: {((i, "Z"), (j, "Z")): 1 + 0j for i, j in AL(3)}  # noqa: E731
    own_ = lambda: {((i, "X"), (j, "Z")): 1 + 0j for i, j in AL(3)}  # noqa: E731
    for text, ham, s, t in (("ObservableConfig(detuning=Z)", tz, 1.0, 0.0), ("ObservableConfig(detuning=Z, scale=2.5, shift=-0.5)", tz, 2.5, -0.5), ("ObservableConfig(interaction=Interaction.ZZ, scale=0.3)", zz, 0.3, 0.0), ("ObservableConfig(interaction=own, shift=0.7)", own_, 1.0, 0.7),
                            ("ObservableConfig(detuning=Z, interaction=Interaction.ZZ, scale='s', shift='t', trainable_transform=True)", lambda: padd(tz(), zz()), "s", "t"), ("ObservableConfig(detuning=Z, scale='s', shift='t', trainable_transform=False)", tz, "s", "t"),
                            ("ObservableConfig(detuning=Z, scale=3.0, shift=VariationalParameter('t'))", tz, 3.0, "t"), ("total_magnetization_config(scale=2.0, shift=1.0)", tz, 2.0, 1.0), ("total_magnetization_config(scale='s', shift='t', trainable_transform=True)", tz, "s", "t"),
                            ("zz_hamiltonian_config(scale=2.0, shift=1.0)", lambda: padd(tz(), zz()), 2.0, 1.0), ("zz_hamiltonian_config(scale='s', shift='t', trainable_transform=False)", lambda: padd(tz(), zz()), "s", "t")):
        for reg in ("3", "Register(3)"):
            def want(op, ham=ham, s=s, t=t):
                f = lambda x: op.name(x) if isinstance(x, str) else complex(x)  # noqa: E731
                return padd(scaled(ham(), f(s)), {(): f(t)})
            tx = f"create_observable({reg}, {text})"
            ctx.guard("observable", tx, lambda: judge(ctx, "observable", p, tx, want, ML))
    for tt, text in ((True, "ObservableConfig(detuning=Z, scale='s', shift='t', trainable_transform=True)"), (False, "ObservableConfig(detuning=Z, scale='s', shift='t', trainable_transform=False)")):
        def f(tt=tt, text=text):
            t, op = one(p, f"[(c.scale, c.shift) for c in [{text}]][0]")
            v = tuple((list(free_names(x)), [value(y) for k, y in args_of(x).items() if k == "trainable"]) for x in t.a[0])
            ctx.ob("observable", f"parameters of {text}", v == ((["s"], [tt]), (["t"], [tt])), f"are {v}", HAM)
        ctx.guard("observable", text, f)
