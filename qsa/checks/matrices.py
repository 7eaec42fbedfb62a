"""Constant folding of the gate tables and normal-form comparison of the symbolic matrix constructions with the gates' definitions.

Matrix literals are folded from the source and compared with the textbook gates; rotation, phase and evolution matrices are
compared as polynomials in cos/sin/exp of the parameter; controlled and swap gates are read back as operators
(permutations); the recursion over composite blocks is checked for product order, summation, scaling and option passing.
"""
from __future__ import annotations

from fractions import Fraction

from ..numfold import GATES, NoFold, close, fold
from ..util import *
from .algebra import ONE, UNIT, Den, NoDen, padd2, pmul2, unlist

M = "qadence.blocks.block_to_tensor."
JX = "qadence.backends.jax_utils."
O = "qadence.operations."
SHAPE = {"unsqueeze", "squeeze", "repeat", "to", "clone", "contiguous", "expand", "view", "reshape", "type", "detach", "expand_as"}
J = mk("imag")


def strip(t: T) -> T:
    while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in SHAPE:
        t = t.a[0].a[0]
    return t


def gate_atom(t: T):
    try:
        m = fold(t)
    except NoFold:
        return None
    except Exception:
        return None
    while isinstance(m, list) and len(m) == 1 and isinstance(m[0], list) and isinstance(m[0][0], list):
        m = m[0]
    for k, g in GATES.items():
        if close(m, g):
            return mk("gate", k)
    return None


def spoly(t: T) -> dict:
    """commutative polynomial with imaginary unit, gate-matrix atoms and canonical cos/sin/exp atoms"""
    t = strip(t)
    if is_const(t):
        v = cval(t)
        if isinstance(v, complex):
            p = {}
            if v.real:
                p[()] = Fraction(v.real)
            if v.imag:
                p = padd(p, {((J, 1),): Fraction(v.imag)})
            return p
        return poly(t)
    if t.op == "ite":
        # device/shape dispatch with equal content
        a, b = spoly(t.a[1]), spoly(t.a[2])
        if a == b:
            return a
    g = gate_atom(t)
    if g is not None:
        return {((g, 1),): Fraction(1)}
    try:
        v = fold(t)
        if not isinstance(v, list):
            return spoly(const(v))
    except Exception:
        pass
    if t.op == "bin":
        o, a, b = t.a
        if o in ("+", "-"):
            return red(padd(spoly(a), spoly(b), 1 if o == "+" else -1))
        if o == "*":
            return red(pmul(spoly(a), spoly(b)))
        if o == "/":
            pb = spoly(b)
            if len(pb) == 1 and () in pb:
                return pmul(spoly(a), {(): 1 / pb[()]})
    if t.op == "un" and t.a[0] == "-":
        return padd({}, spoly(t.a[1]), -1)
    if t.op == "call" and callee_name(t) in ("cos", "sin", "exp", "cosh", "sinh"):
        c = t.a[0]
        arg = c.a[0] if c.op == "attr" and c.a[0].op != "ext" and not t.a[1] else t.a[1][0][1] if t.a[1] else None
        if arg is not None:
            return {((mk("f", callee_name(t), pkey(spoly(arg))), 1),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def red(p):
    """J**2 = -1"""
    out = {}
    for m, c in p.items():
        d = dict(m)
        k = d.get(J, 0)
        if k >= 2:
            c = c * (-1) ** (k // 2)
            d[J] = k % 2
            m = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda q: q[0].n))
        out[m] = out.get(m, Fraction(0)) + c
        if out[m] == 0:
            del out[m]
    return out


def fpoly(name, arg):
    return {((mk("f", name, pkey(arg)), 1),): Fraction(1)}


def rot_expected(theta, gen):
    half = pmul(spoly(theta), {(): Fraction(1, 2)})
    i = {((mk("gate", "I"), 1),): Fraction(1)}
    g = {((gen, 1),): Fraction(1)}
    return padd(pmul(fpoly("cos", half), i), pmul({((J, 1),): Fraction(1)}, pmul(fpoly("sin", half), g)), -1)


def known_atoms(p, extra=()):
    return all(x.op in ("gate", "f", "imag") or x in extra for m in p for x, _ in m)


def judge(ctx, rule, cons, got, want, loc, extra=(), what=""):
    if got == want:
        return ctx.ob(rule, cons, True, "", loc)
    if known_atoms(got, extra):
        return ctx.ob(rule, cons, False, f"{what}computes {pshow(got)} instead of {pshow(want)}", loc)
    return ctx.ob(rule, cons, None, f"cannot read {pshow(got)}", loc)


def pshow(p):
    def at(x):
        if x.op == "f":
            return f"{x.a[0]}(..)" if len(str(x.a[1])) > 200 else f"{x.a[0]}({'+'.join(str(Fraction(*c)) + '*' + '*'.join(at(y) for y, _ in m) for m, c in x.a[1])})"
        if x.op == "gate":
            return x.a[0]
        if x.op == "imag":
            return "i"
        return show(x, 3)
    return " + ".join(f"{float(c):g}*" + "*".join(at(x) for x, k in m for _ in range(max(k, 1))) for m, c in p.items())[:300] or "0"


def check(ctx):
    prog = ctx.prog
    ctx.rule("table", "every entry of the gate matrix tables is the matrix of the gate of that name", 11)
    ctx.rule("name", "each fixed gate class resolves to the table entry of its own matrix", 9)
    ctx.rule("rotation", "rotations are cos(t/2) I - i sin(t/2) G with the generator of the gate; phase and U gates follow their definition", 6)
    ctx.rule("evolution", "Hamiltonian evolution is exp(-i t H)", 1)
    ctx.rule("control", "a controlled gate is (1 - P) + P*U with P projecting every control qubit on |1>", 2)
    ctx.rule("swap", "SWAP/CSWAP decompositions permute basis states as the gates do", 2)
    ctx.rule("compose", "chains multiply in circuit order from the identity, sums add from zero, scaling multiplies once", 6)
    ctx.rule("projector", "the projector matrix has the ket as row index", 1)
    ctx.rule("pass", "the recursion passes the parameter values, qubit support and endianness on unchanged", 12)
    ctx.rule("place", "a gate's matrix is tensored with identities so that it acts on its own qubits, in the requested bit order", 20)
    ctx.rule("support", "an explicit qubit support is used as given; otherwise the full range or the block's own support, as requested", 6)
    ctx.rule("entry", "the public entry point evaluates the user's values and passes support, bit order and device on", 2)
    ctx.rule("params", "a gate's parameter values are looked up in the order of its own parameters, and different constants have different names", 2)
    ctx.assumptions.append("torch/jax primitives (kron, matmul, matrix_exp, trigonometry) have their documented meaning")

    for mod, tab in ((M[:-1], "OPERATIONS_DICT"), (JX[:-1], "MAT_DICT")):
        m = prog.modules.get(mod)
        if m is None:
            continue

        def one(m=m, tab=tab, mod=mod):
            I = ctx.interp()
            t = I.eval_module_expr(ast.parse(tab, mode="eval").body, m, ("x", mod, tab))
            if t.op != "dict":
                return ctx.ob("table", f"{short(mod)}.{tab}", None, "not a literal table")
            for k, v in t.a[0]:
                key = cval(k) if is_const(k) else k.a[1] if k.op == "enum" else None
                if k.op == "enum":
                    ev = I.enum_value(k)
                    key = cval(ev) if ev is not None and is_const(ev) else key
                cons = f"{short(mod)}.{tab}[{key}]"
                if key not in GATES:
                    ctx.ob("table", cons, None, "no reference matrix")
                    continue
                try:
                    got = fold(v)
                except NoFold as e:
                    ctx.ob("table", cons, None, f"not foldable: {e}")
                    continue
                while isinstance(got, list) and len(got) == 1:
                    got = got[0]
                ctx.ob("table", cons, close(got, GATES[key]), f"{key} is tabulated as {got}", m.relpath)
        ctx.guard("table", tab, one)

    emb = ctx.fn(M + "_block_to_tensor_embedded")
    op = tuple(M + x for x in ("_fill_identities", "_gate_parameters", "_parametric_matrix", "_controlled_block_with_params"))
    if emb is not None:
        for g in GATES:
            c = prog.cls(O + g)
            if c is None:
                continue
            def one(c=c, g=g):
                I = ctx.interp(opaque=op)
                I.exact[P("block")] = c
                ret, _ = I.run(emb)
                bad, n, und = None, 0, None
                for leaf, gd in leaves(ret):
                    if is_raise(leaf):
                        bad = bad or (f"has no matrix: {show(leaf, 3)[:120]}" if not gd else None)
                        continue
                    if not (leaf.op == "call" and callee_name(leaf) == "_fill_identities"):
                        und = show(leaf, 3)
                        continue
                    a = args_of(leaf)
                    bm = a.get("block_mat")
                    n += 1
                    if contains(bm, mk("attr", P("block"), "ket")):
                        continue  # projector matrix, see rule 'projector'
                    at = gate_atom(strip(bm))
                    if at is None:
                        und = show(bm, 3)
                    elif at.a[0] != g:
                        bad = f"uses the matrix of {at.a[0]}"
                    if a.get("qubit_support") is None or not contains(a["qubit_support"], P("block")):
                        bad = "the matrix is not placed on the gate's qubits"
                ctx.ob("name", g, False if bad else None if und or not n else True, bad or und or "", c.loc)
            ctx.guard("name", g, one)

    # --- parametric matrices
    f = ctx.fn(M + "_rot_matrices")
    if f is not None:
        def one():
            ret, _ = ctx.interp().run(f)
            th, ge = P(f.params[0]), P(f.params[1])
            judge(ctx, "rotation", "_rot_matrices", spoly(ret), rot_expected(th, ge), f.loc, (th, ge))
        ctx.guard("rotation", "_rot_matrices", one)
    f = ctx.fn(M + "_phase_matrix")
    if f is not None:
        def one():
            ret, _ = ctx.interp().run(f)
            th = P(f.params[0])
            e = fpoly("exp", pmul({((J, 1),): Fraction(1)}, spoly(th)))
            gi, gz = {((mk("gate", "I"), 1),): Fraction(1, 2)}, {((mk("gate", "Z"), 1),): Fraction(1, 2)}
            gn = {((mk("gate", "N"), 1),): Fraction(1)}
            want = padd(padd(gi, gz), pmul(e, padd(gi, gz, -1)))
            got = expand_n(spoly(ret))
            judge(ctx, "rotation", "_phase_matrix", got, want, f.loc, (th,))
        ctx.guard("rotation", "_phase_matrix", one)
    f = ctx.fn(M + "_u_matrix")
    if f is not None:
        def one():
            ret, _ = ctx.interp().run(f)
            fs = factors(ret)
            th = P(f.params[0])
            want = [(2, "Z"), (1, "Y"), (0, "Z")]
            if len(fs) != 3:
                return ctx.ob("rotation", "_u_matrix", None, f"{len(fs)} factors", f.loc)
            bad = und = None
            for x, (i, g) in zip(fs, want):
                t = mk("sub", th, const(i))
                got, w = spoly(x), rot_expected(t, mk("gate", g))
                if got != w:
                    if known_atoms(got, (t, th, *[mk("sub", th, const(k)) for k in range(3)])):
                        bad = f"factor {pshow(got)} where {pshow(w)} is expected"
                    else:
                        und = pshow(got)
            ctx.ob("rotation", "_u_matrix", False if bad else None if und else True, bad or und or "", f.loc)
        ctx.guard("rotation", "_u_matrix", one)
    f = ctx.fn(M + "_parametric_matrix")
    if f is not None:
        for name, gen in (("RX", "X"), ("RY", "Y"), ("RZ", "Z"), ("PHASE", None), ("U", None)):
            c = prog.cls(O + name)
            if c is None:
                continue
            def one(c=c, name=name, gen=gen):
                I = ctx.interp(opaque=tuple(M + x for x in ("_rot_matrices", "_u_matrix", "_phase_matrix", "_gate_parameters")))
                gate = mk("new", c.qual, (("noise", NONE), ("parameter", P("p")), ("target", P("q")))) if name != "U" else mk("new", c.qual, (("phi", P("a")), ("theta", P("b")), ("omega", P("c")), ("target", P("q"))))
                ret, _ = I.run(f, bindings={f.params[0]: gate})
                bad, n, und = None, 0, None
                for leaf, g in leaves(ret):
                    if is_raise(leaf):
                        bad = "raises"
                        continue
                    n += 1
                    leaf = strip(leaf)
                    nm = callee_name(leaf) if leaf.op == "call" else ""
                    a = args_of(leaf) if leaf.op == "call" else {}
                    want = "_rot_matrices" if gen else "_phase_matrix" if name == "PHASE" else "_u_matrix"
                    if nm != want:
                        if nm in ("_rot_matrices", "_phase_matrix", "_u_matrix"):
                            bad = f"{name} uses {nm}"
                        else:
                            und = show(leaf, 3)
                        continue
                    if gen:
                        at = gate_atom(strip(a.get("generator", NONE)))
                        if at is None:
                            und = f"generator {show(a.get('generator', NONE), 3)[:100]}"
                        elif at.a[0] != gen:
                            bad = f"{name} rotates about {at.a[0]}"
                    th = a.get("theta")
                    if th is None or not any(callee_name(x) == "_gate_parameters" for x in calls(th)):
                        bad = bad or "the angle is not the gate's parameter"
                ctx.ob("rotation", f"_parametric_matrix({name})", False if bad else None if und or not n else True, bad or und or "", f.loc)
            ctx.guard("rotation", name, one)

    # --- composition
    for fn, opq, opts in ((M + "_block_to_tensor_embedded", op, ("values", "qubit_support", "endianness", "device")),
                          (M + "block_to_diagonal", op, ("values", "qubit_support", "endianness", "device")),
                          (JX + "block_to_jax", (JX + "_fill_identities", M + "_gate_parameters", "qadence.blocks.embedding.embedding"), ("values", "qubit_support", "endianness"))):
        f = ctx.fn(fn)
        if f is None:
            continue
        rec = fn.split(".")[-1]
        for cn in ("qadence.blocks.composite.ChainBlock", "qadence.blocks.composite.KronBlock", "qadence.blocks.composite.AddBlock", "qadence.blocks.primitive.ScaleBlock",
                   O + "HamEvo", O + "CNOT", O + "CRX", O + "Toffoli", O + "SWAP", O + "CSWAP", O + "X", O + "RX", O + "Projector", "qadence.blocks.matrix.MatrixBlock"):
            c = prog.cls(cn)
            if c is None or (rec != "_block_to_tensor_embedded" and c.name in ("HamEvo", "CNOT", "CRX", "Toffoli", "SWAP", "CSWAP", "RX", "MatrixBlock", "Projector")) or (rec == "block_to_diagonal" and c.name == "X"):
                continue
            cons = f"{rec}({c.name})"

            def one(f=f, c=c, rec=rec, opq=opq, opts=opts, cons=cons):
                I = ctx.interp(opaque=opq)
                I.exact[P("block")] = c
                ret, _ = I.run(f)
                for leaf, g in leaves(ret):
                    if is_raise(leaf):
                        continue
                    passing(ctx, cons, leaf, rec, opts, f)
                    leaf = strip(leaf)
                    if c.name in ("ChainBlock", "KronBlock", "AddBlock"):
                        compose(ctx, cons, c.name, leaf, rec, f)
                    elif c.name == "ScaleBlock":
                        p = spoly_scale(leaf, rec)
                        ctx.ob("compose", cons, p, "" if p else f"builds {show(leaf, 3)[:200]}", f.loc)
                    elif c.name in ("SWAP", "CSWAP"):
                        perm(ctx, c.name, leaf, f)
                    elif c.name == "HamEvo":
                        evo(ctx, cons, leaf, f)
                    elif c.name == "Projector":
                        proj(ctx, cons, leaf, f)
            ctx.guard("compose", cons, one)

    f = ctx.fn(M + "_controlled_block_with_params")
    if f is not None:
        for n in ("CNOT", "CRX", "Toffoli", "MCRZ"):
            c = prog.cls(O + n)
            if c is None:
                continue
            cons = f"_controlled_block_with_params({n})"
            def one(c=c, cons=cons):
                I = ctx.interp(opaque=("qadence.blocks.utils.uuid_to_expression",))
                I.exact[P("block")] = c
                ret, _ = I.run(f)
                for leaf, g in leaves(ret):
                    if is_raise(leaf):
                        continue
                    blk = leaf.a[0][0] if leaf.op == "tuple" else leaf
                    control(ctx, cons, blk, f)
            ctx.guard("control", cons, one)


    placing(ctx)
    entry(ctx)


def kron_word(t, bm):
    """['I','B',...] factors of a Kronecker product, None when something else appears"""
    t = strip(t)
    if t.op == "call" and callee_name(t) == "kron" and len(t.a[1]) == 2:
        a, b = kron_word(t.a[1][0][1], bm), kron_word(t.a[1][1][1], bm)
        return None if a is None or b is None else a + b
    if t.op == "call" and callee_name(t) in ("diag", "diagonal") and t.a[1]:
        return kron_word(t.a[1][0][1], bm)
    if t is bm:
        return ["B"]
    at = gate_atom(t)
    return ["I"] if at is mk("gate", "I") else None


def placing(ctx):
    tup = lambda a: mk("tuple", tuple(const(x) for x in a))
    cases = [((0,), (0, 1, 2)), ((1,), (0, 1, 2)), ((2,), (0, 1, 2)), ((1,), (1,)), ((3,), (1, 3)), ((1,), (1, 3)), ((5,), (0, 2, 5, 7)), ((0, 1), (0, 1, 2)), ((1, 2), (0, 1, 2, 3)), ((2, 3), (1, 2, 3))]
    for q, jx in ((M + "_fill_identities", False), (JX + "_fill_identities", True)):
        f = ctx.fn(q)
        if f is None:
            continue
        for sup, full in cases:
            for e in ("BIG",) if jx else ("BIG", "LITTLE"):
                for dg in (False,) if jx or len(sup) > 1 else (False, True):
                    cons = f"{short(q)}({sup} in {full}, {e}{', diagonal' if dg else ''})"

                    def one(f=f, sup=sup, full=full, e=e, dg=dg, cons=cons):
                        I = ctx.interp()
                        bm = P("block_mat")
                        ret, _ = I.run(f, bindings={"qubit_support": tup(sup), "full_qubit_support": tup(full), "endianness": mk("enum", "qadence.types.Endianness", e), "diag_only": const(dg)})
                        want = [] 
                        for i in full:
                            if i == sup[0]:
                                want.append("B")
                            elif i not in sup:
                                want.append("I")
                        if e == "LITTLE":
                            want.reverse()
                        bad = und = None
                        for leaf, g in leaves(ret):
                            if is_raise(leaf):
                                continue
                            w = kron_word(leaf, bm)
                            if w is None:
                                und = show(leaf, 4)[:150]
                            elif w != want:
                                bad = f"builds {' (x) '.join(w)} instead of {' (x) '.join(want)}"
                        ctx.ob("place", cons, False if bad else None if und else True, bad or und or "", f.loc)
                    ctx.guard("place", cons, one)


def entry(ctx):
    prog = ctx.prog
    for q, cn, gen in ((M + "_block_to_tensor_embedded", O + "X", "_fill_identities"), (M + "block_to_diagonal", O + "Z", "_fill_identities"), (JX + "block_to_jax", O + "X", "_fill_identities")):
        f = ctx.fn(q)
        c = prog.cls(cn)
        if f is None or c is None:
            continue
        for nm, facts in (("given", given("qubit_support")), ("full", absent("qubit_support") + [(mk("truthy", P("use_full_support")), True)]), ("own", absent("qubit_support") + [(mk("truthy", P("use_full_support")), False)])):
            cons = f"{short(q)}:{nm}"

            def one(f=f, c=c, nm=nm, facts=facts, cons=cons):
                I = ctx.interp(opaque=(M + "_fill_identities", JX + "_fill_identities", "qadence.blocks.embedding.embedding"))
                I.exact[P("block")] = c
                ret, _ = I.run(f, facts=facts)
                bad, n = None, 0
                for leaf, g in leaves(ret):
                    for x in calls(leaf):
                        if callee_name(x) != gen:
                            continue
                        n += 1
                        fs = args_of(x).get("full_qubit_support", NONE)
                        nq, own = any(y.op == "attr" and y.a[1] == "n_qubits" and y.a[0] is P("block") or (y.op == "call" and callee_name(y) == "max") for y in walk(fs)), contains(fs, mk("attr", P("block"), "_qubit_support"))
                        rng = any(callee_name(y) == "range" for y in calls(fs))
                        ln = any(callee_name(y) == "len" for y in calls(fs))
                        if nm == "given":
                            ok = contains(fs, P("qubit_support")) and not own and not rng
                        elif nm == "full":
                            ok = rng and not contains(fs, P("qubit_support")) and (nq or not ln)
                        else:
                            ok = (own or not rng) and not rng and not contains(fs, P("qubit_support"))
                        if not ok:
                            bad = f"the matrix is built over {show(fs, 4)[:150]}"
                ctx.ob("support", cons, False if bad else None if not n else True, bad or "", f.loc)
            ctx.guard("support", cons, one)
    f = ctx.fn(M + "block_to_tensor")
    if f is not None:
        for tt, callee in (("DENSE", "_block_to_tensor_embedded"), ("SPARSEDIAGONAL", "block_to_diagonal")):
            def one(tt=tt, callee=callee):
                I = ctx.interp(opaque=(M + "_block_to_tensor_embedded", M + "block_to_diagonal", "qadence.blocks.embedding.embedding"))
                ret, _ = I.run(f, bindings={"tensor_type": mk("enum", "qadence.types.TensorType", tt)})
                bad, n = [], 0
                for leaf, g in leaves(ret):
                    if is_raise(leaf):
                        bad.append("raises")
                        continue
                    for x in calls(leaf):
                        if callee_name(x) != callee:
                            continue
                        n += 1
                        a = args_of(x)
                        if a.get("block") is not P("block"):
                            bad.append("converts another block")
                        for o in ("qubit_support", "use_full_support", "endianness", "device"):
                            if a.get(o) is not P(o):
                                if o not in a or not contains(a[o], P(o)):
                                    bad.append(f"{o} is not passed on")
                        v = a.get("values")
                        if v is None or not contains(v, P("values")):
                            bad.append("the user's parameter values do not reach the matrix")
                if not n and not bad:
                    return ctx.ob("entry", f"block_to_tensor[{tt}]", None, show(ret, 3)[:150], f.loc)
                ctx.ob("entry", f"block_to_tensor[{tt}]", not bad, "; ".join(sorted(set(bad))), f.loc)
            ctx.guard("entry", tt, one)
    f = ctx.fn("qadence.parameters.stringify")
    if f is not None:
        def one():
            I = ctx.interp(opaque=("qadence.parameters.sympy_to_numeric",))
            ret, _ = I.run(f, facts=[(mk("truthy", mk("attr", P("expr"), "is_number")), True)])
            bad, n = None, 0
            for leaf, g in leaves(ret):
                if is_raise(leaf) or any(cc.op == "isinst" and v for cc, v in g):
                    continue
                n += 1
                lossy = {callee_name(x) for x in calls(leaf)} & {"hash", "round", "int", "abs", "id", "type", "len", "format", "floor", "ceil"}
                if lossy:
                    bad = f"the parameter name of a constant goes through {sorted(lossy)}: different constants can share one name, and then one value"
                elif not contains(leaf, P("expr")):
                    bad = "the parameter name of a constant does not depend on its value"
            ctx.ob("params", "stringify", False if bad else None if not n else True, bad or "", f.loc)
        ctx.guard("params", "stringify", one)
    f = ctx.fn(M + "_gate_parameters")
    c = prog.cls(O + "U")
    if f is not None and c is not None:
        def one():
            I = ctx.interp()
            I.exact[P("b")] = c
            ret, _ = I.run(f)
            bad = [callee_name(x) for x in calls(ret) if callee_name(x) in ("sorted", "reversed", "set", "frozenset")] + ["set" for x in walk(ret) if x.op in ("set",) or (x.op == "map" and x.a[0] == "set")]
            src = any(x.op == "attr" and x.a[1] in ("uuids", "expressions", "items", "values", "keys", "uuid_dict", "expressions_dict", "_parameters") for x in walk(ret)) or contains(ret, mk("attr", P("b"), "parameters"))
            ctx.ob("params", "_gate_parameters", False if bad else True if src else None, f"parameter values are reordered by {bad}" if bad else show(ret, 3)[:100], f.loc)
        ctx.guard("params", "_gate_parameters", one)


def expand_n(p):
    """N = (I - Z)/2 as atoms"""
    out = {}
    gi, gz, gn = mk("gate", "I"), mk("gate", "Z"), mk("gate", "N")
    for m, c in p.items():
        if any(x is gn for x, _ in m):
            rest = tuple((x, k) for x, k in m if x is not gn)
            out = padd(out, pmul({rest: c}, {((gi, 1),): Fraction(1, 2), ((gz, 1),): Fraction(-1, 2)}))
        else:
            out = padd(out, {m: c})
    return out


def factors(t):
    t = strip(t)
    if t.op == "call" and callee_name(t) in ("matmul", "mm", "bmm"):
        a = [v for k, v in t.a[1]]
        if t.a[0].op == "attr" and t.a[0].a[0].op != "ext" and len(a) == 1:
            a = [t.a[0].a[0]] + a
        return factors(a[0]) + factors(a[1])
    if t.op == "bin" and t.a[0] == "@":
        return factors(t.a[1]) + factors(t.a[2])
    return [t]


def rec_calls(t, rec):
    return [x for x in calls(t) if callee_name(x) == rec]


def passing(ctx, cons, leaf, rec, opts, f):
    bad = []
    n = 0
    for x in calls(leaf):
        nm = callee_name(x)
        if nm not in (rec, "_fill_identities"):
            continue
        n += 1
        a = args_of(x)
        for o in opts:
            if nm == "_fill_identities" and o == "values":
                continue
            k = "full_qubit_support" if nm == "_fill_identities" and o == "qubit_support" else o
            if k not in a or not contains(a[k], P(o)):
                bad.append(f"{nm} is called without the caller's {o}" + (f" ({k}={show(a[k], 3)[:80]})" if k in a else ""))
    ctx.ob("pass", cons, None if n == 0 else not bad, "; ".join(sorted(set(bad)))[:300], f.loc)


def compose(ctx, cons, kind, leaf, rec, f):
    want = "sum" if kind == "AddBlock" else "prod"
    if leaf.op == "fold":
        o, init, body, coll, cond = leaf.a[0], leaf.a[1], leaf.a[2], leaf.a[3], leaf.a[4] if len(leaf.a) > 4 else TRUE
        if not rec_calls(body, rec):
            return ctx.ob("compose", cons, None, show(leaf, 3)[:200], f.loc)
        diag = rec == "block_to_diagonal"
        ok = o == ("+" if want == "sum" else "*") if (diag or want == "sum") else False
        why = "" if ok else f"blocks are combined with '{o}'"
        if cond is not TRUE:
            ok, why = False, "some blocks are skipped"
        bs = [args_of(x).get("block") for x in rec_calls(body, rec)]
        if len(bs) != 1 or bs[0].op != "elem":
            return ctx.ob("compose", cons, None, show(body, 3)[:150], f.loc)
        iw = init_kind(init)
        if iw is not None and iw != want:
            ok, why = False, f"the accumulation starts from {show(init, 3)[:80]}"
        return ctx.ob("compose", cons, ok, why, f.loc)
    if leaf.op == "loop":
        init, upd, coll = leaf.a[0], leaf.a[1], leaf.a[2]
        r = rec_calls(upd, rec)
        if len(r) != 1:
            return ctx.ob("compose", cons, None, show(upd, 3)[:150], f.loc)
        why = ""
        iw = init_kind(init)
        fs = factors(upd)
        if want == "prod":
            if len(fs) == 2 and strip(fs[0]).op != "prev" and strip(fs[1]).op == "prev":
                pass
            elif len(fs) == 2 and strip(fs[0]).op == "prev" and kind == "KronBlock":
                pass
            elif len(fs) == 2 and strip(fs[0]).op == "prev":
                why = "later gates multiply from the right (reversed circuit order)"
            elif upd.op == "bin" and upd.a[0] in ("+", "-", "*"):
                why = f"blocks are combined with '{upd.a[0]}' instead of a matrix product"
            else:
                return ctx.ob("compose", cons, None, show(upd, 3)[:150], f.loc)
        else:
            p = spoly(upd)
            cs = {x: c for m, c in p.items() for x, k in m}
            if any(c != 1 for c in p.values()) or len(p) != 2 or not any(x.op == "prev" for x in cs):
                if not any(x.op in ("prev",) for x in cs):
                    return ctx.ob("compose", cons, None, show(upd, 3)[:150], f.loc)
                why = f"terms are combined as {pshow(p)}"
        if iw is not None and iw != want:
            why = f"the accumulation starts from {show(init, 3)[:80]}"
        if args_of(r[0]).get("block", NONE).op != "elem":
            return ctx.ob("compose", cons, None, "unusual iteration", f.loc)
        el = args_of(r[0])["block"].a[0]
        if any(x.op == "call" and callee_name(x) == "reversed" or (x.op == "sub" and x.a[1] is mk("slice", NONE, NONE, const(-1))) for x in walk(el)) and kind == "ChainBlock":
            why = "the chain is iterated in reverse"
        return ctx.ob("compose", cons, not why, why, f.loc)
    ctx.ob("compose", cons, None, show(leaf, 3)[:150], f.loc)


def init_kind(t):
    """'prod' if built from identities/ones only, 'sum' if from zeros only"""
    kinds = set()
    for x in walk(t):
        if x.op == "call":
            n = callee_name(x)
            if n in ("eye", "identity", "ones"):
                kinds.add("prod")
            elif n in ("zeros", "zeros_like"):
                kinds.add("sum")
    for x in walk(t):
        if x.op == "call" and callee_name(x) == "zeros_like":
            return "sum"
    return kinds.pop() if len(kinds) == 1 else None


def spoly_scale(leaf, rec):
    p = spoly(leaf)
    if len(p) != 1:
        r = [x for m in p for x, k in m if x.op == "call" and callee_name(x) == rec]
        return False if r else None
    (m, c), = p.items()
    r = [k for x, k in m if x.op == "call" and callee_name(x) == rec]
    s = [k for x, k in m if not (x.op == "call" and callee_name(x) == rec)]
    if not r:
        return None
    blk = [args_of(x).get("block") for x, k in m if x.op == "call" and callee_name(x) == rec]
    return c == 1 and r == [1] and s == [1] and blk[0] is mk("attr", P("block"), "block")


def evo(ctx, cons, leaf, f):
    for x in walk(leaf):
        if x.op == "call" and callee_name(x) in ("matrix_exp", "expm"):
            p = spoly(x.a[1][0][1])
            if len(p) != 1:
                return ctx.ob("evolution", cons, None, pshow(p), f.loc)
            (m, c), = p.items()
            d = dict(m)
            ok = d.get(J) == 1 and c == -1 and len(m) == 3 and all(k == 1 for _, k in m)
            gen = any(contains(y, mk("attr", P("block"), "generator")) for y, _ in m)
            par = any(any(callee_name(z) == "_gate_parameters" for z in calls(y)) for y, _ in m)
            if not gen or not par:
                return ctx.ob("evolution", cons, None, pshow(p), f.loc)
            return ctx.ob("evolution", cons, ok, f"exponent {pshow(p)}", f.loc)


def proj(ctx, cons, leaf, f):
    ket, bra = mk("attr", P("block"), "ket"), mk("attr", P("block"), "bra")
    for x in walk(leaf):
        if x.op == "call" and callee_name(x) == "kron" and len(x.a[1]) == 2:
            a, b = x.a[1][0][1], x.a[1][1][1]
            tr = [y for y in (a, b) if any(z.op == "attr" and z.a[1] in ("T", "mT", "H", "mH") for z in walk(y))]
            if len(tr) != 1:
                return ctx.ob("projector", cons, None, show(x, 3), f.loc)
            # row vectors v, w: kron(v, w.T) has w as row index
            row = tr[0]
            return ctx.ob("projector", cons, contains(row, ket) and not contains(row, bra), "the matrix is |bra><ket| instead of |ket><bra|", f.loc)
        if x.op == "call" and callee_name(x) in ("outer", "ger") and len(x.a[1]) == 2:
            return ctx.ob("projector", cons, contains(x.a[1][0][1], ket), "the matrix is |bra><ket|", f.loc)


def qidx(t):
    t = unlist(t)
    if t.op == "sub" and is_const(t.a[1]) and t.a[0].op == "attr" and t.a[0].a[1] in ("_qubit_support", "qubit_support"):
        return cval(t.a[1])
    return None


def perm(ctx, name, leaf, f):
    cons = f"{name} decomposition"
    blk = next((args_of(x).get("block") for x in calls(leaf) if callee_name(x).startswith("_block_to_tensor")), None)
    if blk is None or blk.op != "new":
        return ctx.ob("swap", cons, None, show(leaf, 3)[:150], f.loc)
    gates = unlist(args_of(blk).get("blocks", NONE))
    if gates.op not in ("list", "tuple") or not blk.a[0].endswith("ChainBlock"):
        return ctx.ob("swap", cons, None, show(blk, 3)[:150], f.loc)
    seq = []
    nq = 2 if name == "SWAP" else 3
    for g in gates.a[0]:
        if g.op != "new":
            return ctx.ob("swap", cons, None, show(g, 3)[:150], f.loc)
        n = g.a[0].split(".")[-1]
        a = args_of(g)
        if n not in ("CNOT", "Toffoli"):
            return ctx.ob("swap", cons, None, n, f.loc)
        cs = a["control"].a[0] if a["control"].op in ("tuple", "list") else (a["control"],)
        cs = [qidx(x) for x in cs]
        t = qidx(a["target"])
        if t is None or None in cs:
            return ctx.ob("swap", cons, None, show(g, 4)[:150], f.loc)
        seq.append(([x % nq for x in cs], t % nq))
    bad = None
    for s in range(2 ** nq):
        bits = [(s >> (nq - 1 - i)) & 1 for i in range(nq)]
        out = list(bits)
        for cs, t in seq:
            if all(out[c] for c in cs):
                out[t] ^= 1
        want = [bits[1], bits[0]] if nq == 2 else ([bits[0], bits[2], bits[1]] if bits[0] else list(bits))
        if out != want:
            bad = f"basis state {bits} is mapped to {out} instead of {want}"
    ctx.ob("swap", cons, bad is None, bad or "", f.loc)


class CDen(Den):
    def items(self, t, ctx):
        t0 = unlist(t)
        if t0.op == "map":
            return [{(mk("projs", t0),): ONE}]
        return super().items(t, ctx)

    def isblock(self, t):
        return super().isblock(t) or (t.op == "sub" and t.a[0] is mk("attr", P("block"), "blocks"))

    def den(self, t):
        if t.op == "new" and t.a[0].split(".")[-1] in ("Projector", "N"):
            return {(t,): ONE}
        return super().den(t)


def control(ctx, cons, blk, f):
    D = CDen({P("block"): "CNOT"})
    try:
        got = D.den(blk)
    except (NoDen, KeyError) as e:
        return ctx.ob("control", cons, None, f"cannot read {show(blk, 4)[:200]}: {e}", f.loc)
    tgt = mk("sub", mk("attr", P("block"), "blocks"), const(0))
    ps = {x for m in got for x in m if x.op == "projs"}
    if len(ps) != 1:
        return ctx.ob("control", cons, None, f"{len(ps)} control projectors", f.loc)
    (p,) = ps
    want = padd2(padd2(UNIT, {(p,): {(): Fraction(-1)}}), {(p, tgt): ONE})
    alt = padd2(padd2(UNIT, {(p,): {(): Fraction(-1)}}), {(tgt, p): ONE})
    if got != want and got != alt:
        return ctx.ob("control", cons, False, f"builds {show(blk, 5)[:250]}", f.loc)
    mp = p.a[0]
    body, coll = mp.a[1], mp.a[2]
    bad = None
    if mp.a[3] is not TRUE:
        bad = "some controls are skipped"
    cs = unlist(coll)
    full = cs is mk("attr", P("block"), "control") or (cs.op == "sub" and cs.a[1].op == "slice" and cs.a[1].a[0] is NONE and is_const(cs.a[1].a[1]) and cval(cs.a[1].a[1]) == -1 and cs.a[1].a[2] in (NONE, const(1)))
    if not full:
        if cs.op == "sub" and cs.a[1].op == "slice":
            bad = f"the controls are taken as {show(cs, 4)}"
        else:
            return ctx.ob("control", cons, None, show(cs, 4), f.loc)
    if body.op == "new":
        a = args_of(body)
        if body.a[0].endswith("Projector"):
            k, b = a.get("ket"), a.get("bra")
            if k is not None and is_const(k) and (cval(k) != "1" or not is_const(b) or cval(b) != "1"):
                bad = f"the controls are projected on {show(k)}/{show(b)}"
    ctx.ob("control", cons, bad is None, bad or "", f.loc)
